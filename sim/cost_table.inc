// written by calibration on the reference tree (see DESIGN.md, C25)
    {"hash.begin", 28.8},
    {"hash.begin(cached)", 33.0},
    {"hash.begin(n)/end(n)", 17.3},
    {"hash.bucket", 4.7},
    {"hash.bucket_size", 7.0},
    {"hash.clear", 16.9},
    {"hash.clear(normal_link)", 7.0},
    {"hash.clone_from", 97.7},
    {"hash.count", 25.7},
    {"hash.empty(linear)", 6.0},
    {"hash.end/bucket_count", 11.3},
    {"hash.equal_range", 25.6},
    {"hash.erase(it)", 26.6},
    {"hash.erase(key)", 28.4},
    {"hash.erase(range)", 30.6},
    {"hash.find", 24.8},
    {"hash.full_rehash", 70.7},
    {"hash.incremental_rehash", 47.3},
    {"hash.incremental_rehash(array)", 15.6},
    {"hash.insert", 28.0},
    {"hash.insert(range)", 36.4},
    {"hash.insert_check", 18.9},
    {"hash.insert_commit", 12.3},
    {"hash.iterate", 26.9},
    {"hash.iterator_to", 24.3},
    {"hash.move", 8.7},
    {"hash.rehash", 49.6},
    {"hash.size(linear)", 8.0},
    {"hash.swap", 10.3},
    {"list.assign", 28.9},
    {"list.back", 1.7},
    {"list.begin/end/empty", 12.7},
    {"list.clear", 22.0},
    {"list.clear(normal_link)", 2.7},
    {"list.clone_from", 42.9},
    {"list.erase", 14.3},
    {"list.erase_range", 20.0},
    {"list.front", 1.7},
    {"list.insert", 9.7},
    {"list.iterate", 12.0},
    {"list.iterate(reverse)", 13.0},
    {"list.iterator_to", 7.0},
    {"list.merge", 53.3},
    {"list.move", 54.7},
    {"list.pop", 10.0},
    {"list.push_back", 8.0},
    {"list.push_front", 8.7},
    {"list.rbegin/rend", 8.3},
    {"list.remove_if", 40.1},
    {"list.reverse", 49.9},
    {"list.shift", 12.0},
    {"list.size(linear)", 7.0},
    {"list.sort", 68.4},
    {"list.splice(element)", 22.3},
    {"list.splice(list)", 25.7},
    {"list.splice(range)", 19.2},
    {"list.splice(range,n)", 19.0},
    {"list.swap", 94.0},
    {"list.unique", 54.9},
    {"sg.amortised", 89.1},
    {"slist.shift", 10.9},
    {"splay.amortised", 329.1},
    {"treap.bounded_range", 26.3},
    {"treap.count", 31.1},
    {"treap.equal_range", 25.4},
    {"treap.erase(it)", 110.4},
    {"treap.erase(key)", 76.9},
    {"treap.erase(range)", 69.1},
    {"treap.find", 17.9},
    {"treap.insert", 164.3},
    {"treap.insert(hint)", 126.1},
    {"treap.insert(range)", 96.3},
    {"treap.insert(sorted range)", 176.5},
    {"treap.insert_check", 28.5},
    {"treap.insert_commit", 68.5},
    {"treap.lower_bound", 18.9},
    {"treap.merge", 74.0},
    {"treap.positional insert", 127.3},
    {"treap.top", 6.7},
    {"treap.upper_bound", 18.3},
    {"tree.begin/end/empty", 11.7},
    {"tree.bounded_range", 24.3},
    {"tree.clear", 46.0},
    {"tree.clear(normal_link)", 4.7},
    {"tree.clone_from", 63.9},
    {"tree.compare", 102.9},
    {"tree.count", 26.1},
    {"tree.drain", 263.9},
    {"tree.equal_range", 22.8},
    {"tree.erase(it)", 52.0},
    {"tree.erase(key)", 292.8},
    {"tree.erase(range)", 296.6},
    {"tree.find", 14.2},
    {"tree.find after rebalance", 8.8},
    {"tree.front", 3.0},
    {"tree.insert", 45.5},
    {"tree.insert(hint)", 43.9},
    {"tree.insert(hint) run", 203.3},
    {"tree.insert(range)", 62.2},
    {"tree.insert(sorted range)", 203.4},
    {"tree.insert_check", 14.8},
    {"tree.insert_commit", 30.2},
    {"tree.iterate", 29.7},
    {"tree.iterate(reverse)", 47.9},
    {"tree.iterator_to", 6.3},
    {"tree.lower_bound", 13.8},
    {"tree.merge", 58.0},
    {"tree.move", 44.0},
    {"tree.positional insert", 35.6},
    {"tree.positional insert run", 191.3},
    {"tree.rbegin", 8.0},
    {"tree.rebalance", 53.9},
    {"tree.replace_node", 31.3},
    {"tree.size(linear)", 25.7},
    {"tree.swap", 74.7},
    {"tree.unlink_leftmost", 9.8},
    {"tree.upper_bound", 13.7},
