"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I='include/boost/intrusive/'
def P(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":[I+f for f in files],"mechanism":[{"name":n,"where":I+w} for n,w in mech],"observe_at":obs or [],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":I+w} for n,m,w in state]
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a}
TREES=['bstree.hpp','bstree_algorithms.hpp','rbtree_algorithms.hpp','avltree_algorithms.hpp','splaytree_algorithms.hpp','sgtree.hpp','treap.hpp','treap_algorithms.hpp']
L=[]
L.append(P("C01","Linked lists behave like sequences",
"After any sequence of operations on doubly and singly linked lists, every list holds exactly the elements the operations put into it, in the documented order, as seen through forward and (where offered) reverse iteration, size, front/back and the returned iterators. This holds for every hook kind, link mode, size policy, linear or circular layout and tail-caching option, and across several lists that exchange elements.",
["histories","configurations","inputs"],"every finite history of list operations, over every option combination and every number of elements",
"The tests run fixed scripts of a few operations on five elements; defects appear only for certain sequences (for example splicing the cached tail inside one list and then appending).",
['list.hpp','slist.hpp','circular_list_algorithms.hpp','circular_slist_algorithms.hpp','linear_slist_algorithms.hpp','detail/common_slist_algorithms.hpp'],
[("splice / transfer and size bookkeeping",'list.hpp'),("tail cache updates",'slist.hpp'),("node transfer primitives",'circular_list_algorithms.hpp')],
[("cached tail","last element of a list that keeps it","slist.hpp"),("size counter","number of elements with constant-time size","list.hpp")],["begin/end/rbegin","size","front/back","returned iterators"]))
L.append(P("C02","Ordered containers behave like sorted sets and multisets",
"After any history of operations, every ordered container (red-black, AVL, splay, scapegoat, treap, unbalanced) holds exactly the elements a sorted sequence model holds, in comparator order with equivalent elements in documented insertion order, and every lookup, bound, range, count, comparison and returned iterator agrees with that model. Unique containers never hold two equivalent elements and report the blocking element when an insertion is refused.",
["histories","configurations","inputs"],"every history of operations over every tree kind, hook kind, link mode, size policy, header and key options",
"The tests drive a handful of keys through fixed scripts; the relinking done by rotations, splaying, treap priorities and partial rebuilds depends on the whole history.",
['set.hpp','avl_set.hpp','splay_set.hpp','sg_set.hpp','treap_set.hpp','bs_set.hpp']+TREES,
[("insertion position search and linking",'bstree_algorithms.hpp'),("erase and rebalance",'rbtree_algorithms.hpp'),("splaying",'splaytree_algorithms.hpp')],
[("header node","root, leftmost and rightmost of a tree",'bstree_algorithms.hpp'),("size counter","number of elements",'bstree.hpp')],["iteration","find/lower_bound/upper_bound/equal_range/bounded_range/count","insert results"]))
L.append(P("C03","Hash containers behave like unordered sets and multisets",
"After any history of operations, every unordered container holds exactly the elements a set/multiset model holds: iteration, per-bucket iteration, lookups, counts, ranges, size and comparison agree with the model and equivalent elements are adjacent. This holds for every hash function, load factor and combination of the options for stored hashes, hash comparison, optimised multi-key grouping, cached begin, power-of-two, prime fast-modulo, linear, and incremental buckets.",
["histories","configurations","inputs"],"every history of operations, every hash distribution and every legal option combination",
"The tests use a few option sets with a handful of values and one hash distribution; group rings, the begin cache and sentinel buckets only go wrong for particular histories.",
['hashtable.hpp','unordered_set.hpp','unordered_set_hook.hpp','detail/hashtable_node.hpp'],
[("group rings of equivalent elements",'hashtable.hpp'),("cached begin bucket",'hashtable.hpp'),("sentinel bucket and bucket-carrying iterators",'detail/hashtable_node.hpp')],
[("cached begin","first used bucket",'hashtable.hpp'),("group links","ring over equivalent elements",'hashtable.hpp'),("stored hash","hash kept in the node",'unordered_set_hook.hpp')],["begin/end","begin(n)/end(n)/bucket_size","find/count/equal_range","operator=="]))
L.append(P("C04","Balanced trees keep their shape and logarithmic depth",
"After any history of insertions, removals, bulk operations, clones and swaps, a red-black tree has no red node with a red child and equal black depth on every path, an AVL tree has correct balance factors within one, a treap keeps its priorities in heap order, and a scapegoat tree respects its height limit; parent/child links are mutually consistent. The depth of a balanced tree of n elements therefore stays within the guaranteed logarithmic bound.",
["histories","inputs","configurations"],"every history and every tree size",
"Test suites check contents for a few dozen elements; a wrong colour or balance factor does not change contents and only shows as depth after long histories.",
['rbtree_algorithms.hpp','avltree_algorithms.hpp','treap_algorithms.hpp','sgtree_algorithms.hpp','bstree_algorithms.hpp','sgtree.hpp','rbtree.hpp'],
[("rebalance after insertion / erasure",'rbtree_algorithms.hpp'),("rotation and balance update",'avltree_algorithms.hpp'),("heap rotations",'treap_algorithms.hpp'),("partial rebuild",'bstree_algorithms.hpp')],
[("colour / balance","per node balance information",'rbtree_algorithms.hpp'),("max tree size and alpha","when a scapegoat tree is rebuilt",'sgtree.hpp')],["node links read through node traits"]))
L.append(P("C05","Rehashing and bucket replacement lose nothing",
"Any sequence of rehash (into a new or the same array, growing or shrinking), full rehash, step-wise incremental growth/shrink and incremental bucket-array replacement, interleaved with ordinary operations, keeps exactly the same elements reachable, reports the right bucket count and split position, and never touches an array once it has been given up nor memory behind the array in use. If the user's hash throws, the container stays usable: a step of incremental rehashing keeps every element, and no failed rehash leaves duplicates, foreign or half-linked elements.",
["histories","fault_sequences","configurations"],"every interleaving of rehash operations with other operations, every bucket count, every hash and every point at which the hash function throws",
"Tests rehash a few values once or twice without faults; the incremental protocol and the rollback code are history- and fault-dependent.",
['hashtable.hpp'],[("rehash with rollback",'hashtable.hpp'),("incremental split with rollback",'hashtable.hpp')],
[("split position","number of buckets in use while growing step by step",'hashtable.hpp'),("bucket array","user-provided array in use",'hashtable.hpp')],["bucket_count","split_count","bucket_pointer","iteration"]))
L.append(P("C06","A throwing functor leaves single-element operations without effect",
"If a user comparison, hash, equality or priority functor throws at any call during a lookup, a single insertion, an insertion check or an erasure of one position, the container's contents, order, size, shape invariants and hooks are exactly as before, and it keeps working afterwards. Operations that are given positions only (erase by iterator or range, clear, committing a prepared insertion) never call a throwing functor except where documented.",
["fault_sequences","histories","configurations"],"every call position at which a functor throws, in every state",
"The tests never make a functor throw.",
['bstree.hpp','treap.hpp','treap_algorithms.hpp','splaytree_algorithms.hpp','sgtree.hpp','hashtable.hpp'],
[("search before link",'bstree_algorithms.hpp'),("treap rotation check and rollback",'treap_algorithms.hpp'),("splay on lookup",'splaytree_algorithms.hpp')],None,["contents and structure after the exception"]))
L.append(P("C07","Cloning is exact or leaves nothing behind",
"Cloning a container first hands every old element of the destination to the disposer exactly once and then calls the cloner exactly once per source element, producing a destination equal in contents, order and functors with an unchanged source. If the cloner or a functor throws at any point, every clone made so far is unlinked and disposed exactly once, the destination is empty and usable, and the source is unchanged.",
["fault_sequences","histories","configurations"],"every source and destination state, every throw position, copying and moving sources",
"The tests clone one small container without faults.",
['bstree.hpp','bstree_algorithms.hpp','hashtable.hpp','list.hpp','slist.hpp','sgtree.hpp','treap.hpp'],
[("structural tree clone with rollback",'bstree_algorithms.hpp'),("hash clone, structural or by insertion",'hashtable.hpp')],None,["disposer and cloner call history","contents"]))
L.append(P("C08","Failing compound operations lose or duplicate nothing",
"When a functor throws inside a range insertion, range construction, merge, sort, removal by predicate, duplicate removal, key erasure or rehash, every element is in exactly one well-formed container or in none, sizes match contents, ordering invariants hold, and elements that left a container are reported unlinked (and disposed exactly once where a disposer was given).",
["fault_sequences","histories","configurations"],"every compound operation, every throw position",
"The tests never make a functor throw; these code paths are unexecuted there.",
['list.hpp','slist.hpp','bstree.hpp','hashtable.hpp','detail/exception_disposer.hpp'],
[("guards that unlink or dispose on failure",'detail/exception_disposer.hpp'),("merge and sort by splicing",'list.hpp')],None,["contents of all containers","is_linked of every element"]))
L.append(P("C09","Disposers run exactly once, on unlinked elements",
"Every operation that takes a disposer calls it exactly once for exactly the elements it removes and for no other, after each such element has been unlinked, so the disposer may destroy the element immediately. Elements removed without a disposer are left unlinked and untouched.",
["histories","configurations","inputs"],"every disposing operation in every state, with disposers that destroy the element at once",
"Tests count disposals in a few fixed scripts and do not destroy and reuse memory inside the disposer.",
['list.hpp','slist.hpp','bstree.hpp','hashtable.hpp','detail/node_cloner_disposer.hpp','bstree_algorithms.hpp'],
[("unlink before dispose",'detail/node_cloner_disposer.hpp'),("tree flattening on clear",'bstree_algorithms.hpp')],None,["disposer call history","poisoned memory of destroyed elements"]))
L.append(P("C10","Safe-mode hooks tell the truth and misuse is reported",
"With safe or auto-unlink hooks an element reports being linked exactly while it is in a container, after every operation including failed ones, clear, and destruction of the container; copying hooks never copies linkage. Inserting an element that is already linked, or destroying a safe-mode hook while linked, is reported through the safe-mode assertion, and correct programs never trigger it.",
["histories","configurations"],"every history, with misuse attempted at every point",
"Tests check is_linked at a few points and cannot trigger assertions.",
['detail/generic_hook.hpp','list.hpp','slist.hpp','bstree.hpp','hashtable.hpp','link_mode.hpp'],
[("init after unlink",'detail/generic_hook.hpp'),("safe-mode assertions on insertion",'bstree.hpp')],None,["is_linked","safe-mode assertion"]))
L.append(P("C11","Auto-unlink elements may vanish at any time",
"An element with an auto-unlink hook may be destroyed or unlinked through its hook at any point of any history and leaves its container immediately: the remaining elements keep their order and structure (including balance and hash grouping), iterators to them stay valid, and the container needs no notification.",
["histories","crash_points","configurations"],"every point at which an element disappears, every position in every container kind",
"Tests destroy elements at one fixed moment.",
['detail/generic_hook.hpp','circular_list_algorithms.hpp','bstree_algorithms.hpp','rbtree_algorithms.hpp','avltree_algorithms.hpp','unordered_set_hook.hpp'],
[("unlink without container",'bstree_algorithms.hpp'),("hook destructor",'detail/generic_hook.hpp')],None,["contents and structure after the element is gone"]))
L.append(P("C12","Iterators and references stay valid and exact",
"Every iterator keeps denoting its element, and advancing or retreating from it reaches the current neighbours, across all operations that do not remove that element, including insertions, rebalancing, splaying and transfers to another container of the same kind. Converting an element (or its const reference) to an iterator and converting between mutable and const iterators yields the same position; end iterators keep their meaning.",
["histories","configurations"],"every iterator taken at any time and used after any later history",
"Tests use an iterator immediately after obtaining it.",
['detail/tree_iterator.hpp','detail/list_iterator.hpp','detail/slist_iterator.hpp','detail/hashtable_node.hpp','list.hpp','bstree.hpp'],
[("iterator increments over node links",'detail/tree_iterator.hpp'),("bucket lookup on increment",'detail/hashtable_node.hpp')],None,["held iterators"]))
L.append(P("C13","Concurrent readers of one container are safe",
"Any number of threads may call const operations (iteration, lookups, bounds, counts, comparison, bucket inspection, element-to-iterator conversion) on the same container at the same time: under every interleaving each gets the same answer as when running alone, and no const operation modifies a container, a hook or a bucket.",
["schedules","histories","configurations"],"every interleaving of two or more readers over every container state",
"The test suite is single threaded.",
['bstree.hpp','splaytree.hpp','hashtable.hpp','list.hpp','slist.hpp','bstree_algorithms.hpp'],
[("const lookups without splaying",'splaytree.hpp'),("const traversal",'bstree_algorithms.hpp')],None,["results of readers","write-protected memory during reader batches"]))
L.append(P("C14","Containers built on relative pointers survive relocation",
"With a user-supplied self-relative pointer type, a memory block that holds containers, bucket arrays, iterators and elements can be moved as a whole to any other address at any point of any history, and everything in it keeps working: no absolute address is stored anywhere.",
["crash_points","histories","configurations"],"every relocation point in every history, every container kind that accepts such pointers",
"Tests use such pointers without ever moving the block.",
['pointer_traits.hpp','pointer_rebind.hpp','detail/hook_traits.hpp','list.hpp','bstree.hpp','hashtable.hpp','list_hook.hpp','set_hook.hpp','bs_set_hook.hpp'],
[("all links typed by the configured pointer",'detail/rbtree_node.hpp'),("pointer casts and pointer_to",'pointer_traits.hpp')],None,["contents after the block has been moved"]))
L.append(P("C15","One element in several containers: hooks are independent",
"An element that owns several hooks, told apart by tag, member position or type, can be in several containers at once, and any history of operations on one container never changes the contents, order, structure or linkage of any other. A hook that can serve any container kind works with each of them in turn.",
["histories","configurations"],"every interleaved history over containers of different kinds sharing the same elements",
"Tests put an element in at most two lists and check a fixed script.",
['any_hook.hpp','detail/any_node_and_algorithms.hpp','detail/generic_hook.hpp','detail/hook_traits.hpp','derivation_value_traits.hpp','member_value_traits.hpp','detail/parent_from_member.hpp'],
[("tagged base hooks",'detail/generic_hook.hpp'),("member offset conversions",'detail/parent_from_member.hpp'),("generic node",'detail/any_node_and_algorithms.hpp')],None,["contents of all containers"]))
L.append(P("C16","Swap, move and header conversion transfer everything",
"Swapping two containers or move-constructing/assigning one exchanges or transfers all elements, sizes, functors, caches and balance information in one step without touching the elements' order, for empty and non-empty containers in any combination; iterators to elements remain valid where documented. The moved-from container is empty or holds the other's elements as documented and is fully usable, and a container can be recovered from its end iterator or from any element's iterator.",
["histories","configurations"],"every pair of states, before and after every other operation",
"Tests swap two fixed containers once.",
['list.hpp','slist.hpp','bstree.hpp','bstree_algorithms.hpp','hashtable.hpp','sgtree.hpp','circular_list_algorithms.hpp'],
[("swap_tree relinking",'bstree_algorithms.hpp'),("swap of headers and tail caches",'slist.hpp')],None,["contents and structure after the exchange"]))
L.append(P("C17","Node-level surgery keeps containers well formed",
"Swapping two linked nodes (adjacent or not, in one or two containers, or with an unlinked one), replacing a node by another, unlinking a node directly, unlinking the first element without rebalancing and rebalancing a subtree or tree leave every container with exactly the expected sequence, consistent links, balance and cached ends. The node algorithms give the same results with node layouts supplied by the user.",
["histories","configurations"],"every pair of positions and relations (parent/child, neighbours, ends, different containers), every later history",
"Tests swap a few fixed nodes and do not continue from the result.",
['bstree_algorithms.hpp','circular_list_algorithms.hpp','circular_slist_algorithms.hpp','linear_slist_algorithms.hpp','rbtree_algorithms.hpp','avltree_algorithms.hpp','treap_algorithms.hpp','sgtree_algorithms.hpp','splaytree_algorithms.hpp'],
[("swap_nodes / replace_node",'bstree_algorithms.hpp'),("rebalance_subtree",'bstree_algorithms.hpp')],None,["contents, links and balance"]))
L.append(P("C18","Transfers between containers conserve elements",
"Splicing, merging and transferring elements between containers moves exactly the requested elements: each ends up in exactly one container at the documented place, unique containers leave equivalent elements behind in the source, and sizes, cached ends and ordering are right on both sides, whatever the overlap of positions or of contents.",
["histories","configurations","inputs"],"every pair of containers, positions and ranges, including empty, whole and self ranges",
"Tests splice and merge fixed five-element lists.",
['list.hpp','slist.hpp','bstree.hpp','set.hpp','bstree_algorithms.hpp'],
[("transfer_unique / transfer_equal",'bstree_algorithms.hpp'),("splice and merge",'list.hpp')],None,["contents of both containers"]))
L.append(P("C19","Insertion checks and commits agree with direct insertion",
"A successful insertion check followed by a commit (with anything documented as harmless in between) puts the element exactly where a direct insertion would and calls no throwing user code; a failed check returns the equivalent element. Hinted and positional insertions accept every hint: correct hints are honoured and wrong ones never break order or uniqueness where the operation promises to check.",
["histories","inputs","configurations"],"every state, key, hint and delay between check and commit",
"Tests check and commit once in a small container.",
['bstree.hpp','bstree_algorithms.hpp','treap.hpp','hashtable.hpp','sgtree.hpp','splaytree.hpp'],
[("insert_unique_check with hint",'bstree_algorithms.hpp'),("commit data",'bstree_algorithms.hpp'),("bucket index or hash kept for commit",'hashtable.hpp')],None,["position of the committed element"]))
L.append(P("C20","Positional, range and maintenance operations do what they say",
"Reversal, shifts, sorts, duplicate removal, removal by predicate, range erasure, resumable assignment, bounded ranges with any combination of open and closed ends, root and end access, rebuilds and the ordering operators give exactly the documented result for every position and count, including zero, one past the size, empty and single-element containers.",
["histories","inputs","configurations"],"every position, count, predicate and pair of bounds in every state",
"Tests use one or two positions each.",
['list.hpp','slist.hpp','circular_list_algorithms.hpp','circular_slist_algorithms.hpp','linear_slist_algorithms.hpp','bstree.hpp','hashtable.hpp','sgtree.hpp'],
[("move_backwards / move_forward / reverse",'circular_list_algorithms.hpp'),("bounded_range",'bstree_algorithms.hpp'),("rebuild",'sgtree.hpp')],None,["contents and return values"]))
L.append(P("C21","Different containers can be used in parallel",
"Threads that work on different containers with disjoint elements never affect each other: under every interleaving, each container behaves exactly as if its thread ran alone, because no hidden state is shared between containers, hooks or iterators.",
["schedules","histories","configurations"],"every interleaving of mutating operations on disjoint containers",
"The test suite is single threaded.",
['bstree.hpp','hashtable.hpp','list.hpp','slist.hpp','bstree_algorithms.hpp'],
[("no shared mutable state",'bstree_algorithms.hpp'),("immutable prime tables",'hashtable.hpp')],None,["contents per container under interleaving"]))
L.append(P("C22","Containers own no memory and touch only what they were given",
"No operation allocates memory, copies or modifies an element's own data, or reads or writes anything but the hooks of linked (or operand) elements, the container object and the bucket array in use; elements that have been removed, destroyed or never inserted are not accessed again.",
["histories","configurations","crash_points"],"every history, with removed elements destroyed and their memory overwritten at once",
"Tests keep all elements alive in one vector, where a stale access goes unnoticed.",
['list.hpp','slist.hpp','bstree.hpp','hashtable.hpp','detail/generic_hook.hpp','detail/ebo_functor_holder.hpp'],
[("nodes only unlinked, never created",'bstree.hpp'),("flattening during clear",'bstree_algorithms.hpp')],None,["poisoned memory","element payload checksums","allocation counter"]))
L.append(P("C25","Operations stay within their documented cost",
"For every container and every history, an operation follows at most the documented number of links and makes at most the documented number of functor calls: constant-time operations (insert/erase/splice at a position, swap, size and end access where configured, replace_node, commits) do not depend on the size; searches and insertions in balanced trees are logarithmic (amortised for scapegoat and splay trees, and constant amortised with an exact hint); searching an unordered container compares only within one bucket (one group, and only equal hashes, where configured), stored hashes are not recomputed; whole-container operations are linear, sort is N log N and merge at most linear.",
["histories", "configurations", "inputs"],"every reachable container state (adversarial insertion orders, skewed hash functions, mixed erases, rehashes, merges), up to some thousand elements in the simulation",
"Tests check results, not the amount of work, and use a handful of elements; a degraded shape, a lost fast path or a quadratic loop changes no result.",
["list.hpp", "slist.hpp", "bstree_algorithms.hpp", "rbtree_algorithms.hpp", "avltree_algorithms.hpp", "sgtree_algorithms.hpp", "splaytree_algorithms.hpp", "treap_algorithms.hpp", "hashtable.hpp"],
[["rebalancing and rotations", "rbtree_algorithms.hpp"], ["insertion hints", "bstree_algorithms.hpp"], ["bucket and group search, cached begin, stored hash", "hashtable.hpp"], ["merge sort and transfers", "list.hpp"]],None,["link accesses through the pointer type", "functor calls"]))
N=[]
N.append(P("C23","Compile-time option packing and type computation",
"Option lists given in any order or explicitly equal to the defaults yield the same container type, hooks have the documented size, and iterators/types do not depend on comparison functors or size options.",
["programs","configurations"],"every program that names a container type",
"Only a few option orders are instantiated by the tests.",
['pack_options.hpp','options.hpp','detail/mpl.hpp','detail/get_value_traits.hpp'],[("option packing",'pack_options.hpp')]))
N.append(P("C24","Suggested bucket counts and bit/mod arithmetic are right",
"Suggested bucket counts, power-of-two and prime modulo arithmetic, and hash combination return the documented value for every argument.",
["inputs"],"every integer argument",
"Only a few arguments are tested (and the tests pin a value of the lower suggestion that differs from its documentation).",
['hashtable.hpp','detail/math.hpp','detail/hash_combine.hpp','detail/hash_integral.hpp'],[("prime tables",'hashtable.hpp'),("floor/ceil log2",'detail/math.hpp')]))
for p in L+N: p["statement"].count(".")
open(V+'/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in L+N))
tech={"C13":"deterministic simulation: seeded scheduling of reader fibers at functor and pointer-load yield points, write-protected memory",
"C21":"deterministic simulation: seeded scheduling of writer fibers on disjoint containers at functor and pointer-load yield points"}
import os
claimed=[p["id"] for p in L if p["id"] in json.load(open(V+'/bin/props.json'))]
m={"version":1,"setup_cmd":"python3 bin/check.py --setup",
"hooks":{"guard":"BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT / BOOST_INTRUSIVE_INVARIANT_ASSERT (documented customisation macros already in the library)","enable":"the checks compile the headers with -include sim/assert_hook.hpp, which defines those macros; nothing was added to /repo for the checks","source_commits":[]},
"checks":[{"property":c,"quick_cmd":"python3 bin/check.py %s quick"%c,"thorough_cmd":"python3 bin/check.py %s thorough"%c,
"technique":tech.get(c,"deterministic simulation with fault injection: seeded histories, faults and element lifetimes against a reference model, minimised replay"),
"level":"exploration","level_note":"Seeded sample of histories, faults and schedules over real headers checked step by step against a reference model; trusts the model, the generator's coverage (reported) and the compiler."} for c in claimed],
"not_applicable":[{"property":"C23","reason":"Decided entirely at compile time: there is no execution, schedule, fault or history to simulate."},
{"property":"C24","reason":"Pure functions of one argument: no concurrency, time, I/O, fault or history for a simulator to decide; simulated containers merely use them."}]
+[{"property":p["id"],"reason":"Engine not built yet."} for p in L if p["id"] not in claimed]}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
