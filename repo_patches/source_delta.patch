From b8f3871b21e9e9239372b46ca42c36c7f79f58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 01/40] fix: clone_from copies the comparison object also when
 the source is empty

---
 include/boost/intrusive/bstree.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 8196d36..55d2577 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1010,6 +1010,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1045,6 +1048,9 @@ class bstree_impl
          this->get_comp() = src.get_comp();
          rollback.release();
       }
+      else{
+         this->get_comp() = src.get_comp();
+      }
    }
 
    //! <b>Requires</b>: value must be an lvalue
-- 
2.43.0


From d22aee7e8627043256613c34810579cecfa2a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 02/40] fix: declare the multiset implementation class in
 boost::intrusive so that set::merge(multiset) exists for bs_set and splay_set

---
 include/boost/intrusive/bs_set.hpp    | 6 +++---
 include/boost/intrusive/splay_set.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index c3275dd..314d8d4 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class bs_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template bs_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index f11424a..9d05206 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class splay_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template splay_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
-- 
2.43.0


From 41c010c8b21f1be0c7539ee273b7e300d0c62061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 03/40] fix: splay_down accepts the container's own and
 heterogeneous comparison objects

---
 include/boost/intrusive/splaytree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/intrusive/splaytree.hpp b/include/boost/intrusive/splaytree.hpp
index e25647c..983228e 100644
--- a/include/boost/intrusive/splaytree.hpp
+++ b/include/boost/intrusive/splaytree.hpp
@@ -496,9 +496,7 @@ class splaytree_impl
    template<class KeyType, class KeyTypeKeyCompare>
    iterator splay_down(const KeyType &key, KeyTypeKeyCompare comp)
    {
-      detail::key_nodeptr_comp<value_compare, value_traits>
-         key_node_comp(comp, &this->get_value_traits());
-      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, key_node_comp);
+      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, this->key_node_comp(comp));
       return iterator(r, this->priv_value_traits_ptr());
    }
 
-- 
2.43.0


From 4306e3d47cd0f3e42a5d98723fe3ea3b20da6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 04/40] fix: treap operations that may throw from the priority
 functor are not noexcept

---
 include/boost/intrusive/treap.hpp     | 16 +++++++--------
 include/boost/intrusive/treap_set.hpp | 28 +++++++++++++--------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 4d8c916..0514fc1 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -777,7 +777,7 @@ class treap_impl
    //! the successor of "value" container ordering invariant will be broken.
    //! This is a low-level function to be used only for performance reasons
    //! by advanced users.
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT
+   iterator insert_before(const_iterator pos, reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -807,7 +807,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_back(reference value) BOOST_NOEXCEPT
+   void push_back(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -830,7 +830,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_front(reference value) BOOST_NOEXCEPT
+   void push_front(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -847,7 +847,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator i) BOOST_NOEXCEPT
+   iterator erase(const_iterator i)
    {
       const_iterator ret(i);
       ++ret;
@@ -870,7 +870,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT
+   iterator erase(const_iterator b, const_iterator e)
    {  size_type n;   return private_erase(b, e, n);   }
 
    //! <b>Effects</b>: Erases all the elements with the given value.
@@ -921,7 +921,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator i, Disposer disposer)
    {
       node_ptr to_erase(i.pointed_node());
       iterator ret(this->erase(i));
@@ -931,7 +931,7 @@ class treap_impl
 
    #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
    template<class Disposer>
-   iterator erase_and_dispose(iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(iterator i, Disposer disposer)
    {  return this->erase_and_dispose(const_iterator(i), disposer);   }
    #endif
 
@@ -948,7 +948,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer)
    {  size_type n;   return private_erase(b, e, n, disposer);   }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
diff --git a/include/boost/intrusive/treap_set.hpp b/include/boost/intrusive/treap_set.hpp
index f6a7a8f..3e39185 100644
--- a/include/boost/intrusive/treap_set.hpp
+++ b/include/boost/intrusive/treap_set.hpp
@@ -279,19 +279,19 @@ class treap_set_impl
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::treap::insert_before
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT;
+   iterator insert_before(const_iterator pos, reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_back
-   void push_back(reference value) BOOST_NOEXCEPT;
+   void push_back(reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_front
-   void push_front(reference value) BOOST_NOEXCEPT;
+   void push_front(reference value);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator)
-   iterator erase(const_iterator i) BOOST_NOEXCEPT;
+   iterator erase(const_iterator i);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator,const_iterator)
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT;
+   iterator erase(const_iterator b, const_iterator e);
 
    //! @copydoc ::boost::intrusive::treap::erase(const key_type &)
    size_type erase(const key_type &key);
@@ -302,11 +302,11 @@ class treap_set_impl
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator i, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const key_type &, Disposer)
    template<class Disposer>
@@ -809,19 +809,19 @@ class treap_multiset_impl
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::treap::insert_before
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT;
+   iterator insert_before(const_iterator pos, reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_back
-   void push_back(reference value) BOOST_NOEXCEPT;
+   void push_back(reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_front
-   void push_front(reference value) BOOST_NOEXCEPT;
+   void push_front(reference value);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator)
-   iterator erase(const_iterator i) BOOST_NOEXCEPT;
+   iterator erase(const_iterator i);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator,const_iterator)
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT;
+   iterator erase(const_iterator b, const_iterator e);
 
    //! @copydoc ::boost::intrusive::treap::erase(const key_type &)
    size_type erase(const key_type &key);
@@ -832,11 +832,11 @@ class treap_multiset_impl
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator i, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const key_type &, Disposer)
    template<class Disposer>
-- 
2.43.0


From 06fbed43ba3bf8f9f8851c369b4b0b6bfef27531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 05/40] fix: unlink_leftmost_without_rebalance relinks the
 right subtree to the leftmost node's parent

---
 include/boost/intrusive/bstree_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 45e6b18..70cfdb8 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -650,7 +650,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
          if (is_root)
             NodeTraits::set_parent(header, leftmost_right);
          else
-            NodeTraits::set_left(NodeTraits::get_parent(header), leftmost_right);
+            NodeTraits::set_left(leftmost_parent, leftmost_right);
       }
       else if (is_root){
          NodeTraits::set_parent(header, node_ptr());
-- 
2.43.0


From e9696aed6c552318f5c96f67b198a8c9b149a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 06/40] fix: cloning a tree computes the rightmost node of the
 copy

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 70cfdb8..d34516d 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1972,7 +1972,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_left  (temp, insertion_point);
                //Update leftmost
-               if(rightmost == target_sub_root)
+               if(temp == leftmost)
                   leftmost = insertion_point;
             }
             //Then clone right nodes
@@ -1988,7 +1988,8 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_right (temp, insertion_point);
                //Update rightmost
-               rightmost = insertion_point;
+               if(temp == rightmost)
+                  rightmost = insertion_point;
             }
             //If not, go up
             else if(current == source_root){
-- 
2.43.0


From cab4d9647ca458b9ee8d3804962b17aed751120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 07/40] fix: slist::last() const and clast() compile

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f39e7df..148aa4a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -639,7 +639,7 @@ class slist_impl
    {
       //This function shall not be used if cache_last is not true
       BOOST_INTRUSIVE_INVARIANT_ASSERT(cache_last);
-      return const_iterator (this->get_last_node(), this->priv_value_traits_ptr());
+      return const_iterator (detail::uncast(this->get_last_node()), this->priv_value_traits_ptr());
    }
 
    //! <b>Effects</b>: Returns a const_iterator to the last element contained in the list.
@@ -650,7 +650,7 @@ class slist_impl
    //!
    //! <b>Note</b>: This function is present only if cached_last<> option is true.
    inline const_iterator clast() const BOOST_NOEXCEPT
-   { return const_iterator(this->get_last_node(), this->priv_value_traits_ptr()); }
+   { return const_iterator(detail::uncast(this->get_last_node()), this->priv_value_traits_ptr()); }
 
    //! <b>Precondition</b>: end_iterator must be a valid end iterator
    //!   of slist.
-- 
2.43.0


From cdb4c7592278ca0c956cd2ff6a0fee35dbe4c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 08/40] fix: slist::clone_from from an rvalue compiles

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 148aa4a..f094db4 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -791,7 +791,7 @@ class slist_impl
       this->clear_and_dispose(disposer);
       detail::exception_disposer<slist_impl, Disposer>
          rollback(*this, disposer);
-      iterator prev(this->cbefore_begin());
+      iterator prev(this->before_begin());
       iterator b(src.begin()), e(src.end());
       for(; b != e; ++b){
          prev = this->insert_after(prev, *cloner(*b));
-- 
2.43.0


From 2821c18a6c4b479113ed6c77293f45163e0bce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 09/40] fix: slist::dispose_and_assign compiles

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f094db4..67dfa86 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1227,7 +1227,7 @@ class slist_impl
    void dispose_and_assign(Disposer disposer, Iterator b, Iterator e)
    {
       this->clear_and_dispose(disposer);
-      this->insert_after(this->cbefore_begin(), b, e, disposer);
+      this->insert_after(this->cbefore_begin(), b, e);
    }
 
    //! <b>Requires</b>: prev must point to an element contained by this list or
-- 
2.43.0


From 484e536869bf1b12c04ce9b6c64503e8a0285cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 10/40] fix: slist::unique_and_dispose(Disposer) compiles

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 67dfa86..f9c30d4 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1703,7 +1703,7 @@ class slist_impl
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
    void unique_and_dispose(Disposer disposer)
-   {  this->unique(value_equal<value_type>(), disposer);  }
+   {  this->unique_and_dispose(value_equal<value_type>(), disposer);  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
    //!
-- 
2.43.0


From 00694c8a8d8032ed881bafb0396243043b1a5a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:59 +0000
Subject: [PATCH 11/40] fix: slist::incorporate_after(prev,f,before_l) compiles
 with constant-time size

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f9c30d4..5fe89a8 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1880,7 +1880,7 @@ class slist_impl
    void incorporate_after(const_iterator prev_pos, node_ptr f, node_ptr before_l) BOOST_NOEXCEPT
    {
       BOOST_IF_CONSTEXPR(constant_time_size)
-         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f.pointed_node(), before_l.pointed_node())+1);
+         this->incorporate_after(prev_pos, f, before_l, node_algorithms::distance(f, before_l)+1);
       else
          this->priv_incorporate_after(prev_pos.pointed_node(), f, before_l);
    }
-- 
2.43.0


From 93dfae2a67ea23411dd84ccdd28e2aefff20756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 12/40] fix: iterator assignment also assigns the stored value
 traits pointer

---
 include/boost/intrusive/detail/list_iterator.hpp  | 2 +-
 include/boost/intrusive/detail/slist_iterator.hpp | 2 +-
 include/boost/intrusive/detail/tree_iterator.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/detail/list_iterator.hpp b/include/boost/intrusive/detail/list_iterator.hpp
index 0a10e84..3e8bb3b 100644
--- a/include/boost/intrusive/detail/list_iterator.hpp
+++ b/include/boost/intrusive/detail/list_iterator.hpp
@@ -76,7 +76,7 @@ class list_iterator
    {}
 
    inline list_iterator &operator=(const list_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/slist_iterator.hpp b/include/boost/intrusive/detail/slist_iterator.hpp
index 64387c4..002454f 100644
--- a/include/boost/intrusive/detail/slist_iterator.hpp
+++ b/include/boost/intrusive/detail/slist_iterator.hpp
@@ -82,7 +82,7 @@ class slist_iterator
    {}
 
    inline slist_iterator &operator=(const slist_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/tree_iterator.hpp b/include/boost/intrusive/detail/tree_iterator.hpp
index f97cecb..a47bf1c 100644
--- a/include/boost/intrusive/detail/tree_iterator.hpp
+++ b/include/boost/intrusive/detail/tree_iterator.hpp
@@ -84,7 +84,7 @@ class tree_iterator
    {}
 
    inline tree_iterator &operator=(const tree_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline tree_iterator &operator=(node_ptr nodeptr)
    {  members_.nodeptr_ = nodeptr;  return *this;  }
-- 
2.43.0


From 0c624191f3a79281f3d727eb0bcb9ed22d8782c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 13/40] fix: slist with cache_last updates the last node when a
 tail range is spliced inside the same list

---
 include/boost/intrusive/slist.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 5fe89a8..89c8ea2 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1993,7 +1993,9 @@ class slist_impl
          if(prev_pos_n == this->get_last_node()){
             this->set_last_node(before_l_n);
          }
-         if(&x != this && node_traits::get_next(before_l_n) == x.get_end_node()){
+         //If the range is moved inside the same list the last node only changes if the range really moves
+         if((&x != this || (prev_pos_n != before_f_n && prev_pos_n != before_l_n)) &&
+            node_traits::get_next(before_l_n) == x.get_end_node()){
             x.set_last_node(before_f_n);
          }
       }
-- 
2.43.0


From 7af85b4fe32fa777e8c81123e1d3b87e7a764f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 14/40] fix: slist::check accepts an empty linear list

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 89c8ea2..7258f65 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1928,8 +1928,8 @@ class slist_impl
    void check() const
    {
       const_node_ptr header_ptr = get_root_node();
-      // header's next is never null
-      BOOST_INTRUSIVE_INVARIANT_ASSERT(node_traits::get_next(header_ptr));
+      // header's next is never null, unless the list is linear (and empty)
+      BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
       if (node_traits::get_next(header_ptr) == header_ptr)
       {
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
-- 
2.43.0


From e97972d3d74a70c36a30a1997086e379e4944a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 15/40] fix: slist::sort on linear lists handles empty lists
 and empty merge operands

---
 include/boost/intrusive/slist.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 7258f65..b424ea7 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1440,8 +1440,8 @@ class slist_impl
    template<class Predicate>
    void sort(Predicate p)
    {
-      if (node_traits::get_next(node_traits::get_next(this->get_root_node()))
-         != this->get_root_node()) {
+      const node_ptr first_n(node_traits::get_next(this->get_root_node()));
+      if (first_n != this->get_end_node() && node_traits::get_next(first_n) != this->get_end_node()) {
 
          slist_impl carry(this->priv_value_traits());
          detail::array_initializer<slist_impl, 64> counter(this->priv_value_traits());
@@ -1474,6 +1474,9 @@ class slist_impl
          for (int i = 1; i < fill; ++i)
             counter[i].merge(counter[i-1], p, &last_inserted);
          --fill;
+         //The last merge might have transferred nothing
+         if(last_inserted == counter[fill].cend())
+            last_inserted = counter[fill].cbefore_begin();
          const_iterator last_element(counter[fill].previous(last_inserted, counter[fill].end()));
          BOOST_IF_CONSTEXPR(constant_time_size){
             this->splice_after( cbefore_begin(), counter[fill], counter[fill].cbefore_begin()
-- 
2.43.0


From d4873ef8c3b118fa50a1ca92a2aec4dadcb3c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 16/40] fix: circular_slist_algorithms::swap_nodes handles two
 nodes of the same list

---
 include/boost/intrusive/circular_slist_algorithms.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/circular_slist_algorithms.hpp b/include/boost/intrusive/circular_slist_algorithms.hpp
index bc4beaa..2e24f83 100644
--- a/include/boost/intrusive/circular_slist_algorithms.hpp
+++ b/include/boost/intrusive/circular_slist_algorithms.hpp
@@ -300,11 +300,15 @@ class circular_slist_algorithms
       const bool this_empty  = this_next == this_node;
       const bool other_empty = other_next == other_node;
 
+      //Obtain both previous nodes before relinking, as both nodes might be in the same list
+      const node_ptr this_prev  = (this_null || this_empty)   ? node_ptr() : get_previous_node(this_node);
+      const node_ptr other_prev = (other_null || other_empty) ? node_ptr() : get_previous_node(other_node);
+
       if(!(other_null || other_empty)){
-         NodeTraits::set_next(this_next == other_node ? other_node : get_previous_node(other_node), this_node );
+         NodeTraits::set_next(this_next == other_node ? other_node : other_prev, this_node );
       }
-      if(!(this_null | this_empty)){
-         NodeTraits::set_next(other_next == this_node ? this_node  : get_previous_node(this_node), other_node );
+      if(!(this_null || this_empty)){
+         NodeTraits::set_next(other_next == this_node ? this_node  : this_prev, other_node );
       }
       NodeTraits::set_next(this_node,  other_empty ? this_node  : (other_next == this_node ? other_node : other_next) );
       NodeTraits::set_next(other_node, this_empty  ? other_node : (this_next == other_node ? this_node :  this_next ) );
-- 
2.43.0


From 04b2e9d5ad570571ccc5339625a9549aad3736aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 17/40] fix: hashtable operator== must not advance past the
 group it just compared

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3e1293b..1735982 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3748,7 +3748,7 @@ class hashtable_impl
       if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
          return false;
          
-      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ++ix){
+      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
          std::pair<const_iterator, const_iterator> eqx(x.equal_range(key_of_value()(*ix))),
                                                    eqy(y.equal_range(key_of_value()(*ix)));
          if (boost::intrusive::iterator_distance(eqx.first, eqx.second) !=
-- 
2.43.0


From 6a039247bda3aa49125fd8d75466e72ce0ffe41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 18/40] fix: hashtable operator== compares the sizes of both
 containers without constant-time size

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 1735982..282bb17 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3745,7 +3745,7 @@ class hashtable_impl
          return false;
       }
 
-      if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
+      if (!constant_time_size && x.size() != y.size())
          return false;
          
       for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
-- 
2.43.0


From d80230247f7d9f755b81e1337865251874ca0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 19/40] fix: hashtable clone_from copies the functors first,
 whatever the algorithm and even if the source is empty

---
 include/boost/intrusive/hashtable.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 282bb17..cb02ccf 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3924,6 +3924,9 @@ class hashtable_impl
    void priv_clone_from(MaybeConstHashtableImpl &src, Cloner cloner, Disposer disposer)
    {
       this->clear_and_dispose(disposer);
+      //The functors of the source are needed to place and group the clones
+      this->priv_hasher() = src.priv_hasher();
+      this->priv_equal()  = src.priv_equal();
       if(!constant_time_size || !src.empty()){
          const size_type src_bucket_count = src.bucket_count();
          const size_type dst_bucket_count = this->bucket_count();
@@ -4008,8 +4011,6 @@ class hashtable_impl
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
       }
-      this->priv_hasher() = src.priv_hasher();
-      this->priv_equal()  = src.priv_equal();
       rollback.release();
       this->priv_size_count(src.priv_size_count());
       this->split_count(dst_bucket_count);
-- 
2.43.0


From 8d2324b7a9602f98dbcb8a7cd56075fd45d7356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 20/40] fix: hashtable structural cloning disposes every clone
 and resets the size if it throws, keeps the fastmod index

---
 include/boost/intrusive/hashtable.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index cb02ccf..d178e06 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3989,20 +3989,13 @@ class hashtable_impl
       //First clone the first ones
       const size_type src_bucket_count = src.bucket_count();
       const size_type dst_bucket_count = this->bucket_count();
-      size_type constructed = 0;
-      typedef typename internal_type::template typeof_node_disposer<Disposer>::type NodeDisposer;
-      NodeDisposer node_disp(disposer, &this->priv_value_traits());
-
-      exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type>
-         rollback(this->priv_bucket(0), node_disp, constructed);
+      detail::exception_disposer<hashtable_impl, Disposer> rollback(*this, disposer);
       //Now insert the remaining ones using the modulo trick
-      for( //"constructed" already initialized
-         ; constructed < src_bucket_count
-         ; ++constructed){
+      for( size_type src_n = 0; src_n < src_bucket_count; ++src_n){
 
          const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
-            (constructed, dst_bucket_count, this->split_count(), fastmod_buckets_t());
-         bucket_type &src_b = src.priv_bucket(constructed);
+            (src_n, dst_bucket_count, this->split_count(), fastmod_buckets_t());
+         bucket_type &src_b = src.priv_bucket(src_n);
          for( siterator b(this->priv_bucket_lbegin(src_b)), e(this->priv_bucket_lend(src_b)); b != e; ++b){
             typedef typename detail::if_c
                <detail::is_const<MaybeConstHashtableImpl>::value, const_reference, reference>::type reference_type;
@@ -4011,11 +4004,8 @@ class hashtable_impl
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
       }
+      //Size and cache were updated with each insertion, the split count does not change
       rollback.release();
-      this->priv_size_count(src.priv_size_count());
-      this->split_count(dst_bucket_count);
-      this->priv_set_cache_bucket_num(0u);
-      this->priv_erasure_update_cache();
    }
 
    iterator priv_insert_equal_after_find(reference value, size_type bucket_num, std::size_t hash_value, siterator prev, bool const next_is_in_group)
-- 
2.43.0


From 653c2609103cffddacad2d321fc33690f2483da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:54 +0000
Subject: [PATCH 21/40] fix: hashtable equal_range sets the bucket of an end
 inside the same bucket (linear_buckets)

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index d178e06..27ecaea 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4170,7 +4170,7 @@ class hashtable_impl
          r.bucket_first = r.bucket_second = this->priv_invalid_bucket_ptr();
       }
       else if (to_return.second != this->priv_end_sit()) {
-         r.bucket_first = this->priv_bucket_ptr(n_bucket);
+         r.bucket_first = r.bucket_second = this->priv_bucket_ptr(n_bucket);
       }
       else{
          r.bucket_first = this->priv_bucket_ptr(n_bucket);
-- 
2.43.0


From 7a5f4858cd88ffe887e8ace5524b08a62aae3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 22/40] fix: hashtable incremental_rehash(false) must not cache
 an empty bucket as the first one

---
 include/boost/intrusive/hashtable.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 27ecaea..13c4f13 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3638,7 +3638,9 @@ class hashtable_impl
          bucket_type &source_bucket = this->priv_bucket(split_idx-1u);
          slist_node_algorithms::transfer_after(target_bucket.get_node_ptr(), source_bucket.get_node_ptr());
          this->dec_split_count();
-         this->priv_insertion_update_cache(target_bucket_num);
+         //Nothing changes for the cache if both buckets were empty
+         if(!this->priv_bucket_empty(target_bucket_num))
+            this->priv_insertion_update_cache(target_bucket_num);
       }
       return ret;
    }
-- 
2.43.0


From ac70d7acb3d7624757e645911a72ce54ef0aef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 23/40] fix: hashtable incremental_rehash(bucket_traits)
 updates the cached past the end position

---
 include/boost/intrusive/hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 13c4f13..e77f086 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3697,10 +3697,10 @@ class hashtable_impl
             slist_node_ptr old_bucket_node_ptr = old_buckets[difference_type(n)].get_node_ptr();
             slist_node_algorithms::transfer_after(new_bucket_nodeptr, old_bucket_node_ptr);
          }
-         //Reset cache to safe position
-         this->priv_set_cache_bucket_num(ini_n);
       }
 
+      //The cached bucket does not change unless it was the (old) past the end position
+      this->priv_set_cache_bucket_num(ini_n != old_bucket_count ? ini_n : new_bucket_count);
       this->priv_set_sentinel_bucket();
       return true;
    }
-- 
2.43.0


From 8a89de03d0c16a040d79bf97ae4eb2b5d12355e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 24/40] fix: unordered_set operator== compares sizes even
 without constant-time size (a subset is not equal)

---
 include/boost/intrusive/unordered_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set.hpp b/include/boost/intrusive/unordered_set.hpp
index c53ec52..5494e33 100644
--- a/include/boost/intrusive/unordered_set.hpp
+++ b/include/boost/intrusive/unordered_set.hpp
@@ -386,7 +386,7 @@ class unordered_set_impl
 
    friend bool operator==(const unordered_set_impl &x, const unordered_set_impl &y)
    {
-      if(table_type::constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
       //Find each element of x in y
-- 
2.43.0


From 228b0909153c80e257e7d4f8ff8af05e720b11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:29 +0000
Subject: [PATCH 25/40] fix: hashtable fast shrinking rehash must not cache an
 empty bucket as the first one

---
 include/boost/intrusive/hashtable.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index e77f086..03c34ac 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3917,7 +3917,9 @@ class hashtable_impl
       if(&new_bucket_traits != &this->priv_bucket_traits())
          this->priv_bucket_traits() = new_bucket_traits;
       this->priv_set_sentinel_bucket();
+      //A fast shrink also visits empty buckets, so look for the first used one
       this->priv_set_cache_bucket_num(new_first_bucket_num);
+      this->priv_erasure_update_cache();
       rollback1.release();
       rollback2.release();
    }
-- 
2.43.0


From f8de6587da6b2e6d6f73f84b563395284b68c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 26/40] fix: hashtable rehash transfers whole groups and
 full_rehash stores the hash in each member

---
 include/boost/intrusive/hashtable.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 03c34ac..ac534aa 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3890,7 +3890,17 @@ class hashtable_impl
 
                //If the target bucket is new, transfer the whole group
                siterator last = i;
-               (priv_go_to_last_in_group)(i, optimize_multikey_t());
+               (priv_go_to_last_in_group)(last, optimize_multikey_t());
+
+               //The whole group shares the recalculated hash value
+               BOOST_IF_CONSTEXPR(optimize_multikey && store_hash){
+                  if(do_full_rehash){
+                     for(siterator g = i; g != last; ){
+                        ++g;
+                        node_functions_t::store_hash(dcast_bucket_ptr<node>(g.pointed_node()), hash_value, store_hash_t());
+                     }
+                  }
+               }
 
                if(same_buffer && new_n == n){
                   before_i = last;
-- 
2.43.0


From 4be79f6f8b7e758bc05e6eb2c3f51596d7e510fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 27/40] fix: hashtable rehash that throws restores the sentinel
 bucket (linear_buckets)

---
 include/boost/intrusive/hashtable.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index ac534aa..92e3e5c 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3807,6 +3807,29 @@ class hashtable_impl
       }
    }
 
+   //Sets again the sentinel bucket if a rehash throws
+   class sentinel_rollback
+   {
+      const hashtable_impl *cont_;
+
+      sentinel_rollback(const sentinel_rollback&);
+      sentinel_rollback &operator=(const sentinel_rollback&);
+
+      public:
+      explicit sentinel_rollback(const hashtable_impl &cont)
+         : cont_(&cont)
+      {}
+
+      inline void release()
+      {  cont_ = 0;  }
+
+      ~sentinel_rollback()
+      {
+         if(cont_)
+            cont_->priv_set_sentinel_bucket();
+      }
+   };
+
    void priv_rehash_impl(const bucket_traits &new_bucket_traits, bool do_full_rehash)
    {
       const std::size_t nbc             = new_bucket_traits.bucket_count() - bucket_overhead;
@@ -3845,6 +3868,8 @@ class hashtable_impl
       typedef typename internal_type::template typeof_node_disposer<detail::null_disposer>::type NodeDisposer;
       typedef exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type> ArrayDisposer;
       NodeDisposer nd(this->make_node_disposer(detail::null_disposer()));
+      //Declared first: the sentinel must be set after all buckets are emptied
+      sentinel_rollback sentinel_restore(*this);
       ArrayDisposer rollback1(new_buckets[0], nd, new_bucket_count);
       ArrayDisposer rollback2(old_buckets[0], nd, old_bucket_count);
 
@@ -3932,6 +3957,7 @@ class hashtable_impl
       this->priv_erasure_update_cache();
       rollback1.release();
       rollback2.release();
+      sentinel_restore.release();
    }
 
    template <class MaybeConstHashtableImpl, class Cloner, class Disposer>
-- 
2.43.0


From 343aa5cd50c63b527c2a0f6c36f61ccc89aef8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 28/40] fix: hashtable erase of a range inside a group keeps
 the group ring (optimize_multikey)

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 92e3e5c..ee1a4ec 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -1146,7 +1146,7 @@ struct bucket_plus_vtraits
                if(nf == group2) {   //Both first and last in the same group
                                     //so join group1 and group2
                   node_ptr const end1 = group_traits::get_next(group1);
-                  node_ptr const end2 = group_traits::get_next(group2);
+                  node_ptr const end2 = group_traits::get_next(nl);
                   group_traits::set_next(group1, end2);
                   group_traits::set_next(nl, end1);
                }
-- 
2.43.0


From d1a2739af0a880d4dc6e43e2eb5410cbcb304192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 29/40] fix: hashtable incremental_rehash that throws keeps
 equivalent nodes adjacent

---
 include/boost/intrusive/hashtable.hpp | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index ee1a4ec..9e2b6fa 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -728,7 +728,7 @@ struct group_functions
    }
 };
 
-template<class BucketType, class SplitTraits, class SlistNodeAlgorithms>
+template<class BucketType, class SplitTraits, class SlistNodeAlgorithms, class SlistIterator>
 class incremental_rehash_rollback
 {
    private:
@@ -741,8 +741,8 @@ class incremental_rehash_rollback
 
    public:
    incremental_rehash_rollback
-      (bucket_type &source_bucket, bucket_type &destiny_bucket, split_traits &split_tr)
-      :  source_bucket_(source_bucket),  destiny_bucket_(destiny_bucket)
+      (bucket_type &source_bucket, const SlistIterator &destiny, split_traits &split_tr)
+      :  source_bucket_(source_bucket),  destiny_(destiny)
       ,  split_traits_(split_tr),  released_(false)
    {}
 
@@ -754,14 +754,14 @@ class incremental_rehash_rollback
       if(!released_){
          //If an exception is thrown, just put all moved nodes back in the old bucket
          //and move back the split mark.
-         SlistNodeAlgorithms::transfer_after(destiny_bucket_.get_node_ptr(), source_bucket_.get_node_ptr());
+         SlistNodeAlgorithms::transfer_after(destiny_.pointed_node(), source_bucket_.get_node_ptr());
          split_traits_.decrement();
       }
    }
 
    private:
    bucket_type &source_bucket_;
-   bucket_type &destiny_bucket_;
+   const SlistIterator &destiny_;
    split_traits &split_traits_;
    bool released_;
 };
@@ -3609,10 +3609,14 @@ class hashtable_impl
             //Anti-exception stuff: if an exception is thrown while
             //moving elements from old_bucket to the target bucket, all moved
             //elements are moved back to the original one.
-            incremental_rehash_rollback<bucket_type, split_traits, slist_node_algorithms> rollback
-               ( this->priv_bucket(split_idx), old_bucket, this->priv_split_traits());
-            siterator before_i(old_bucket.get_node_ptr());
+            const siterator before_begin(old_bucket.get_node_ptr());
+            siterator before_i(before_begin);
+            siterator rollback_pos(before_begin);
+            incremental_rehash_rollback<bucket_type, split_traits, slist_node_algorithms, siterator> rollback
+               ( this->priv_bucket(split_idx), rollback_pos, this->priv_split_traits());
             siterator i(before_i); ++i;
+            //Moved nodes are appended to keep their order
+            siterator last_moved(this->priv_bucket(split_idx).get_node_ptr());
             siterator end_sit = linear_buckets ? siterator() : before_i;
             for( ; i != end_sit; i = before_i, ++i){
                const value_type &v = this->priv_value_from_siterator(i);
@@ -3620,12 +3624,16 @@ class hashtable_impl
                const std::size_t new_n = this->priv_hash_to_nbucket(hash_value);
                siterator last = i;
                (priv_go_to_last_in_group)(last, optimize_multikey_t());
+               //The last visited node must be the one before the not yet visited nodes
+               //after a rollback, as they might be equivalent
                if(new_n == bucket_to_rehash){
                   before_i = last;
+                  rollback_pos = before_begin;
                }
                else{
-                  bucket_type &new_b = this->priv_bucket(new_n);
-                  slist_node_algorithms::transfer_after(new_b.get_node_ptr(), before_i.pointed_node(), last.pointed_node());
+                  slist_node_algorithms::transfer_after(last_moved.pointed_node(), before_i.pointed_node(), last.pointed_node());
+                  last_moved = last;
+                  rollback_pos = before_i;
                }
             }
             rollback.release();
-- 
2.43.0


From 88a781bd4464f0b68e078f659d77eb52ec0d7f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 30/40] fix: splaytree_algorithms::count(node_ptr header, ...)
 did not compile

---
 include/boost/intrusive/splaytree_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/splaytree_algorithms.hpp b/include/boost/intrusive/splaytree_algorithms.hpp
index bef440a..28008ee 100644
--- a/include/boost/intrusive/splaytree_algorithms.hpp
+++ b/include/boost/intrusive/splaytree_algorithms.hpp
@@ -299,7 +299,7 @@ class splaytree_algorithms
       std::size_t n = 0;
       while(ret.first != ret.second){
          ++n;
-         ret.first = next_node(ret.first);
+         ret.first = bstree_algo::next_node(ret.first);
       }
       return n;
    }
-- 
2.43.0


From cdba3229cbeb576fd60c12596eef32f2e8fb5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 31/40] fix: bstree_algorithms::clone of an empty tree left the
 target header broken

---
 include/boost/intrusive/bstree_algorithms.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index d34516d..2b35dc3 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1941,7 +1941,10 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
       node_ptr target_sub_root = target_parent;
       node_ptr source_root = NodeTraits::get_parent(source_parent);
       if(!source_root){
-         leftmost_out = rightmost_out = source_root;
+         //Empty source: the target is also an empty tree (null parent, and
+         //leftmost and rightmost nodes are the header)
+         target_sub_root = node_ptr();
+         leftmost_out = rightmost_out = target_parent;
       }
       else{
          //We'll calculate leftmost and rightmost nodes while iterating
-- 
2.43.0


From 211634b218ba27d3277eda9bbabb7b4a64321899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 32/40] fix: list::merge compared an element twice after every
 transferred block

The documented bound is size() + x.size() - 1 comparisons.
---
 include/boost/intrusive/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 9871d97..7414ac3 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1093,6 +1093,8 @@ class list_impl
                ++ix; ++n;
             } while(ix != ex && p(*ix, *b));
             this->splice(b, x, x.begin(), ix, n);
+            //x is empty or its first element is already known to go after b
+            ++b;
          }
       }
    }
-- 
2.43.0


From f6d7ebdc8052876271a61a77c033d06f4c1cb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 33/40] fix: slist::merge compared every transferred element
 again

The documented bound is size() + x.size() - 1 comparisons.
---
 include/boost/intrusive/slist.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index b424ea7..ecf54d1 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1550,6 +1550,8 @@ class slist_impl
             } while(++(ibx_next = ibx) != ex && p(*ibx_next, *bb_next));
             this->splice_after(bb, x, x.before_begin(), ibx, n);
             if(l) *l = ibx;
+            //x is empty or its first element is already known to go after bb_next
+            bb = bb_next;
          }
       }
    }
-- 
2.43.0


From 21b0ee43a4c2d9a65f08611ecfded39445a3d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 34/40] fix: insert_check of the set facades took an iterator
 hint for a key

With a non-const iterator as hint the call resolved to the (key, comp,
commit_data) template, which takes the key by value as if it were a
comparison functor: the key was copied, and the call did not compile for
non-copyable elements. The base trees already constrain that overload.
---
 include/boost/intrusive/avl_set.hpp   | 6 +++++-
 include/boost/intrusive/bs_set.hpp    | 6 +++++-
 include/boost/intrusive/set.hpp       | 6 +++++-
 include/boost/intrusive/sg_set.hpp    | 6 +++++-
 include/boost/intrusive/splay_set.hpp | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/boost/intrusive/avl_set.hpp b/include/boost/intrusive/avl_set.hpp
index 2d76ece..01e7077 100644
--- a/include/boost/intrusive/avl_set.hpp
+++ b/include/boost/intrusive/avl_set.hpp
@@ -226,7 +226,11 @@ class avl_set_impl
 
    //! @copydoc ::boost::intrusive::avltree::insert_unique_check(const KeyType&,KeyTypeKeyCompare,insert_commit_data&)
    template<class KeyType, class KeyTypeKeyCompare>
-   std::pair<iterator, bool> insert_check
+   BOOST_INTRUSIVE_DOC1ST(std::pair<iterator BOOST_INTRUSIVE_I bool>
+      , typename detail::disable_if_convertible
+         <KeyType BOOST_INTRUSIVE_I const_iterator BOOST_INTRUSIVE_I
+         std::pair<iterator BOOST_INTRUSIVE_I bool> >::type)
+      insert_check
       (const KeyType &key, KeyTypeKeyCompare comp, insert_commit_data &commit_data)
    {  return tree_type::insert_unique_check(key, comp, commit_data); }
 
diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index 314d8d4..521c83b 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -223,7 +223,11 @@ class bs_set_impl
 
    //! @copydoc ::boost::intrusive::bstree::insert_unique_check(const KeyType&,KeyTypeKeyCompare,insert_commit_data&)
    template<class KeyType, class KeyTypeKeyCompare>
-   std::pair<iterator, bool> insert_check
+   BOOST_INTRUSIVE_DOC1ST(std::pair<iterator BOOST_INTRUSIVE_I bool>
+      , typename detail::disable_if_convertible
+         <KeyType BOOST_INTRUSIVE_I const_iterator BOOST_INTRUSIVE_I
+         std::pair<iterator BOOST_INTRUSIVE_I bool> >::type)
+      insert_check
       (const KeyType &key, KeyTypeKeyCompare comp, insert_commit_data &commit_data)
    {  return tree_type::insert_unique_check(key, comp, commit_data); }
 
diff --git a/include/boost/intrusive/set.hpp b/include/boost/intrusive/set.hpp
index 2a5859c..ef4077e 100644
--- a/include/boost/intrusive/set.hpp
+++ b/include/boost/intrusive/set.hpp
@@ -226,7 +226,11 @@ class set_impl
 
    //! @copydoc ::boost::intrusive::rbtree::insert_unique_check(const KeyType&,KeyTypeKeyCompare,insert_commit_data&)
    template<class KeyType, class KeyTypeKeyCompare>
-   std::pair<iterator, bool> insert_check
+   BOOST_INTRUSIVE_DOC1ST(std::pair<iterator BOOST_INTRUSIVE_I bool>
+      , typename detail::disable_if_convertible
+         <KeyType BOOST_INTRUSIVE_I const_iterator BOOST_INTRUSIVE_I
+         std::pair<iterator BOOST_INTRUSIVE_I bool> >::type)
+      insert_check
       (const KeyType &key, KeyTypeKeyCompare comp, insert_commit_data &commit_data)
    {  return tree_type::insert_unique_check(key, comp, commit_data); }
 
diff --git a/include/boost/intrusive/sg_set.hpp b/include/boost/intrusive/sg_set.hpp
index ed0af55..1be7b27 100644
--- a/include/boost/intrusive/sg_set.hpp
+++ b/include/boost/intrusive/sg_set.hpp
@@ -224,7 +224,11 @@ class sg_set_impl
 
    //! @copydoc ::boost::intrusive::sgtree::insert_unique_check(const KeyType&,KeyTypeKeyCompare,insert_commit_data&)
    template<class KeyType, class KeyTypeKeyCompare>
-   std::pair<iterator, bool> insert_check
+   BOOST_INTRUSIVE_DOC1ST(std::pair<iterator BOOST_INTRUSIVE_I bool>
+      , typename detail::disable_if_convertible
+         <KeyType BOOST_INTRUSIVE_I const_iterator BOOST_INTRUSIVE_I
+         std::pair<iterator BOOST_INTRUSIVE_I bool> >::type)
+      insert_check
       (const KeyType &key, KeyTypeKeyCompare comp, insert_commit_data &commit_data)
    {  return tree_type::insert_unique_check(key, comp, commit_data); }
 
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index 9d05206..96be7d9 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -224,7 +224,11 @@ class splay_set_impl
 
    //! @copydoc ::boost::intrusive::splaytree::insert_unique_check(const KeyType&,KeyTypeKeyCompare,insert_commit_data&)
    template<class KeyType, class KeyTypeKeyCompare>
-   std::pair<iterator, bool> insert_check
+   BOOST_INTRUSIVE_DOC1ST(std::pair<iterator BOOST_INTRUSIVE_I bool>
+      , typename detail::disable_if_convertible
+         <KeyType BOOST_INTRUSIVE_I const_iterator BOOST_INTRUSIVE_I
+         std::pair<iterator BOOST_INTRUSIVE_I bool> >::type)
+      insert_check
       (const KeyType &key, KeyTypeKeyCompare comp, insert_commit_data &commit_data)
    {  return tree_type::insert_unique_check(key, comp, commit_data); }
 
-- 
2.43.0


From a3bc1a8934dde78f8514fc72b2933da074b69ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 35/40] fix: splay tree searches and insertions were not
 amortized logarithmic

splay_down was followed by a plain search that descends beyond the splayed
node (to the end of the search path), and the nodes reached were not splayed,
so e.g. repeated find() of the same key, or inserting equal keys in a
splay_multiset, cost linear time each. Splay the nodes around the bound and
the inserted nodes, as documented.
---
 .../boost/intrusive/splaytree_algorithms.hpp  | 47 ++++++++++++++-----
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/boost/intrusive/splaytree_algorithms.hpp b/include/boost/intrusive/splaytree_algorithms.hpp
index 28008ee..ba220f0 100644
--- a/include/boost/intrusive/splaytree_algorithms.hpp
+++ b/include/boost/intrusive/splaytree_algorithms.hpp
@@ -257,7 +257,7 @@ class splaytree_algorithms
       (node_ptr header1, NodePtrCompare comp, node_ptr header2, node_ptr z)
    {
       typename bstree_algo::insert_commit_data commit_data;
-      bool const transferable = bstree_algo::insert_unique_check(header1, z, comp, commit_data).second;
+      bool const transferable = insert_unique_check(header1, z, comp, commit_data).second;
       if(transferable){
          erase(header2, z);
          bstree_algo::insert_commit(header1, z, commit_data);
@@ -276,6 +276,7 @@ class splaytree_algorithms
       bstree_algo::insert_equal_upper_bound_check(header1, z, comp, commit_data);
       erase(header2, z);
       bstree_algo::insert_commit(header1, z, commit_data);
+      splay_up(z, header1);
    }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
@@ -319,7 +320,7 @@ class splaytree_algorithms
    {
       splay_down(detail::uncast(header), key, comp);
       node_ptr y = bstree_algo::lower_bound(header, key, comp);
-      //splay_up(y, detail::uncast(header));
+      priv_splay_bound(y, detail::uncast(header));
       return y;
    }
 
@@ -338,7 +339,7 @@ class splaytree_algorithms
    {
       splay_down(detail::uncast(header), key, comp);
       node_ptr y = bstree_algo::upper_bound(header, key, comp);
-      //splay_up(y, detail::uncast(header));
+      priv_splay_bound(y, detail::uncast(header));
       return y;
    }
 
@@ -355,8 +356,8 @@ class splaytree_algorithms
    static node_ptr find
       (node_ptr header, const KeyType &key, KeyNodePtrCompare comp)
    {
-      splay_down(detail::uncast(header), key, comp);
-      return bstree_algo::find(header, key, comp);
+      node_ptr const y = lower_bound(header, key, comp);
+      return (y == header || comp(key, y)) ? header : y;
    }
 
    //! @copydoc ::boost::intrusive::bstree_algorithms::find(const_node_ptr, const KeyType&,KeyNodePtrCompare)
@@ -374,7 +375,8 @@ class splaytree_algorithms
    {
       splay_down(detail::uncast(header), key, comp);
       std::pair<node_ptr, node_ptr> ret = bstree_algo::equal_range(header, key, comp);
-      //splay_up(ret.first, detail::uncast(header));
+      priv_splay_bound(ret.second, detail::uncast(header));
+      priv_splay_bound(ret.first, detail::uncast(header));
       return ret;
    }
 
@@ -393,7 +395,8 @@ class splaytree_algorithms
    {
       splay_down(detail::uncast(header), key, comp);
       std::pair<node_ptr, node_ptr> ret = bstree_algo::lower_bound_range(header, key, comp);
-      //splay_up(ret.first, detail::uncast(header));
+      priv_splay_bound(ret.second, detail::uncast(header));
+      priv_splay_bound(ret.first, detail::uncast(header));
       return ret;
    }
 
@@ -414,7 +417,8 @@ class splaytree_algorithms
       splay_down(detail::uncast(header), lower_key, comp);
       std::pair<node_ptr, node_ptr> ret =
          bstree_algo::bounded_range(header, lower_key, upper_key, comp, left_closed, right_closed);
-      //splay_up(ret.first, detail::uncast(header));
+      priv_splay_bound(ret.second, detail::uncast(header));
+      priv_splay_bound(ret.first, detail::uncast(header));
       return ret;
    }
 
@@ -433,7 +437,9 @@ class splaytree_algorithms
       (node_ptr header, node_ptr new_node, NodePtrCompare comp)
    {
       splay_down(header, new_node, comp);
-      return bstree_algo::insert_equal_upper_bound(header, new_node, comp);
+      bstree_algo::insert_equal_upper_bound(header, new_node, comp);
+      splay_up(new_node, header);
+      return new_node;
    }
 
    //! @copydoc ::boost::intrusive::bstree_algorithms::insert_equal_lower_bound(node_ptr,node_ptr,NodePtrCompare)
@@ -443,7 +449,9 @@ class splaytree_algorithms
       (node_ptr header, node_ptr new_node, NodePtrCompare comp)
    {
       splay_down(header, new_node, comp);
-      return bstree_algo::insert_equal_lower_bound(header, new_node, comp);
+      bstree_algo::insert_equal_lower_bound(header, new_node, comp);
+      splay_up(new_node, header);
+      return new_node;
    }  
 
    //! @copydoc ::boost::intrusive::bstree_algorithms::insert_equal(node_ptr,node_ptr,node_ptr,NodePtrCompare)
@@ -453,7 +461,9 @@ class splaytree_algorithms
       (node_ptr header, node_ptr hint, node_ptr new_node, NodePtrCompare comp)
    {
       splay_down(header, new_node, comp);
-      return bstree_algo::insert_equal(header, hint, new_node, comp);
+      bstree_algo::insert_equal(header, hint, new_node, comp);
+      splay_up(new_node, header);
+      return new_node;
    }
 
    //! @copydoc ::boost::intrusive::bstree_algorithms::insert_before(node_ptr,node_ptr,node_ptr)
@@ -489,7 +499,7 @@ class splaytree_algorithms
       (node_ptr header, const KeyType &key
       ,KeyNodePtrCompare comp, insert_commit_data &commit_data)
    {
-      splay_down(header, key, comp);
+      lower_bound(header, key, comp);
       return bstree_algo::insert_unique_check(header, key, comp, commit_data);
    }
 
@@ -500,7 +510,7 @@ class splaytree_algorithms
       (node_ptr header, node_ptr hint, const KeyType &key
       ,KeyNodePtrCompare comp, insert_commit_data &commit_data)
    {
-      splay_down(header, key, comp);
+      lower_bound(header, key, comp);
       return bstree_algo::insert_unique_check(header, hint, key, comp, commit_data);
    }
 
@@ -533,6 +543,17 @@ class splaytree_algorithms
 
    /// @cond
 
+   // Splays both nodes around a bound. A search descends until the deepest of them, which can be
+   // far from the root even after splay_down, so the search is amortized logarithmic only if that
+   // node is splayed.
+   static void priv_splay_bound(node_ptr bound, node_ptr header) BOOST_NOEXCEPT
+   {
+      if(bound != NodeTraits::get_left(header))
+         splay_up(bstree_algo::prev_node(bound), header);
+      if(bound != header)
+         splay_up(bound, header);
+   }
+
    // bottom-up splay, use data_ as parent for n    | complexity : logarithmic    | exception : nothrow
    template<bool SimpleSplay>
    static void priv_splay_up(node_ptr n, node_ptr header) BOOST_NOEXCEPT
-- 
2.43.0


From b5ab77ede619d6c39271566c96530694c05b0d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 36/40] fix: list/slist remove and remove_and_dispose may throw
 from operator==, do not declare them noexcept

---
 include/boost/intrusive/list.hpp  | 4 ++--
 include/boost/intrusive/slist.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 7414ac3..e664376 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1118,7 +1118,7 @@ class list_impl
    //!
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1133,7 +1133,7 @@ class list_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index ecf54d1..b360902 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1595,7 +1595,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid. This function is
    //!   linear time: it performs exactly size() comparisons for equality.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1610,7 +1610,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
-- 
2.43.0


From a737b6ab8f2aba40c57962707786c01a52ba9b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 37/40] fix: derivation_value_traits::to_node_ptr did not
 compile with pointers other than raw pointers (const argument)

---
 include/boost/intrusive/derivation_value_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/derivation_value_traits.hpp b/include/boost/intrusive/derivation_value_traits.hpp
index 6260312..272bd9a 100644
--- a/include/boost/intrusive/derivation_value_traits.hpp
+++ b/include/boost/intrusive/derivation_value_traits.hpp
@@ -53,10 +53,10 @@ struct derivation_value_traits
    static const link_mode_type link_mode = LinkMode;
 
    BOOST_INTRUSIVE_FORCEINLINE static node_ptr to_node_ptr(reference value) BOOST_NOEXCEPT
-   { return node_ptr(&value); }
+   { return pointer_traits<node_ptr>::pointer_to(value); }
 
    BOOST_INTRUSIVE_FORCEINLINE static const_node_ptr to_node_ptr(const_reference value) BOOST_NOEXCEPT
-   { return node_ptr(&value); }
+   { return pointer_traits<const_node_ptr>::pointer_to(value); }
 
    BOOST_INTRUSIVE_FORCEINLINE static pointer to_value_ptr(node_ptr n) BOOST_NOEXCEPT
    {
-- 
2.43.0


From 0026243ca03e8fddb143f399cd83fe09b3ba5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 38/40] fix: treap rtop/crtop did not return a reverse iterator
 to the element with the highest priority

---
 include/boost/intrusive/treap.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 0514fc1..cdf6bc3 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -306,29 +306,41 @@ class treap_impl
    //! <b>Effects</b>: Returns a reverse_iterator pointing to the highest priority object of the
    //!    reversed treap.
    //!
-   //! <b>Complexity</b>: Constant.
+   //! <b>Complexity</b>: Average complexity is logarithmic.
    //!
    //! <b>Throws</b>: Nothing.
    inline reverse_iterator rtop() BOOST_NOEXCEPT
-   {  return reverse_iterator(this->top());  }
+   {
+      //A reverse iterator points to the element before its base
+      iterator it(this->top());
+      if(it != this->end())
+         ++it;
+      return reverse_iterator(it);
+   }
 
    //! <b>Effects</b>: Returns a const_reverse_iterator pointing to the highest priority objec
    //!    of the reversed treap.
    //!
-   //! <b>Complexity</b>: Constant.
+   //! <b>Complexity</b>: Average complexity is logarithmic.
    //!
    //! <b>Throws</b>: Nothing.
    inline const_reverse_iterator rtop() const BOOST_NOEXCEPT
-   {  return const_reverse_iterator(this->top());  }
+   {  return this->crtop();  }
 
    //! <b>Effects</b>: Returns a const_reverse_iterator pointing to the highest priority object
    //!    of the reversed treap.
    //!
-   //! <b>Complexity</b>: Constant.
+   //! <b>Complexity</b>: Average complexity is logarithmic.
    //!
    //! <b>Throws</b>: Nothing.
    inline const_reverse_iterator crtop() const BOOST_NOEXCEPT
-   {  return const_reverse_iterator(this->top());  }
+   {
+      //A reverse iterator points to the element before its base
+      const_iterator it(this->ctop());
+      if(it != this->cend())
+         ++it;
+      return const_reverse_iterator(it);
+   }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::bstree::container_from_end_iterator(iterator)
-- 
2.43.0


From 8d2266c6367708f4d2362963841db66292ef00dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 39/40] fix: swap and move assignment of lists and trees left
 the (stateful) value traits behind, the containers could not reach their new
 elements

---
 include/boost/intrusive/bstree.hpp | 1 +
 include/boost/intrusive/list.hpp   | 2 ++
 include/boost/intrusive/slist.hpp  | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 55d2577..228b000 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -978,6 +978,7 @@ class bstree_impl
       //These can't throw
       node_algorithms::swap_tree(this->header_ptr(), node_ptr(other.header_ptr()));
       this->sz_traits().swap(other.sz_traits());
+      ::boost::adl_move_swap(this->get_value_traits(), other.get_value_traits());
    }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index e664376..18864cc 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -37,6 +37,7 @@
 #include <boost/intrusive/detail/algorithm.hpp>
 
 #include <boost/move/utility_core.hpp>
+#include <boost/move/adl_move_swap.hpp>
 
 #include <boost/intrusive/detail/value_functors.hpp>
 #include <cstddef>   //std::size_t, etc.
@@ -551,6 +552,7 @@ class list_impl
    {
       node_algorithms::swap_nodes(this->get_root_node(), other.get_root_node());
       this->priv_size_traits().swap(other.priv_size_traits());
+      ::boost::adl_move_swap(this->priv_value_traits(), other.priv_value_traits());
    }
 
    //! <b>Effects</b>: Moves backwards all the elements, so that the first
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index b360902..53f42ce 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -41,6 +41,7 @@
 #include <boost/intrusive/detail/node_cloner_disposer.hpp>
 
 #include <boost/move/utility_core.hpp>
+#include <boost/move/adl_move_swap.hpp>
 
 #include <cstddef>   //std::size_t
 
@@ -717,6 +718,7 @@ class slist_impl
          this->priv_swap_lists(this->get_root_node(), other.get_root_node(), detail::bool_<linear>());
       }
       this->priv_size_traits().swap(other.priv_size_traits());
+      ::boost::adl_move_swap(this->priv_value_traits(), other.priv_value_traits());
    }
 
    //! <b>Effects</b>: Moves backwards all the elements, so that the first
-- 
2.43.0


From bc881d572f6677002d78205c6e11b6170ed23ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 40/40] fix: clone_from of trees and unordered containers read
 the source through the destination's (stateful) value traits

---
 include/boost/intrusive/bstree.hpp                      | 4 ++--
 include/boost/intrusive/detail/node_cloner_disposer.hpp | 8 +++++---
 include/boost/intrusive/hashtable.hpp                   | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/boost/intrusive/bstree.hpp b/include/boost/intrusive/bstree.hpp
index 228b000..e794fdc 100644
--- a/include/boost/intrusive/bstree.hpp
+++ b/include/boost/intrusive/bstree.hpp
@@ -1005,7 +1005,7 @@ class bstree_impl
          node_algorithms::clone
             (src.header_ptr()
             ,this->header_ptr()
-            ,detail::node_cloner <Cloner,    value_traits, AlgoType>(cloner,   &this->get_value_traits())
+            ,detail::node_cloner <Cloner,    value_traits, AlgoType>(cloner,   &src.get_value_traits(), &this->get_value_traits())
             ,detail::node_disposer<Disposer, value_traits, AlgoType>(disposer, &this->get_value_traits()));
          this->sz_traits().set_size(src.sz_traits().get_size());
          this->get_comp() = src.get_comp();
@@ -1043,7 +1043,7 @@ class bstree_impl
          node_algorithms::clone
             (src.header_ptr()
             ,this->header_ptr()
-            ,detail::node_cloner <Cloner,    value_traits, AlgoType, false>(cloner,   &this->get_value_traits())
+            ,detail::node_cloner <Cloner,    value_traits, AlgoType, false>(cloner,   &src.get_value_traits(), &this->get_value_traits())
             ,detail::node_disposer<Disposer, value_traits, AlgoType>(disposer, &this->get_value_traits()));
          this->sz_traits().set_size(src.sz_traits().get_size());
          this->get_comp() = src.get_comp();
diff --git a/include/boost/intrusive/detail/node_cloner_disposer.hpp b/include/boost/intrusive/detail/node_cloner_disposer.hpp
index a836699..7f00e1b 100644
--- a/include/boost/intrusive/detail/node_cloner_disposer.hpp
+++ b/include/boost/intrusive/detail/node_cloner_disposer.hpp
@@ -54,20 +54,22 @@ struct node_cloner
       <const_pointer>::reference                            const_reference;
    typedef typename if_c<IsConst, const_reference, reference>::type reference_type;
 
-   node_cloner(F f, const ValueTraits *traits)
-      :  base_t(f), traits_(traits)
+   //The source and the destination can have different (stateful) value traits
+   node_cloner(F f, const ValueTraits *src_traits, const ValueTraits *traits)
+      :  base_t(f), src_traits_(src_traits), traits_(traits)
    {}
 
    // tree-based containers use this method, which is proxy-reference friendly
    inline node_ptr operator()(node_ptr p)
    {
-      reference_type v = *traits_->to_value_ptr(p);
+      reference_type v = *src_traits_->to_value_ptr(p);
       node_ptr n = traits_->to_node_ptr(*base_t::get()(v));
       //Cloned node must be in default mode if the linking mode requires it
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(n));
       return n;
    }
 
+   const ValueTraits * const src_traits_;
    const ValueTraits * const traits_;
 };
 
diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 9e2b6fa..2d7f7e0 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4001,7 +4001,7 @@ class hashtable_impl
             for(; b != e; ++b){
                //No need to check for duplicates and insert it in the first position
                //as this is an unordered container. So use minimal insertion code
-               std::size_t const hash_to_store = this->priv_stored_or_compute_hash(*b, store_hash_t());
+               std::size_t const hash_to_store = src.priv_stored_or_compute_hash(*b, store_hash_t());
                size_type const bucket_number = this->priv_hash_to_nbucket(hash_to_store);
                typedef typename detail::if_c
                   <detail::is_const<MaybeConstHashtableImpl>::value, const_reference, reference>::type reference_type;
@@ -4047,7 +4047,7 @@ class hashtable_impl
          for( siterator b(this->priv_bucket_lbegin(src_b)), e(this->priv_bucket_lend(src_b)); b != e; ++b){
             typedef typename detail::if_c
                <detail::is_const<MaybeConstHashtableImpl>::value, const_reference, reference>::type reference_type;
-            reference_type r = this->priv_value_from_siterator(b);
+            reference_type r = src.priv_value_from_siterator(b);
             this->priv_clone_front_in_bucket<reference_type>
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
-- 
2.43.0

