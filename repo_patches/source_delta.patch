From a6e1339bb7a9a7eb5ff8031b2cbfde4245437c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:32 +0000
Subject: [PATCH 01/23] fix: decide key equality with the comparator

Lookups, insertions, range erase and separator updates compared keys with
operator== although ordering is defined by Compare. With a comparator whose
equivalence is coarser than == (e.g. case-insensitive strings) duplicates
were inserted and existing keys were reported missing.
---
 include/fast_containers/btree.ipp     | 15 ++++++++-------
 include/fast_containers/dense_map.ipp | 10 +++++-----
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..ace875c 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -366,7 +366,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -377,7 +377,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -688,8 +688,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
-    // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    // Check if we've reached the 'last' position by comparing keys (keys before
+    // 'last' all order before it)
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -927,7 +928,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
@@ -1112,7 +1113,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (it->first != new_min) {
+    if (comp_(new_min, it->first)) {
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
       children.unsafe_update_key(it, new_min);
@@ -1120,7 +1121,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
-    if (it->second == child && it->first != new_min) {
+    if (it->second == child && comp_(it->first, new_min)) {
       is_leftmost = (it == children.begin());
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..f1d4f5f 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -367,7 +367,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -388,7 +388,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -442,7 +442,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -462,7 +462,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -697,7 +697,7 @@ std::pair<
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From 5a84ef88f4fe3147d583fb0579a7a230f8b4628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 02/23] fix: build a dense_map element before shifting the
 arrays

insert, insert_hint, try_emplace, insert_or_assign and operator[] shifted
keys and values before reading their arguments, so an argument referring to
an element was read after it had been overwritten, and a throwing value copy
left duplicated or moved-from elements behind. try_emplace also constructed
over a live object, leaking whatever the slot still owned.
---
 include/fast_containers/dense_map.hpp |  4 +-
 include/fast_containers/dense_map.ipp | 56 +++++++++++++++------------
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..74adae8 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -442,10 +442,10 @@ class dense_map {
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
    */
-  template <typename OnExists, typename OnInsert>
+  template <typename OnExists, typename MakeValue>
   std::pair<iterator, bool> insert_impl(size_type idx, const Key& key,
                                         OnExists&& on_exists,
-                                        OnInsert&& on_insert);
+                                        MakeValue&& make_value);
 
 #ifdef __AVX2__
   /**
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f1d4f5f..a40895e 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -145,9 +145,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
+      [&value]() -> const Value& {
+        // New value is a copy of the given one
+        return value;
       });
 }
 
@@ -190,9 +190,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
+      [&value]() -> const Value& {
+        // New value is a copy of the given one
+        return value;
       });
 }
 
@@ -223,10 +223,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
+      [&args...]() -> Value {
+        // Construct value on-demand using provided arguments
+        return Value(std::forward<Args>(args)...);
       });
 }
 
@@ -254,9 +253,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
-        // Insert new value
-        values_[idx] = std::forward<M>(value);
+      [&value]() -> M&& {
+        // Forward the value for insertion
+        return std::forward<M>(value);
       });
 }
 
@@ -335,6 +334,10 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // Materialize the new element before shifting (key may refer to an element)
+  Key new_key(key);
+  Value new_value{};
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -342,8 +345,8 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
                      values_.data() + size_ + 1);
 
   // Insert with default-constructed value
-  keys_[idx] = key;
-  values_[idx] = Value{};
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
   ++size_;
 
   return values_[idx];
@@ -683,19 +686,20 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param make_value Callback providing the value to insert: () -> value
+ *                   Only called if the key does not exist
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
           SearchMode SearchModeT>
   requires ComparatorCompatible<Key, Compare>
-template <typename OnExists, typename OnInsert>
+template <typename OnExists, typename MakeValue>
 std::pair<
     typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator,
     bool>
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
-    size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
+    size_type idx, const Key& key, OnExists&& on_exists,
+    MakeValue&& make_value) {
   // Check if key exists at this position
   if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
@@ -707,17 +711,21 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Materialize the new element before shifting: the arguments may refer to
+  // elements of this array, and if construction throws the array must be left
+  // unchanged
+  Key new_key(key);
+  Value new_value(std::forward<MakeValue>(make_value)());
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
   std::move_backward(values_.data() + idx, values_.data() + size_,
                      values_.data() + size_ + 1);
 
-  // Insert the key
-  keys_[idx] = key;
-
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  // Assign into the vacated slot (which holds a live, moved-from element)
+  keys_[idx] = std::move(new_key);
+  values_[idx] = std::move(new_value);
 
   ++size_;
 
-- 
2.43.0


From ce2c9dde14c378bebaae41509bd215fa1cfd1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 03/23] fix: read btree insert arguments before splitting the
 leaf

split_leaf_and_insert fetched the value only after the upper half of the leaf
had been moved out, so a key or value referring to an element of that leaf was
read in its moved-from state, and a throwing value constructor left a leaf that
its parent did not know about. The separator update also re-read the caller's
key after the shift.
---
 include/fast_containers/btree.ipp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index ace875c..069976d 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -847,6 +847,12 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
+  // Materialize the new element before modifying the tree: the arguments may
+  // refer to elements of this leaf, and if construction throws the tree must be
+  // left unchanged
+  const Key new_key(key);
+  Value value(std::forward<GetValue>(get_value)());
+
   // Create new leaf for right half
   leaf_node* new_leaf = allocate_leaf_node();
 
@@ -875,14 +881,11 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key& promoted_key = new_leaf->data.begin()->first;
 
   // Determine target leaf
-  leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
-
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
+  leaf_node* target_leaf = comp_(new_key, promoted_key) ? leaf : new_leaf;
 
-  // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  // Insert the new key-value pair into appropriate leaf (moves the value)
+  auto [leaf_it, inserted] =
+      target_leaf->data.try_emplace(new_key, std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
@@ -948,7 +951,9 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // If we inserted at the beginning and leaf has a parent, update parent key
   if (leaf_it == leaf->data.begin() && leaf->parent != nullptr) {
-    update_parent_key_recursive(leaf, key);
+    // (not from key, which may refer to a value that has just been shifted)
+    const Key& new_min = leaf_it->first;
+    update_parent_key_recursive(leaf, new_min);
   }
 
   return {iterator(leaf, leaf_it), true};
-- 
2.43.0


From d4e9d41d52db02ec6da935d063c3576736609cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 04/23] fix: allocate all nodes of a btree split before
 modifying the tree

If the allocation of an internal node failed after the leaf had been split,
the new leaf stayed linked without a parent and the tree was corrupt. clear()
deallocated the old tree before allocating the new root, a throwing copy
constructor leaked the nodes built so far, and a throwing node constructor
leaked the node's memory.
---
 include/fast_containers/btree.hpp |  21 +++++-
 include/fast_containers/btree.ipp | 115 +++++++++++++++++++++++++-----
 2 files changed, 115 insertions(+), 21 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..2e64cbd 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1034,24 +1034,39 @@ class btree {
                                                   const Key& key,
                                                   GetValue&& get_value);
 
+  /**
+   * Allocate every internal node that inserting a sibling next to leaf will
+   * consume: one per full ancestor, plus a new root if all of them are full.
+   * Returned as a list linked through parent, in the order insert_into_parent()
+   * takes them. On failure nothing stays allocated.
+   */
+  internal_node* reserve_internal_nodes(const leaf_node* leaf);
+
+  /**
+   * Deallocate a list of internal nodes linked through parent.
+   */
+  void deallocate_reserved_nodes(internal_node* reserved);
+
   /**
    * Insert a promoted key and child pointer into a parent node.
    * If parent is full, splits it recursively.
    * If node has no parent, creates a new root.
+   * New internal nodes are taken from reserved, so this does not allocate.
    *
    * Templated to handle both leaf_node and internal_node children.
    */
   template <typename NodeType>
   void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
+                          NodeType* right_child, internal_node*& reserved);
 
   /**
    * Split a full internal node.
-   * Creates a new internal node and moves half the children to it.
+   * Takes a new internal node from reserved and moves half the children to it.
    * Returns a reference to the promoted key and pointer to the new node.
    * The key reference points to the first key in the new node's children.
    */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  std::pair<const Key&, internal_node*> split_internal(
+      internal_node* node, internal_node*& reserved);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 069976d..c200ca3 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -58,8 +58,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Always allocate an empty root leaf, then copy all elements
 
   // Copy all elements using insert (use const iterators)
-  for (const_iterator it = other.begin(); it != other.end(); ++it) {
-    insert(it->first, it->second);
+  try {
+    for (const_iterator it = other.begin(); it != other.end(); ++it) {
+      insert(it->first, it->second);
+    }
+  } catch (...) {
+    deallocate_tree();
+    throw;
   }
 }
 
@@ -715,7 +720,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::allocate_leaf_node() {
   using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
   leaf_node* node = leaf_alloc_.allocate(1);
-  leaf_alloc_traits::construct(leaf_alloc_, node);
+  try {
+    leaf_alloc_traits::construct(leaf_alloc_, node);
+  } catch (...) {
+    leaf_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -731,7 +741,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   using internal_alloc_traits =
       std::allocator_traits<decltype(internal_alloc_)>;
   internal_node* node = internal_alloc_.allocate(1);
-  internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  try {
+    internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  } catch (...) {
+    internal_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -775,11 +790,12 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Just clear the root leaf's data
     leaf_root_->data.clear();
   } else {
+    // Allocate new empty leaf root first, in case that fails
+    leaf_node* new_root = allocate_leaf_node();
+
     // Deallocate internal tree and reset to empty leaf root
     deallocate_internal_subtree(internal_root_);
-
-    // Allocate new empty leaf root
-    leaf_root_ = allocate_leaf_node();
+    leaf_root_ = new_root;
     root_is_leaf_ = true;
     leftmost_leaf_ = leaf_root_;
     rightmost_leaf_ = leaf_root_;
@@ -853,8 +869,16 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   const Key new_key(key);
   Value value(std::forward<GetValue>(get_value)());
 
-  // Create new leaf for right half
-  leaf_node* new_leaf = allocate_leaf_node();
+  // Create new leaf for right half, and all internal nodes the split can need.
+  // Nothing below allocates, so a failed allocation leaves the tree unchanged.
+  internal_node* reserved = reserve_internal_nodes(leaf);
+  leaf_node* new_leaf = nullptr;
+  try {
+    new_leaf = allocate_leaf_node();
+  } catch (...) {
+    deallocate_reserved_nodes(reserved);
+    throw;
+  }
 
   // Calculate split point (ceil(LeafNodeSize / 2))
   const size_type split_point = (LeafNodeSize + 1) / 2;
@@ -893,7 +917,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   size_++;
 
   // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
+  insert_into_parent(leaf, promoted_key, new_leaf, reserved);
 
   // If we inserted into the left half, update parent key if necessary
   if (target_leaf == leaf) {
@@ -959,6 +983,56 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   return {iterator(leaf, leaf_it), true};
 }
 
+// reserve_internal_nodes
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::reserve_internal_nodes(const leaf_node* leaf) {
+  internal_node* reserved = nullptr;
+  internal_node** tail = &reserved;
+  try {
+    // One node per full ancestor, bottom-up
+    bool children_are_leaves = true;
+    const internal_node* node = leaf->parent;
+    while (node != nullptr) {
+      const size_type node_size = children_are_leaves
+                                      ? node->leaf_children.size()
+                                      : node->internal_children.size();
+      if (node_size < InternalNodeSize) {
+        return reserved;
+      }
+      *tail = allocate_internal_node(children_are_leaves);
+      tail = &(*tail)->parent;
+      children_are_leaves = false;
+      node = node->parent;
+    }
+    // Every ancestor splits - a new root is needed
+    *tail = allocate_internal_node(children_are_leaves);
+  } catch (...) {
+    deallocate_reserved_nodes(reserved);
+    throw;
+  }
+  return reserved;
+}
+
+// deallocate_reserved_nodes
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+           Allocator>::deallocate_reserved_nodes(internal_node* reserved) {
+  while (reserved != nullptr) {
+    internal_node* next = reserved->parent;
+    deallocate_internal_node(reserved);
+    reserved = next;
+  }
+}
+
 // insert_into_parent
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
@@ -967,7 +1041,8 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 template <typename NodeType>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
-                                          NodeType* right_child) {
+                                          NodeType* right_child,
+                                          internal_node*& reserved) {
   // Helper lambda to get appropriate children array reference
   auto get_children = [](internal_node* node) -> auto& {
     if constexpr (std::is_same_v<NodeType, leaf_node>) {
@@ -991,8 +1066,9 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Case 1: left_child is root - create new root
   if (left_child->parent == nullptr) {
-    constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
-    internal_node* new_root = allocate_internal_node(children_are_leaves);
+    internal_node* new_root = reserved;
+    reserved = new_root->parent;
+    new_root->parent = nullptr;
 
     auto& children = get_children(new_root);
     auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
@@ -1015,7 +1091,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Check if parent is full
   if (parent_children.size() >= InternalNodeSize) {
     // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
+    auto [promoted_key, new_parent] = split_internal(parent, reserved);
 
     // Determine which parent to insert into
     internal_node* target_parent =
@@ -1027,7 +1103,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     assert(inserted && "Insert into non-full parent should succeed");
 
     // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
+    insert_into_parent(parent, promoted_key, new_parent, reserved);
   } else {
     // Parent has space - insert normally
     right_child->parent = parent;
@@ -1045,9 +1121,12 @@ std::pair<const Key&,
           typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
                          SearchModeT, Allocator>::internal_node*>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
-  // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
+      Allocator>::split_internal(internal_node* node,
+                                 internal_node*& reserved) {
+  // Take a new internal node (reserved with matching children_are_leaves)
+  internal_node* new_node = reserved;
+  reserved = new_node->parent;
+  new_node->parent = nullptr;
 
   // Calculate split point
   const size_type split_point = (InternalNodeSize + 1) / 2;
-- 
2.43.0


From bba796087a30824595d90de5b24662e4e533ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 05/23] fix: make the hugepage allocators movable, assignable
 and swappable

Moving a MultiSizeHugePageAllocator nulled its pool, so every moved-from
container crashed on its next allocation. PolicyBasedHugePageAllocator
declared propagate_on_container_move_assignment but could not be assigned.
None of them propagated on swap although they are stateful.
---
 include/fast_containers/hugepage_allocator.hpp |  1 +
 .../multi_size_hugepage_allocator.hpp          | 18 ++++++++++++++++++
 .../policy_based_hugepage_allocator.hpp        |  3 ++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/hugepage_allocator.hpp b/include/fast_containers/hugepage_allocator.hpp
index 34b58fa..bb6dd99 100644
--- a/include/fast_containers/hugepage_allocator.hpp
+++ b/include/fast_containers/hugepage_allocator.hpp
@@ -52,6 +52,7 @@ class HugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Since n==1 is required, these are compile-time constants
diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..0d1fe8f 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -61,6 +61,7 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;  // Stateful allocator
 
   /**
@@ -72,6 +73,23 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  /**
+   * Copy constructor - shares the same pool. Also used for moves: a moved-from
+   * allocator must stay usable.
+   */
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+
+  /**
+   * Copy assignment - shares the same pool. Also used for moves.
+   */
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+
+  /**
+   * Destructor - shared_ptr automatically manages pool lifetime
+   */
+  ~MultiSizeHugePageAllocator() = default;
+
   /**
    * Copy constructor (different type).
    *
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..83e3d4d 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -131,6 +131,7 @@ class PolicyBasedHugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Cache line size for alignment (typical x86-64 cache line)
@@ -264,7 +265,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From af4f10832f1af0414cc9c512be98d2273084a49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 06/23] fix: keep btree nodes with their allocator on move
 assignment and swap

Move assignment and swap exchanged the nodes but not the allocators, so nodes
were returned to a pool they did not come from, and could outlive the pool
that owned their memory.
---
 include/fast_containers/btree.ipp | 43 +++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index c200ca3..f01b0c5 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -127,9 +127,41 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::operator=(btree&& other) noexcept {
   if (this != &other) {
+    using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
+    using internal_alloc_traits =
+        std::allocator_traits<decltype(internal_alloc_)>;
+
+    // Nodes must be returned to the allocator they came from: if other's
+    // allocators are not taken over, its nodes cannot be either unless the
+    // allocators are interchangeable
+    if constexpr (!(leaf_alloc_traits::propagate_on_container_move_assignment::
+                        value &&
+                    internal_alloc_traits::
+                        propagate_on_container_move_assignment::value)) {
+      if (leaf_alloc_ != other.leaf_alloc_ ||
+          internal_alloc_ != other.internal_alloc_) {
+        clear();
+        for (iterator it = other.begin(); it != other.end(); ++it) {
+          try_emplace(it->first, std::move(it->second));
+        }
+        other.clear();
+        return *this;
+      }
+    }
+
     // Deallocate existing tree (including root)
     deallocate_tree();
 
+    // Take over other's allocators along with its nodes (copied, as other keeps
+    // using them for its new root)
+    if constexpr (leaf_alloc_traits::propagate_on_container_move_assignment::
+                      value &&
+                  internal_alloc_traits::
+                      propagate_on_container_move_assignment::value) {
+      leaf_alloc_ = other.leaf_alloc_;
+      internal_alloc_ = other.internal_alloc_;
+    }
+
     // Move other's resources to this
     root_is_leaf_ = other.root_is_leaf_;
     if (root_is_leaf_) {
@@ -204,6 +236,17 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   }
 
+  // Swap allocators, so that nodes stay with the allocator they came from
+  using std::swap;
+  if constexpr (std::allocator_traits<decltype(leaf_alloc_)>::
+                    propagate_on_container_swap::value) {
+    swap(leaf_alloc_, other.leaf_alloc_);
+  }
+  if constexpr (std::allocator_traits<decltype(internal_alloc_)>::
+                    propagate_on_container_swap::value) {
+    swap(internal_alloc_, other.internal_alloc_);
+  }
+
   // Swap other members
   std::swap(root_is_leaf_, other.root_is_leaf_);
   std::swap(size_, other.size_);
-- 
2.43.0


From 3d080a4d6cfc08016b3c10e876c2d66f127377e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 07/23] fix: grow the pool by at least the requested block

grow() always mapped growth_size_ bytes, and allocate() then carved the block
out of the new region without checking that it fits, handing out memory beyond
the mapping (e.g. a 5MB vector from 1MB pools). The capacity check could also
overflow for huge requests.
---
 include/fast_containers/hugepage_pool.hpp | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..d6a84dc 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,8 +6,11 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -52,6 +55,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   static constexpr size_type hugepage_size = 2UL * 1024 * 1024;  // 2MB
+  static constexpr size_type min_page_size = 4096;
 
   struct memory_region {
     std::byte* base = nullptr;
@@ -192,8 +196,8 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type padding = aligned - current;
 
     // Grow pool if needed
-    if (bytes_remaining_ < bytes + padding) {
-      grow();
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+      grow(bytes, alignment);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -302,20 +306,30 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
+   * Grow the pool by allocating a new region of growth_size_, or larger if
+   * needed to hold the requested block.
    * Called when current region is exhausted.
    */
-  void grow() {
+  void grow(size_type bytes, size_type alignment) {
+    // The new region must hold the requested block even if that is larger than
+    // the growth size (regions start at page boundaries)
+    const size_type max_padding =
+        alignment > min_page_size ? alignment - min_page_size : 0;
+    if (bytes > std::numeric_limits<size_type>::max() - max_padding) {
+      throw std::bad_alloc();
+    }
+    const size_type region_size = std::max(growth_size_, bytes + max_padding);
+
     memory_region new_region;
 
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(region_size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(region_size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(region_size);
     }
 
     regions_.push_back(new_region);
-- 
2.43.0


From fd3171530297214194bf067895b1e4e6f3cf454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 08/23] fix: reuse freed pool blocks only for requests they can
 satisfy

The free list ignored block sizes and alignment, so a pool shared by users
with different block sizes (e.g. two trees on one TwoPoolPolicy) handed out
blocks smaller than requested, which overlapped their neighbours.
---
 include/fast_containers/hugepage_pool.hpp | 45 ++++++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index d6a84dc..2e4b39c 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -45,7 +45,8 @@ inline constexpr bool allocator_stats_enabled = false;
  *
  * Implementation notes:
  * - Not thread-safe (add locking if needed for concurrent use)
- * - Intrusive free list: freed blocks store next pointer in-place
+ * - Intrusive free list per block size: freed blocks store next pointer
+ *   in-place
  * - Requires allocated size >= sizeof(void*) for free list
  * - Memory is allocated on NUMA node via first-touch policy during pre-faulting
  */
@@ -62,6 +63,12 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type size = 0;
   };
 
+  // Intrusive list of the freed blocks of one size
+  struct free_list {
+    size_type block_size = 0;
+    void* head = nullptr;
+  };
+
   /**
    * Statistics tracked by the pool.
    * Only populated when allocator_stats_enabled is true.
@@ -108,7 +115,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  std::vector<free_list> free_lists_;  // One per block size in use
   stats stats_;
 
  public:
@@ -177,13 +184,17 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    // (a block is only reused for a request of its size, suitably aligned)
+    for (void** link = &free_list_for(bytes); *link != nullptr;
+         link = reinterpret_cast<void**>(*link)) {
+      void* ptr = *link;
+      if (reinterpret_cast<uintptr_t>(ptr) % alignment == 0) {
+        *link = *reinterpret_cast<void**>(ptr);
 
-      stats_.record_allocation(bytes);
+        stats_.record_allocation(bytes);
 
-      return ptr;
+        return ptr;
+      }
     }
 
     // Allocate from pool
@@ -221,7 +232,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
    * Deallocate raw memory.
    *
    * @param ptr Pointer to memory to deallocate
-   * @param bytes Number of bytes (for statistics tracking)
+   * @param bytes Number of bytes, as passed to allocate()
    */
   void deallocate(void* ptr, size_type bytes) {
     if (ptr == nullptr || bytes == 0) {
@@ -229,8 +240,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    void*& free_list_head = free_list_for(bytes);
+    *reinterpret_cast<void**>(ptr) = free_list_head;
+    free_list_head = ptr;
 
     stats_.record_deallocation(bytes);
   }
@@ -305,6 +317,19 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   [[nodiscard]] size_type get_peak_usage() const { return stats_.peak_usage; }
 
  private:
+  /**
+   * Get the head of the free list for blocks of the given size. The list is
+   * created when a size is first allocated, so deallocate() finds it.
+   */
+  void*& free_list_for(size_type bytes) {
+    for (free_list& list : free_lists_) {
+      if (list.block_size == bytes) {
+        return list.head;
+      }
+    }
+    return free_lists_.emplace_back(bytes, nullptr).head;
+  }
+
   /**
    * Grow the pool by allocating a new region of growth_size_, or larger if
    * needed to hold the requested block.
-- 
2.43.0


From 82a181bf95733d9e3f4c2b3481deb628f72391e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 09/23] fix: do not lose a mapped region when recording it
 fails

If regions_ could not grow, the region that had just been mapped was never
unmapped.
---
 include/fast_containers/hugepage_pool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index 2e4b39c..a7f3653 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -135,6 +135,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
                         bool use_hugepages = true,
                         size_type growth_size = 64UL * 1024 * 1024)
       : initial_size_(initial_size), growth_size_(growth_size) {
+    // Reserve the bookkeeping first, so that a mapped region is never lost
+    regions_.reserve(1);
+
     // Allocate initial region
     memory_region initial_region;
 
@@ -345,6 +348,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
     const size_type region_size = std::max(growth_size_, bytes + max_padding);
 
+    // Reserve the bookkeeping first, so that a mapped region is never lost
+    regions_.reserve(regions_.size() + 1);
+
     memory_region new_region;
 
     if (using_hugepages_) {
-- 
2.43.0


From 9e04b227f7f62d82ab6ee3ada4a1ce85452cfc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 10/23] fix: do not register a size class whose pool cannot be
 created

A failed pool construction left a null entry in the pool map, which was
counted as an active size class and exposed through get_pools().
---
 .../fast_containers/multi_size_hugepage_pool.hpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..7e690a2 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -125,15 +125,18 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-    auto& pool = pools_[size_class];
-    if (!pool) {
-      pool = std::make_unique<HugePagePool>(
-          initial_size_per_pool_, use_hugepages_, growth_size_per_pool_);
+    auto it = pools_.find(size_class);
+    if (it == pools_.end()) {
+      it = pools_
+               .emplace(size_class, std::make_unique<HugePagePool>(
+                                        initial_size_per_pool_, use_hugepages_,
+                                        growth_size_per_pool_))
+               .first;
     }
 
     // Allocate from size-specific pool
     // Each pool only handles uniform-sized blocks, so free list works!
-    return pool->allocate(size_class, alignment);
+    return it->second->allocate(size_class, alignment);
   }
 
   /**
-- 
2.43.0


From 50f16907d4f3485ff2f032c954e318116a430f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 11/23] fix: reject unrepresentable multi-size allocation
 requests

n * sizeof(T) could wrap around, returning a block far smaller than requested,
and rounding sizes above 2^63 up to a power of two is undefined.
---
 include/fast_containers/multi_size_hugepage_allocator.hpp | 6 ++++++
 include/fast_containers/multi_size_hugepage_pool.hpp      | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 0d1fe8f..f3988c0 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -5,7 +5,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -114,6 +116,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > std::numeric_limits<size_type>::max() / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index 7e690a2..a024f36 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -6,7 +6,9 @@
 
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <unordered_map>
 
 #include "hugepage_pool.hpp"
@@ -122,6 +124,11 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    // Beyond this the size class is not representable
+    if (bytes > std::numeric_limits<size_type>::max() / 2) {
+      throw std::bad_alloc();
+    }
+
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-- 
2.43.0


From a8cd8e8b15b1890588e149f8e14058e4d7965b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 12/23] fix: release the values of erased elements

Erasing the last element of a dense_map (or a btree leaf), clearing it, or
assigning a smaller map left the erased values alive in the vacated slots, so
e.g. shared_ptr values kept their objects alive until the slot was reused or
the container destroyed.
---
 include/fast_containers/dense_map.hpp | 19 ++++++++++++++++++-
 include/fast_containers/dense_map.ipp |  4 ++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 74adae8..89057fe 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -369,7 +369,11 @@ class dense_map {
   [[nodiscard]] bool empty() const { return size_ == 0; }
   [[nodiscard]] bool full() const { return size_ == Length; }
 
-  void clear() { size_ = 0; }
+  void clear() {
+    const size_type old_size = size_;
+    size_ = 0;
+    release_values(0, old_size);
+  }
 
   /**
    * Split this array at the given position, moving elements to output array.
@@ -438,6 +442,19 @@ class dense_map {
       size_type count);
 
  private:
+  /**
+   * Release what the values in the vacated slots [first, last) still own.
+   * The slots keep live (moved-from) objects, ready to be assigned to.
+   */
+  void release_values(size_type first, size_type last) {
+    if constexpr (!std::is_trivially_destructible_v<Value> &&
+                  std::is_nothrow_move_constructible_v<Value>) {
+      for (size_type i = first; i < last; ++i) {
+        [[maybe_unused]] const Value released(std::move(values_[i]));
+      }
+    }
+  }
+
   /**
    * Common implementation for all insert operations.
    * Handles key existence check, shifting, and insertion logic.
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index a40895e..4f138cc 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,6 +69,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
+    const size_type old_size = size_;
     size_ = other.size_;
     // Copy only the active elements
     if (size_ > 0) {
@@ -77,6 +78,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
       std::copy(other.values_.begin(), other.values_.begin() + size_,
                 values_.begin());
     }
+    release_values(size_, old_size);
   }
   return *this;
 }
@@ -96,6 +98,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     dense_map&& other) noexcept {
   if (this != &other) {
+    const size_type old_size = size_;
     size_ = other.size_;
     // Move the active elements
     if (size_ > 0) {
@@ -103,6 +106,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
       std::move(other.values_.data(), other.values_.data() + size_,
                 values_.data());
     }
+    release_values(size_, old_size);
     // Leave other in valid empty state
     other.size_ = 0;
   }
-- 
2.43.0


From 8dab2eb3e4ad4f40bfd07b11a28531362edec427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 13/23] fix: make difference + iterator usable for dense_map
 iterators

The non-member operator+ could never be called: its parameters were nested in
a dependent type, from which nothing can be deduced.
---
 include/fast_containers/dense_map.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index 89057fe..25f26a8 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -605,6 +605,12 @@ class dense_map {
       return dense_map_iterator(array_, index_ + n);
     }
 
+    // Non-member operator+ for difference + iterator
+    friend dense_map_iterator operator+(difference_type n,
+                                        const dense_map_iterator& it) {
+      return it + n;
+    }
+
     dense_map_iterator operator-(difference_type n) const {
       return dense_map_iterator(array_, index_ - n);
     }
@@ -659,18 +665,6 @@ class dense_map {
   };
 };
 
-// Non-member operator+ for iterator + difference
-template <typename Key, typename Value, std::size_t Length, typename Compare,
-          SearchMode SearchModeT, bool IsConst>
-typename dense_map<Key, Value, Length, Compare,
-                   SearchModeT>::template dense_map_iterator<IsConst>
-operator+(typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>::difference_type n,
-          const typename dense_map<Key, Value, Length, Compare, SearchModeT>::
-              template dense_map_iterator<IsConst>& it) {
-  return it + n;
-}
-
 }  // namespace kressler::fast_containers
 
 // Include implementation
-- 
2.43.0


From b9fe9d5b7618226b976cd717d5cf93f2fff6b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 14/23] fix: release the value left in the slot vacated by
 erase

Erasing the last element of a dense_map (or of a btree leaf) kept the erased
value alive in the vacated slot until the slot was reused.
---
 include/fast_containers/dense_map.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 4f138cc..57f86a2 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -283,6 +283,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::erase(iterator pos) {
   std::move(values_.data() + idx + 1, values_.data() + size_,
             values_.data() + idx);
   --size_;
+  release_values(size_, size_ + 1);
 
   // Return iterator to element following the erased element
   // (same index, since everything shifted left)
-- 
2.43.0


From 25646c430ea89513d9aedc7d2a9596c95bc27aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 15/23] fix: report whether any multi-size pool actually uses
 hugepages

---
 include/fast_containers/multi_size_hugepage_pool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index a024f36..a416b31 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <bit>
 #include <cstddef>
 #include <limits>
@@ -172,7 +173,11 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
    *
    * @return true if hugepages were successfully enabled
    */
-  [[nodiscard]] bool using_hugepages() const { return use_hugepages_; }
+  [[nodiscard]] bool using_hugepages() const {
+    return std::any_of(pools_.begin(), pools_.end(), [](const auto& entry) {
+      return entry.second->using_hugepages();
+    });
+  }
 
   /**
    * Get number of active size classes (pools created).
-- 
2.43.0


From cd7b9735916e98b1c9732456413ebc5b25132542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 16/23] fix: align pool blocks for the free list pointer

---
 include/fast_containers/hugepage_pool.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index a7f3653..6ffa28a 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -186,6 +186,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    // Freed blocks store a pointer in-place
+    alignment = std::max(alignment, alignof(void*));
+
     // Try to allocate from free list first
     // (a block is only reused for a request of its size, suitably aligned)
     for (void** link = &free_list_for(bytes); *link != nullptr;
-- 
2.43.0


From 1f5163740d3d70d0870f32905bbcd04fe93521bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 17/23] fix: btree_stress divides by zero with batch sizes
 below 10

---
 src/binary/btree_stress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/btree_stress.cpp b/src/binary/btree_stress.cpp
index 5a4142d..b82c6ad 100644
--- a/src/binary/btree_stress.cpp
+++ b/src/binary/btree_stress.cpp
@@ -140,7 +140,7 @@ int main(int argc, char** argv) {
     find();
     validate();
 
-    size_t validate_every = batch_size / 10;
+    size_t validate_every = std::max<size_t>(1, batch_size / 10);
     // Run erase/insert batches
     for (size_t batch = 0; batch < batches; ++batch) {
       for (size_t i = 0; i < batch_size; ++i) {
-- 
2.43.0


From af3baf230a2d9e4aa12105de3207d1b9166154d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 18/23] fix: btree_stress erases from an empty set when a batch
 exceeds the tree

---
 src/binary/btree_stress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/btree_stress.cpp b/src/binary/btree_stress.cpp
index b82c6ad..353281b 100644
--- a/src/binary/btree_stress.cpp
+++ b/src/binary/btree_stress.cpp
@@ -143,7 +143,7 @@ int main(int argc, char** argv) {
     size_t validate_every = std::max<size_t>(1, batch_size / 10);
     // Run erase/insert batches
     for (size_t batch = 0; batch < batches; ++batch) {
-      for (size_t i = 0; i < batch_size; ++i) {
+      for (size_t i = 0; i < batch_size && !seen.empty(); ++i) {
         remove();
         if (i % validate_every == 0) {
           find();
-- 
2.43.0


From af9b4f795c9e253d6b0f9e14cdada4879707516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:14 +0000
Subject: [PATCH 19/23] fix: btree_stress draws tree sizes from an empty range
 if min-keys > max-keys

---
 src/binary/btree_stress.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binary/btree_stress.cpp b/src/binary/btree_stress.cpp
index 353281b..2ef1c6e 100644
--- a/src/binary/btree_stress.cpp
+++ b/src/binary/btree_stress.cpp
@@ -59,6 +59,11 @@ int main(int argc, char** argv) {
     return 0;
   }
 
+  if (min_keys > max_keys) {
+    std::cerr << "Minimum keys must not exceed maximum keys" << std::endl;
+    exit(1);
+  }
+
   std::uniform_int_distribution<size_t> num_key_dist(min_keys, max_keys);
   for (size_t iter = 0; iter < target_iterations; ++iter) {
     std::mt19937 rng(iter + seed);
-- 
2.43.0


From e3bf811853837a57e0e4cc814784f750af3ba91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:08 +0000
Subject: [PATCH 20/23] fix: btree_8_256_*_hp benchmarks measured 32 byte
 values

---
 src/binary/btree_benchmark.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/btree_benchmark.cpp b/src/binary/btree_benchmark.cpp
index ba0925a..f79eea2 100644
--- a/src/binary/btree_benchmark.cpp
+++ b/src/binary/btree_benchmark.cpp
@@ -343,7 +343,7 @@ int main(int argc, char** argv) {
              make_two_pool_allocator<int64_t, std::array<std::byte, 256>>(
                  64ul * 1024ul * 1024ul, 64ul * 1024ul * 1024ul);
          benchmarker(
-             btree<int64_t, std::array<std::byte, 32>, 8, 128,
+             btree<int64_t, std::array<std::byte, 256>, 8, 128,
                    std::less<int64_t>, SearchMode::Linear, decltype(alloc)>{
                  alloc},
              stats);
@@ -362,7 +362,7 @@ int main(int argc, char** argv) {
              make_two_pool_allocator<int64_t, std::array<std::byte, 256>>(
                  64ul * 1024ul * 1024ul, 64ul * 1024ul * 1024ul);
          benchmarker(
-             btree<int64_t, std::array<std::byte, 32>, 8, 128,
+             btree<int64_t, std::array<std::byte, 256>, 8, 128,
                    std::less<int64_t>, SearchMode::SIMD, decltype(alloc)>{
                  alloc},
              stats);
-- 
2.43.0


From 8ddcdcf4ad0517d4aa03301b032577d97c4b9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 21/23] fix: btree_benchmark printed pool statistics in front
 of its JSON output

---
 src/binary/btree_benchmark.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/binary/btree_benchmark.cpp b/src/binary/btree_benchmark.cpp
index f79eea2..a8602d9 100644
--- a/src/binary/btree_benchmark.cpp
+++ b/src/binary/btree_benchmark.cpp
@@ -69,10 +69,11 @@ struct std::hash<std::array<int64_t, N>> {
 auto print_pool_stats = [](const HugePagePool& pool,
                            std::string_view name) -> void {
 #ifdef ALLOCATOR_STATS
-  std::cout << name << " pool stats:\n";
-  std::println("a: {}, d: {}, g: {}, b: {}, p: {}", pool.get_allocations(),
-               pool.get_deallocations(), pool.get_growth_events(),
-               pool.get_bytes_allocated(), pool.get_peak_usage());
+  std::cerr << name << " pool stats:\n";
+  std::println(stderr, "a: {}, d: {}, g: {}, b: {}, p: {}",
+               pool.get_allocations(), pool.get_deallocations(),
+               pool.get_growth_events(), pool.get_bytes_allocated(),
+               pool.get_peak_usage());
 #endif
 };
 
@@ -80,16 +81,17 @@ auto print_multi_size_pool_stats =
     [](const std::shared_ptr<MultiSizeHugePagePool>& pool,
        std::string_view name) -> void {
 #ifdef ALLOCATOR_STATS
-  std::cout << name << " multi-size pool stats:\n";
-  std::println("  Active size classes: {}", pool->active_size_classes());
-  std::println("  Using hugepages: {}", pool->using_hugepages());
+  std::cerr << name << " multi-size pool stats:\n";
+  std::println(stderr, "  Active size classes: {}",
+               pool->active_size_classes());
+  std::println(stderr, "  Using hugepages: {}", pool->using_hugepages());
 
   // Print stats for each underlying pool
-  std::cout << "  Per-size-class stats:\n";
+  std::cerr << "  Per-size-class stats:\n";
   for (const auto& [size_class, underlying_pool] : pool->get_pools()) {
     if (underlying_pool) {
-      std::print("    Size class {}B: ", size_class);
-      std::println("a: {}, d: {}, g: {}, b: {}, p: {}",
+      std::print(stderr, "    Size class {}B: ", size_class);
+      std::println(stderr, "a: {}, d: {}, g: {}, b: {}, p: {}",
                    underlying_pool->get_allocations(),
                    underlying_pool->get_deallocations(),
                    underlying_pool->get_growth_events(),
-- 
2.43.0


From ca7b52e28ead20ef08f1f30bdf7419a218462878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 22/23] fix: interleaved benchmark reported the middle pass as
 the median run

---
 scripts/interleaved_btree_benchmark.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scripts/interleaved_btree_benchmark.py b/scripts/interleaved_btree_benchmark.py
index 4248189..bd02a82 100755
--- a/scripts/interleaved_btree_benchmark.py
+++ b/scripts/interleaved_btree_benchmark.py
@@ -181,8 +181,15 @@ def aggregate_results(results: Dict[str, List[Dict[str, Any]]]) -> Dict[str, Dic
             "erase_p50_max": max(erase_p50_values),
             "erase_p50_stdev": stdev(erase_p50_values) if len(erase_p50_values) > 1 else 0,
             "erase_p50_values": erase_p50_values,
-            # Store full performance data from median run
-            "median_run": pass_results[len(pass_results) // 2]["performance"]
+            # Store full performance data from the pass with the median P99.9,
+            # for each operation
+            "median_run": {
+                op: sorted(
+                    (r["performance"][op] for r in pass_results),
+                    key=lambda perf: perf["p99_9"]
+                )[len(pass_results) // 2]
+                for op in ("insert", "find", "erase")
+            }
         }
 
     return aggregated
-- 
2.43.0


From 67b3c1c1ecbc59cb839b2d26af00fb6fc1f2762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 23/23] fix: policy allocators sharing only one of two pools
 compared equal, and rebound ones unequal

Two PolicyBasedHugePageAllocators are interchangeable for every node type
only if their whole policies are the same; rebinding changes the type that
is looked up, not the policy.
---
 .../policy_based_hugepage_allocator.hpp             | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 83e3d4d..9cbd56e 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <concepts>
 #include <memory>
 #include <type_traits>
 
@@ -88,6 +89,11 @@ struct TwoPoolPolicy {  // NOLINT(readability-identifier-naming)
       return leaf_pool_;
     }
   }
+
+  /**
+   * Policies are the same if they use the same two pools.
+   */
+  bool operator==(const TwoPoolPolicy&) const = default;
 };
 
 /**
@@ -247,7 +253,12 @@ class PolicyBasedHugePageAllocator {
   friend bool operator==(
       const PolicyBasedHugePageAllocator& lhs,
       const PolicyBasedHugePageAllocator<U, PoolPolicy>& rhs) noexcept {
-    // Compare pool pointers for leaf pools (simple equality check)
+    // Rebinding changes the type, not the policy: allocators are
+    // interchangeable for every type only if their whole policies are the same
+    if constexpr (std::equality_comparable<PoolPolicy>) {
+      return lhs.policy_ == rhs.policy_;
+    }
+    // Compare the pools of the two types (policies without operator==)
     return lhs.policy_.template get_pool_for_type<T>() ==
            rhs.policy_.template get_pool_for_type<U>();
   }
-- 
2.43.0

