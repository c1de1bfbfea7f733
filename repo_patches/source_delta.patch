From ca7e9d42f785f18102d815f435fbd9c17873ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 01/45] fix: trie get of a key that is a prefix or an extension
 of a stored one

`get` returned the value of a stored leaf for keys that extend it or are a
prefix of it, and panicked for a key that ends within an extension node.
---
 mpt_trie/src/trie_ops.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index c7cee9b..b0b414a 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -356,16 +356,18 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
-                let r = curr_nibbles.pop_nibbles_front(nibbles.count);
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
 
-                match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
+                match curr_nibbles.pop_nibbles_front(nibbles.count) == *nibbles {
                     false => None,
                     true => child.trie_get_intern(curr_nibbles),
                 }
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From c5800c97c4de03fce41a278cb4f0a29cf6cf1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 02/45] fix: trie insert of a key that ends within an extension
 node

The extension was treated as fully matched, and the value was placed at (or
below) its child, under a longer key than the one inserted.
---
 mpt_trie/src/trie_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index b0b414a..ffe305b 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -471,7 +471,7 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            if info.existing_postfix.is_empty() {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)?.map_or(Ok(None), |updated_child| {
-- 
2.43.0


From 05ba4ab81a8ddd77e134e9bf417747d2ce218b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 03/45] fix: trie delete of a key that ends within an extension
 node

The extension was treated as fully matched, and the value of the branch below
it, which belongs to a longer key, was deleted instead.
---
 mpt_trie/src/trie_ops.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index ffe305b..e73d1e7 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -585,24 +585,24 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
-            ext_nibbles
-                .nibbles_are_identical_up_to_smallest_count(&curr_k)
-                .then(|| {
-                    curr_k.truncate_n_nibbles_front_mut(ext_nibbles.count);
-
-                    delete_intern(child, curr_k, strategy).and_then(|res| {
-                        res.map_or(Ok(None), |(updated_child, value_deleted)| {
-                            let updated_node = collapse_ext_node_if_needed(
-                                ext_nibbles,
-                                &updated_child,
-                                &curr_k,
-                                strategy,
-                            )?;
-                            Ok(Some((updated_node, value_deleted)))
-                        })
+            (curr_k.count >= ext_nibbles.count
+                && ext_nibbles.nibbles_are_identical_up_to_smallest_count(&curr_k))
+            .then(|| {
+                curr_k.truncate_n_nibbles_front_mut(ext_nibbles.count);
+
+                delete_intern(child, curr_k, strategy).and_then(|res| {
+                    res.map_or(Ok(None), |(updated_child, value_deleted)| {
+                        let updated_node = collapse_ext_node_if_needed(
+                            ext_nibbles,
+                            &updated_child,
+                            &curr_k,
+                            strategy,
+                        )?;
+                        Ok(Some((updated_node, value_deleted)))
                     })
                 })
-                .unwrap_or(Ok(None))
+            })
+            .unwrap_or(Ok(None))
         }
         Node::Leaf { nibbles, value } => {
             trace!("Delete traversed Leaf (nibbles: {:?})", nibbles);
-- 
2.43.0


From 05ee32ed48b7553c1aaf73de173742ea54911468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 04/45] fix: trie delete around branch values

- Deleting one of a branch's two entries dropped the other one when that was
  the branch's value, or panicked if the branch had a single child.
- A branch that lost its value was not collapsed, so that the root was not the
  one of the remaining content.
- Deleting an absent branch value reported an empty value as deleted.
---
 mpt_trie/src/partial_trie.rs |  9 +++------
 mpt_trie/src/trie_ops.rs     | 30 ++++++++++++++++++++++++++----
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index e8f1ebe..0a5308c 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -73,12 +73,9 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
-    /// - Deleted leaves are replaced with `Empty` nodes.
-    /// - Deleted branch values are replaced with empty `Vec`s.
+    /// To agree with Ethereum specs, nodes that are redundant after the deletion
+    /// are removed: a `Branch` node that is left with a single child (or with
+    /// its value alone) is collapsed into an `Extension` or `Leaf` node.
     ///
     /// # Panics
     /// If a `Hash` node is traversed, a panic will occur. Since `Hash` nodes
diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index e73d1e7..0a192bd 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -537,7 +537,19 @@ fn delete_intern<N: PartialTrie>(
         // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Ok(Some((branch(children.clone(), Vec::new()), value.clone())));
+                if value.is_empty() {
+                    return Ok(None);
+                }
+
+                // Without its value, the branch may need to be reduced to an extension.
+                let updated_node = match get_only_non_empty_child_and_nibble(children) {
+                    Some((nibble, child)) => {
+                        extension(Nibbles::from_nibble(nibble), child.clone())
+                    }
+                    None => branch(children.clone(), Vec::new()),
+                };
+
+                return Ok(Some((updated_node, value.clone())));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
@@ -547,9 +559,11 @@ fn delete_intern<N: PartialTrie>(
                 |(updated_child, value_deleted)| {
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
-                    let updated_node = match node_is_empty(&updated_child)
-                        && get_num_non_empty_children(children) <= 2
-                    {
+                    let num_entries =
+                        get_num_non_empty_children(children) + usize::from(!value.is_empty());
+                    let updated_node = match node_is_empty(&updated_child) && num_entries <= 2 {
+                        // Only the branch's value remains.
+                        true if !value.is_empty() => leaf(Nibbles::default(), value.clone()),
                         false => {
                             // Branch stays.
 
@@ -811,6 +825,14 @@ fn get_num_non_empty_children<N: PartialTrie>(children: &[WrappedNode<N>; 16]) -
     children.iter().filter(|c| !node_is_empty(c)).count()
 }
 
+/// Returns the child of a branch (and its nibble) if it has exactly one.
+fn get_only_non_empty_child_and_nibble<N: PartialTrie>(
+    children: &[WrappedNode<N>; 16],
+) -> Option<(Nibble, &WrappedNode<N>)> {
+    let mut non_empty = (0..).zip(children).filter(|(_, c)| !node_is_empty(c));
+    non_empty.next().filter(|_| non_empty.next().is_none())
+}
+
 fn get_other_non_empty_child_and_nibble_in_two_elem_branch<N: PartialTrie>(
     children: &[WrappedNode<N>; 16],
     our_nib: Nibble,
-- 
2.43.0


From daa99835992a4968578ef59b8f2f7976ce0e8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 05/45] fix: clones of a HashedPartialTrie shared their cached
 hash after diverging

The cell holding the cached hash was shared between a trie and its clones even
after one of them was modified, so that the hash of one could be returned for
another. A failed `extend` also kept the hash from before the nodes it added.
---
 mpt_trie/src/partial_trie.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index 0a5308c..39632ae 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -344,6 +344,12 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Drops the cached hash of this trie only: the cell is shared with clones,
+    /// which may no longer have the same content.
+    fn reset_hash(&mut self) {
+        self.hash = Arc::default();
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -369,7 +375,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v)?;
-        self.set_hash(None);
+        self.reset_hash();
         Ok(())
     }
 
@@ -379,9 +385,11 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes)?;
-        self.set_hash(None);
-        Ok(())
+        // Reset even on error, as part of the nodes may have been inserted.
+        let res = self.node.trie_extend(nodes);
+        self.reset_hash();
+
+        res
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -396,7 +404,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k, self.strategy);
-        self.set_hash(None);
+        self.reset_hash();
 
         res
     }
-- 
2.43.0


From 7971198ec6e6feffe4282b63c6cf256d777cef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 06/45] fix: subsets after the first one kept the root node
 unhashed

The root of the tracked trie stayed marked between the subsets produced by
`create_trie_subsets` when it was a branch or an extension.
---
 mpt_trie/src/trie_subsets.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index eadb6b3..97c90b8 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -373,6 +373,8 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => children.iter_mut().for_each(|c| {
             c.info.reset();
-- 
2.43.0


From 7316cf4447827e201ca6370122babd0721030d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 07/45] fix: trie subset for a key that ends within an
 extension node panicked

---
 mpt_trie/src/trie_subsets.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index 97c90b8..88201f7 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -325,7 +325,9 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
             trie.info.touched = true;
 
             let nibbles: &Nibbles = trie.info.get_nibbles_expected();
-            if curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles) {
+            if curr_nibbles.count >= nibbles.count
+                && curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles)
+            {
                 curr_nibbles.pop_nibbles_front(nibbles.count);
                 return mark_nodes_that_are_needed(child, curr_nibbles);
             }
-- 
2.43.0


From 4297cd5d3ccd6cb5fb27626c479555cd8afc5448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 08/45] fix: path reported for a debug query

The key was not advanced past extension nodes, so that a wrong path was
reported (or a panic caused) for any key below one, and a key that ends at a
branch caused a panic. The error for a key that runs into a hash node queried
the part of the key that was left, instead of the key.
---
 mpt_trie/src/debug_tools/query.rs | 28 +++++++++++++++++++++-------
 mpt_trie/src/trie_subsets.rs      |  4 ++--
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/mpt_trie/src/debug_tools/query.rs b/mpt_trie/src/debug_tools/query.rs
index dcfff39..ecb28c1 100644
--- a/mpt_trie/src/debug_tools/query.rs
+++ b/mpt_trie/src/debug_tools/query.rs
@@ -191,7 +191,7 @@ impl Display for DebugQueryOutput {
             .node_path
             .0
             .iter()
-            .take(self.node_path.0.len() - 1)
+            .take(self.node_path.0.len().saturating_sub(1))
             .enumerate()
         {
             Self::fmt_node_based_on_debug_params(f, seg, &self.extra_node_info[i], &self.params)?;
@@ -279,6 +279,12 @@ fn get_path_from_query_rec<T: PartialTrie>(
     curr_key: &mut Nibbles,
     query_out: &mut DebugQueryOutput,
 ) {
+    if curr_key.is_empty() && matches!(node, Node::Branch { .. }) {
+        // The key ends here, so there is no child to go to.
+        query_out.node_found = true;
+        return;
+    }
+
     let key_piece = get_key_piece_from_node_pulling_from_key_for_branches(node, curr_key);
     let seg = get_segment_from_node_and_key_piece(node, &key_piece);
 
@@ -288,23 +294,31 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
+        Node::Empty => return,
+        Node::Hash(_) => (),
         Node::Branch { children, value: _ } => {
             let nib = curr_key.pop_next_nibble_front();
 
-            get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
+            return get_path_from_query_rec(&children[nib as usize], curr_key, query_out);
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
+            let curr_key_next_nibs =
+                get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
+
+            if *nibbles == curr_key_next_nibs {
+                curr_key.pop_nibbles_front(nibbles.count);
+                get_path_from_query_rec(child, curr_key, query_out);
+            }
+            return;
         }
         Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
-            if *nibbles == curr_key_next_nibs {
-                curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+            if *nibbles != curr_key_next_nibs {
+                return;
             }
+            curr_key.pop_nibbles_front(curr_key_next_nibs.count);
         }
     }
 
diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index 88201f7..d04c261 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -254,8 +254,8 @@ where
     N: PartialTrie,
     K: Into<Nibbles>,
 {
-    for mut k in keys_involved.map(|k| k.into()) {
-        mark_nodes_that_are_needed(tracked_trie, &mut k).map_err(|_| {
+    for k in keys_involved.map(|k| k.into()) {
+        mark_nodes_that_are_needed(tracked_trie, &mut k.clone()).map_err(|_| {
             // We need to unwind back to this callsite in order to produce the actual error.
             let query = DebugQueryParamsBuilder::default()
                 .include_node_specific_values(true)
-- 
2.43.0


From 61ff938efe9ac9bb2ee151b9cbc4fdb97f930b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 09/45] fix: U128 and U512 as trie values

They were written into a buffer of 32 bytes: a panic for `U512` (and, with
debug assertions, for `U128`), and trailing zeros for `U128`.
---
 mpt_trie/src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index 0a192bd..62423d1 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -97,10 +97,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From e21b986e28597e0e47688521c2acac14d0be933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 10/45] fix: tries built from proofs with embedded nodes

Nodes shorter than a hash are embedded in their parent. Such children of
branches and extensions could not be decoded, which caused a panic.
---
 mpt_trie/src/builder.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mpt_trie/src/builder.rs b/mpt_trie/src/builder.rs
index 43aebb7..8ba51b0 100644
--- a/mpt_trie/src/builder.rs
+++ b/mpt_trie/src/builder.rs
@@ -47,15 +47,15 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
             let rlp = Rlp::new(&node);
             match rlp.prototype().expect("rlp data is valid") {
                 Prototype::List(2) => {
-                    self.insert_short_node_variants(rlp.as_list().expect("valid list"))
+                    self.insert_short_node_variants(decode_node_items(rlp.as_raw()))
                 }
                 Prototype::List(17) => {
                     for i in 0..16 {
                         if let Ok(entry) = rlp.at(i) {
                             if let Prototype::List(2) = entry.prototype().expect("valid list") {
-                                self.insert_short_node_variants(
-                                    entry.as_list().expect("valid list"),
-                                )
+                                self.insert_short_node_variants(decode_node_items(
+                                    entry.as_raw(),
+                                ))
                             }
                         }
                     }
@@ -87,7 +87,7 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
 /// Constructs a partial trie from a root hash and a collection of nodes.
 fn construct_partial_trie<T: PartialTrie>(hash: H256, nodes: &HashMap<H256, Vec<u8>>) -> T {
     let bytes = match nodes.get(&hash) {
-        Some(value) => rlp::decode_list::<Vec<u8>>(value),
+        Some(value) => decode_node_items(value),
         None if [H256::zero(), EMPTY_TRIE_HASH].contains(&hash) => return T::default(),
         None => return T::new(Node::Hash(hash)),
     };
@@ -95,6 +95,18 @@ fn construct_partial_trie<T: PartialTrie>(hash: H256, nodes: &HashMap<H256, Vec<
     decode_node(bytes, nodes)
 }
 
+/// Splits an encoded node into its items. A child that is embedded in its
+/// parent (as its encoding is shorter than a hash) is kept in its encoded form.
+fn decode_node_items(node: &[u8]) -> Vec<Vec<u8>> {
+    Rlp::new(node)
+        .iter()
+        .map(|item| match item.is_list() {
+            false => item.data().expect("rlp data is valid").to_vec(),
+            true => item.as_raw().to_vec(),
+        })
+        .collect()
+}
+
 fn decode_node<T: PartialTrie>(bytes: Vec<Vec<u8>>, nodes: &HashMap<H256, Vec<u8>>) -> T {
     let node = match bytes.len() {
         17 => parse_branch_node(bytes, nodes),
@@ -171,7 +183,7 @@ fn parse_leaf_node<T: PartialTrie>(bytes: Vec<Vec<u8>>) -> Node<T> {
 /// Parses a child node from the given bytes.
 fn parse_child_node<T: PartialTrie>(bytes: &[u8], nodes: &HashMap<H256, Vec<u8>>) -> T {
     match bytes.len() {
-        x if x < 32 => decode_node(rlp::decode_list::<Vec<u8>>(bytes), nodes),
+        x if x < 32 => decode_node(decode_node_items(bytes), nodes),
         _ => construct_partial_trie(H256::from_slice(bytes), nodes),
     }
 }
-- 
2.43.0


From efe9978bac7cf124aefbb29b89dfa9d8cab675b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 11/45] fix: a difference in the value of a branch was missing
 from trie diffs

---
 mpt_trie/src/debug_tools/diff.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpt_trie/src/debug_tools/diff.rs b/mpt_trie/src/debug_tools/diff.rs
index 6b0fb8c..c50e62f 100644
--- a/mpt_trie/src/debug_tools/diff.rs
+++ b/mpt_trie/src/debug_tools/diff.rs
@@ -339,11 +339,11 @@ fn find_all_diff_points_between_tries_rec(
             (
                 Node::Branch {
                     children: a_children,
-                    value: _a_value,
+                    value: a_value,
                 },
                 Node::Branch {
                     children: b_children,
-                    value: _b_value,
+                    value: b_value,
                 },
             ) => {
                 let mut most_significant_diff_found = DiffDetectionState::NoDiffDetected;
@@ -361,10 +361,12 @@ fn find_all_diff_points_between_tries_rec(
                         most_significant_diff_found.pick_most_significant_state(&res);
                 }
 
-                if matches!(
-                    most_significant_diff_found,
-                    DiffDetectionState::NoDiffDetected
-                ) {
+                if a_value == b_value
+                    && matches!(
+                        most_significant_diff_found,
+                        DiffDetectionState::NoDiffDetected
+                    )
+                {
                     most_significant_diff_found
                 } else {
                     // Also run a hash check if we haven't picked anything up
-- 
2.43.0


From 3c5c31f81f54fc2e280fef1e96160919bdd384f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 12/45] fix: trie delete that orphans a hash node panicked
 instead of being refused

The key reported in the error was put together from two keys that do not
follow each other, and could exceed 64 nibbles.
---
 mpt_trie/src/trie_ops.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index 62423d1..b27eadd 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -395,7 +395,7 @@ impl<T: PartialTrie> Node<T> {
                 // exists as we recursively traverse down the trie, it can not perform this
                 // check on the root node.
                 let wrapped_node =
-                    try_collapse_if_extension(updated_root, &Nibbles::default(), strategy)?;
+                    try_collapse_if_extension(updated_root, strategy)?;
                 let node_ref: &Node<T> = &wrapped_node;
                 *self = node_ref.clone();
 
@@ -566,7 +566,7 @@ fn delete_intern<N: PartialTrie>(
 
                             let mut updated_children = children.clone();
                             updated_children[nibble as usize] =
-                                try_collapse_if_extension(updated_child, &curr_k, strategy)?;
+                                try_collapse_if_extension(updated_child, strategy)?;
                             branch(updated_children, value.clone())
                         }
                         true => {
@@ -606,7 +606,6 @@ fn delete_intern<N: PartialTrie>(
                         let updated_node = collapse_ext_node_if_needed(
                             ext_nibbles,
                             &updated_child,
-                            &curr_k,
                             strategy,
                         )?;
                         Ok(Some((updated_node, value_deleted)))
@@ -627,12 +626,11 @@ fn delete_intern<N: PartialTrie>(
 
 fn try_collapse_if_extension<N: PartialTrie>(
     node: WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     match node.as_ref() {
         Node::Extension { nibbles, child } => {
-            collapse_ext_node_if_needed(nibbles, child, curr_key, strategy)
+            collapse_ext_node_if_needed(nibbles, child, strategy)
         }
         _ => Ok(node),
     }
@@ -665,7 +663,6 @@ fn try_collapse_if_extension<N: PartialTrie>(
 fn collapse_ext_node_if_needed<N: PartialTrie>(
     ext_nibbles: &Nibbles,
     child: &WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     trace!(
@@ -690,7 +687,7 @@ fn collapse_ext_node_if_needed<N: PartialTrie>(
         Node::Hash(h) => match strategy {
             OnOrphanedHashNode::CollapseToExtension => Ok(extension(*ext_nibbles, child.clone())),
             OnOrphanedHashNode::Reject => Err(TrieOpError::ExtensionCollapsedIntoHashError(
-                curr_key.merge_nibbles(ext_nibbles),
+                *ext_nibbles,
                 *h,
             )),
         },
-- 
2.43.0


From 387f62b2b39f4c96c31acc6fe0eebb60e55efc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 13/45] fix: SMT get of an absent key panicked when its path
 ends in an empty node

---
 smt_trie/src/smt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index d2236ae..7486873 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -156,7 +156,13 @@ impl<D: Db> Smt<D> {
                 level += 1;
             }
         }
-        unreachable!()
+        assert!(self
+            .kv_store
+            .get(&key)
+            .copied()
+            .unwrap_or_default()
+            .is_zero());
+        U256::ZERO
     }
 
     /// Set the value associated with the key in the SMT.
-- 
2.43.0


From 501a256e560b81c0a2b9e841da302b4ef453078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 14/45] fix: SMT keys that share 252 bits or more

---
 smt_trie/src/smt.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index 7486873..073dfce 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -41,7 +41,7 @@ impl Key {
     }
 
     pub fn join(bits: Bits, rem_key: Self) -> Self {
-        let mut n = [0; 4];
+        let mut n = [0u32; 4];
         let mut accs = [0; 4];
         for i in 0..bits.count {
             if bits.get_bit(i) {
@@ -50,7 +50,9 @@ impl Key {
             n[i % 4] += 1;
         }
         let key = std::array::from_fn(|i| {
-            F::from_canonical_u64((rem_key.0[i].to_canonical_u64() << n[i]) | accs[i])
+            let rem = rem_key.0[i].to_canonical_u64();
+            // All the 64 bits of the element can be in `bits`.
+            F::from_canonical_u64(rem.checked_shl(n[i]).unwrap_or(0) | accs[i])
         });
         Key(key)
     }
@@ -63,7 +65,8 @@ impl Key {
             if full_levels * 4 + i < nbits {
                 n += 1;
             }
-            auxk[i] >>= n;
+            // All the 64 bits of the element can be removed.
+            auxk[i] = auxk[i].checked_shr(n as u32).unwrap_or(0);
         }
         Key(auxk.map(F::from_canonical_u64))
     }
-- 
2.43.0


From 163c8d15e45b7b0b432bb7a4505d1eec4da5ea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 15/45] fix: a failed precompile call from a transaction
 reverted to a checkpoint that was never set

---
 .../src/cpu/kernel/asm/core/precompiles/main.asm                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
index d29bff2..60a9321 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/main.asm
@@ -58,6 +58,8 @@ global after_precompile:
 global handle_precompiles_from_eoa:
     PUSH 1 %mstore_global_metadata(@GLOBAL_METADATA_IS_PRECOMPILE_FROM_EOA)
     // stack: addr, retdest
+    // `process_message_txn_fail` reverts to this checkpoint if the precompile fails.
+    %checkpoint
     %create_context
     // stack: new_ctx, addr, retdest
     %non_intrinsic_gas %set_new_ctx_gas_limit_no_check
-- 
2.43.0


From 4c1a05068226111095015632c8077cff2a94e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 16/45] fix: the proof that an address is not a jump
 destination was refused by the kernel

---
 .../src/generation/prover_input.rs            | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 704e2f4..660a986 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -394,18 +394,21 @@ impl<F: RichField> GenerationState<F> {
         }
     }
 
-    /// Returns a non-jumpdest proof for the address on the top of the stack. A
-    /// non-jumpdest proof is the closest address to the address on the top of
-    /// the stack, if the closest address is >= 32, or zero otherwise.
+    /// Returns a non-jumpdest proof for the address on the top of the stack:
+    /// zero, or an address at least 32 bytes before it, from which the kernel
+    /// can resume reading opcodes 32 bytes later.
     fn run_next_non_jumpdest_proof(&self) -> Result<U256, ProgramError> {
         let code = self.get_current_code()?;
         let address = u256_to_usize(stack_peek(self, 0)?)?;
+        // The closest opcode is not a jump destination that the kernel accepts, but
+        // the proof leading to it also skips over `address`.
         let closest_opcode_addr = get_closest_opcode_address(&code, address);
-        Ok(if closest_opcode_addr < 32 {
-            U256::zero()
-        } else {
-            closest_opcode_addr.into()
-        })
+        let proof = get_proofs_and_jumpdests(
+            &code,
+            closest_opcode_addr,
+            [closest_opcode_addr].into(),
+        )[0];
+        Ok(proof.into())
     }
 
     /// Returns a pointer to an element in the list whose value is such that
-- 
2.43.0


From b75b087e180aaba18c95f3c6a0f07cca638a1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 17/45] fix: any address of the 32 before a jump destination
 proved that it was none

---
 .../src/cpu/kernel/asm/core/jumpdest_analysis.asm           | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
index 842d794..14345fd 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
@@ -267,10 +267,14 @@ global verify_non_jumpdest:
     // stack: addr, ctx
     PROVER_INPUT(jumpdest_table::non_jumpdest_proof)
     // stack: proof, addr, ctx,
-    // Check that proof <= addr as otherwise it allows
+    // Check that proof == 0 or proof + 32 <= addr as otherwise it allows
     // a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
     // at position addr while it shouldn't.
     DUP2 DUP2
+    %assert_le // `proof + 32` does not overflow.
+    DUP2 DUP2
+    // stack: proof, addr, proof, addr, ctx
+    DUP1 ISZERO %not_bit %mul_const(32) ADD
     %assert_le
     %write_table_if_jumpdest
     JUMP
-- 
2.43.0


From 67dfafb8c4eb400454a7b82a2739515af5418bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 18/45] fix: RETURNDATASIZE was not reset by a CREATE whose
 code is refused

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 1c8e57e..71d2c2a 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -225,12 +225,14 @@ create_collision:
 // stack: new_ctx, leftover_gas, success, address, kexit_info
 create_first_byte_ef:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
 // stack: code_size, new_ctx, leftover_gas, success, address, kexit_info
 create_code_too_large:
     %revert_checkpoint
+    %mstore_context_metadata(@CTX_METADATA_RETURNDATA_SIZE, 0)
     %stack (code_size, leftover_gas, success, address, kexit_info) -> (kexit_info, 0)
     EXIT_KERNEL
 
-- 
2.43.0


From 596724ed8d84b729b51200446c6be5637882b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 19/45] fix: CREATE of empty code was refused when older return
 data starts with 0xEF

---
 evm_arithmetization/src/cpu/kernel/asm/core/create.asm | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
index 71d2c2a..fe27b66 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create.asm
@@ -148,12 +148,15 @@ after_constructor:
     // stack: new_ctx, leftover_gas, success, address, kexit_info
     POP
 
-    // EIP-3541: Reject new contract code starting with the 0xEF byte
+    // EIP-3541: Reject new contract code starting with the 0xEF byte, if code_size > 0
+    %returndatasize ISZERO %not_bit
     PUSH @SEGMENT_RETURNDATA
     GET_CONTEXT
     %build_address_no_offset
     MLOAD_GENERAL
-    %eq_const(0xEF) %jumpi(create_first_byte_ef)
+    %eq_const(0xEF)
+    MUL // AND
+    %jumpi(create_first_byte_ef)
 
     // Charge gas for the code size.
     // stack: leftover_gas, success, address, kexit_info
-- 
2.43.0


From 92bea57382382468d1d34a5d1a32972308653700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 20/45] fix: a CREATE refused for a collision marked the older
 contract as created in the transaction

Such a contract could then be deleted by its own SELFDESTRUCT (EIP-6780).
---
 .../src/cpu/kernel/asm/core/create_contract_account.asm         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
index a614f9f..e8a50f4 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/create_contract_account.asm
@@ -4,7 +4,6 @@
 %macro create_contract_account
     // stack: address
     DUP1 %insert_touched_addresses
-    DUP1 %append_created_contracts
     DUP1 %mpt_read_state_trie
     // stack: existing_account_ptr, address
     // If the account doesn't exist, there's no need to check its balance or nonce,
@@ -33,6 +32,7 @@
     %journal_add_account_created
 %%do_insert:
     // stack: new_acct_value=existing_balance, address
+    DUP2 %append_created_contracts
     // Write the new account's data to MPT data, and get a pointer to it.
     %get_trie_data_size
     // stack: account_ptr, new_acct_value, address
-- 
2.43.0


From 4c2869d55105c1658dbc71b946af610d11aa9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 21/45] fix: slots of a deleted account stayed known to the
 prover

Reading or writing a slot of an account that was deleted by SELFDESTRUCT and
created again in the same block pointed the kernel to a removed node.
---
 evm_arithmetization/src/generation/prover_input.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 660a986..83b1a6e 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -614,6 +614,10 @@ impl<F: RichField> GenerationState<F> {
             .range(..(addr, U256::zero()))
             .next_back()
             .unwrap_or((&DUMMYHEAD, &(Segment::StorageLinkedList as usize)));
+        // The kernel removes all the slots of `addr` from the list.
+        self.state_ptrs
+            .storage
+            .retain(|&(slot_addr, _), _| slot_addr != addr);
 
         Ok(U256::from(
             (pred_ptr - Segment::StorageLinkedList as usize) / STORAGE_LINKED_LIST_NODE_SIZE,
-- 
2.43.0


From 3190bd4a9768d8bfeadcdc36084ce1eb4fc672a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 22/45] fix: jumps beyond 24576 in initcode were refused

Initcode may be twice as long as deployed code.
---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 4 ++--
 evm_arithmetization/src/cpu/kernel/constants/mod.rs       | 4 +++-
 evm_arithmetization/src/witness/transition.rs             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index bea641c..50f445b 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -130,10 +130,10 @@ global invalid_jump_jumpi_destination_common:
         // We have a jump destination on the stack. We want to `PANIC` if it is valid, and jump to
         // `fault_exception` if it is not. An address is a valid jump destination if it points to a
         // `JUMPDEST` instruction. In practice, we check two things:
-        //  1. the address is no greater than MAX_CODE_SIZE, and
+        //  1. the address is no greater than MAX_INITCODE_SIZE, and
         //  2. it points to a `JUMPDEST` instruction.
         // stack: jump_dest
-        PUSH @MAX_CODE_SIZE
+        PUSH @MAX_INITCODE_SIZE
         DUP2
         // stack: jump_dest, max_size, jump_dest
         GT // jump_dest > max_size == !(jump_dest <= max_size)
diff --git a/evm_arithmetization/src/cpu/kernel/constants/mod.rs b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
index 91c2a0a..09912d8 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/mod.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
@@ -377,9 +377,11 @@ pub(crate) const MAX_CODE_SIZE: u64 = if cfg!(feature = "polygon_pos") {
     0x6000 // default Ethereum value
 };
 
+pub(crate) const MAX_INITCODE_SIZE: u64 = 0xc000;
+
 const CODE_SIZE_LIMIT: [(&str, u64); 3] = [
     ("MAX_CODE_SIZE", MAX_CODE_SIZE),
-    ("MAX_INITCODE_SIZE", 0xc000),
+    ("MAX_INITCODE_SIZE", MAX_INITCODE_SIZE),
     ("INITCODE_WORD_COST", 2),
 ];
 
diff --git a/evm_arithmetization/src/witness/transition.rs b/evm_arithmetization/src/witness/transition.rs
index fdcf9af..1affc53 100644
--- a/evm_arithmetization/src/witness/transition.rs
+++ b/evm_arithmetization/src/witness/transition.rs
@@ -6,7 +6,7 @@ use super::util::stack_pop_with_log_and_fill;
 use crate::cpu::columns::CpuColumnsView;
 use crate::cpu::kernel::aggregator::KERNEL;
 use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
-use crate::cpu::kernel::constants::MAX_CODE_SIZE;
+use crate::cpu::kernel::constants::MAX_INITCODE_SIZE;
 use crate::cpu::kernel::opcodes::get_opcode;
 use crate::cpu::membus::NUM_GP_CHANNELS;
 use crate::cpu::stack::{
@@ -384,7 +384,7 @@ where
             .try_into()
             .map_err(|_| ProgramError::InvalidJumpDestination)?;
 
-        if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+        if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
             return Err(ProgramError::InvalidJumpDestination);
         }
 
@@ -456,7 +456,7 @@ where
                 .try_into()
                 .map_err(|_| ProgramError::InvalidJumpiDestination)?;
 
-            if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+            if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
                 return Err(ProgramError::InvalidJumpiDestination);
             }
 
-- 
2.43.0


From a9b3e24d0a54629be0b4ddac7348ba2d0576b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 23/45] Revert "fix: any address of the 32 before a jump
 destination proved that it was none"

This reverts commit b75b087e180aaba18c95f3c6a0f07cca638a1cf9.
---
 .../src/cpu/kernel/asm/core/jumpdest_analysis.asm           | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
index 14345fd..842d794 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
@@ -267,14 +267,10 @@ global verify_non_jumpdest:
     // stack: addr, ctx
     PROVER_INPUT(jumpdest_table::non_jumpdest_proof)
     // stack: proof, addr, ctx,
-    // Check that proof == 0 or proof + 32 <= addr as otherwise it allows
+    // Check that proof <= addr as otherwise it allows
     // a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
     // at position addr while it shouldn't.
     DUP2 DUP2
-    %assert_le // `proof + 32` does not overflow.
-    DUP2 DUP2
-    // stack: proof, addr, proof, addr, ctx
-    DUP1 ISZERO %not_bit %mul_const(32) ADD
     %assert_le
     %write_table_if_jumpdest
     JUMP
-- 
2.43.0


From 183e9c016b7775b4f7e9e091352a81aa751242eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 24/45] fix: keep the proof for an address that is an opcode of
 its own

The kernel accepts any for it.
---
 .../src/generation/prover_input.rs              | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 83b1a6e..cfe73b6 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -394,15 +394,22 @@ impl<F: RichField> GenerationState<F> {
         }
     }
 
-    /// Returns a non-jumpdest proof for the address on the top of the stack:
-    /// zero, or an address at least 32 bytes before it, from which the kernel
-    /// can resume reading opcodes 32 bytes later.
+    /// Returns a non-jumpdest proof for the address on the top of the stack,
+    /// i.e. zero or an address from which, 32 bytes later, the kernel can
+    /// resume reading opcodes without ever reaching the address.
     fn run_next_non_jumpdest_proof(&self) -> Result<U256, ProgramError> {
         let code = self.get_current_code()?;
         let address = u256_to_usize(stack_peek(self, 0)?)?;
-        // The closest opcode is not a jump destination that the kernel accepts, but
-        // the proof leading to it also skips over `address`.
         let closest_opcode_addr = get_closest_opcode_address(&code, address);
+        if closest_opcode_addr == address {
+            // The address is not within the argument of a PUSH.
+            return Ok(if address < 32 {
+                U256::zero()
+            } else {
+                address.into()
+            });
+        }
+        // A proof that leads to the closest opcode also leads past the address.
         let proof = get_proofs_and_jumpdests(
             &code,
             closest_opcode_addr,
-- 
2.43.0


From bc5e8243e52a4db307f98ca72df5711509d3229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 25/45] fix: modexp with a base length of 2^32 or more could
 not be proven

It reads the exponent behind the base before it finds that there is too little gas.
---
 .../src/cpu/kernel/asm/core/precompiles/expmod.asm            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
index 684c808..23f8382 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/expmod.asm
@@ -96,7 +96,9 @@ store_limbs_return:
 calculate_l_E_prime:
     // stack: l_E, l_B, retdest
     // Throw a fault early if the lengths are too large.
-    DUP2 %gt_const(0x100000000000000000000000000000000) %jumpi(fault_exception)
+    // A base longer than 2^20 costs more than 2^32 gas, and the exponent behind it
+    // may be out of reach.
+    DUP2 %gt_const(0x100000) %jumpi(fault_exception)
     DUP1 %gt_const(0x100000000000000000000000000000000) %jumpi(fault_exception)
     DUP1 ISZERO %jumpi(case_le_zero)
     // stack: l_E, l_B, retdest
-- 
2.43.0


From 08a0d66891161caedd5d07c322492144196df117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 26/45] fix: the KZG precompile accepted inputs that are not
 192 bytes long

---
 .../src/cpu/kernel/asm/core/precompiles/kzg_peval.asm         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
index 5a8a372..6ccdcf8 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/precompiles/kzg_peval.asm
@@ -14,6 +14,10 @@ global precompile_kzg_peval:
 
     %charge_gas_const(@KZG_PEVAL_GAS)
 
+    // The input must be exactly 192 bytes long.
+    %calldatasize
+    %eq_const(192) ISZERO %jumpi(fault_exception)
+
     // Load `versioned_hash | z | y | commitment | proof` from the call data using `MLOAD_32BYTES`.
     // Note that `z` and `y` are padded 32 byte big endian values, and `commitment` and `proof` are
     // both 48 bytes big-endian encoded values.
-- 
2.43.0


From fff1a9e066a38735a8bba15e3681b03a9023d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 27/45] fix: the KZG precompile accepted scalars and
 coordinates equal to the modulus

---
 evm_arithmetization/src/curve_pairings.rs          | 4 ++--
 evm_arithmetization/src/generation/prover_input.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 8152bdd..84520b1 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -698,8 +698,8 @@ pub mod bls381 {
             }
         };
 
-        if x.val > BLS_BASE {
-            return Err(anyhow!("X coordinate is larger than modulus."));
+        if x.val >= BLS_BASE {
+            return Err(anyhow!("X coordinate is not smaller than modulus."));
         }
 
         if infinity_flag_set {
diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index cfe73b6..151d5aa 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -655,7 +655,7 @@ impl<F: RichField> GenerationState<F> {
         let proof_lo = stack_peek(self, 6)?;
 
         // Validate scalars
-        if z > BLS_SCALAR || y > BLS_SCALAR {
+        if z >= BLS_SCALAR || y >= BLS_SCALAR {
             return Ok(U256::zero());
         }
 
-- 
2.43.0


From f2c99603e62fca3b764fc14e7dfbc267f28d381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 28/45] fix: the KZG precompile accepted points outside of the
 subgroup

---
 evm_arithmetization/src/curve_pairings.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 84520b1..74bbb7b 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -570,7 +570,7 @@ pub mod bls381 {
     use anyhow::{anyhow, Result};
 
     use super::*;
-    use crate::extension_tower::BLS_BASE;
+    use crate::extension_tower::{BLS_BASE, BLS_SCALAR};
 
     const B_G1: BLS381 = BLS381 {
         val: U512([4, 0, 0, 0, 0, 0, 0, 0]),
@@ -727,12 +727,29 @@ pub mod bls381 {
                 return Err(anyhow!("Byte flags are contradictory"));
             }
 
-            Ok(CurveAff::<BLS381> { x, y })
+            let point = CurveAff::<BLS381> { x, y };
+            if !is_in_subgroup(point) {
+                return Err(anyhow!("This point is not in the subgroup."));
+            }
+
+            Ok(point)
         } else {
             Err(anyhow!("This point is not on the curve."))
         }
     }
 
+    /// Whether the order of a point of the curve divides the order of G1.
+    fn is_in_subgroup(point: CurveAff<BLS381>) -> bool {
+        let mut acc = CurveAff::<BLS381>::unit();
+        for i in (0..BLS_SCALAR.bits()).rev() {
+            acc = acc + acc;
+            if BLS_SCALAR.bit(i) {
+                acc = acc + point;
+            }
+        }
+        acc == CurveAff::<BLS381>::unit()
+    }
+
     // The optimal Ate pairing takes a point each from the curve and its twist and
     // outputs an Fp12 element.
     pub(crate) fn ate_optim(p: CurveAff<BLS381>, q: CurveAff<Fp2<BLS381>>) -> Fp12<BLS381> {
-- 
2.43.0


From 12144cfd9c7022c69b53d3572c11dbf74c07b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 29/45] fix: a shift by an amount of up to 32 bits made the
 interpreter allocate that much memory

---
 evm_arithmetization/src/cpu/kernel/interpreter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/interpreter.rs b/evm_arithmetization/src/cpu/kernel/interpreter.rs
index d974550..186df48 100644
--- a/evm_arithmetization/src/cpu/kernel/interpreter.rs
+++ b/evm_arithmetization/src/cpu/kernel/interpreter.rs
@@ -410,10 +410,13 @@ impl<F: RichField> Interpreter<F> {
             match kind {
                 MemoryOpKind::Read => {
                     if self.generation_state.memory.get(address).is_none() {
-                        if !self.is_preinitialized_segment(address.segment) && !value.is_zero() {
+                        if self.is_preinitialized_segment(address.segment) {
+                            self.generation_state.memory.set(address, value);
+                        } else if !value.is_zero() {
                             return Err(anyhow!("The initial value {:?} at address {:?} should be zero, because it is not preinitialized.", value, address));
                         }
-                        self.generation_state.memory.set(address, value);
+                        // Zeros read elsewhere aren't stored: the address of a shift table lookup
+                        // can be any 32-bit number.
                     }
                 }
                 MemoryOpKind::Write => self.generation_state.memory.set(address, value),
-- 
2.43.0


From c9d98ce4f08c85fbdbf47591ab1ce7006b4f281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 30/45] fix: an invalid jump was taken while looking for the
 jump destinations of a transaction

What the simulation did from there on could shift the numbers of the contexts,
so that destinations were attributed to contexts that do not have them.
---
 evm_arithmetization/src/witness/transition.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/evm_arithmetization/src/witness/transition.rs b/evm_arithmetization/src/witness/transition.rs
index 1affc53..8c3c184 100644
--- a/evm_arithmetization/src/witness/transition.rs
+++ b/evm_arithmetization/src/witness/transition.rs
@@ -441,6 +441,17 @@ where
             }
 
             self.push_cpu(row);
+        } else {
+            // The analysis has to fail, too, where the actual execution does.
+            let gen_state = self.get_mut_generation_state();
+            let jumpdest_bit = gen_state.get_from_memory(MemoryAddress::new(
+                gen_state.registers.context,
+                Segment::JumpdestBits,
+                dst as usize,
+            ));
+            if jumpdest_bit != ethereum_types::U256::one() {
+                return Err(ProgramError::InvalidJumpDestination);
+            }
         }
         self.get_mut_generation_state().jump_to(dst as usize)?;
         Ok(())
-- 
2.43.0


From 8af255c11e8995ba3e78f5d8550749b41fd9bff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 31/45] fix: a transaction could exceed what earlier ones left
 of the block gas limit

---
 .../src/cpu/kernel/asm/core/process_txn.asm               | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 28252d0..1c2950c 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -23,6 +23,14 @@ global process_normalized_txn:
     %mload_global_metadata(@GLOBAL_METADATA_BLOCK_GAS_LIMIT)
     %assert_ge(invalid_txn)
 
+    // Assert that what earlier transactions left of it is enough, too.
+    // stack: retdest, cur_cum_gas
+    DUP2
+    %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
+    ADD
+    %mload_global_metadata(@GLOBAL_METADATA_BLOCK_GAS_LIMIT)
+    %assert_ge(invalid_txn)
+
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender, retdest
 
-- 
2.43.0


From 6317f69968f807cc53c495d610c9a86a4024f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 32/45] fix: a blob transaction could offer less than the blob
 base fee

---
 .../src/cpu/kernel/asm/transactions/type_3.asm              | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index f84f95c..26fd1dc 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -106,6 +106,12 @@ store_origin:
     %get_blob_versioned_hashes_list_length
     MUL
     PROVER_INPUT(blobbasefee)
+    // stack: blob_base_fee, blob_gas, address, retdest
+    // EIP-4844: The sender must be willing to pay at least the blob base fee.
+    DUP1
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+    %assert_ge(invalid_txn_3)
+    // stack: blob_base_fee, blob_gas, address, retdest
     MUL
 %endmacro
 
-- 
2.43.0


From 9279c804471fb172e8ef26e60befb60c6a83547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 33/45] fix: a blob transaction could create a contract

---
 .../src/cpu/kernel/asm/transactions/type_3.asm                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index 26fd1dc..30dc6c4 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -87,6 +87,10 @@ store_origin:
     %eq_const(0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)
     %jumpi(panic)
 
+    // stack: address, retdest
+    // EIP-4844: Blob transactions cannot create contracts.
+    %is_contract_creation %jumpi(invalid_txn_1)
+
     // stack: address, retdest
     // EIP-4844: Deduct blob_gas_fee from the sender and burn it
     %compute_blob_gas_fee
-- 
2.43.0


From 2424779ec6bb008c5d502e9501084c356a6d7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 34/45] verif hooks: constraint evaluation and lookups of the
 tables (behind cfg verif_hooks)

---
 evm_arithmetization/src/lib.rs         |   2 +
 evm_arithmetization/src/verif_hooks.rs | 103 +++++++++++++++++++++++++
 2 files changed, 105 insertions(+)
 create mode 100644 evm_arithmetization/src/verif_hooks.rs

diff --git a/evm_arithmetization/src/lib.rs b/evm_arithmetization/src/lib.rs
index 9bc6021..4c6c961 100644
--- a/evm_arithmetization/src/lib.rs
+++ b/evm_arithmetization/src/lib.rs
@@ -275,6 +275,8 @@ pub mod proof;
 pub mod prover;
 pub mod recursive_verifier;
 pub mod verifier;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 
 // Witness generation
 pub mod generation;
diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
new file mode 100644
index 0000000..53f77ac
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -0,0 +1,103 @@
+//! Read access to internals for external monitors. Only compiled with
+//! `--cfg verif_hooks`.
+
+use plonky2::field::goldilocks_field::GoldilocksField as F;
+use plonky2::field::packed::PackedField;
+use starky::constraint_consumer::ConstraintConsumer;
+use starky::cross_table_lookup::CrossTableLookup;
+use starky::evaluation_frame::StarkEvaluationFrame;
+use starky::lookup::Lookup;
+use starky::stark::Stark;
+
+use crate::all_stark::AllStark;
+use crate::proof::PublicValues;
+
+type S = AllStark<F, 2>;
+
+macro_rules! with_stark {
+    ($all:expr, $table:expr, $stark:ident => $e:expr) => {
+        match $table {
+            0 => {
+                let $stark = &$all.arithmetic_stark;
+                $e
+            }
+            1 => {
+                let $stark = &$all.byte_packing_stark;
+                $e
+            }
+            2 => {
+                let $stark = &$all.cpu_stark;
+                $e
+            }
+            3 => {
+                let $stark = &$all.keccak_stark;
+                $e
+            }
+            4 => {
+                let $stark = &$all.keccak_sponge_stark;
+                $e
+            }
+            5 => {
+                let $stark = &$all.logic_stark;
+                $e
+            }
+            6 => {
+                let $stark = &$all.memory_stark;
+                $e
+            }
+            7 => {
+                let $stark = &$all.mem_before_stark;
+                $e
+            }
+            8 => {
+                let $stark = &$all.mem_after_stark;
+                $e
+            }
+            _ => panic!("no such table"),
+        }
+    };
+}
+
+fn eval_with<P: PackedField<Scalar = F>, T: Stark<F, 2>>(
+    stark: &T,
+    local: &[P],
+    next: &[P],
+    consumer: &mut ConstraintConsumer<P>,
+) {
+    let frame = T::EvaluationFrame::<F, P, 1>::from_values(local, next, &[]);
+    stark.eval_packed_generic::<F, P, 1>(&frame, consumer);
+}
+
+/// Evaluates the constraints of a table on two consecutive rows.
+pub fn eval<P: PackedField<Scalar = F>>(
+    all: &S,
+    table: usize,
+    local: &[P],
+    next: &[P],
+    consumer: &mut ConstraintConsumer<P>,
+) {
+    with_stark!(all, table, s => eval_with(s, local, next, consumer))
+}
+
+fn columns_of<T: Stark<F, 2>>(_: &T) -> usize {
+    T::COLUMNS
+}
+
+pub fn columns(all: &S, table: usize) -> usize {
+    with_stark!(all, table, s => columns_of(s))
+}
+
+pub fn lookups(all: &S, table: usize) -> Vec<Lookup<F>> {
+    with_stark!(all, table, s => Stark::<F, 2>::lookups(s))
+}
+
+pub fn cross_table_lookups(all: &S) -> Vec<CrossTableLookup<F>> {
+    all.cross_table_lookups.clone()
+}
+
+/// The memory operations that the verifier adds on behalf of the public
+/// values.
+#[cfg(debug_assertions)]
+pub fn extra_memory_operations(public_values: &PublicValues<F>) -> Vec<Vec<F>> {
+    crate::verifier::debug_utils::get_memory_extra_looking_values::<F, 2>(public_values)
+}
-- 
2.43.0


From 4f2be2d29040ed752720251a4719786927334f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 35/45] fix: decoder: keep the fees of failed transactions to a
 new beneficiary

---
 trace_decoder/src/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index cd2bcfa..50562bc 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -503,8 +503,9 @@ where
 
                 let do_writes = !just_access
                     && match born {
-                        // if txn failed, don't commit changes to trie
-                        true => receipt.status,
+                        // if txn failed, don't commit changes to trie,
+                        // except for the fees which made the beneficiary's account
+                        true => receipt.status || addr == block.block_beneficiary,
                         false => true,
                     };
 
-- 
2.43.0


From deceb6e643d8b1d38766add4a644ce6676c98a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 36/45] fix: decoder: no empty account for a withdrawal of
 nothing

---
 trace_decoder/src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index 50562bc..3be1ae7 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -591,7 +591,10 @@ where
                 true => {
                     for (addr, amt) in &withdrawals {
                         state_mask.insert(<WorldT::SubtriePath>::from(*addr));
-                        world.update_balance(*addr, |it| *it += *amt)?;
+                        // a withdrawal of nothing must not create an empty account
+                        if !amt.is_zero() {
+                            world.update_balance(*addr, |it| *it += *amt)?;
+                        }
                     }
                     mem::take(&mut withdrawals)
                 }
-- 
2.43.0


From 10f7f73d3b9ee8fcc0c072eee8948efd746395f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 37/45] verif hooks: frontends of the trace decoder (behind cfg
 verif_hooks)

---
 trace_decoder/src/lib.rs         |  3 +++
 trace_decoder/src/verif_hooks.rs | 25 +++++++++++++++++++++++++
 2 files changed, 28 insertions(+)
 create mode 100644 trace_decoder/src/verif_hooks.rs

diff --git a/trace_decoder/src/lib.rs b/trace_decoder/src/lib.rs
index 4bd68bc..8a862cd 100644
--- a/trace_decoder/src/lib.rs
+++ b/trace_decoder/src/lib.rs
@@ -68,6 +68,9 @@ mod type1;
 mod type2;
 mod wire;
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 pub use core::{entrypoint, WireDisposition};
 
 mod core;
diff --git a/trace_decoder/src/verif_hooks.rs b/trace_decoder/src/verif_hooks.rs
new file mode 100644
index 0000000..c9765e9
--- /dev/null
+++ b/trace_decoder/src/verif_hooks.rs
@@ -0,0 +1,25 @@
+//! What monitors of this crate need of private items.
+//! Only there with `--cfg verif_hooks`.
+
+use std::collections::{BTreeMap, BTreeSet};
+
+use evm_arithmetization::tries::{StateMpt, StorageTrie};
+use evm_arithmetization::world::Type2World;
+use keccak_hash::H256;
+
+/// What bytes in the type 1 wire format stand for.
+#[allow(clippy::type_complexity)]
+pub fn type1(
+    bytes: &[u8],
+) -> anyhow::Result<(StateMpt, BTreeMap<H256, StorageTrie>, BTreeSet<Vec<u8>>)> {
+    let it = crate::type1::frontend(crate::wire::parse(bytes)?)?;
+    let code = it.code.into_iter().map(|it| it.into_vec()).collect();
+    Ok((it.state, it.storage, code))
+}
+
+/// What bytes in the type 2 wire format stand for.
+pub fn type2(bytes: &[u8]) -> anyhow::Result<(Type2World, BTreeSet<Vec<u8>>)> {
+    let it = crate::type2::frontend(crate::wire::parse(bytes)?)?;
+    let code = it.code.into_iter().map(|it| it.into_vec()).collect();
+    Ok((it.world, code))
+}
-- 
2.43.0


From 488d6a926796befcb16ce2b0a384caaa1408dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 38/45] fix: bind the registers of a segment to its proof

The registers before and after a segment contribute to the cross-table
lookup of the memory table, but were not part of the transcript from which
the lookup challenges are drawn: they could be chosen after the challenges,
so that a proof would verify with other registers than those it was
generated with.
---
 evm_arithmetization/src/get_challenges.rs | 36 +++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/evm_arithmetization/src/get_challenges.rs b/evm_arithmetization/src/get_challenges.rs
index 4bdffd5..94f31b6 100644
--- a/evm_arithmetization/src/get_challenges.rs
+++ b/evm_arithmetization/src/get_challenges.rs
@@ -199,6 +199,38 @@ fn observe_block_hashes_target<
     challenger.observe_elements(&block_hashes.cur_hash);
 }
 
+fn observe_registers<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
+    challenger: &mut Challenger<F, C::Hasher>,
+    registers: &RegistersData,
+) -> Result<(), ProgramError> {
+    challenger.observe_element(u256_to_u32(registers.program_counter)?);
+    challenger.observe_element(u256_to_u32(registers.is_kernel)?);
+    challenger.observe_element(u256_to_u32(registers.stack_len)?);
+    challenger.observe_elements(&u256_limbs::<F>(registers.stack_top));
+    challenger.observe_element(u256_to_u32(registers.context)?);
+    challenger.observe_element(u256_to_u32(registers.gas_used)?);
+
+    Ok(())
+}
+
+fn observe_registers_target<
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>,
+    const D: usize,
+>(
+    challenger: &mut RecursiveChallenger<F, C::Hasher, D>,
+    registers: &RegistersDataTarget,
+) where
+    C::Hasher: AlgebraicHasher<F>,
+{
+    challenger.observe_element(registers.program_counter);
+    challenger.observe_element(registers.is_kernel);
+    challenger.observe_element(registers.stack_len);
+    challenger.observe_elements(&registers.stack_top);
+    challenger.observe_element(registers.context);
+    challenger.observe_element(registers.gas_used);
+}
+
 pub(crate) fn observe_public_values<
     F: RichField + Extendable<D>,
     C: GenericConfig<D, F = F>,
@@ -212,6 +244,8 @@ pub(crate) fn observe_public_values<
     observe_block_metadata::<F, C, D>(challenger, &public_values.block_metadata)?;
     observe_block_hashes::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data::<F, C, D>(challenger, &public_values.extra_block_data)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_before)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_after)?;
 
     #[cfg(feature = "cdk_erigon")]
     {
@@ -241,6 +275,8 @@ pub(crate) fn observe_public_values_target<
     observe_block_metadata_target::<F, C, D>(challenger, &public_values.block_metadata);
     observe_block_hashes_target::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data_target::<F, C, D>(challenger, &public_values.extra_block_data);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_before);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_after);
     #[cfg(feature = "cdk_erigon")]
     observe_burn_addr_target::<F, C, D>(challenger, public_values.burn_addr.clone());
 }
-- 
2.43.0


From 04c2c264b5e80c1d8ddc60efb9be8207e6c9314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 39/45] fix: check memory caps and optional tables when
 verifying STARK proofs

verify_proof did not compare the memory caps in the public values with the
trace caps of the memory tables, and skipped the verification of an optional
table marked as not in use even when a proof of it took part in the
cross-table lookups.
---
 evm_arithmetization/src/verifier.rs | 46 +++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/evm_arithmetization/src/verifier.rs b/evm_arithmetization/src/verifier.rs
index 1d4fdf3..25c08aa 100644
--- a/evm_arithmetization/src/verifier.rs
+++ b/evm_arithmetization/src/verifier.rs
@@ -90,6 +90,7 @@ pub mod testing {
     use starky::cross_table_lookup::CrossTableLookup;
     use starky::cross_table_lookup::CtlCheckVars;
     use starky::lookup::GrandProductChallenge;
+    use starky::proof::StarkProofWithMetadata;
     use starky::stark::Stark;
     use starky::verifier::verify_stark_proof_with_challenges;
 
@@ -169,6 +170,31 @@ pub mod testing {
         Ok(())
     }
 
+    /// Checks that a public memory cap is the trace cap of the corresponding
+    /// table, or only contains zeros if the table is not in use.
+    fn verify_memory_cap<
+        F: RichField + Extendable<D>,
+        C: GenericConfig<D, F = F>,
+        const D: usize,
+    >(
+        stark_proof: Option<&StarkProofWithMetadata<F, C, D>>,
+        mem_cap: &MemCap,
+        config: &StarkConfig,
+    ) -> Result<()> {
+        let expected = match stark_proof {
+            Some(stark_proof) => MemCap::from_merkle_cap(stark_proof.proof.trace_cap.clone()),
+            None => MemCap {
+                mem_cap: vec![Default::default(); config.fri_config.num_cap_elements()],
+            },
+        };
+        ensure!(
+            *mem_cap == expected,
+            anyhow::Error::msg("Public memory cap does not match the memory table.")
+        );
+
+        Ok(())
+    }
+
     pub fn verify_proof<
         F: RichField + Extendable<D>,
         C: GenericConfig<D, F = F>,
@@ -179,6 +205,14 @@ pub mod testing {
         config: &StarkConfig,
         is_initial: bool,
     ) -> Result<()> {
+        // An optional table has a proof if and only if it is in use.
+        for i in OPTIONAL_TABLE_INDICES {
+            ensure!(
+                all_proof.multi_proof.stark_proofs[i].is_some() == all_proof.table_in_use[i],
+                anyhow::Error::msg("Inconsistent use of an optional table.")
+            );
+        }
+
         let AllProofChallenges {
             stark_challenges,
             ctl_challenges,
@@ -259,6 +293,18 @@ pub mod testing {
 
         let public_values = all_proof.public_values;
 
+        // Verify that the public memory caps are those of the memory tables.
+        verify_memory_cap::<F, C, D>(
+            stark_proofs[*Table::MemBefore].as_ref(),
+            &public_values.mem_before,
+            config,
+        )?;
+        verify_memory_cap::<F, C, D>(
+            stark_proofs[*Table::MemAfter].as_ref(),
+            &public_values.mem_after,
+            config,
+        )?;
+
         // Verify shift table and kernel code.
         if is_initial {
             verify_initial_memory::<F, C, D>(&public_values, config)?;
-- 
2.43.0


From de91ea288895f778fe0752d3c1c45ac377f4c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 40/45] fix: check the verifier data of cyclic proofs in their
 parent circuits

Segment aggregation, batch aggregation and block proofs only enforce that
the verifier data in their public inputs are the ones used for their cyclic
children. The circuits above them must check that these are the data of the
expected circuit, or a proof from an arbitrary circuit could be aggregated.
---
 .../src/fixed_recursive_verifier.rs           | 46 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 54b47a8..d7682f8 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -12,7 +12,7 @@ use mpt_trie::partial_trie::{HashedPartialTrie, Node, PartialTrie};
 use plonky2::field::extension::Extendable;
 use plonky2::gates::constant::ConstantGate;
 use plonky2::gates::noop::NoopGate;
-use plonky2::hash::hash_types::{MerkleCapTarget, RichField, NUM_HASH_OUT_ELTS};
+use plonky2::hash::hash_types::{HashOutTarget, MerkleCapTarget, RichField, NUM_HASH_OUT_ELTS};
 use plonky2::iop::challenger::RecursiveChallenger;
 use plonky2::iop::target::{BoolTarget, Target};
 use plonky2::iop::witness::{PartialWitness, WitnessWrite};
@@ -1346,6 +1346,17 @@ where
         let lhs_batch_proof = Self::add_batch_agg_child(&mut builder, agg);
         let rhs_batch_proof = Self::add_batch_agg_child(&mut builder, agg);
 
+        // Segment aggregation proofs are cyclic: check that they were aggregated with
+        // the expected circuit.
+        let agg_vk = builder.constant_verifier_data(&agg.circuit.verifier_only);
+        for child in [&lhs_batch_proof, &rhs_batch_proof] {
+            let inner_vk =
+                Self::cyclic_vk_from_public_inputs(&child.base_proof.public_inputs, &agg.circuit);
+            // There is nothing to check on the base proof of a batch aggregation.
+            let expected_vk = builder.select_verifier_data(child.is_agg, &inner_vk, &agg_vk);
+            builder.connect_verifier_data(&inner_vk, &expected_vk);
+        }
+
         let lhs_pv = lhs_batch_proof.public_values(&mut builder);
         let rhs_pv = rhs_batch_proof.public_values(&mut builder);
 
@@ -1482,6 +1493,27 @@ where
         }
     }
 
+    /// Extracts the verifier data that a cyclic proof for `circuit` exposes at
+    /// the end of its public inputs. Just like with
+    /// [`check_cyclic_proof_verifier_data`], whoever verifies such a proof must
+    /// check that they match the actual verifier data of the circuit.
+    fn cyclic_vk_from_public_inputs(
+        public_inputs: &[Target],
+        circuit: &CircuitData<F, C, D>,
+    ) -> VerifierCircuitTarget {
+        let vk = &public_inputs[public_inputs.len() - verification_key_len(circuit)..];
+        let (circuit_digest, constants_sigmas_cap) = vk.split_at(NUM_HASH_OUT_ELTS);
+        VerifierCircuitTarget {
+            constants_sigmas_cap: MerkleCapTarget(
+                constants_sigmas_cap
+                    .chunks(NUM_HASH_OUT_ELTS)
+                    .map(|h| HashOutTarget::from_vec(h.to_vec()))
+                    .collect(),
+            ),
+            circuit_digest: HashOutTarget::from_vec(circuit_digest.to_vec()),
+        }
+    }
+
     fn check_init_merkle_cap(
         builder: &mut CircuitBuilder<F, D>,
         x: &PublicValuesTarget,
@@ -1605,6 +1637,12 @@ where
         let agg_verifier_data = builder.constant_verifier_data(&agg.circuit.verifier_only);
         builder.verify_proof::<C>(&agg_root_proof, &agg_verifier_data, &agg.circuit.common);
 
+        // Batch aggregation proofs are cyclic: check that they were aggregated with
+        // the expected circuit.
+        let inner_vk =
+            Self::cyclic_vk_from_public_inputs(&agg_root_proof.public_inputs, &agg.circuit);
+        builder.connect_verifier_data(&inner_vk, &agg_verifier_data);
+
         while log2_ceil(builder.num_gates()) < agg.circuit.common.degree_bits() {
             builder.add_gate(NoopGate, vec![]);
         }
@@ -1778,6 +1816,12 @@ where
             &block.circuit.common,
         );
 
+        // Block proofs are cyclic: check that they were chained with the expected
+        // circuit.
+        let inner_vk =
+            Self::cyclic_vk_from_public_inputs(&parent_block_proof.public_inputs, &block.circuit);
+        builder.connect_verifier_data(&inner_vk, &block_verifier_data);
+
         // Pad to match the (non-existing yet!) 2-to-1 circuit's degree.
         // We use the block circuit's degree as target reference here, as they end up
         // having same degree.
-- 
2.43.0


From d459be92e95ba7d5084c581972e739b65ead093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 41/45] fix: carry the checkpoint consolidated hash along a
 chain of blocks

The consolidated hash of the checkpoint was only checked for the first block
after the checkpoint. It was not connected between the batches of a block,
nor between a block and its parent, although it ends up in the final public
values.
---
 .../src/fixed_recursive_verifier.rs           | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index d7682f8..e655b7a 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1691,6 +1691,17 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Connect checkpoint consolidated hash values.
+        for child in [lhs, rhs] {
+            for (&limb0, &limb1) in pvs
+                .checkpoint_consolidated_hash
+                .iter()
+                .zip(&child.checkpoint_consolidated_hash)
+            {
+                builder.connect(limb0, limb1);
+            }
+        }
+
         // Connect the transaction number in public values to the lhs and rhs values
         // correctly.
         builder.connect(pvs.txn_number_before, lhs.txn_number_before);
@@ -1983,6 +1994,16 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Between blocks, the consolidated hash of the checkpoint remains unchanged.
+        for (&limb0, limb1) in lhs
+            .extra_block_data
+            .checkpoint_consolidated_hash
+            .iter()
+            .zip(rhs.extra_block_data.checkpoint_consolidated_hash)
+        {
+            builder.conditional_assert_eq(has_parent_block.target, limb0, limb1);
+        }
+
         // Connect block numbers.
         let one = builder.one();
         let prev_block_nb = builder.sub(rhs.block_metadata.block_number, one);
-- 
2.43.0


From 9f66abcf695ee56bd65b807d02a8306d54b03fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 42/45] fix: keep the chain id along a chain of blocks

The final public values expose a single chain id for the whole state
transition, but only the one of the last block was connected to it.
---
 evm_arithmetization/src/fixed_recursive_verifier.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index e655b7a..de9159c 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1994,6 +1994,13 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Between blocks, the chain id remains unchanged.
+        builder.conditional_assert_eq(
+            has_parent_block.target,
+            lhs.block_metadata.block_chain_id,
+            rhs.block_metadata.block_chain_id,
+        );
+
         // Between blocks, the consolidated hash of the checkpoint remains unchanged.
         for (&limb0, limb1) in lhs
             .extra_block_data
-- 
2.43.0


From 6907805203c0e8c0366949af44f34278b6f1b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 43/45] verif hooks: layers of the recursive circuits (behind
 cfg verif_hooks)

---
 .../src/fixed_recursive_verifier.rs           | 84 +++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index de9159c..8a21e78 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -3400,3 +3400,87 @@ pub mod testing {
         }
     }
 }
+
+/// Access to the recursive circuits for runtime monitors.
+#[cfg(verif_hooks)]
+pub mod verif {
+    use super::*;
+
+    impl<F, C, const D: usize> AllRecursiveCircuits<F, C, D>
+    where
+        F: RichField + Extendable<D>,
+        C: GenericConfig<D, F = F> + 'static,
+        C::Hasher: AlgebraicHasher<F>,
+    {
+        /// Rebuilds the circuits of one layer on top of the current circuits of
+        /// the layer below: root (0), segment aggregation (1), batch
+        /// aggregation (2), block (3), block wrapper (4), two-to-one (5).
+        pub fn verif_rebuild_layer(&mut self, layer: usize, config: &RecursionConfig) {
+            match layer {
+                0 => {
+                    self.root = Self::create_segment_circuit(
+                        &self.by_table,
+                        &config.stark_config,
+                        &config.recursion_circuit_config,
+                    )
+                }
+                1 => {
+                    self.segment_aggregation = Self::create_segment_aggregation_circuit(&self.root)
+                }
+                2 => {
+                    self.batch_aggregation = Self::create_batch_aggregation_circuit(
+                        &self.segment_aggregation,
+                        &config.stark_config,
+                    )
+                }
+                3 => self.block = Self::create_block_circuit(&self.batch_aggregation),
+                4 => self.block_wrapper = Self::create_block_wrapper_circuit(&self.block),
+                _ => {
+                    self.two_to_one_block =
+                        Self::create_two_to_one_block_circuit(&self.block_wrapper)
+                }
+            }
+        }
+
+        /// Replaces the circuit at the end of the first shrinking chain of a
+        /// table, and removes the other chains.
+        pub fn verif_set_final_circuit(&mut self, table: usize, circuit: CircuitData<F, C, D>) {
+            let chains = &mut self.by_table[table].by_stark_size;
+            while chains.len() > 1 {
+                chains.pop_last();
+            }
+            let chain = chains.values_mut().next().expect("A table has circuits.");
+            match chain.shrinking_wrappers.last_mut() {
+                Some(wrapper) => wrapper.circuit = circuit,
+                None => chain.initial_wrapper.circuit = circuit,
+            }
+        }
+
+        /// Proves the root circuit from the proofs of the final circuits of the
+        /// tables.
+        pub fn verif_prove_root(
+            &self,
+            table_proofs: &[ProofWithPublicInputs<F, C, D>; NUM_TABLES],
+            circuit_indices: &[usize; NUM_TABLES],
+            table_in_use: &[bool; NUM_TABLES],
+            public_values: &PublicValues<F>,
+        ) -> anyhow::Result<ProofWithPublicInputs<F, C, D>> {
+            let mut inputs = PartialWitness::new();
+            for i in 0..NUM_TABLES {
+                inputs.set_target(
+                    self.root.index_verifier_data[i],
+                    F::from_canonical_usize(circuit_indices[i]),
+                )?;
+                inputs.set_proof_with_pis_target(&self.root.proof_with_pis[i], &table_proofs[i])?;
+                inputs.set_bool_target(self.root.table_in_use[i], table_in_use[i])?;
+            }
+            inputs.set_verifier_data_target(
+                &self.root.cyclic_vk,
+                &self.segment_aggregation.circuit.verifier_only,
+            )?;
+            set_public_value_targets(&mut inputs, &self.root.public_values, public_values)
+                .map_err(|_| anyhow!("Invalid public values."))?;
+            self.root.circuit.prove(inputs)
+        }
+    }
+}
-- 
2.43.0


From 93ea1f18335f01f75b7031aacae967258e397d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 44/45] fix: compare all block metadata between the segments of
 a batch

The blob gas used, the excess blob gas and the beacon block root of the
right-hand segment were left out of the comparison.
---
 evm_arithmetization/src/proof.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/evm_arithmetization/src/proof.rs b/evm_arithmetization/src/proof.rs
index f501a96..fdca306 100644
--- a/evm_arithmetization/src/proof.rs
+++ b/evm_arithmetization/src/proof.rs
@@ -1353,6 +1353,27 @@ impl BlockMetadataTarget {
             )
         }
         builder.conditional_assert_eq(condition.target, bm0.block_gas_used, bm1.block_gas_used);
+        for i in 0..2 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_blob_gas_used[i],
+                bm1.block_blob_gas_used[i],
+            )
+        }
+        for i in 0..2 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_excess_blob_gas[i],
+                bm1.block_excess_blob_gas[i],
+            )
+        }
+        for i in 0..8 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.parent_beacon_block_root[i],
+                bm1.parent_beacon_block_root[i],
+            )
+        }
         for i in 0..64 {
             builder.conditional_assert_eq(condition.target, bm0.block_bloom[i], bm1.block_bloom[i])
         }
-- 
2.43.0


From 9564e13d3e442967f06cf4665e4e708259d9fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 45/45] verif hooks: constants of the kernel, challenges of a
 segment (behind cfg verif_hooks)

---
 .../src/fixed_recursive_verifier.rs           |  5 +++
 evm_arithmetization/src/verif_hooks.rs        | 36 +++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 8a21e78..baf11d9 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -3456,6 +3456,11 @@ pub mod verif {
             }
         }
 
+        /// The shape of the circuit at the end of the shrinking chains of a table.
+        pub fn verif_final_common(&self, table: usize) -> CommonCircuitData<F, D> {
+            self.by_table[table].final_circuits()[0].common.clone()
+        }
+
         /// Proves the root circuit from the proofs of the final circuits of the
         /// tables.
         pub fn verif_prove_root(
diff --git a/evm_arithmetization/src/verif_hooks.rs b/evm_arithmetization/src/verif_hooks.rs
index 53f77ac..cb9b687 100644
--- a/evm_arithmetization/src/verif_hooks.rs
+++ b/evm_arithmetization/src/verif_hooks.rs
@@ -101,3 +101,39 @@ pub fn cross_table_lookups(all: &S) -> Vec<CrossTableLookup<F>> {
 pub fn extra_memory_operations(public_values: &PublicValues<F>) -> Vec<Vec<F>> {
     crate::verifier::debug_utils::get_memory_extra_looking_values::<F, 2>(public_values)
 }
+
+/// A constant of the kernel's assembly, by its name there.
+pub fn kernel_constant(name: &str) -> Option<ethereum_types::U256> {
+    crate::cpu::kernel::constants::evm_constants()
+        .get(name)
+        .copied()
+}
+
+/// The challenges (beta, gamma) of the cross-table lookups, and the state of
+/// the challenger after them, of a segment with these trace caps.
+#[allow(clippy::type_complexity)]
+pub fn segment_challenges(
+    trace_caps: &[Vec<F>],
+    public_values: &PublicValues<F>,
+    num_challenges: usize,
+) -> Option<(Vec<(F, F)>, Vec<F>)> {
+    use plonky2::plonk::config::{GenericConfig, PoseidonGoldilocksConfig as C};
+    let mut challenger =
+        plonky2::iop::challenger::Challenger::<F, <C as GenericConfig<2>>::Hasher>::new();
+    for cap in trace_caps {
+        challenger.observe_elements(cap);
+    }
+    crate::get_challenges::observe_public_values::<F, C, 2>(&mut challenger, public_values).ok()?;
+    let set =
+        starky::lookup::get_grand_product_challenge_set(&mut challenger, num_challenges).challenges;
+    let state = challenger.compact();
+    Some((
+        set.iter().map(|c| (c.beta, c.gamma)).collect(),
+        state.as_ref().to_vec(),
+    ))
+}
+
+/// The bytes of the kernel.
+pub fn kernel_code() -> &'static [u8] {
+    &crate::cpu::kernel::aggregator::KERNEL.code
+}
-- 
2.43.0

