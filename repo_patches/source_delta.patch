From 677c7401b3615cdce48a892844ec7f633d3eacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 01/10] hook(jmt_verif): re-export ExclusionProof in
 verification builds

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 553bc91..e4bfdb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,8 @@ use bytes32ext::Bytes32Ext;
 pub use iterator::JellyfishMerkleIterator;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
+#[cfg(jmt_verif)] // verification builds only: lets monitors name the exclusion proof type
+pub use tree::ExclusionProof;
 pub use tree::JellyfishMerkleTree;
 #[cfg(any(test, feature = "sha2"))]
 pub use tree::Sha256Jmt;
-- 
2.43.0


From 96a80f291eba04a3ac67181682008bbe5dbde502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 02/10] fix: give every version its own root node and retire
 the previous one

Updates that change nothing left the previous root unreported as stale, null
roots of earlier versions were never retired, and an update without effect on a
store without the previous root (or on a pre-genesis state) was not readable at
its version.
---
 src/tree.rs       | 13 ++++++-------
 src/tree_cache.rs | 43 +++++++++++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 5662c3a..2f01e3b 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -209,9 +209,8 @@ where
                     );
                 }
 
-                if node_key.version() == version {
-                    tree_cache.delete_node(&node_key, false /* is_leaf */);
-                }
+                // The null root node will not be referenced since this version.
+                tree_cache.delete_node(&node_key, false /* is_leaf */);
                 self.batch_create_subtree(
                     NodeKey::new_empty_path(version),
                     version,
@@ -623,11 +622,11 @@ where
                         root_node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if root_node_key.version() == version && node_already_exists {
-                    tree_cache.delete_node(&root_node_key, false /* is_leaf */);
-                }
                 if let Some(value) = value {
+                    // The old null node, if there is one, will not be referenced since this version
+                    if node_already_exists {
+                        tree_cache.delete_node(&root_node_key, false /* is_leaf */);
+                    }
                     // If we're inserting into the null root node, we should change it to be a leaf node
                     let (new_root_node_key, new_root_node) = Self::create_leaf_node(
                         NodeKey::new_empty_path(version),
diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index f2ec12b..c3fca95 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -288,18 +288,26 @@ where
 
     /// Freezes all the contents in cache to be immutable and clear `node_cache`.
     pub fn freeze<H: SimpleHasher>(&mut self) -> Result<()> {
-        let mut root_node_key = self.get_root_node_key().clone();
+        let root_node_key = self.get_root_node_key().clone();
 
-        let root_node = if let Some(root_node) = self.get_node_option(&root_node_key)? {
-            root_node
-        } else {
-            // If the root node does not exist, then we need to set it to the null node and record
-            // that node hash as the root hash of this version. This will happen if you delete as
-            // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
-            self.put_node(root_node_key.clone(), Node::new_null())?;
-            Node::Null
-        };
+        if self.next_version == 0
+            && self.stale_node_index_cache.is_empty()
+            && self.node_cache.len() == 1
+            && self.node_cache.get(&root_node_key) == Some(&Node::Null)
+        {
+            // Nothing has been inserted into the empty tree we deliberately started from. If there
+            // already is a root node at this version, don't overwrite it.
+            if let Some(Node::Internal(_) | Node::Leaf(_)) =
+                self.reader.get_node_option(&root_node_key)?
+            {
+                self.node_cache.remove(&root_node_key);
+            }
+        }
+
+        // If the root node does not exist, then the tree is empty, which is represented by a null
+        // node at the root. This will happen if you delete as the first operation on an empty tree.
+        let existing_root_node = self.get_node_option(&root_node_key)?;
+        let root_node = existing_root_node.clone().unwrap_or_else(Node::new_null);
 
         // Insert the root node's hash into the list of root hashes in the frozen cache, so that
         // they can be extracted later after a sequence of transactions:
@@ -313,12 +321,19 @@ where
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
         // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        if root_node_key.version() != self.next_version
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-            let root_node = self.get_node(&self.root_node_key)?;
-            root_node_key.set_version(self.next_version);
+            // The previous root node (if there is one) will not be referenced since this version.
+            if existing_root_node.is_some() {
+                self.delete_node(&root_node_key, root_node.is_leaf());
+            }
+            let mut new_root_node_key = root_node_key;
+            new_root_node_key.set_version(self.next_version);
+            self.put_node(new_root_node_key.clone(), root_node)?;
+            self.set_root_node_key(new_root_node_key);
+        } else if existing_root_node.is_none() {
             self.put_node(root_node_key, root_node)?;
         }
 
-- 
2.43.0


From 2b21bd2f224ed930e3a3c7a4f594326ea8367f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 03/10] fix: reject range proofs with more than 256 siblings
 instead of panicking

---
 src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index c29d2b1..e3654f4 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -654,6 +654,12 @@ impl<H: SimpleHasher> SparseMerkleRangeProof<H> {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From ab5d105ce1e3a9a5ba5d685c2b5f3920acce9e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 04/10] fix: check the inserted key's own path when verifying a
 split in an update proof

---
 src/types/proof/definition.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index e3654f4..bd8967c 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -308,6 +308,13 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         new_element_key: KeyHash,
         new_element_value: Option<V>,
     ) -> Result<RootHash> {
+        ensure!(
+            self.siblings.len() <= 256,
+            "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+            256,
+            self.siblings.len(),
+        );
+
         if let Some(new_element_value) = new_element_value {
             // A value have been supplied, we need to prove that we inserted a given value at the new key
 
@@ -315,9 +322,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                 // In the case there is a leaf in the Merkle path, we check that this leaf exists in the tree
                 // The inserted key is going to update an existing leaf
                 Some(leaf_node) => {
-                    // First verify that the old merkle path is valid
-                    ensure!(self.root_hash() == old_root_hash);
                     if new_element_key == leaf_node.key_hash {
+                        // First verify that the old merkle path is valid
+                        ensure!(self.root_hash() == old_root_hash);
+
                         // Step 2: we compute the new Merkle path (we build a new [`SparseMerkleProof`] object)
                         // In this case the siblings are left unchanged, only the leaf value is updated
                         let new_merkle_path: SparseMerkleProof<H> = SparseMerkleProof::new(
@@ -331,6 +339,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                         // Step 3: we compute the new Merkle root
                         Ok(new_merkle_path.root_hash())
                     } else {
+                        // First verify that the leaf is the only one in the subtree where the new
+                        // key belongs, so that the new key doesn't exist yet
+                        self.verify_nonexistence(old_root_hash, new_element_key)?;
+
                         let new_merkle_path = self.compute_new_merkle_path_on_split(
                             leaf_node,
                             new_element_key,
@@ -497,7 +509,7 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                     .0
                     .iter_bits()
                     .rev()
-                    .skip(256 - self.siblings.len()),
+                    .skip(256usize.saturating_sub(self.siblings.len())),
             )
             .fold(current_hash, |hash, (sibling_node, bit)| {
                 if bit {
-- 
2.43.0


From f096894bbbd8d44a511c75b4a4e75583076faf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 05/10] fix: prove and check that a key deleted without effect
 is absent

Deletions of absent keys came with an empty proof that the verifier accepted
without looking at it, so the deletion of a present key could be denied.
---
 src/tree.rs                   | 25 +++++++------------------
 src/types/proof/definition.rs | 11 +++--------
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 2f01e3b..06b2be7 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -743,15 +743,8 @@ where
                         merkle_proof,
                     )
                 } else {
-                    // If there was no changes, don't generate a proof
-                    (
-                        PutResult::NotChanged,
-                        if with_proof {
-                            Some(SparseMerkleProof::new(None, vec![]))
-                        } else {
-                            None
-                        },
-                    )
+                    // The key to delete doesn't exist, which is what the proof shows
+                    (PutResult::NotChanged, merkle_proof)
                 }
             }
         };
@@ -760,14 +753,7 @@ where
         let mut children: Children = internal_node.into();
         match put_result {
             PutResult::NotChanged => {
-                return Ok((
-                    PutResult::NotChanged,
-                    if with_proof {
-                        Some(SparseMerkleProof::new(None, vec![]))
-                    } else {
-                        None
-                    },
-                ));
+                return Ok((PutResult::NotChanged, merkle_proof));
             }
             PutResult::Updated((_, new_node)) => {
                 // update child
@@ -969,7 +955,10 @@ where
             Ok((
                 PutResult::NotChanged,
                 if with_proof {
-                    Some(SparseMerkleProof::new(None, vec![]))
+                    Some(SparseMerkleProof::new(
+                        Some(existing_leaf_node.into()),
+                        vec![],
+                    ))
                 } else {
                     None
                 },
diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index bd8967c..6c21efa 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -376,14 +376,8 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
             }
         } else {
             // No value supplied, we need to prove that the previous value was deleted
-            if let Some(leaf_node) = self.leaf {
+            if self.leaf.map(|leaf_node| leaf_node.key_hash) == Some(new_element_key) {
                 ensure!(self.root_hash() == old_root_hash);
-                ensure!(
-                    new_element_key == leaf_node.key_hash,
-                    "Key {:?} to remove doesn't match the leaf key {:?} supplied with the proof",
-                    new_element_key,
-                    leaf_node.key_hash
-                );
 
                 // Step 2: we compute the new Merkle tree path.
                 // In case of deletion, we need to rewind the nibble until we reach the first non-default hash
@@ -487,8 +481,9 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
                 Ok(new_merkle_hash)
             } else {
-                // We just return the old root hash if we try to remove the empty node
+                // We just return the old root hash if we try to remove a key that doesn't exist
                 // because there isn't any changes to the merkle tree
+                self.verify_nonexistence(old_root_hash, new_element_key)?;
                 Ok(old_root_hash)
             }
         }
-- 
2.43.0


From b792ad214f26397633184084cc6b6745901e441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 06/10] fix: report storage errors met while building proofs
 instead of panicking

---
 src/node_type.rs | 78 ++++++++++++++++++++++++++----------------------
 src/tree.rs      | 16 +++++-----
 2 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/src/node_type.rs b/src/node_type.rs
index e12bf1b..a0977bf 100644
--- a/src/node_type.rs
+++ b/src/node_type.rs
@@ -14,7 +14,7 @@ use crate::SimpleHasher;
 use alloc::format;
 use alloc::vec::Vec;
 use alloc::{boxed::Box, vec};
-use anyhow::Context;
+use anyhow::{bail, Context, Result};
 use borsh::{BorshDeserialize, BorshSerialize};
 use num_derive::{FromPrimitive, ToPrimitive};
 #[cfg(any(test))]
@@ -508,27 +508,24 @@ impl InternalNode {
         start: u8,
         width: u8,
         (existence_bitmap, leaf_bitmap): (u16, u16),
-    ) -> SparseMerkleNode {
+    ) -> Result<SparseMerkleNode> {
         // Given a bit [start, 1 << nibble_height], return the value of that range.
         let (range_existence_bitmap, range_leaf_bitmap) =
             Self::range_bitmaps(start, width, (existence_bitmap, leaf_bitmap));
         if range_existence_bitmap == 0 {
             // No child under this subtree
-            SparseMerkleNode::Null
+            Ok(SparseMerkleNode::Null)
         } else if has_only_child(width, range_existence_bitmap, range_leaf_bitmap) {
             // Only 1 leaf child under this subtree or reach the lowest level
             let only_child_index = Nibble::from(range_existence_bitmap.trailing_zeros() as u8);
 
-            let child = self
-                .child(only_child_index)
-                .with_context(|| {
-                    format!(
-                        "Corrupted internal node: existence_bitmap indicates \
+            let child = self.child(only_child_index).with_context(|| {
+                format!(
+                    "Corrupted internal node: existence_bitmap indicates \
                          the existence of a non-exist child at index {:x}",
-                        only_child_index
-                    )
-                })
-                .unwrap();
+                    only_child_index
+                )
+            })?;
 
             let child_node = tree_reader
                 .get_node(&node_key.gen_child_node_key(child.version, only_child_index))
@@ -538,15 +535,14 @@ impl InternalNode {
                          the child of version {:?} at index {:x}.",
                         child.version, only_child_index
                     )
-                })
-                .unwrap();
+                })?;
 
             match child_node {
-                Node::Internal(node) => {
-                    SparseMerkleNode::Internal(SparseMerkleInternalNode::from::<H>(node))
-                }
-                Node::Leaf(node) => SparseMerkleNode::Leaf(SparseMerkleLeafNode::from(node)),
-                Node::Null => unreachable!("Impossible to get a null node at this location"),
+                Node::Internal(node) => Ok(SparseMerkleNode::Internal(
+                    SparseMerkleInternalNode::from::<H>(node),
+                )),
+                Node::Leaf(node) => Ok(SparseMerkleNode::Leaf(SparseMerkleLeafNode::from(node))),
+                Node::Null => bail!("Impossible to get a null node at this location"),
             }
         } else {
             let left_child = self.merkle_hash::<H>(
@@ -559,7 +555,10 @@ impl InternalNode {
                 width / 2,
                 (range_existence_bitmap, range_leaf_bitmap),
             );
-            SparseMerkleNode::Internal(SparseMerkleInternalNode::new(left_child, right_child))
+            Ok(SparseMerkleNode::Internal(SparseMerkleInternalNode::new(
+                left_child,
+                right_child,
+            )))
         }
     }
 
@@ -604,7 +603,7 @@ impl InternalNode {
     }
 
     /// Gets the child without its corresponding siblings (like using
-    /// [`get_only_child_with_siblings`](InternalNode::get_only_child_with_siblings) and dropping the
+    /// [`try_get_only_child_with_siblings`](InternalNode::try_get_only_child_with_siblings) and dropping the
     /// siblings, but more efficient).
     pub fn get_only_child_without_siblings(
         &self,
@@ -679,7 +678,7 @@ impl InternalNode {
         node_key: &NodeKey,
         n: Nibble,
         get_only_child: bool,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         let mut siblings: Vec<SparseMerkleNode> = vec![];
         let (existence_bitmap, leaf_bitmap) = self.generate_bitmaps();
 
@@ -698,14 +697,14 @@ impl InternalNode {
                 sibling_half_start,
                 width,
                 (existence_bitmap, leaf_bitmap),
-            ));
+            )?);
 
             let (range_existence_bitmap, range_leaf_bitmap) =
                 Self::range_bitmaps(child_half_start, width, (existence_bitmap, leaf_bitmap));
 
             if range_existence_bitmap == 0 {
                 // No child in this range.
-                return (None, siblings);
+                return Ok((None, siblings));
             } else if get_only_child
                 && (has_only_child(width, range_existence_bitmap, range_leaf_bitmap))
             {
@@ -714,7 +713,7 @@ impl InternalNode {
                 // `None` because it's existence indirectly proves the n-th child doesn't exist.
                 // Please read proof format for details.
                 let only_child_index = Nibble::from(range_existence_bitmap.trailing_zeros() as u8);
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(only_child_index)
@@ -725,19 +724,18 @@ impl InternalNode {
                                          the existence of a non-exist child at index {:x}",
                                     only_child_index
                                 )
-                            })
-                            .unwrap()
+                            })?
                             .version;
                         Some(node_key.gen_child_node_key(only_child_version, only_child_index))
                     },
                     siblings,
-                );
+                ));
             } else if !get_only_child
                 && (has_child(width, range_existence_bitmap, n_bitmap, range_leaf_bitmap))
             {
                 // Early return the child in that subtree iff it is the only child and the nibble points
                 // to it
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(n)
@@ -748,13 +746,12 @@ impl InternalNode {
                                          the existence of a non-exist child at index {:x}",
                                     n
                                 )
-                            })
-                            .unwrap()
+                            })?
                             .version;
                         Some(node_key.gen_child_node_key(only_child_version, n))
                     },
                     siblings,
-                );
+                ));
             }
         }
         unreachable!("Impossible to get here without returning even at the lowest level.")
@@ -767,23 +764,34 @@ impl InternalNode {
         tree_cache: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         self.get_child_with_siblings_helper::<H>(tree_cache, node_key, n, false)
     }
 
-    /// [`get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
+    /// [`try_get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
     /// child in the largest width range pointed by n (see the helper function [`get_child_with_siblings_helper`] for more information).
     ///
     /// Even this leaf child is not the n-th child, it should be returned instead of
     /// `None` because it's existence indirectly proves the n-th child doesn't exist.
     /// Please read proof format for details.
+    pub(crate) fn try_get_only_child_with_siblings<H: SimpleHasher>(
+        &self,
+        tree_reader: &impl TreeReader,
+        node_key: &NodeKey,
+        n: Nibble,
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
+        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+    }
+
+    #[cfg(test)]
     pub(crate) fn get_only_child_with_siblings<H: SimpleHasher>(
         &self,
         tree_reader: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
     ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
-        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+        self.try_get_only_child_with_siblings::<H>(tree_reader, node_key, n)
+            .unwrap()
     }
 
     #[cfg(test)]
diff --git a/src/tree.rs b/src/tree.rs
index 06b2be7..af4403c 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -671,7 +671,7 @@ where
                         tree_cache,
                         &node_key,
                         child_index,
-                    );
+                    )?;
                     (child_key.unwrap(), siblings)
                 } else {
                     (
@@ -708,19 +708,19 @@ where
                 // we are looking for.
                 let merkle_proof = if with_proof {
                     let (child_key_opt, mut siblings) = internal_node
-                        .get_only_child_with_siblings::<H>(tree_cache, &node_key, child_index);
+                        .try_get_only_child_with_siblings::<H>(tree_cache, &node_key, child_index)?;
 
                     let leaf: Option<SparseMerkleLeafNode> = child_key_opt.map(|child_key|
                     {
                         // We should be able to find the node in the case
-                        let node = tree_cache.get_node(&child_key).expect("this node should be in the cache");
+                        let node = tree_cache.get_node(&child_key)?;
                         match node {
                             Leaf(leaf_node) => {
-                                leaf_node.into()
+                                Ok(leaf_node.into())
                             },
-                            _ => unreachable!("get_only_child_with_siblings should return a leaf node in that case")
+                            _ => bail!("try_get_only_child_with_siblings should return a leaf node in that case")
                         }
-                    });
+                    }).transpose()?;
 
                     siblings.reverse();
                     Some(SparseMerkleProof::new(leaf, siblings))
@@ -1019,11 +1019,11 @@ where
                         .ok_or_else(|| format_err!("ran out of nibbles"))?;
 
                     let (child_node_key, mut siblings_in_internal) = internal_node
-                        .get_only_child_with_siblings::<H>(
+                        .try_get_only_child_with_siblings::<H>(
                             self.reader,
                             &next_node_key,
                             queried_child_index,
-                        );
+                        )?;
 
                     siblings.append(&mut siblings_in_internal);
                     next_node_key = match child_node_key {
-- 
2.43.0


From 45bb9b77bab557da0015134055be9a21010e6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 07/10] fix: append to the latest version without retiring its
 own nodes

Appending declared nodes of the version being rewritten stale even though they
had just been rewritten, so that pruning removed live nodes, and took the
version of an arbitrary rightmost leaf for the latest version of the tree.
---
 src/tree_cache.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index c3fca95..02ae001 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -197,16 +197,22 @@ where
     /// increasing the tree version's number.
     pub fn new_overwrite(reader: &'a R, current_version: Version) -> Result<Self> {
         let node_cache = HashMap::new();
-        let Some((node_key, _)) = reader.get_rightmost_leaf()? else {
-            bail!("creating an overwrite cache for an empty tree is not supported")
+        let root_node_key = NodeKey::new_empty_path(current_version);
+        let root_node = reader.get_node_option(&root_node_key)?;
+        let next_root_node = match current_version.checked_add(1) {
+            Some(next_version) => reader.get_node_option(&NodeKey::new_empty_path(next_version))?,
+            None => None,
         };
 
         anyhow::ensure!(
-            node_key.version() == current_version,
+            root_node.is_some() && next_root_node.is_none(),
             "the supplied version is not the latest version of the tree"
         );
 
-        let root_node_key = NodeKey::new_empty_path(current_version);
+        if let Some(Node::Null) = root_node {
+            bail!("creating an overwrite cache for an empty tree is not supported")
+        }
+
         Ok(Self {
             node_cache,
             stale_node_index_cache: HashSet::new(),
@@ -278,7 +284,7 @@ where
         if self.node_cache.remove(old_node_key).is_none() {
             let is_new_entry = self.stale_node_index_cache.insert(old_node_key.clone());
             assert!(is_new_entry, "Node gets stale twice unexpectedly.");
-            if is_leaf {
+            if is_leaf && old_node_key.version() != self.next_version {
                 self.num_stale_leaves += 1;
             }
         } else if is_leaf {
@@ -337,6 +343,12 @@ where
             self.put_node(root_node_key, root_node)?;
         }
 
+        // When overwriting a version, the nodes of that very version don't get stale: they are either
+        // overwritten by this set of changes, or may be brought back by a later one.
+        let stale_since_version = self.next_version;
+        self.stale_node_index_cache
+            .retain(|node_key| node_key.version() != stale_since_version);
+
         // Transfer all the state from this version of the cache into the immutable version of the
         // cache, draining it and resetting it as we go:
         let node_stats = NodeStats {
@@ -349,7 +361,6 @@ where
         self.frozen_cache
             .node_cache
             .extend(self.node_cache.drain(), self.value_cache.drain());
-        let stale_since_version = self.next_version;
         self.frozen_cache
             .stale_node_index_cache
             .extend(
-- 
2.43.0


From 6039a1c559eb95c2388ad96e5ec4dde38e5d584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 08/10] fix: check the restored root before finishing a
 restoration

Finishing wrote whatever had been received, so a truncated restoration
succeeded with a wrong root; it panicked when nothing or only part of a
subtree had been received, and resuming a completed or different version
panicked or wrote nodes under the wrong version.
---
 src/restore.rs | 96 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 29 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 9b57d67..a8e77db 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -168,7 +168,12 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         let tree_reader = Arc::clone(&store);
         let (partial_nodes, previous_leaf) =
             if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
-                // TODO: confirm rightmost leaf is at the desired version
+                ensure!(
+                    node_key.version() == version,
+                    "Storage holds leaves of version {}; can not resume restoring version {}.",
+                    node_key.version(),
+                    version,
+                );
                 // If the system crashed in the middle of the previous restoration attempt, we need
                 // to recover the partial nodes to the state right before the crash.
                 (
@@ -229,6 +234,11 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "Version {} has already been restored.",
+                version,
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
@@ -303,9 +313,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
+            self.add_one(key, value_hash)?;
             self.frozen_nodes.insert_value(self.version, key, value);
-
-            self.add_one(key, value_hash);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -321,7 +330,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
@@ -348,14 +357,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -371,6 +380,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -383,7 +394,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -436,7 +447,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -453,12 +464,30 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
+        // A recovered node may have a single leaf as its only child, in which case another key is
+        // still missing below it. No other partial node than the lowest one can be like that.
+        if let Some(last_node) = self.partial_nodes.last() {
+            let mut children = last_node.children.iter().flatten();
+            ensure!(
+                self.partial_nodes.len() <= num_remaining_partial_nodes
+                    || !matches!(
+                        (children.next(), children.next()),
+                        (None, _) | (Some(ChildInfo::Leaf { .. }), None)
+                    ),
+                "At least one key is missing below {:?}.",
+                last_node.node_key,
+            );
+        }
+
         self.freeze_previous_leaf();
         self.freeze_internal_nodes(num_remaining_partial_nodes);
+        Ok(())
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -647,33 +676,42 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Finishes the restoration process. This tells the code that there is no more account,
-    /// otherwise we can not freeze the rightmost leaf and its ancestors.
+    /// otherwise we can not freeze the rightmost leaf and its ancestors. If what has been restored
+    /// is not the entire tree, an error will be returned and nothing will be written to storage.
     fn finish_impl(mut self) -> Result<()> {
-        // Deal with the special case when the entire tree has a single leaf.
+        let root_node_key = NodeKey::new_empty_path(self.version);
+
+        // Deal with the special cases when the entire tree is empty or has a single leaf.
+        let mut root = None;
         if self.partial_nodes.len() == 1 {
-            let mut num_children = 0;
-            let mut leaf = None;
-            for i in 0..16 {
-                if let Some(ref child_info) = self.partial_nodes[0].children[i] {
-                    num_children += 1;
-                    if let ChildInfo::Leaf { node } = child_info {
-                        leaf = Some(node.clone());
-                    }
-                }
+            let mut children = self.partial_nodes[0].children.iter().flatten();
+            match (children.next(), children.next()) {
+                (None, _) => root = Some(Node::new_null()),
+                (Some(ChildInfo::Leaf { node }), None) => root = Some(node.clone().into()),
+                _ => (),
             }
+        }
 
-            if num_children == 1 {
-                if let Some(node) = leaf {
-                    let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
-                    self.frozen_nodes.insert_node(node_key, node.into());
-                    self.store.write_node_batch(&self.frozen_nodes)?;
-                    return Ok(());
-                }
+        match root {
+            Some(node) => {
+                self.frozen_nodes.insert_node(root_node_key.clone(), node);
             }
+            None => self.freeze(0)?,
         }
 
-        self.freeze(0);
+        let root_hash = RootHash(
+            self.frozen_nodes
+                .get_node(&root_node_key)
+                .expect("The root node must have been frozen.")
+                .hash::<H>(),
+        );
+        ensure!(
+            root_hash == self.expected_root_hash,
+            "Root hashes do not match. Restored root hash: {:?}. Expected root hash: {:?}.",
+            root_hash,
+            self.expected_root_hash,
+        );
+
         self.store.write_node_batch(&self.frozen_nodes)
     }
 }
-- 
2.43.0


From 4c5892e626a451f6360a7c8737065c99eb1b4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 09/10] fix: reject keys below an already restored node instead
 of panicking

---
 src/restore.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/restore.rs b/src/restore.rs
index a8e77db..4e80c82 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -337,7 +337,12 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            // All the keys below a frozen internal node are already known.
+            ensure!(
+                i < self.partial_nodes.len(),
+                "Account key {:?} falls into a part of the tree that has already been restored.",
+                new_key,
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
-- 
2.43.0


From e68daf809aaf4e092b46ae8c0a5126bca5c82c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 10/10] fix: make update proofs serializable with any hasher

---
 src/types/proof/definition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 6c21efa..708f4bc 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -520,7 +520,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
 #[derive(Debug, Serialize, Deserialize, borsh::BorshSerialize, borsh::BorshDeserialize)]
 pub struct UpdateMerkleProof<H: SimpleHasher>(
-    #[borsh(bound(serialize = "", deserialize = ""))] Vec<SparseMerkleProof<H>>,
+    // Prevent serde and borsh from adding spurious serialization bounds on H
+    #[serde(bound(serialize = "", deserialize = ""))]
+    #[borsh(bound(serialize = "", deserialize = ""))]
+    Vec<SparseMerkleProof<H>>,
 );
 
 impl<H: SimpleHasher> UpdateMerkleProof<H> {
-- 
2.43.0

