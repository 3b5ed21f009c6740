From ee561e2c9f97edc2c263a708bfb47efd20fd613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:30 +0000
Subject: [PATCH 1/4] fix: insert reinserted leaves on the leaf level

Bulk loading can create subtrees of different heights (e.g. for 25 points
with the default parameters). Forced reinsertion used the height the
overflowing node had been found at, and thus could add leaves next to
parent nodes. Later insertions then panicked with 'This is a bug in rstar.'
---
 rstar/src/algorithm/rstar.rs | 46 +++++++++++++++---------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/rstar/src/algorithm/rstar.rs b/rstar/src/algorithm/rstar.rs
index d094304..6d38290 100644
--- a/rstar/src/algorithm/rstar.rs
+++ b/rstar/src/algorithm/rstar.rs
@@ -24,7 +24,7 @@ where
     T: RTreeObject,
 {
     Split(RTreeNode<T>),
-    Reinsert(Vec<RTreeNode<T>>, usize),
+    Reinsert(Vec<RTreeNode<T>>),
     Complete,
 }
 
@@ -41,14 +41,12 @@ impl InsertionStrategy for RStarInsertionStrategy {
             PerformReinsert(RTreeNode<T>),
         }
 
-        let first = recursive_insert::<_, Params>(tree.root_mut(), RTreeNode::Leaf(t), 0);
-        let mut target_height = 0;
+        let first = recursive_insert::<_, Params>(tree.root_mut(), RTreeNode::Leaf(t));
         let mut insertion_stack = Vec::new();
         match first {
             InsertionResult::Split(node) => insertion_stack.push(PerformSplit(node)),
-            InsertionResult::Reinsert(nodes_to_reinsert, real_target_height) => {
+            InsertionResult::Reinsert(nodes_to_reinsert) => {
                 insertion_stack.extend(nodes_to_reinsert.into_iter().map(PerformReinsert));
-                target_height = real_target_height;
             }
             InsertionResult::Complete => {}
         };
@@ -64,13 +62,12 @@ impl InsertionStrategy for RStarInsertionStrategy {
                     root.envelope = new_envelope;
                     root.children.push(RTreeNode::Parent(old_root));
                     root.children.push(node);
-                    target_height += 1;
                 }
                 PerformReinsert(node_to_reinsert) => {
                     let root = tree.root_mut();
-                    match forced_insertion::<T, Params>(root, node_to_reinsert, target_height) {
+                    match forced_insertion::<T, Params>(root, node_to_reinsert) {
                         InsertionResult::Split(node) => insertion_stack.push(PerformSplit(node)),
-                        InsertionResult::Reinsert(_, _) => {
+                        InsertionResult::Reinsert(_) => {
                             panic!("Unexpected reinsert. This is a bug in rstar.")
                         }
                         InsertionResult::Complete => {}
@@ -81,11 +78,10 @@ impl InsertionStrategy for RStarInsertionStrategy {
     }
 }
 
-fn forced_insertion<T, Params>(
-    node: &mut ParentNode<T>,
-    t: RTreeNode<T>,
-    target_height: usize,
-) -> InsertionResult<T>
+// Only leaves are ever reinserted. They must always be added on the leaf level, even
+// if it is not at the height they were taken from: Bulk loading can create subtrees
+// of different heights.
+fn forced_insertion<T, Params>(node: &mut ParentNode<T>, t: RTreeNode<T>) -> InsertionResult<T>
 where
     T: RTreeObject,
     Params: RTreeParams,
@@ -93,14 +89,14 @@ where
     node.envelope.merge(&t.envelope());
     let expand_index = choose_subtree(node, &t);
 
-    if target_height == 0 || node.children.len() < expand_index {
+    if node.children.len() < expand_index {
         // Force insertion into this node
         node.children.push(t);
         return resolve_overflow_without_reinsertion::<_, Params>(node);
     }
 
     if let RTreeNode::Parent(ref mut follow) = node.children[expand_index] {
-        match forced_insertion::<_, Params>(follow, t, target_height - 1) {
+        match forced_insertion::<_, Params>(follow, t) {
             InsertionResult::Split(child) => {
                 node.envelope.merge(&child.envelope());
                 node.children.push(child);
@@ -113,11 +109,7 @@ where
     }
 }
 
-fn recursive_insert<T, Params>(
-    node: &mut ParentNode<T>,
-    t: RTreeNode<T>,
-    current_height: usize,
-) -> InsertionResult<T>
+fn recursive_insert<T, Params>(node: &mut ParentNode<T>, t: RTreeNode<T>) -> InsertionResult<T>
 where
     T: RTreeObject,
     Params: RTreeParams,
@@ -128,11 +120,11 @@ where
     if node.children.len() < expand_index {
         // Force insertion into this node
         node.children.push(t);
-        return resolve_overflow::<_, Params>(node, current_height);
+        return resolve_overflow::<_, Params>(node);
     }
 
     let expand = if let RTreeNode::Parent(ref mut follow) = node.children[expand_index] {
-        recursive_insert::<_, Params>(follow, t, current_height + 1)
+        recursive_insert::<_, Params>(follow, t)
     } else {
         panic!("This is a bug in rstar.")
     };
@@ -141,11 +133,11 @@ where
         InsertionResult::Split(child) => {
             node.envelope.merge(&child.envelope());
             node.children.push(child);
-            resolve_overflow::<_, Params>(node, current_height)
+            resolve_overflow::<_, Params>(node)
         }
-        InsertionResult::Reinsert(a, b) => {
+        InsertionResult::Reinsert(nodes) => {
             node.envelope = envelope_for_children(&node.children);
-            InsertionResult::Reinsert(a, b)
+            InsertionResult::Reinsert(nodes)
         }
         InsertionResult::Complete => InsertionResult::Complete,
     }
@@ -229,7 +221,7 @@ where
     }
 }
 
-fn resolve_overflow<T, Params>(node: &mut ParentNode<T>, current_depth: usize) -> InsertionResult<T>
+fn resolve_overflow<T, Params>(node: &mut ParentNode<T>) -> InsertionResult<T>
 where
     T: RTreeObject,
     Params: RTreeParams,
@@ -238,7 +230,7 @@ where
         resolve_overflow_without_reinsertion::<_, Params>(node)
     } else if node.children.len() > Params::MAX_SIZE {
         let nodes_for_reinsertion = get_nodes_for_reinsertion::<_, Params>(node);
-        InsertionResult::Reinsert(nodes_for_reinsertion, current_depth)
+        InsertionResult::Reinsert(nodes_for_reinsertion)
     } else {
         InsertionResult::Complete
     }
-- 
2.43.0


From 02ae0b933484964951852d7ec02f6226e30dc6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:34 +0000
Subject: [PATCH 2/4] fix: avoid overflow panic when draining an empty tree

Draining all elements within a distance inspected the envelope of an empty
root, whose bounds are the extreme values of the scalar type. The selection
iterators already skip empty roots.
---
 rstar/src/algorithm/removal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..2007ab0 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,12 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // Nodes without children have an empty envelope that isn't meant to be inspected, e.g.
+            // distance calculations would overflow for integers.
+            if *idx > 0
+                || (!node.children.is_empty()
+                    && self.removal_function.should_unpack_parent(&node.envelope))
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0


From 068fd12ac103f244d65f36d766d266b13cd18167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 3/4] fix: do not return a farther nearest neighbor after a
 rounded bound skipped the nearest

---
 rstar/src/algorithm/nearest_neighbor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rstar/src/algorithm/nearest_neighbor.rs b/rstar/src/algorithm/nearest_neighbor.rs
index 20283f5..dcd30a0 100644
--- a/rstar/src/algorithm/nearest_neighbor.rs
+++ b/rstar/src/algorithm/nearest_neighbor.rs
@@ -287,6 +287,11 @@ where
                 node: RTreeNode::Leaf(ref t),
                 distance,
             } => {
+                // Some object is at most as far away as the smallest minmax-distance. If this
+                // one is farther, a nearer one was skipped due to rounding issues.
+                if distance > smallest_min_max {
+                    return None;
+                }
                 return Some((t, distance));
             }
         }
-- 
2.43.0


From 3c919bc0685facb32236fd2fd0366735c6ca1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 4/4] fix: do not let an empty envelope intersect one spanning
 the whole number range

---
 rstar/src/aabb.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rstar/src/aabb.rs b/rstar/src/aabb.rs
index 30e79a0..d51c1aa 100644
--- a/rstar/src/aabb.rs
+++ b/rstar/src/aabb.rs
@@ -160,8 +160,11 @@ where
     }
 
     fn intersects(&self, other: &Self) -> bool {
+        // An empty envelope's inverted bounds meet those of an envelope spanning the whole number range
         self.lower.all_component_wise(&other.upper, |l, r| l <= r)
             && self.upper.all_component_wise(&other.lower, |l, r| l >= r)
+            && !self.is_empty()
+            && !other.is_empty()
     }
 
     fn area(&self) -> P::Scalar {
-- 
2.43.0

