From d712fb0b040110dfdf6eddd6f14f2909ea4b2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 1/6] Add verification hooks (only compiled with --cfg
 treena_verif)

---
 src/dynamic/forest.rs          |  2 ++
 src/dynamic/forest/verif.rs    | 34 ++++++++++++++++++++++++++
 src/dynamic/hierarchy.rs       |  2 ++
 src/dynamic/hierarchy/verif.rs | 44 ++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+)
 create mode 100644 src/dynamic/forest/verif.rs
 create mode 100644 src/dynamic/hierarchy/verif.rs

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index f02d8b4..ed6f1a2 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -5,6 +5,8 @@ mod debug_print;
 mod nest_builder;
 mod node;
 pub(crate) mod traverse;
+#[cfg(treena_verif)]
+mod verif;
 
 use core::fmt;
 
diff --git a/src/dynamic/forest/verif.rs b/src/dynamic/forest/verif.rs
new file mode 100644
index 0000000..b247f9b
--- /dev/null
+++ b/src/dynamic/forest/verif.rs
@@ -0,0 +1,34 @@
+//! Verification hooks (only compiled with `--cfg treena_verif`).
+
+use crate::dynamic::forest::Forest;
+use crate::dynamic::{NodeId, NodeIdExt};
+
+impl<Id: NodeId, T> Forest<Id, T> {
+    /// Appends a slot with the given raw state.
+    ///
+    /// `links` is `[parent, prev_sibling_cyclic, next_sibling, first_child]`.
+    pub fn verif_push_raw(&mut self, data: Option<T>, links: [Option<usize>; 4]) {
+        self.hierarchy.verif_push_raw(links);
+        self.data.push(data);
+    }
+
+    /// Returns the raw links of the slot, and whether it has associated data.
+    pub fn verif_raw(&self, i: usize) -> ([Option<usize>; 4], bool) {
+        (self.hierarchy.verif_raw(i), self.data[i].is_some())
+    }
+
+    /// Returns the numbers of the slots for links and data.
+    pub fn verif_len(&self) -> (usize, usize) {
+        (self.hierarchy.verif_len(), self.data.len())
+    }
+
+    /// Creates a node ID from a raw index.
+    pub fn verif_id(i: usize) -> Option<Id> {
+        crate::dynamic::hierarchy::verif::verif_id(i).map(Id::from_internal)
+    }
+
+    /// Returns the raw index of a node ID.
+    pub fn verif_index(id: Id) -> usize {
+        id.to_usize()
+    }
+}
diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 91fe0d0..dfa0da0 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -1,6 +1,8 @@
 //! Dynamic hierarchy for trees and forests.
 
 pub(crate) mod traverse;
+#[cfg(treena_verif)]
+pub(crate) mod verif;
 
 use core::fmt;
 
diff --git a/src/dynamic/hierarchy/verif.rs b/src/dynamic/hierarchy/verif.rs
new file mode 100644
index 0000000..a4022a2
--- /dev/null
+++ b/src/dynamic/hierarchy/verif.rs
@@ -0,0 +1,44 @@
+//! Verification hooks (only compiled with `--cfg treena_verif`).
+
+use crate::dynamic::hierarchy::{Hierarchy, Neighbors};
+use crate::dynamic::InternalNodeId;
+
+/// Converts a raw index to an internal ID.
+fn raw<Id: InternalNodeId>(i: Option<usize>) -> Option<Id> {
+    i.map(|i| Id::from_usize(i).expect("[verif] raw index must be representable"))
+}
+
+impl<Id: InternalNodeId> Hierarchy<Id> {
+    /// Appends a slot with the given raw links.
+    ///
+    /// `links` is `[parent, prev_sibling_cyclic, next_sibling, first_child]`.
+    pub(crate) fn verif_push_raw(&mut self, links: [Option<usize>; 4]) {
+        self.neighbors.push(Neighbors {
+            parent: raw(links[0]),
+            prev_sibling_cyclic: raw(links[1]),
+            next_sibling: raw(links[2]),
+            first_child: raw(links[3]),
+        });
+    }
+
+    /// Returns the raw links of the slot.
+    pub(crate) fn verif_raw(&self, i: usize) -> [Option<usize>; 4] {
+        let n = &self.neighbors[i];
+        [
+            n.parent.map(|v| v.to_usize()),
+            n.prev_sibling_cyclic.map(|v| v.to_usize()),
+            n.next_sibling.map(|v| v.to_usize()),
+            n.first_child.map(|v| v.to_usize()),
+        ]
+    }
+
+    /// Returns the number of slots.
+    pub(crate) fn verif_len(&self) -> usize {
+        self.neighbors.len()
+    }
+}
+
+/// Creates an internal ID from a raw index.
+pub(crate) fn verif_id<Id: InternalNodeId>(i: usize) -> Option<Id> {
+    Id::from_usize(i)
+}
-- 
2.43.0


From 3e3b5e6ccfcad6e7d232099feb8fca3c35dc0c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:24 +0000
Subject: [PATCH 2/6] fix: keep links consistent when a node is inserted to the
 place where it already is

The siblings of the destination are looked up before the node is detached,
so the node itself was treated as its own sibling and siblings got lost.
---
 src/dynamic/hierarchy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index dfa0da0..01e8401 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -804,6 +804,12 @@ impl<Id: InternalNodeId> SiblingsRange<Id> {
             return Err(StructureError::AncestorDescendantLoop);
         }
 
+        // The range is already at the destination, so there is nothing to do.
+        // Going on would use the range itself as its own sibling.
+        if prev_sibling == Some(self.last) || next_sibling == Some(self.first) {
+            return Ok(());
+        }
+
         // Detach the nodes.
         {
             let first_nbs = hier
-- 
2.43.0


From cf3d1ed231c9daf15c6a71be884625042bbd8d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 3/6] fix: report SiblingsWithoutParent when inserting next to
 a root node

Inserting as a sibling of a node without a parent panicked, although the
documentation of insert() and try_adopt() promises this error.
---
 src/dynamic/hierarchy.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic/hierarchy.rs b/src/dynamic/hierarchy.rs
index 01e8401..6521eae 100644
--- a/src/dynamic/hierarchy.rs
+++ b/src/dynamic/hierarchy.rs
@@ -416,11 +416,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `next_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `next_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `next_sibling` does not have a parent.
     fn insert_before(&mut self, node: Id, next_sibling: Id) -> Result<(), StructureError> {
         if node == next_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -431,7 +432,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the next sibling must be alive");
         let parent = next_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let prev_sibling = next_nbs.prev_sibling(self);
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
@@ -447,11 +448,12 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// Returns [`StructureError::UnorderableSiblings`] error when `node` and
     /// `prev_sibling` are identical.
+    /// Returns [`StructureError::SiblingsWithoutParent`] error when
+    /// `prev_sibling` does not have a parent.
     ///
     /// # Panics
     ///
     /// Panics if any of the given nodes are not alive.
-    /// Panics if the `prev_sibling` does not have a parent.
     fn insert_after(&mut self, node: Id, prev_sibling: Id) -> Result<(), StructureError> {
         if node == prev_sibling {
             return Err(StructureError::UnorderableSiblings);
@@ -462,7 +464,7 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
             .expect("[precondition] the previous sibling must be alive");
         let parent = prev_nbs
             .parent()
-            .expect("[precondition] the parent must be alive to have siblings");
+            .ok_or(StructureError::SiblingsWithoutParent)?;
         let next_sibling = prev_nbs.next_sibling();
         SiblingsRange::with_single_toplevel(self, node).transplant(
             self,
-- 
2.43.0


From 2ceb554995c6e5e88e27198269668eb0502133b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 4/6] fix: indent every line of multi-line node data correctly
 in debug printing

The first line got the indent of a following line when the data was written
with a newline in one piece, and indents of nested last items were dropped
from lines after the first.
---
 src/dynamic/forest/debug_print.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/dynamic/forest/debug_print.rs b/src/dynamic/forest/debug_print.rs
index 4c88855..dc3b953 100644
--- a/src/dynamic/forest/debug_print.rs
+++ b/src/dynamic/forest/debug_print.rs
@@ -141,9 +141,19 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     /// Writes the rest of the indents which are partially written.
     fn complete_partial_indent(&mut self) -> fmt::Result {
         debug_assert_eq!(self.line_state, LineState::PartialIndent);
-        if let Some(indent) = self.indents.last() {
+        let num_trailing = self
+            .indents
+            .iter()
+            .rev()
+            .take_while(|i| i.is_all_whitespace())
+            .count();
+        let (indents, trailing) = self.indents.split_at(self.indents.len() - num_trailing);
+        if let Some(indent) = indents.last() {
             self.fmt.write_str(indent.as_str_trailing_spaces())?;
         }
+        for indent in trailing {
+            self.fmt.write_str(indent.as_str())?;
+        }
 
         Ok(())
     }
@@ -160,12 +170,7 @@ impl fmt::Write for IndentWriter<'_, '_> {
             }
 
             let (line_end, ends_with_newline) = match s.find('\n') {
-                Some(pos) => {
-                    if let Some(level) = self.indents.last_mut() {
-                        level.is_first_line = false;
-                    }
-                    (pos + 1, true)
-                }
+                Some(pos) => (pos + 1, true),
                 None => (s.len(), false),
             };
             let content = &s[..line_end];
@@ -181,6 +186,9 @@ impl fmt::Write for IndentWriter<'_, '_> {
                 self.fmt.write_str(content)?;
 
                 self.line_state = if ends_with_newline {
+                    if let Some(level) = self.indents.last_mut() {
+                        level.is_first_line = false;
+                    }
                     LineState::BeforeIndent
                 } else {
                     LineState::Content
-- 
2.43.0


From 534c42e38f0b5667cca8b9d0663af3b85d07d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:12 +0000
Subject: [PATCH 5/6] fix: blame the caller when a dead node is cloned or the
 chain builder goes on from one

---
 src/dynamic/forest.rs               | 2 +-
 src/dynamic/forest/chain_builder.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamic/forest.rs b/src/dynamic/forest.rs
index ed6f1a2..60f5db2 100644
--- a/src/dynamic/forest.rs
+++ b/src/dynamic/forest.rs
@@ -1711,7 +1711,7 @@ impl<Id: NodeId, T: Clone> Forest<Id, T> {
 
         let root_data = self
             .data(src_id)
-            .expect("[consistency] the node must be alive")
+            .expect("[precondition] the node must be alive")
             .clone();
         let root_id = self.create_root(root_data);
         add_mapping(src_id, root_id);
diff --git a/src/dynamic/forest/chain_builder.rs b/src/dynamic/forest/chain_builder.rs
index 26d54d2..018a210 100644
--- a/src/dynamic/forest/chain_builder.rs
+++ b/src/dynamic/forest/chain_builder.rs
@@ -219,7 +219,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()?;
         self.current = parent;
         Some(self)
@@ -234,7 +234,7 @@ impl<'a, Id: NodeId, T> ChainTreeBuilder<'a, Id, T> {
         let parent = self
             .forest
             .node(self.current)
-            .expect("[consistency] nodes in the tree must be alive")
+            .expect("[precondition] the current node must be alive")
             .parent_id()
             .expect("[precondition] the current node should not be the root");
         self.current = parent;
-- 
2.43.0


From ba22f3df624f04d465b31be41bbb8fc7c644803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 6/6] verif hooks: do not compile when the forest has further
 state

---
 src/dynamic/forest/verif.rs    | 9 +++++++--
 src/dynamic/hierarchy/verif.rs | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/dynamic/forest/verif.rs b/src/dynamic/forest/verif.rs
index b247f9b..08f3354 100644
--- a/src/dynamic/forest/verif.rs
+++ b/src/dynamic/forest/verif.rs
@@ -8,8 +8,13 @@ impl<Id: NodeId, T> Forest<Id, T> {
     ///
     /// `links` is `[parent, prev_sibling_cyclic, next_sibling, first_child]`.
     pub fn verif_push_raw(&mut self, data: Option<T>, links: [Option<usize>; 4]) {
-        self.hierarchy.verif_push_raw(links);
-        self.data.push(data);
+        // Does not compile if there is other state that this does not set.
+        let Self {
+            hierarchy,
+            data: storage,
+        } = self;
+        hierarchy.verif_push_raw(links);
+        storage.push(data);
     }
 
     /// Returns the raw links of the slot, and whether it has associated data.
diff --git a/src/dynamic/hierarchy/verif.rs b/src/dynamic/hierarchy/verif.rs
index a4022a2..6c0f424 100644
--- a/src/dynamic/hierarchy/verif.rs
+++ b/src/dynamic/hierarchy/verif.rs
@@ -13,7 +13,9 @@ impl<Id: InternalNodeId> Hierarchy<Id> {
     ///
     /// `links` is `[parent, prev_sibling_cyclic, next_sibling, first_child]`.
     pub(crate) fn verif_push_raw(&mut self, links: [Option<usize>; 4]) {
-        self.neighbors.push(Neighbors {
+        // Does not compile if there is other state that this does not set.
+        let Self { neighbors } = self;
+        neighbors.push(Neighbors {
             parent: raw(links[0]),
             prev_sibling_cyclic: raw(links[1]),
             next_sibling: raw(links[2]),
-- 
2.43.0

