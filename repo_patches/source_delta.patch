From 3bb319e1d31b2d4729cc47687ddfa3d6d65efa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 1/8] fix: always pair compatible roots before falling back to
 Dice matching

A root whose children did not survive stayed unmatched when the other root was
childless, and was paired with an inner node when a nested node of the same kind
scored higher. The edit script cannot insert, delete or move a root, so it then
deleted the old root or never produced the new one.
---
 cinereus/src/matching.rs | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/cinereus/src/matching.rs b/cinereus/src/matching.rs
index 120f033..361e041 100644
--- a/cinereus/src/matching.rs
+++ b/cinereus/src/matching.rs
@@ -491,6 +491,26 @@ fn bottom_up_phase<TA, TB>(
             }
         }
 
+        // Roots of the same kind with compatible properties always match each other, whatever
+        // their children look like: an edit script cannot insert, delete or move a root, so
+        // pairing one of them with an inner node (or with nothing) loses the other tree's root.
+        if parent_a.is_none() {
+            let root_b = tree_b.root();
+            if !matching.contains_b(root_b)
+                && tree_b.kind(root_b) == a_kind
+                && a_props.similarity(tree_b.properties(root_b)) >= config.similarity_threshold
+            {
+                trace!(
+                    a = usize::from(a_id),
+                    a_kind = %a_kind,
+                    b = usize::from(root_b),
+                    "bottom_up pass1: root match"
+                );
+                matching.add(a_id, root_b);
+                continue;
+            }
+        }
+
         // No parent match or no position match - fall back to Dice coefficient
         let candidates = b_by_kind.get(a_kind).cloned().unwrap_or_default();
 
@@ -539,31 +559,6 @@ fn bottom_up_phase<TA, TB>(
                 "bottom_up pass1: dice match"
             );
             matching.add(a_id, b_id);
-        } else if parent_a.is_none() {
-            // Root node with no Dice match - match by kind alone if there's a unique candidate
-            // This handles the case where trees are structurally different but have same root type
-            let root_candidates: Vec<_> = b_by_kind
-                .get(a_kind)
-                .cloned()
-                .unwrap_or_default()
-                .into_iter()
-                .filter(|&b_id| {
-                    !matching.contains_b(b_id)
-                        && tree_b.child_count(b_id) > 0
-                        && tree_b.parent(b_id).is_none() // Must also be a root
-                        && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold
-                })
-                .collect();
-
-            if let Some(&b_id) = root_candidates.first() {
-                trace!(
-                    a = usize::from(a_id),
-                    a_kind = %a_kind,
-                    b = usize::from(b_id),
-                    "bottom_up pass1: root kind match (fallback)"
-                );
-                matching.add(a_id, b_id);
-            }
         }
     }
 
-- 
2.43.0


From 5bd165a696f7207ad1a446aef470f70a252fbe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 2/8] fix: compute OpaqueChanged paths on the final shadow tree

The patches are appended behind all others, but their paths were computed
on the initial tree, so they addressed the wrong node (or none) whenever
the other patches moved or inserted nodes.
---
 hotmeal/src/diff.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..2bb6594 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1158,23 +1158,17 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ));
     }
 
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
+    let (mut patches, shadow) =
+        convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
+
+    // OpaqueChanged patches are applied after all the others, so their paths
+    // have to be computed on the final state of the shadow tree.
+    for (a_id, content) in opaque_patches {
+        let path = shadow.compute_path(a_id);
+        patches.push(Patch::OpaqueChanged {
+            path: NodePath(path),
+            content,
+        });
     }
 
     Ok(patches)
@@ -1539,7 +1533,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
-) -> Result<Vec<Patch<'a>>, DiffError> {
+) -> Result<(Vec<Patch<'a>>, ShadowTree<'a>), DiffError> {
     // Create shadow tree with encapsulated state
     let mut shadow = ShadowTree::new(tree_a.arena.clone(), tree_a.root);
 
@@ -1849,7 +1843,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
-    Ok(result)
+    Ok((result, shadow))
 }
 
 /// Extract attributes and children from a node in tree_b.
-- 
2.43.0


From faa526510a61098813b29f6cff107fca00912f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 3/8] fix: emit moves in the order of the new tree

Moves came in the order of the matching, so a node could be moved below one of
its own descendants, or looked up below an ancestor that was yet to move.
---
 cinereus/src/chawathe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/chawathe.rs b/cinereus/src/chawathe.rs
index b28a8ca..ec865f1 100644
--- a/cinereus/src/chawathe.rs
+++ b/cinereus/src/chawathe.rs
@@ -291,7 +291,12 @@ where
 
     // Phase 4: MOVE - matched nodes where parent or position changed
     debug!("Phase 4: MOVE - checking {} matched pairs", matching.len());
-    for (a_id, b_id) in matching.pairs() {
+    // Process in the order of the new tree, so that a node's new ancestors are in their
+    // final places before the node moves below them
+    for b_id in tree_b.iter() {
+        let Some(a_id) = matching.get_a(b_id) else {
+            continue;
+        };
         debug!(
             a = usize::from(a_id),
             b = usize::from(b_id),
-- 
2.43.0


From 03cb13b0e5981ab6dcba27efdc3523c401b6c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 4/8] fix: no OpaqueChanged for a node inside another opaque
 node

The content of the outer node covers it, and its path led nowhere.
---
 hotmeal/src/diff.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 2bb6594..6048658 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1141,6 +1141,16 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
+        // Content inside an opaque node is part of that node's content
+        let mut inside = false;
+        let mut up = diff_b.parent(b_id);
+        while let Some(p) = up {
+            inside = inside || diff_b.is_opaque(p);
+            up = diff_b.parent(p);
+        }
+        if inside {
+            continue;
+        }
         // Compare hashes — if identical, no change
         if tree_a.hash(a_id) == diff_b.hash(b_id) {
             continue;
-- 
2.43.0


From 160c170107bafb9fdc988b24a91f92a5c40f96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 5/8] fix: edit the content of an element that is no longer
 opaque

The old element being opaque, its children were left out of the edit script.
---
 hotmeal/src/diff.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 6048658..d5f6778 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -765,7 +765,10 @@ impl Iterator for PostOrderIterator<'_, '_> {
 ///
 /// `Tree<T>` is generic and can't check HTML attributes for opaqueness.
 /// This wrapper delegates all DiffTree methods and adds the `data-hotmeal-opaque` check.
-struct OpaqueAwareTree<'a>(Tree<HtmlTreeTypes<'a>>);
+///
+/// The second field holds the nodes that are not opaque any more in the new document:
+/// their content is edited like that of any other node.
+struct OpaqueAwareTree<'a>(Tree<HtmlTreeTypes<'a>>, HashSet<NodeId>);
 
 impl<'a> DiffTree for OpaqueAwareTree<'a> {
     type Types = HtmlTreeTypes<'a>;
@@ -813,11 +816,13 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
         self.0.descendants(id)
     }
     fn is_opaque(&self, id: NodeId) -> bool {
-        self.0
-            .properties(id)
-            .attrs
-            .iter()
-            .any(|(k, _)| k.local.as_ref() == "data-hotmeal-opaque")
+        !self.1.contains(&id)
+            && self
+                .0
+                .properties(id)
+                .attrs
+                .iter()
+                .any(|(k, _)| k.local.as_ref() == "data-hotmeal-opaque")
     }
 }
 
@@ -1085,7 +1090,7 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
 
     // Build cinereus Tree for old (needed for shadow tree mutation)
     let raw_tree_a = build_tree_from_arena(old);
-    let tree_a = OpaqueAwareTree(raw_tree_a);
+    let mut tree_a = OpaqueAwareTree(raw_tree_a, HashSet::new());
     // Use DiffableDocument for new (avoids second tree allocation)
     let diff_b = DiffableDocument::new(new)?;
 
@@ -1117,6 +1122,13 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         matching.add(tree_a.0.root, diff_b.root());
     }
 
+    // What is no longer opaque in the new document is edited in full
+    for (a_id, b_id) in matching.pairs() {
+        if !diff_b.is_opaque(b_id) {
+            tree_a.1.insert(a_id);
+        }
+    }
+
     let edit_ops = cinereus::generate_edit_script(&tree_a, &diff_b, &matching);
 
     #[cfg(test)]
-- 
2.43.0


From b8675e7a41cf9e26e0cd71eb77ac5e0b854eef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 6/8] fix: compare opaque content in full, attributes included

Hashes leave attributes out, and an element that has just become opaque needs
its content sent whenever its children have been left out of the edit script.
---
 hotmeal/src/diff.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index d5f6778..338613c 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1163,8 +1163,8 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if inside {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        // If the content is identical, there is no change
+        if tree_a.is_opaque(a_id) && same_content(&tree_a, a_id, &diff_b, b_id) {
             continue;
         }
         // Get the original DOM node IDs for serialization
@@ -1196,6 +1196,32 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     Ok(patches)
 }
 
+/// Whether two nodes have the same content: the same nodes with the same
+/// attributes and texts below them. (Hashes do not cover attributes.)
+fn same_content<'a>(
+    tree_a: &impl DiffTree<Types = HtmlTreeTypes<'a>>,
+    a: NodeId,
+    tree_b: &impl DiffTree<Types = HtmlTreeTypes<'a>>,
+    b: NodeId,
+) -> bool {
+    let kids_a: Vec<NodeId> = tree_a.children(a).collect();
+    let kids_b: Vec<NodeId> = tree_b.children(b).collect();
+    if kids_a.len() != kids_b.len() {
+        return false;
+    }
+    for i in 0..kids_a.len() {
+        let (x, y) = (kids_a[i], kids_b[i]);
+        if tree_a.kind(x) != tree_b.kind(y)
+            || tree_a.text(x) != tree_b.text(y)
+            || tree_a.properties(x).attrs != tree_b.properties(y).attrs
+            || !same_content(tree_a, x, tree_b, y)
+        {
+            return false;
+        }
+    }
+    true
+}
+
 /// Encapsulates the shadow tree with slot-based path computation.
 ///
 /// The arena has a "super root" whose children are slot nodes:
-- 
2.43.0


From a40060918a5c30126d6c969590df58d9e1bf73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 7/8] fix: diff the attributes of the body element

The old tree's root had none, so that those missing from the new body were
never removed.
---
 hotmeal/src/diff.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 338613c..697e930 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -830,21 +830,22 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_ns, body_attrs, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            let attrs = elem.attrs.clone();
+            (elem.tag.clone(), body_node.ns, attrs, Some(body_id))
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Namespace::Html, Vec::new(), None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Namespace::Html, Vec::new(), None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
-- 
2.43.0


From 30280c9f403d5b292e92d804e933f2160410538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:45 +0000
Subject: [PATCH 8/8] fix: a parsed document's root is its first element, not a
 comment before it

---
 hotmeal/src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..7e08af0 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1321,11 +1321,11 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>), which comments may precede
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|id| matches!(arena[*id].get().kind, NodeKind::Element(_)))
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0

