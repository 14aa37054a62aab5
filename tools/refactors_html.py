#!/usr/bin/env python3
"""refactors_html.py [NAME...]: like refactors.py, for the hotmeal crates (development aid; never used by a check).

COMPILE=1 first compiles the edited sources against the stand-ins and runs the bounded search on them."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, O, S = "hotmeal/src/diff.rs", "hotmeal/src/dom.rs", "hotmeal-server/src/lib.rs"
R = {
 "skip-helper": (D, "shadow page", [("""        if b_to_shadow.contains_key(&child_id) || nodes_with_insert_ops.contains(&child_id) {
            continue;
        }

        let child_kind""", """        if placed_elsewhere(child_id, b_to_shadow, nodes_with_insert_ops) {
            continue;
        }

        let child_kind"""), ("""/// Extract attributes and children from a node in tree_b.""", """/// Is this node put in place by an operation of its own?
fn placed_elsewhere(
    id: NodeId,
    b_to_shadow: &HashMap<NodeId, NodeId>,
    nodes_with_insert_ops: &HashSet<NodeId>,
) -> bool {
    b_to_shadow.contains_key(&id) || nodes_with_insert_ops.contains(&id)
}

/// Extract attributes and children from a node in tree_b.""")]),
 "parent-helper": (D, "shadow page", [("""                let shadow_parent = b_to_shadow
                    .get(&parent_b)
                    .copied()
                    .unwrap_or_else(|| shadow.slot0_content());
""", """                let shadow_parent = shadow_of(&shadow, &b_to_shadow, parent_b);
"""), ("""                let shadow_new_parent = b_to_shadow
                    .get(&new_parent_b)
                    .copied()
                    .unwrap_or_else(|| shadow.slot0_content());
""", """                let shadow_new_parent = shadow_of(&shadow, &b_to_shadow, new_parent_b);
"""), ("""/// Extract attributes and children from a node in tree_b.""", """fn shadow_of(shadow: &ShadowTree<'_>, map: &HashMap<NodeId, NodeId>, id: NodeId) -> NodeId {
    match map.get(&id) {
        Some(x) => *x,
        None => shadow.slot0_content(),
    }
}

/// Extract attributes and children from a node in tree_b.""")]),
 "insert-early-return": (D, "shadow", [("""        if position < children.len() {
            let occupant = children[position];
            // Insert new_node before occupant, then detach occupant to slot
            occupant.insert_before(new_node, &mut self.arena);
            let slot = self.detach_to_slot(occupant);
            Some(slot)
        } else {
            // Grow the children array with placeholder text nodes to reach the target position
            while parent.children(&self.arena).count() < position {
                let placeholder = self.arena.new_node(NodeData {
                    hash: NodeHash(0),
                    kind: HtmlNodeKind::Text,
                    properties: HtmlProps { attrs: Vec::new() },
                    text: Some(Stem::new()),
                });
                parent.append(placeholder, &mut self.arena);
            }

            // Now insert at position (either appending or displacing)
            let current_children: Vec<_> = parent.children(&self.arena).collect();
            if position < current_children.len() {
                let occupant = current_children[position];
                occupant.insert_before(new_node, &mut self.arena);
                let slot = self.detach_to_slot(occupant);
                Some(slot)
            } else {
                parent.append(new_node, &mut self.arena);
                None
            }
        }
""", """        if position < children.len() {
            let occupant = children[position];
            occupant.insert_before(new_node, &mut self.arena);
            return Some(self.detach_to_slot(occupant));
        }
        for _ in children.len()..position {
            let placeholder = self.arena.new_node(NodeData {
                hash: NodeHash(0),
                kind: HtmlNodeKind::Text,
                properties: HtmlProps { attrs: Vec::new() },
                text: Some(Stem::new()),
            });
            parent.append(placeholder, &mut self.arena);
        }
        parent.append(new_node, &mut self.arena);
        None
""")]),
 "path-loop": (D, "shadow", [("""        while let Some(parent_id) = self.arena.get(current).and_then(|n| n.parent()) {
            // Check if parent is a slot node (grandparent is super_root)
            let grandparent""", """        loop {
            let Some(parent_id) = self.arena.get(current).and_then(|n| n.parent()) else {
                break;
            };
            // Check if parent is a slot node (grandparent is super_root)
            let grandparent""")]),
 "slot-root-swap": (D, "shadow", [("""            if !is_slot_root {
                // Node is deeper in the tree - detach with placeholder to prevent shifts
                self.detach_with_placeholder(node);
            } else {
                // Node is a slot root - just detach it
                node.detach(&mut self.arena);
            }
""", """            if is_slot_root {
                node.detach(&mut self.arena);
            } else {
                self.detach_with_placeholder(node);
            }
""")]),
 "same-content-zip": (D, "page", [("""    for i in 0..kids_a.len() {
        let (x, y) = (kids_a[i], kids_b[i]);
        if tree_a.kind(x) != tree_b.kind(y)
            || tree_a.text(x) != tree_b.text(y)
            || tree_a.properties(x).attrs != tree_b.properties(y).attrs
            || !same_content(tree_a, x, tree_b, y)
        {
            return false;
        }
    }
    true
""", """    kids_a.iter().zip(&kids_b).all(|(&x, &y)| {
        tree_a.kind(x) == tree_b.kind(y)
            && tree_a.text(x) == tree_b.text(y)
            && tree_a.properties(x).attrs == tree_b.properties(y).attrs
            && same_content(tree_a, x, tree_b, y)
    })
""")]),
 "inside-helper": (D, "page", [("""        let mut inside = false;
        let mut up = diff_b.parent(b_id);
        while let Some(p) = up {
            inside = inside || diff_b.is_opaque(p);
            up = diff_b.parent(p);
        }
        if inside {
            continue;
        }
""", """        if inside_opaque(&diff_b, b_id) {
            continue;
        }
"""), ("""fn same_content<'a>(""", """fn inside_opaque(tree: &DiffableDocument<'_, '_>, id: NodeId) -> bool {
    let mut up = tree.parent(id);
    while let Some(p) = up {
        if tree.is_opaque(p) {
            return true;
        }
        up = tree.parent(p);
    }
    false
}
fn same_content<'a>(""")]),
 "inside-break": (D, "page", [("""        while let Some(p) = up {
            inside = inside || diff_b.is_opaque(p);
            up = diff_b.parent(p);
        }
""", """        while let Some(p) = up {
            if diff_b.is_opaque(p) {
                inside = true;
                break;
            }
            up = diff_b.parent(p);
        }
""")]),
 "body-cases": (D, "page", [("""    let old_has_body = old.body().is_some();
    let new_has_body = new.body().is_some();

    // Handle cases where one or both documents have no body
    match (old_has_body, new_has_body) {
        (false, false) => {
            // Neither has body - nothing to diff
            return Ok(vec![]);
        }
        (false, true) => {
            // Old has no body, new has body - insert all new body children
            let new_body_id = new.body().unwrap();
""", """    match (old.body(), new.body()) {
        (None, None) => {
            // Neither has body - nothing to diff
            return Ok(vec![]);
        }
        (None, Some(new_body_id)) => {
"""), ("""        (true, false) => {
            // Old has body, new has no body - remove all old body children
            let old_body_id = old.body().unwrap();
""", """        (Some(old_body_id), None) => {
"""), ("""        (true, true) => {
            // Both have bodies - proceed with normal diffing""", """        (Some(_), Some(_)) => {
            // Both have bodies - proceed with normal diffing""")]),
 "leaf-arms-merged": (D, "hdiff", [("""            NodeKind::Text(text) => {
                let kind = HtmlNodeKind::Text;
                let props = HtmlProps { attrs: Vec::new() };
                let data = NodeData {
                    hash: NodeHash(0),
                    kind,
                    properties: props,
                    text: Some(text.clone()),
                };
                tree.add_child(parent, data);
            }
            NodeKind::Comment(text) => {
                let kind = HtmlNodeKind::Comment;
                let props = HtmlProps { attrs: Vec::new() };
                let data = NodeData {
                    hash: NodeHash(0),
                    kind,
                    properties: props,
                    text: Some(text.clone()),
                };
                tree.add_child(parent, data);
            }
""", """            NodeKind::Text(text) => {
                tree.add_child(parent, leaf(HtmlNodeKind::Text, text));
            }
            NodeKind::Comment(text) => {
                tree.add_child(parent, leaf(HtmlNodeKind::Comment, text));
            }
"""), ("""fn add_arena_children<'a>(""", """fn leaf<'a>(kind: HtmlNodeKind, text: &Stem<'a>) -> NodeData<HtmlTreeTypes<'a>> {
    NodeData {
        hash: NodeHash(0),
        kind,
        properties: HtmlProps { attrs: Vec::new() },
        text: Some(text.clone()),
    }
}

fn add_arena_children<'a>(""")]),
 "rehash-loop": (D, "hdiff", [("""        let children: Vec<NodeId> = tree.children(node_id).collect();
        for child in children {
            tree.get(child).hash.0.hash(&mut hasher);
        }
""", """        for child in tree.children(node_id) {
            let child_hash = tree.get(child).hash.0;
            child_hash.hash(&mut hasher);
        }
""")]),
 "position-match": (D, "hdiff", [("""            let pos = if let Some(parent) = self.parent(id) {
                parent
                    .children(&self.doc.arena)
                    .position(|c| c == id)
                    .unwrap_or(0) as u32
            } else {
                0
            };
""", """            let pos = match self.parent(id) {
                Some(parent) => {
                    let index = parent.children(&self.doc.arena).position(|c| c == id);
                    index.unwrap_or(0) as u32
                }
                None => 0,
            };
""")]),
 "height-fold": (D, "hdiff", [("""            let height = if children.is_empty() {
                0
            } else {
                1 + children
                    .iter()
                    .filter_map(|&c| nodes.get(&c))
                    .map(|d| d.height)
                    .max()
                    .unwrap_or(0)
            };
""", """            let mut height = 0;
            for c in &children {
                if let Some(d) = nodes.get(c) {
                    height = height.max(d.height + 1);
                }
            }
""")]),
 "insert-patch-at": (D, "page", [("""    let node = doc.get(node_id);

    match &node.kind {
        NodeKind::Element(elem) => {
            let attrs: Vec<AttrPair<'a>> = elem
                .attrs
                .iter()
                .map(|(name, value)| AttrPair {
                    name: name.clone(),
                    value: value.clone(),
                })
                .collect();

            let children: Vec<InsertContent<'a>> = node_id
                .children(&doc.arena)
                .filter_map(|child_id| create_insert_content(doc, child_id))
                .collect();

            Ok(Patch::InsertElement {
                at: NodeRef(NodePath(smallvec![0, position as u32])),
""", """    let node = doc.get(node_id);
    let at = NodeRef(NodePath(smallvec![0, position as u32]));

    match &node.kind {
        NodeKind::Element(elem) => {
            let attrs: Vec<AttrPair<'a>> = elem
                .attrs
                .iter()
                .map(|(name, value)| AttrPair {
                    name: name.clone(),
                    value: value.clone(),
                })
                .collect();

            let children: Vec<InsertContent<'a>> = node_id
                .children(&doc.arena)
                .filter_map(|child_id| create_insert_content(doc, child_id))
                .collect();

            Ok(Patch::InsertElement {
                at,
"""), ("""        NodeKind::Text(text) => Ok(Patch::InsertText {
            at: NodeRef(NodePath(smallvec![0, position as u32])),
""", """        NodeKind::Text(text) => Ok(Patch::InsertText {
            at,
"""), ("""        NodeKind::Comment(text) => Ok(Patch::InsertComment {
            at: NodeRef(NodePath(smallvec![0, position as u32])),
""", """        NodeKind::Comment(text) => Ok(Patch::InsertComment {
            at,
""")]),
 "props-order": (D, "html", [("""            let force_different = order_differs && value_same && !forced_one;
            if force_different {
                forced_one = true;
            }
""", """            let force_different = value_same && order_differs && !forced_one;
            forced_one = forced_one || force_different;
""")]),
 "nav-while": (O, "htmldom", [("""        let mut current = slot_root;
        for &idx in &path[1..] {
            let mut children = current.children(&self.arena);
            current = children
                .nth(idx as usize)
                .ok_or(DiffError::PathOutOfBounds {
                    index: idx as usize,
                })?;
        }

        Ok(current)
""", """        let mut current = slot_root;
        for idx in path.iter().skip(1) {
            let index = *idx as usize;
            match current.children(&self.arena).nth(index) {
                Some(child) => current = child,
                None => return Err(DiffError::PathOutOfBounds { index }),
            }
        }

        Ok(current)
""")]),
 "blank-helper": (O, "htmldom", [("""                let empty_text = self.arena.new_node(NodeData {
                    kind: NodeKind::Text(Stem::new()),
                    ns: Namespace::Html,
                });
                node_id.insert_before(empty_text, &mut self.arena);
                node_id.detach(&mut self.arena);
""", """                self.leave_blank(node_id);
"""), ("""                if needs_replacement {
                    let empty_text = self.arena.new_node(NodeData {
                        kind: NodeKind::Text(Stem::new()),
                        ns: Namespace::Html,
                    });
                    node_to_move.insert_before(empty_text, &mut self.arena);
                    node_to_move.detach(&mut self.arena);
                } else {
""", """                if needs_replacement {
                    self.leave_blank(node_to_move);
                } else {
"""), ("""    fn insert_at(
        &mut self,""", """    /// Take a node out, leaving an empty text node in its place.
    fn leave_blank(&mut self, node_id: NodeId) {
        let empty_text = self.arena.new_node(NodeData {
            kind: NodeKind::Text(Stem::new()),
            ns: Namespace::Html,
        });
        node_id.insert_before(empty_text, &mut self.arena);
        node_id.detach(&mut self.arena);
    }

    fn insert_at(
        &mut self,""")]),
 "detach-once": (O, "htmldom", [("""                    node_to_move.insert_before(empty_text, &mut self.arena);
                    node_to_move.detach(&mut self.arena);
                } else {
                    node_to_move.detach(&mut self.arena);
                }
""", """                    node_to_move.insert_before(empty_text, &mut self.arena);
                }
                node_to_move.detach(&mut self.arena);
""")]),
 "gap-while": (O, "htmldom", [("""        for i in children.len()..position {
            let empty_text = self.arena.new_node(NodeData {
                kind: NodeKind::Text(Stem::new()),
                ns: Namespace::Html,
            });
            parent_id.append(empty_text, &mut self.arena);
            debug!("Filled gap at position {} with empty text node", i);
        }
""", """        let mut filled = children.len();
        while filled < position {
            let empty_text = self.create_text(Stem::new());
            parent_id.append(empty_text, &mut self.arena);
            filled += 1;
        }
""")]),
 "append-or-before": (O, "htmldom", [("""        if position >= children.len() {
            parent_id.append(node_to_insert, &mut self.arena);
        } else {
            let next_sibling = children[position];
            next_sibling.insert_before(node_to_insert, &mut self.arena);
        }
""", """        match children.get(position) {
            Some(next_sibling) => next_sibling.insert_before(node_to_insert, &mut self.arena),
            None => parent_id.append(node_to_insert, &mut self.arena),
        }
""")]),
 "leaf-content": (O, "htmldom", [("""            InsertContent::Text(text) => {
                let node = self.arena.new_node(NodeData {
                    kind: NodeKind::Text(text),
                    ns: Namespace::Html,
                });
                Ok(node)
            }
            InsertContent::Comment(text) => {
                let node = self.arena.new_node(NodeData {
                    kind: NodeKind::Comment(text),
                    ns: Namespace::Html,
                });
                Ok(node)
            }
""", """            InsertContent::Text(text) => Ok(self.create_text(text)),
            InsertContent::Comment(text) => Ok(self.create_comment(text)),
""")]),
 "escape-helper": (O, "htmlser", [("""            // Escape attribute value
            for c in value.as_ref().chars() {
                match c {
                    '&' => out.push_str("&amp;"),
                    '"' => out.push_str("&quot;"),
                    '<' => out.push_str("&lt;"),
                    '>' => out.push_str("&gt;"),
                    _ => out.push(c),
                }
            }
            out.push('"');
""", """            push_attr_value(out, value.as_ref());
            out.push('"');
"""), ("""/// HTML5 void elements that never have closing tags
""", """fn push_attr_value(out: &mut String, value: &str) {
    for c in value.chars() {
        match c {
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '&' => out.push_str("&amp;"),
            '"' => out.push_str("&quot;"),
            other => out.push(other),
        }
    }
}

/// HTML5 void elements that never have closing tags
""")]),
 "raw-hoist": (O, "htmlser", [("""        for child_id in node_id.children(&self.arena) {
            if is_raw_text {
                self.serialize_node_raw(out, child_id);
            } else {
                self.serialize_node(out, child_id);
            }
        }
""", """        if is_raw_text {
            for child_id in node_id.children(&self.arena) {
                self.serialize_node_raw(out, child_id);
            }
        } else {
            for child_id in node_id.children(&self.arena) {
                self.serialize_node(out, child_id);
            }
        }
""")]),
 "void-close": (O, "htmlser", [("""        if is_void_element(tag) {
            out.push('>');
            return;
        }

        out.push('>');
""", """        out.push('>');
        if is_void_element(tag) {
            return;
        }
""")]),
 "server-let-else": (S, "server", [("""        let old_html = match self.html_cache.get(route) {
            Some(old) => old.clone(),
            None => {
                debug!(
                    route,
                    "no cached HTML for route, caching and returning Reload"
                );
                self.html_cache
                    .insert(route.to_owned(), new_html.to_owned());
                return Some(LiveReloadEvent::Reload);
            }
        };
""", """        let Some(old_html) = self.html_cache.get(route).cloned() else {
            self.html_cache
                .insert(route.to_owned(), new_html.to_owned());
            return Some(LiveReloadEvent::Reload);
        };
""")]),
 "server-cache-first": (S, "server", [("""            Ok(patches) => {
                if patches.is_empty() {
                    // Diff produced no patches — HTML is semantically identical
                    self.html_cache
                        .insert(route.to_owned(), new_html.to_owned());
                    return None;
                }
""", """            Ok(patches) => {
                self.html_cache
                    .insert(route.to_owned(), new_html.to_owned());
                if patches.is_empty() {
                    return None;
                }
"""), ("""                // Update cache
                self.html_cache
                    .insert(route.to_owned(), new_html.to_owned());

""", "")]),
 "server-remove": (S, "server", [("""        let html_removed = self.html_cache.remove(route).is_some();
        let head_removed = self.head_cache.remove(route).is_some();
        html_removed || head_removed
""", """        let head = self.head_cache.remove(route);
        let html = self.html_cache.remove(route);
        html.is_some() || head.is_some()
""")]),
}
def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, V)
    w = tempfile.mkdtemp(prefix="rfh")
    os.environ["VERIF_REPO"] = w
    import check, units
    ex = os.path.join(check.BUILD, "extract/release/contract-extract")
    for n in sys.argv[1:] or list(R):
        f, us, subs = R[n]
        for c in ("cinereus", "hotmeal", "hotmeal-server"):
            shutil.rmtree(f"{w}/{c}", ignore_errors=True)
            shutil.copytree(f"/repo/{c}/src", f"{w}/{c}/src")
        if os.environ.get("COMPILE"):
            shutil.copy("/repo/cinereus/Cargo.toml", w + "/cinereus/Cargo.toml")
        p = f"{w}/{f}"
        s = open(p).read()
        head, sep, tests = s.partition("#[cfg(test)]\nmod tests {")
        for o, nw in subs:
            assert head.count(o) == 1, (n, head.count(o), o)
            head = head.replace(o, nw)
        open(p, "w").write(head + sep + tests)
        if os.environ.get("COMPILE"):
            t = w + "/build"
            shutil.rmtree(t, ignore_errors=True)
            os.makedirs(t)
            shutil.copytree(V + "/shims", t + "/shims", ignore=shutil.ignore_patterns("target"))
            shutil.copytree(V + "/harness-html", t + "/harness-html", ignore=shutil.ignore_patterns("target"))
            for c in [os.path.join(d, x) for d, _, l in os.walk(t) for x in l if x == "Cargo.toml" or x.endswith(".rs")]:
                x = open(c).read()
                if "/repo/" in x: open(c, "w").write(x.replace("/repo/", w + "/"))
            for c in os.listdir("/repo"):
                if os.path.isfile("/repo/" + c) and c.endswith(".toml"): shutil.copy("/repo/" + c, w)
            env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR="/tmp/rfh-target")
            r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=t + "/harness-html", env=env, capture_output=True, text=True)
            print(f"{n:24} compiles" if r.returncode == 0 else f"{n}: DOES NOT COMPILE\n" + r.stderr[-1500:])
            sys.stdout.flush()
            continue
        for u in us.split():
            r = check.Unit(u, ex, w)
            if r.ok: print(f"{n:24} {u:9} proved"); sys.stdout.flush(); continue
            print(f"{n:24} {u:9} " + ("undecided: " + r.undecided.splitlines()[0][:170] if r.undecided else ""))
            misfit = {x["fn"] for x in r.failed if not x["tags"]}
            for x in r.failed:
                print("     ", "demoted" if x["fn"] in misfit else "FAILED" if x["tags"] else "untagged", ",".join(x["tags"]) or "-", x["fn"], x["loc"], "|", x["message"], "|", x["text"][:90])
            sys.stdout.flush()
    shutil.rmtree(w)
main()
