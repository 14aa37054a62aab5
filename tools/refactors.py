#!/usr/bin/env python3
"""refactors.py [NAME...]: behaviour-preserving edits of the code under contract, and what the
verifier alone makes of each (development aid; never used by a check).

'proved' is what we want; 'undecided' is acceptable (the check falls back on its bounded search and
stays quiet); 'FAILED' with a property tag would be a false alarm."""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, M, T = "chawathe.rs", "matching.rs", "tree.rs"
R = {
 "helper-opaque-set": (C, [("""    let mut opaque_descendants_a: std::collections::HashSet<indextree::NodeId> =
        std::collections::HashSet::new();
    for a_id in tree_a.iter() {
        if tree_a.is_opaque(a_id) {
            for desc in tree_a.descendants(a_id) {
                if desc != a_id {
                    opaque_descendants_a.insert(desc);
                }
            }
        }
    }
    let mut opaque_descendants_b: std::collections::HashSet<indextree::NodeId> =
        std::collections::HashSet::new();
    for b_id in tree_b.iter() {
        if tree_b.is_opaque(b_id) {
            for desc in tree_b.descendants(b_id) {
                if desc != b_id {
                    opaque_descendants_b.insert(desc);
                }
            }
        }
    }

    // Phase 1""", """    let opaque_descendants_a = opaque_descendants(tree_a);
    let opaque_descendants_b = opaque_descendants(tree_b);

    // Phase 1"""), ("""/// Generate an edit script from a matching between""", """/// Nodes strictly below an opaque node.
fn opaque_descendants<T: DiffTree>(tree: &T) -> std::collections::HashSet<indextree::NodeId> {
    let mut set = std::collections::HashSet::new();
    for id in tree.iter() {
        if tree.is_opaque(id) {
            for desc in tree.descendants(id) {
                if desc != id {
                    set.insert(desc);
                }
            }
        }
    }
    set
}

/// Generate an edit script from a matching between""")]),
 "match-parent": (C, [("""            let parent_b = tree_b.parent(b_id);

            if let Some(parent_b) = parent_b {
""", """            if let Some(parent_b) = tree_b.parent(b_id) {
""")]),
 "position-neq-inline": (C, [("""        let position_changed = pos_a != pos_b;
""", ""), ("            position_changed,\n", ""), ("        if position_changed {", "        if pos_a != pos_b {")]),
 "merge-move": (C, [("""        if parent_changed {
            let pos_b = tree_b.position(b_id);
            trace!(
                a = usize::from(a_id),
                b = usize::from(b_id),
                parent_changed = true,
                pos_b,
                "move phase: parent changed, emitting move"
            );
            ops.push(EditOp::Move {
                node_a: a_id,
                node_b: b_id,
                new_parent_b: parent_b,
                new_position: pos_b,
            });
            continue;
        }

        // Parent unchanged - check if position among siblings changed
        let pos_a = tree_a.position(a_id);
        let pos_b = tree_b.position(b_id);
        let position_changed = pos_a != pos_b;
""", """        let pos_a = tree_a.position(a_id);
        let pos_b = tree_b.position(b_id);
        let position_changed = parent_changed || pos_a != pos_b;
""")]),
 "delete-combined-condition": (C, [("""        if !matching.contains_a(a_id) {
            // Skip descendants of opaque nodes — opaque subtrees are atomic
            if opaque_descendants_a.contains(&a_id) {
                continue;
            }
            ops.push(EditOp::Delete { node_a: a_id });
        }
""", """        if !matching.contains_a(a_id) && !opaque_descendants_a.contains(&a_id) {
            ops.push(EditOp::Delete { node_a: a_id });
        }
""")]),
 "delete-continue": (C, [("""        if !matching.contains_a(a_id) {
            // Skip descendants of opaque nodes — opaque subtrees are atomic
            if opaque_descendants_a.contains(&a_id) {
                continue;
            }
            ops.push(EditOp::Delete { node_a: a_id });
        }
""", """        if matching.contains_a(a_id) || opaque_descendants_a.contains(&a_id) {
            continue;
        }
        ops.push(EditOp::Delete { node_a: a_id });
""")]),
 "insert-order-of-tests": (C, [("""        if !matching.contains_b(b_id) {
            let parent_b = tree_b.parent(b_id);

            if let Some(parent_b) = parent_b {
                // Skip descendants of opaque nodes — opaque subtrees are atomic
                if opaque_descendants_b.contains(&b_id) {
                    continue;
                }
                let pos = tree_b.position(b_id);
                ops.push(EditOp::Insert {
                    node_b: b_id,
                    parent_b,
                    position: pos,
                    kind: tree_b.kind(b_id).clone(),
                });
            }
            // Root insertion is a special case - usually trees have matching roots
        }
""", """        if matching.contains_b(b_id) || opaque_descendants_b.contains(&b_id) {
            continue;
        }
        let Some(parent_b) = tree_b.parent(b_id) else {
            continue;
        };
        let kind = tree_b.kind(b_id).clone();
        ops.push(EditOp::Insert {
            node_b: b_id,
            parent_b,
            position: tree_b.position(b_id),
            kind,
        });
""")]),
 "any-as-loop": (C, [("""        let has_real_change = changes
            .iter()
            .any(|c| matches!(c.value, crate::tree::PropValue::Different(_)));
""", """        let mut has_real_change = false;
        for c in &changes {
            if let crate::tree::PropValue::Different(_) = c.value {
                has_real_change = true;
                break;
            }
        }
""")]),
 "settext-nested-if": (C, [("""        if a_text != b_text
            && let Some(new_text) = b_text
        {
            ops.push(EditOp::SetText {
                node_a: a_id,
                node_b: b_id,
                text: new_text.clone(),
            });
        }
""", """        if let Some(new_text) = b_text {
            if a_text != b_text {
                ops.push(EditOp::SetText {
                    node_a: a_id,
                    node_b: b_id,
                    text: new_text.clone(),
                });
            }
        }
""")]),
 "phase-helper-delete": (C, [("""    for a_id in tree_a.post_order() {
        if !matching.contains_a(a_id) {
            // Skip descendants of opaque nodes — opaque subtrees are atomic
            if opaque_descendants_a.contains(&a_id) {
                continue;
            }
            ops.push(EditOp::Delete { node_a: a_id });
        }
    }
""", """    emit_deletes(tree_a, matching, &opaque_descendants_a, &mut ops);
"""), ("""/// Generate an edit script from a matching between""", """/// Delete what has no partner.
fn emit_deletes<TA: DiffTree>(
    tree_a: &TA,
    matching: &Matching,
    opaque_descendants_a: &std::collections::HashSet<indextree::NodeId>,
    ops: &mut Ops<TA::Types>,
) {
    for a_id in tree_a.post_order() {
        if !matching.contains_a(a_id) {
            if opaque_descendants_a.contains(&a_id) {
                continue;
            }
            ops.push(EditOp::Delete { node_a: a_id });
        }
    }
}

/// Generate an edit script from a matching between""")]),
 "rename-locals-script": (C, [("opaque_descendants_a", "below_opaque_a"), ("opaque_descendants_b", "below_opaque_b"), ("has_real_change", "real"), ("parent_match", "pm")], "all"),
 "hash-eq-flag": (M, [("""        if a_hash == b_hash && a_kind == b_kind {
            trace!(a""", """        let same_hash = a_hash == b_hash;
        let same_kind = a_kind == b_kind;
        if same_hash && same_kind {
            trace!(a""")]),
 "height-first": (M, [("""        let a_hash = tree_a.hash(a_id);
        let a_kind = tree_a.kind(a_id);
        let b_hash = tree_b.hash(b_id);
        let b_kind = tree_b.kind(b_id);

        // Skip small subtrees (leave for bottom-up)
        if tree_a.height(a_id) < config.min_height {
            continue;
        }
""", """        // Skip small subtrees (leave for bottom-up)
        if tree_a.height(a_id) < config.min_height {
            continue;
        }

        let b_hash = tree_b.hash(b_id);
        let b_kind = tree_b.kind(b_id);
        let a_hash = tree_a.hash(a_id);
        let a_kind = tree_a.kind(a_id);
""")]),
 "topdown-children-filter": (M, [("""                for b_child in tree_b.children(b_id) {
                    if !matching.contains_b(b_child) {
                        let b_child_hash = tree_b.hash(b_child);
                        let b_child_kind = tree_b.kind(b_child);
                        // Match by hash (exact isomorphism) or kind (structural match)
                        if a_child_hash == b_child_hash || a_child_kind == b_child_kind {
                            candidates.push((a_child, b_child));
                        }
                    }
                }
""", """                for b_child in tree_b.children(b_id) {
                    if matching.contains_b(b_child) {
                        continue;
                    }
                    // Match by hash (exact isomorphism) or kind (structural match)
                    if a_child_hash == tree_b.hash(b_child) || a_child_kind == tree_b.kind(b_child) {
                        candidates.push((a_child, b_child));
                    }
                }
""")]),
 "subtree-no-collect": (M, [("""    let a_children: Vec<_> = tree_a.children(a_id).collect();
    let b_children: Vec<_> = tree_b.children(b_id).collect();

    for (a_child, b_child) in a_children.into_iter().zip(b_children.into_iter()) {
""", """    for (a_child, b_child) in tree_a.children(a_id).zip(tree_b.children(b_id)) {
""")]),
 "ancestry-helper": (M, [("""        let is_descendant = tree_b
            .descendants(matched_b_parent)
            .any(|desc| desc == b_id);
""", """        let is_descendant = is_below(tree_b, matched_b_parent, b_id);
"""), ("""        let is_descendant = tree_a
            .descendants(matched_a_parent)
            .any(|desc| desc == a_id);
""", """        let is_descendant = is_below(tree_a, matched_a_parent, a_id);
"""), ("""/// Check if B is a valid match for A based""", """/// Is `id` in the subtree of `top`?
fn is_below<T: DiffTree>(tree: &T, top: NodeId, id: NodeId) -> bool {
    tree.descendants(top).any(|desc| desc == id)
}

/// Check if B is a valid match for A based""")]),
 "best-match-arms": (M, [("""            if score >= config.similarity_threshold && (best.is_none() || score > best.unwrap().1) {
                best = Some((b_id, score));
            }
""", """            if score < config.similarity_threshold {
                continue;
            }
            match best {
                Some((_, top)) if score <= top => {}
                _ => best = Some((b_id, score)),
            }
""")]),
 "childcount-let": (M, [("""        if tree_a.child_count(a_id) != 0 {
            continue;
        }

        let a_kind""", """        let is_leaf = tree_a.child_count(a_id) == 0;
        if !is_leaf {
            continue;
        }

        let a_kind""")]),
 "add-order": (M, [("""        self.a_to_b[a_idx] = Some(b);
        self.b_to_a[b_idx] = Some(a);
        self.pairs.push((a, b));
""", """        self.pairs.push((a, b));
        self.b_to_a[b_idx] = Some(a);
        self.a_to_b[a_idx] = Some(b);
""")]),
 "contains-via-get": (M, [("""        let idx = usize::from(a);
        self.a_to_b.get(idx).is_some_and(|opt| opt.is_some())
""", """        self.get_b(a).is_some()
"""), ("""        let idx = usize::from(b);
        self.b_to_a.get(idx).is_some_and(|opt| opt.is_some())
""", """        self.get_a(b).is_some()
""")]),
 "get-match": (M, [("""        let idx = usize::from(a);
        self.a_to_b.get(idx).copied().flatten()
""", """        let idx = usize::from(a);
        match self.a_to_b.get(idx) {
            Some(slot) => *slot,
            None => None,
        }
""")]),
 "dice-let": (M, [("""        2.0 * common as f64 / (desc_a.len() + desc_b.len()) as f64
""", """        let total = desc_a.len() + desc_b.len();
        2.0 * common as f64 / total as f64
""")]),
 "root-match-first-cond": (M, [("""        if parent_a.is_none() {
            let root_b = tree_b.root();
            if !matching.contains_b(root_b)
                && tree_b.kind(root_b) == a_kind
""", """        if parent_a.is_none() {
            let root_b = tree_b.root();
            if tree_b.kind(root_b) == a_kind
                && !matching.contains_b(root_b)
""")]),
 "candidates-swap": (M, [("""                .filter(|&b_id| !matching.contains_b(b_id) && tree_b.kind(b_id) == a_kind)
""", """                .filter(|&b_id| tree_b.kind(b_id) == a_kind && !matching.contains_b(b_id))
""")]),
 "leaf-best-loop": (M, [("""                if b_hash == a_hash {
                    best = Some(b_id);
                    break;
                } else if best.is_none()
                    && a_props.similarity(b_props) >= config.similarity_threshold
                {
                    best = Some(b_id);
                }
""", """                if b_hash == a_hash {
                    best = Some(b_id);
                    break;
                }
                if best.is_none() && a_props.similarity(b_props) >= config.similarity_threshold {
                    best = Some(b_id);
                }
""")]),
 "pairs-loop-filter-opaque": (M, [("""    let mut opaque_descendants_a: HashSet<NodeId> = HashSet::default();
    for a_id in tree_a.iter() {
        if tree_a.is_opaque(a_id) {
            // Skip the opaque node itself, but mark all its descendants
            for desc in tree_a.descendants(a_id) {
                if desc != a_id {
                    opaque_descendants_a.insert(desc);
                }
            }
        }
    }
""", """    let mut opaque_descendants_a: HashSet<NodeId> = HashSet::default();
    for a_id in tree_a.iter() {
        if !tree_a.is_opaque(a_id) {
            continue;
        }
        for desc in tree_a.descendants(a_id).filter(|&desc| desc != a_id) {
            opaque_descendants_a.insert(desc);
        }
    }
""")]),
 "opaque-skip-first": (M, [("""    let mut opaque_descendants_a: HashSet<NodeId> = HashSet::default();
    for a_id in tree_a.iter() {
        if tree_a.is_opaque(a_id) {
            // Skip the opaque node itself, but mark all its descendants
            for desc in tree_a.descendants(a_id) {
                if desc != a_id {
                    opaque_descendants_a.insert(desc);
                }
            }
        }
    }
""", """    let mut opaque_descendants_a: HashSet<NodeId> = HashSet::default();
    for a_id in tree_a.iter() {
        if tree_a.is_opaque(a_id) {
            // descendants starts with the node itself
            for desc in tree_a.descendants(a_id).skip(1) {
                opaque_descendants_a.insert(desc);
            }
        }
    }
""")]),
 "pass1-helper": (M, [("""        // No parent match or no position match - fall back to Dice coefficient
        let candidates = b_by_kind.get(a_kind).cloned().unwrap_or_default();

        let mut best: Option<(NodeId, f64)> = None;
        for b_id in candidates {""", """        // No parent match or no position match - fall back to Dice coefficient
        let empty: Vec<NodeId> = Vec::new();
        let candidates = b_by_kind.get(a_kind).unwrap_or(&empty);

        let mut best: Option<(NodeId, f64)> = None;
        for &b_id in candidates.iter() {""")]),
 "position-via-iter": (T, [("""            for (pos, c) in self.children(parent).enumerate() {
                SIBLINGS_SCANNED.with(|s| s.set(s.get() + 1));
                if c == id {
                    return pos;
                }
            }
            0
        } else {
            0
        }
    }

    /// Get the height of a node""", """            self.children(parent).position(|c| c == id).unwrap_or(0)
        } else {
            0
        }
    }

    /// Get the height of a node""")]),
 "add-child-order": (T, [("""        let child = self.arena.new_node(data);
        parent.append(child, &mut self.arena);
        child
""", """        let new_child = self.arena.new_node(data);
        parent.append(new_child, &mut self.arena);
        return new_child;
""")]),
 "noop-everywhere": (M, [("""    let mut matching = Matching::new();

    // Phase 1""", """    let _ = ();
    let mut matching = Matching::new();

    // Phase 1"""), ("""    matching.add(a_id, b_id);

    // If either""", """    let _noop = 0u32;
    matching.add(a_id, b_id);

    // If either""")]),
}
def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, V)
    w = tempfile.mkdtemp(prefix="rf")
    os.environ["VERIF_REPO"] = w
    import check, units
    ex = os.path.join(check.BUILD, "extract/release/contract-extract")
    names = sys.argv[1:] or list(R)
    for n in names:
        shutil.rmtree(w + "/cinereus", ignore_errors=True)
        shutil.copytree("/repo/cinereus", w + "/cinereus")
        f, subs = R[n][:2]
        p = f"{w}/cinereus/src/{f}"
        s = open(p).read()
        head, sep, tests = s.partition("#[cfg(test)]\nmod tests {")
        for o, nw in subs:
            k = head.count(o)
            assert k == 1 or (len(R[n]) > 2 and k), (n, k, o)
            head = head.replace(o, nw)
        open(p, "w").write(head + sep + tests)
        if os.environ.get("COMPILE"):
            r = subprocess.run(["cargo", "check", "--offline", "-q", "-p", "cinereus"], cwd=w, capture_output=True, text=True)
        for u in units.UNITS:
            r = check.Unit(u, ex, w)
            if r.ok: print(f"{n:28} {u:9} proved"); continue
            print(f"{n:28} {u:9} " + ("undecided: " + r.undecided.splitlines()[0][:170] if r.undecided else ""))
            for x in r.failed:
                print("     ", "FAILED" if x["tags"] else "untagged", ",".join(x["tags"]) or "-", x["fn"], x["loc"], "|", x["message"], "|", x["text"][:90])
            if os.environ.get("RAW") and r.undecided: print(r.undecided)
            sys.stdout.flush()
    shutil.rmtree(w)
main()
