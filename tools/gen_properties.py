#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
M="cinereus/src/matching.rs"; C="cinereus/src/chawathe.rs"; T="cinereus/src/tree.rs"; L="cinereus/src/lib.rs"
D="hotmeal/src/diff.rs"; DOM="hotmeal/src/dom.rs"; S="hotmeal/src/stem.rs"; SRV="hotmeal-server/src/lib.rs"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","A matching is a one-to-one correspondence between the two trees",
 "For any two trees and any configuration, the computed matching pairs every node with at most one partner, and every paired node belongs to its tree. Asking for the partner of a node in either direction gives mutually inverse answers, and the list of pairs, its length, and the membership queries all describe that same correspondence.",
 ["inputs","configurations"],"every pair of finite trees, every hash/kind/property assignment, every threshold and minimum height",
 "The stable tests compute three small matchings and look at lengths and a few lookups; they cannot quantify over trees, hash collisions between siblings, or configurations, and a duplicate pairing only shows when several candidates compete for one node.",
 [M],[("paired lookup tables updated together","Matching::add"),("guards before every addition","top_down_phase, match_subtrees, bottom_up_phase")],
 [("forward and backward lookup tables plus pair list","the correspondence","Matching")],["matching returned with the diff"])

prop("C02","Only nodes of the same kind are ever paired",
 "If equal subtree hashes imply equal subtrees, then any two nodes paired by the computed matching have equal kinds, for every pair of trees and every configuration.",
 ["inputs","configurations"],"every pair of finite trees whose hashes are faithful, every configuration",
 "Existing tests use trees in which nearly all siblings already share kinds, so a missing kind guard in one of the seven places that add a pair is not exercised.",
 [M],[("kind test in each matching rule","top_down_phase, bottom_up_phase"),("hash equality in the recursive rule","match_subtrees")],[],["matching returned with the diff"])

prop("C03","No pair falls below the similarity threshold unless its subtrees are equal",
 "Any two nodes paired by the computed matching either have equal subtree hashes, or one of them is opaque, or the property similarity of the first to the second is not below the configured threshold (given that equal hashes imply equal subtrees). This holds for every pair of trees and every configuration, whichever rule produced the pair.",
 ["inputs","configurations"],"every pair of finite trees with faithful hashes, every similarity function, threshold and minimum height",
 "Stable tests never use a similarity other than 1.0 on unequal nodes; the threshold comparison is made at four separate places.",
 [M],[("threshold comparisons","bottom_up_phase")],[],["matching returned with the diff"])

prop("C04","Exactly the unmatched nodes are inserted and deleted",
 "For any two trees and any one-to-one matching between them, the edit script inserts exactly the unmatched non-root nodes of the new tree that are not inside an opaque node, once each, carrying that node's own kind, parent and sibling position. It deletes exactly the unmatched nodes of the old tree that are not inside an opaque node, once each.",
 ["inputs"],"every pair of finite trees and every one-to-one matching between them, including sparse, empty and full ones",
 "The edit-script unit tests are switched off in this build; the doc-test only runs one diff and ignores the result.",
 [C],[("insert and delete phases","generate_edit_script")],[],["edit script"])

prop("C05","A matched node is moved exactly when its place changed",
 "For any two trees and any one-to-one matching, the edit script moves a matched pair (neither being a root nor inside an opaque node) exactly when the old parent is not paired with the new parent or the sibling position differs. Each such pair is moved once, to the parent and sibling position it has in the new tree, and no other pair is moved.",
 ["inputs"],"every pair of finite trees and every one-to-one matching between them",
 "Stable tests never inspect move operations; spurious and missing moves need particular combinations of matched and unmatched parents and positions.",
 [C],[("move phase","generate_edit_script")],[],["edit script"])

prop("C06","Text and property updates are exactly the real differences",
 "For any two trees and any one-to-one matching, the edit script sets the text of a matched pair (outside opaque nodes) exactly when the new node has text that differs from the old, and to the new node's text. It updates the properties of such a pair exactly when some property is new, changed or removed, and then carries the complete final property list; each pair gets at most one operation of each sort and nothing else is updated.",
 ["inputs"],"every pair of finite trees with arbitrary text and properties, and every one-to-one matching",
 "No stable test uses text or non-trivial properties.",
 [C],[("update phase","generate_edit_script")],[],["edit script"])

prop("C07","The edit script can be executed in the order it is given",
 "In every edit script all updates come before all insertions, insertions before moves, and moves before deletions. An inserted node's parent, if it is itself inserted, is inserted earlier; a moved node's ancestors-to-be that move as well move earlier; and a deleted node's deleted children are deleted earlier.",
 ["inputs"],"every pair of finite trees and every one-to-one matching; every traversal order the trees report that is parent-first respectively child-first",
 "Order violations only show on nested insertions or deletions, which no stable test performs.",
 [C,T],[("phases in sequence, parent-first and child-first traversals","generate_edit_script, post-order traversal")],[],["edit script"])

prop("C08","Replaying the edit script on the old tree yields the new tree",
 "Take two trees and a one-to-one matching that pairs the roots and only pairs nodes of equal kind that agree on carrying text and on being inside an opaque node. Replaying the script on the old tree, each operation setting one node's parent and position (or creating, removing or updating one node) and never touching another, leaves exactly the nodes of the new tree outside opaque subtrees, each with its new parent, position, kind, text and (for changed properties) final properties. Every operation refers only to nodes that exist when it runs.",
 ["inputs","histories"],"every pair of finite trees, every valid matching, and every prefix of the replayed script",
 "This is a statement about a whole sequence of operations on arbitrary trees; no stable test replays a script.",
 [C],[("phases together realise the new structure","generate_edit_script")],[],["edit script replay"])

prop("C09","Identical trees produce an empty edit script",
 "If two trees are identical (same shape, kinds, texts, properties and opacity, with faithful hashes and the root at least as tall as the configured minimum height), then the computed matching pairs every node outside opaque subtrees with its counterpart at the same place, and the edit script is empty.",
 ["inputs","configurations"],"every finite tree, however many equal-looking siblings it has, and every configuration the root's height admits",
 "Tests compare one three-node tree with itself; repeated identical siblings and deep nesting are where a wrong counterpart would be chosen.",
 [M,C],[("hash comparison of roots and recursive pairing in order","top_down_phase, match_subtrees")],[],["matching and edit script"])

prop("C10","Opaque nodes are atomic for the edit script",
 "For any two trees and any one-to-one matching, no operation of the edit script inserts, deletes, moves or updates a node lying strictly inside an opaque node, on either side. The computed matching never pairs an old-tree node lying strictly inside an opaque node, and pairs an old-tree node with one lying strictly inside an opaque new-tree node only if their parents are paired as well.",
 ["inputs","configurations"],"every pair of finite trees with any set of opaque nodes (nested ones included), any matching, any configuration",
 "The two opacity unit tests that run have one opaque node each and look at the matching only.",
 [M,C],[("sets of opaque descendants consulted by every phase","generate_edit_script, bottom_up_phase"),("no descent below an opaque node","top_down_phase, match_subtrees")],[],["matching and edit script"])

prop("C11","Diffing always terminates without panicking",
 "Computing a matching and an edit script for any two finite trees, any similarity function and any configuration terminates, performs no out-of-range access, failed unwrap or arithmetic overflow, and never asks a tree about a node that is not in it.",
 ["inputs","configurations"],"every pair of finite well-formed trees and every configuration, including degenerate single-node trees and non-finite thresholds",
 "Termination and absence of panics over all trees cannot be sampled.",
 [M,C,T],[("shrinking work list, bounded recursion, grown-on-demand tables","top_down_phase, match_subtrees, Matching::add")],[],["returning at all"])

prop("C12","Tree navigation and traversals agree with each other",
 "In any tree built by adding children, a new child becomes the last child of its parent and nothing else changes. Parent, children, child count, sibling position and height always describe the same shape; the pre-order traversal yields every node exactly once with parents before children, and the post-order traversal yields every node exactly once with children before parents and siblings in order.",
 ["inputs","histories"],"every finite sequence of child additions and every node of the result",
 "Two unit tests build trees of three and four nodes.",
 [T],[("traversal state machine and recursive height","PostOrderIter, Tree"),("default sibling-position and child-count rules","DiffTree")],[],["navigation queries and traversals"])

prop("C13","Diffing is deterministic",
 "Running the diff twice on equal trees with equal configuration gives the same matching and the same edit script, in the same process or another.",
 ["inputs","schedules"],"every pair of trees; every hasher state",
 "Needs two runs to be compared over all inputs (a 2-safety property).",
 [M,C],[("hash containers are only used for membership and per-key lookup","bottom_up_phase, generate_edit_script")],[],["matching and edit script of two runs"])

prop("C14","A diff keeps the root and transforms the old tree into the new one",
 "If the roots of two trees have the same kind and the similarity of their properties reaches the configured threshold, the diff pairs the two roots with each other, so its edit script never deletes, inserts or moves a root. If in addition no node is opaque, equal hashes imply equal subtrees and same-kind nodes agree on carrying text, replaying that script on the old tree yields the new tree.",
 ["inputs","configurations"],"every pair of finite trees with same-kind, similar roots; every configuration",
 "The documented example diffs two trees of two nodes and ignores the result; shrinking a tree to its root or nesting same-kind nodes is never tried.",
 [M,C,L],[("root rule of the bottom-up phase","bottom_up_phase"),("diff entry points","diff_trees, diff_trees_with_matching")],[],["matching and edit script of a diff"])

prop("H01","Applying the patches of a diff reproduces the new document",
 "For any two HTML documents, computing patches from the first to the second and applying them to the first yields a document whose body serialises like the second's.",
 ["inputs"],"every pair of HTML documents",
 "Needs every document; the crate's own round-trip tests cannot even be built here.",
 [D,DOM],[("shadow tree mirrors the applier","convert_ops_with_shadow, apply_patch")],[],["serialised body"])

prop("H02","Placing a node in the document never shifts its siblings",
 "Inserting a node at a sibling position of a document node puts it at exactly that position; missing positions before it are filled with fresh empty text nodes and every earlier sibling keeps its position. When the operation names a slot, the previous occupant of the position leaves the sibling list and becomes the root of that slot, all other siblings stay where they were, and no other part of the document changes.",
 ["inputs","histories"],"every document shape, every position (also beyond the end), every slot state",
 "The applier's tests cannot be built here and use fixed documents.",
 [DOM],[("gap filling and displacement","insert_at, insert_at_position")],[],["sibling lists after the operation"])

prop("H03","Every patch of a diff addresses the node or place it is about",
 "For any node of the working copy used while generating patches, the path computed for it (slot number, then child positions) leads back to that same node when followed from the slot roots by the applier's navigation rule. The patches of a diff follow the edit script in order: at its turn, each patch names, in the working copy as the earlier patches have left it, exactly the node (or the parent and position) its edit operation is about; a move names the new place as it is once the node has left the old one. An insertion carries exactly the content of the new page below the inserted node that no other operation places, and nothing in the edit script is left untold except an insertion already carried by another one.",
 ["inputs","histories"],"every shape of the working copy, every number of slots and every node below a slot; every edit script of two trees and a one-to-one matching",
 "Needs all shapes and all nodes, and whole histories of the working copy.",
 [D,DOM],[("path computation by walking to the root","ShadowTree::compute_path"),("path navigation from the slot root","navigate_slot_path"),("working copy kept in step with the patches","convert_ops_with_shadow, ShadowTree::insert_at_position, ShadowTree::move_to_position"),("content of an insertion","extract_content_from_tree_b")],[],["path, node reached, patch list"])

prop("H04","Attribute updates carry exactly the new attribute list",
 "For any two attribute lists the computed property change lists the new attributes in their new order, and marks an attribute unchanged only if the old list has the same name with the same value. Whenever the two lists differ as ordered lists, the change contains at least one changed entry or is shorter than the old list, so the difference is never overlooked; equal lists mark nothing changed.",
 ["inputs"],"every pair of attribute lists without duplicate names",
 "Needs all attribute lists; reorderings and removals combine.",
 [D],[("final-state attribute diff with forced change on reordering","HtmlProps::diff")],[],["property change list"])

prop("H05","Serialised text and attributes cannot change the document structure",
 "For any text node outside raw-text elements and any attribute value, the serialised form contains no unescaped character that would end the text or the quoted value, and unescaping it gives the original string back.",
 ["inputs"],"every string","Needs all strings.",
 [DOM],[("escaping while serialising","serialize_node, serialize_element")],[],["serialised HTML"])

prop("H06","Converting patches to owned data changes nothing but ownership",
 "Turning a patch (or its parts) into its owned form yields an equal patch: same variant, same paths, names, values, children in order and slot numbers.",
 ["inputs"],"every patch value, with arbitrarily nested content","Needs all nested contents.",
 [D,S],[("structural copy","into_owned")],[],["owned patch"])

prop("H07","The live-reload server reports a change exactly when a page's content changed",
 "Each route's cached page is always the last page that was submitted for it; submitting a page yields patches relative to the previously cached page for that route, and forgetting routes forgets exactly those.",
 ["histories","schedules"],"every sequence of submissions, removals and clears on any set of routes","Needs all histories.",
 [SRV],[("per-route cache","LiveReloadServer")],[],["events returned"])

prop("H08","A patch changes exactly the node or place it names",
 "Applying a patch to a document does what the patch says to the node its path leads to, and nothing to any other existing node. An insertion puts the described content at the named place; a removed or moved node leaves an empty text node behind (a moved slot root leaves nothing), and a move puts it at the place its target names. Setting text or an attribute changes only that, a property update leaves exactly the listed attributes in the listed order (unlisted values carried over from before), and new opaque content replaces exactly that node's children. A patch whose path leads nowhere, or to a node of the wrong sort, reports an error and changes no other node; a list of patches is applied in order up to the first that fails, and the empty list changes nothing.",
 ["inputs","histories"],"every document, every state of the slots, every patch value and every list of patches that never moves a node below itself",
 "The applier's tests cannot be built here and use fixed documents; that nothing else changes is a statement about all other nodes.",
 [DOM],[("one arm per patch","Document::apply_patch"),("creating described content","create_insert_content"),("loop over patches","apply_patches")],
 [("node arena","the document tree","Document::arena"),("slot table","roots of detached subtrees","slots")],["document and slots after a patch, result"])

prop("H09","The two trees a diff compares are the two pages",
 "For any two documents with bodies, the tree built from the old document and the view built over the new one say exactly what the bodies say: every node of the body once, in the same order and under the same parent, with its tag and namespace (or text or comment), its attributes in order and its text. Both answer child lists, parents, sibling positions, heights, descendants and pre- and post-order traversals for exactly that page, and give a node a hash that covers its tag, its text and the whole subtree below it, so that equal hashes mean equally shaped subtrees (barring accidental collisions).",
 ["inputs"],"every pair of documents, every shape, depth and content of the bodies",
 "The crate's tests cannot be built here; a node that is lost, misplaced or hashed without its children only shows for particular shapes.",
 [D],[("old tree built from the arena","build_tree_from_arena, add_arena_children, recompute_hashes"),("view over the new document","DiffableDocument::new and its DiffTree implementation")],
 [("precomputed data per node","hash, kind, attributes, text, height of each node","DiffableDocument::nodes")],["patches of a diff"])

prop("H10","Opaque content is replaced exactly when it differs",
 "After the edit script, the patches of a diff replace the content of exactly those paired nodes whose new node carries the opaque mark, is not inside another opaque node of the new page, and whose old node is not opaque or has different content (a different list of children, node by node with tags, attributes and texts, at any depth). Each of them gets one replacement, which names that node in the working copy and carries the serialised content of the new node; nothing else is replaced. Old nodes whose partner in the new page has no opaque mark are edited in full.",
 ["inputs"],"every pair of documents with opaque marks anywhere, also nested, added or taken away",
 "Needs all placements of the mark and all contents; the tests that use it cannot be built here.",
 [D,DOM],[("comparison and replacement of opaque content","diff, same_content"),("mark lifted from nodes that are no longer opaque","OpaqueAwareTree")],[],["patches of a diff"])

prop("H11","Pages without a body are emptied or filled child by child",
 "If neither document has a body, the diff is empty. If only the new one has a body, the diff inserts each of the body's children with its whole content, in order, at positions 0, 1, 2, ... below the body. If only the old one has a body, the diff removes each of its children once, last position first, so that no removal names a position that is not there.",
 ["inputs"],"every pair of documents of which at least one has no body",
 "Ordinary parsing always yields a body, so tests do not get here.",
 [D],[("early exits of the diff","diff, create_insert_patch")],[],["patches of a diff"])

prop("H12","Every patch of a diff is accepted and the body then shows the new page",
 "Apply the patches that the diff of two pages with bodies returns, in order, to a document whose body shows the old page: none of them is refused and none moves a node below itself. Afterwards the body is the same node in the same place and says what the new page's body says; every node of the new page outside opaque nodes' content is there once, with its tag, attributes in order or text, below the right parent and in the right order; and all that is left over besides are empty text nodes after a node's last child. (What is inside opaque nodes is not compared here.)",
 ["inputs","histories"],"every pair of pages, and every intermediate state of document and slots while the patches are applied",
 "The crate's tests cannot be built here and use fixed pairs of pages; generator and applier each keep their own copy of the tree and only agree if every intermediate state agrees.",
 [D,DOM],[("the patches of a comparison","diff, convert_ops_with_shadow"),("patches applied in order","Document::apply_patches")],
 [("slot table","roots of detached subtrees","slots of the applier and of the generator's working copy")],["the document after all patches","result of apply_patches"])

prop("H13","Editing a document by its own methods changes exactly what the call names",
 "A new document is html with an empty head and an empty body. create_element/create_text/create_comment make one node that is nowhere yet and says exactly what was given; append_child, insert_before and insert_after put a node at exactly that place (taking it from where it was, the order of all other nodes unchanged), remove takes it out with everything below it; set_attr changes the value of the (first) attribute with exactly that name or adds it as the last, remove_attr removes exactly the attributes of that name, set_text replaces the text of a text node; on nodes of another kind these three change nothing. No call changes any other node. parent, children, first_child, last_child, next_sibling, prev_sibling and child_count agree with one another about the order. A text made from a string, and a text with another appended (push_str, push_tendril), reads exactly as those strings.",
 ["inputs","histories"],"every document and every sequence of edits of existing nodes that puts no node below itself",
 "The crate's tests cannot be built here; each method must leave all other nodes alone in every document.",
 [DOM,"hotmeal/src/stem.rs"],[("editing methods","Document::{new, create_*, append_child, insert_before, insert_after, remove, set_attr, remove_attr, set_text}"),("texts","Stem::{from, push_str, push_tendril}")],[],["the document's nodes through its navigation methods"])

prop("H14","The document is what the tree builder asked for",
 "Whatever calls html5ever's tree builder makes on the sink while a page is parsed, the document that comes out is the tree they describe: an element has the name, the namespace and the attributes given, in order; comments read as given, processing instructions become empty comments; a node appended, or put before a sibling, is at exactly that place and nowhere else; text put right after a text node joins it and otherwise becomes a new text node at exactly that place; foster-parented content goes before the element if that has a parent, else to the end of the other; attributes added when missing leave those of the same name alone and come last, in order; children handed over keep their order after those already there; a node removed is nowhere. No call changes any other node. The root is the document node's first element (comments may precede it; if there is none, the document node), the doctype is the last one given and the errors are those reported, in order. Asked for a node's name, the sink answers the name and namespace it was made with. parse hands over the page itself if, after white space, it starts with a doctype (in any case), else the page after `<!DOCTYPE html>` if `<html` or `<body` occurs in it (in any case), else the page inside `<!DOCTYPE html><html><body>`…`</body></html>`; the document has a doctype only if the page itself has. parse_body_fragment hands over the text as it is.",
 ["inputs","histories"],"every sequence of calls that keeps TreeSink's rules, with texts inside the input and texts of their own",
 "Misnested tables, formatting elements and repeated html/body tags lead to call sequences no fixed test goes through; the crate's tests cannot be built here.",
 [DOM],[("tree building","ArenaSink as TreeSink"),("what is parsed","parse, parse_body_fragment, has_doctype_prefix, has_html_structure"),("namespaces","Namespace::from_url, Namespace::url")],[],["the parsed document","names reported to the tree builder"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
