"""Which Verus units and which assumptions each property rests on."""
UNITS = {
    "script": "unit_script.rs",
    "matching": "unit_matching.rs",
    "diff": "unit_diff.rs",
    "tree": "unit_tree.rs",
}
TREE = ("the DiffTree implementation keeps the tree laws (tree_spec.rs: shape, heights, positions, traversals, descendants); "
        "for the library's own Tree these laws are proved, see C12")
DEPS = "std/indextree/rapidhash contracts in proof/prelude.rs marked external_body or assume_specification"
NOTE = ("Verus discharges every obligation of the functions under contract, for all inputs and all iterations; "
        "the search over the real crate is bounded and only supplies witnesses.")
HASH = ("'equal hashes imply equal subtrees' is read as: nodes with equal hashes have equal kinds, equally many children, and children with pairwise equal hashes "
        "(matching_spec.rs: faithful)")
PROPS = {
    "C01": dict(units=["matching"], level="proof", note=NOTE, assumptions=[TREE, DEPS]),
    "C02": dict(units=["matching"], level="proof", note=NOTE, assumptions=[TREE, DEPS, HASH, "Kind equality is structural and Kind::clone returns an equal value"]),
    "C03": dict(units=["matching"], level="proof", note=NOTE, assumptions=[TREE, DEPS, HASH, "f64 comparison operators agree with partial_cmp; similarity is a pure function of the two property lists"]),
    "C04": dict(units=["script"], level="proof", note=NOTE, assumptions=[TREE, DEPS, "Kind::clone returns an equal value"]),
    "C05": dict(units=["script"], level="proof", note=NOTE, assumptions=[TREE, DEPS]),
    "C06": dict(units=["script"], level="proof", note=NOTE, assumptions=[TREE, DEPS, "Text equality is structural and Text::clone returns an equal value", "Properties::diff lists as many entries as the new property list"]),
    "C07": dict(units=["script"], level="proof", note=NOTE, assumptions=[TREE, DEPS]),
    "C08": dict(units=["script"], level="proof", note=NOTE, assumptions=[TREE, DEPS, "Kind and Text equality is structural and clone returns an equal value", "Properties::diff lists as many entries as the new property list"]),
    "C09": dict(units=["diff"], level="proof", note=NOTE, assumptions=[TREE, DEPS, HASH, "Properties::diff of a list against itself marks nothing Different and lists as many entries as the list has"]),
    "C10": dict(units=["script", "matching"], level="proof", note=NOTE, assumptions=[TREE, DEPS]),
}

PROPS["C12"] = dict(units=["tree"], level="proof", note=NOTE, assumptions=[
    "indextree's Arena, Node and NodeId methods do what proof/arena.rs says (create, append, children, descendants in pre-order)",
    "an arena holds fewer than usize::MAX/2 nodes (memory)", DEPS])
PROPS["C11"] = dict(units=["diff", "tree"], level="proof", note=NOTE, assumptions=[TREE, DEPS, "DescendantSet::get_or_compute terminates and returns the descendants (assumed contract)", "memory is not exhausted"])
PROPS["C14"] = dict(units=["diff"], level="proof", note=NOTE, assumptions=[TREE, DEPS, HASH, "f64 comparison operators agree with partial_cmp; similarity is a pure function of the two property lists"])

NOT_APPLICABLE = {

    "C13": "a two-run (hyper)property over hash seeds and processes: a contract describes one call, and the seeds live inside std/rapidhash",
    "H01": "what is serialised after applying a diff includes the content of opaque nodes, which goes through html5ever's serialisation and parser: html5ever is not in the offline cache "
           "and no contract on it is within reach; the part that does not depend on it (every patch accepted, the compared part of the body is the new page) is H12",
}

# ---- the hotmeal crates
HOTSRC = ["hotmeal/src", "hotmeal-server/src", "cinereus/src"]
UNITS["html"] = dict(template="unit_html.rs", src=HOTSRC, safety="-")
UNITS["htmlser"] = dict(template="unit_htmlser.rs", src=HOTSRC, safety="-")
HDEPS = "std/html5ever/compact_str/indextree contracts in proof/prelude.rs, proof/html_types.rs and proof/forest.rs marked external_body"
SHIM = "the bounded search runs the real hotmeal sources against stand-ins of html5ever, tendril, facet and others (shims/), because those crates are not in the offline cache"
PROPS["H04"] = dict(units=["html"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, "QualName equality is structural"])
PROPS["H05"] = dict(units=["htmlser"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, "the document's nodes form a forest (parent and children lists agree, nothing below itself)", "as_ref of an interned name is its text"])
PROPS["H06"] = dict(units=["html"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM])
UNITS["server"] = dict(template="unit_server.rs", src=HOTSRC, safety="-")
PROPS["H07"] = dict(units=["server"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, "hotmeal::diff_html answers a function of the two pages (its patches are not part of this property)",
    "facet_postcard::to_vec succeeds on patches and writes a function of what they say", "std HashMap, String and str as in proof/html_server.rs"])
UNITS["htmldom"] = dict(template="unit_htmldom.rs", src=HOTSRC, safety="-")
ARENA = ("indextree's Arena and NodeId (new_node, detach, append, insert_before, indexing) do what proof/forest.rs and proof/forest_mut.rs say; "
         "the document's nodes form a forest, which every one of these operations keeps")
PROPS["H02"] = dict(units=["htmldom"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, "the node that is placed has no parent and the place is not below it; every slot's root is a node of the document"])
PROPS["H08"] = dict(units=["htmldom"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, "no patch, when its turn comes, moves a node below itself (run_ok); every slot's root is a node of the document",
    "html5ever's parse of the new content of an opaque node is some document (which nodes it has is not specified)", "recursion and memory are not exhausted"])
UNITS["shadow"] = dict(template="unit_shadow.rs", src=HOTSRC, safety="-")
UNITS["hdiff"] = dict(template="unit_hdiff.rs", src=HOTSRC, safety="-")
UNITS["page"] = dict(template="unit_page.rs", src=HOTSRC, safety="-", modules=["page_insert", "page_diff"])
KIDS = "no node of the working copy has 2^32 children and no path is 2^32 long (few_kids, not_deep)"
PAGES = ("the documents are forests whose text and comment nodes have no children, and hold no node of the kind of their body below the body (comparable, page_ok, leaves_ok); "
         "no two nodes of the two pages have equal hashes unless what is hashed is equal (no_clash); the hasher digests the sequence of values it is fed")
PROPS["H03"] = dict(units=["shadow", "htmldom", "page"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, KIDS, PAGES])
# the proof that puts the contracts of the diff and of the applier together
UNITS["whole"] = dict(template="unit_whole.rs", src=HOTSRC, safety="-", modules=["whole", "whole_run", "whole_start", "whole_end", "whole_frame", "whole_all"])
PROPS["H12"] = dict(units=["whole", "shadow", "htmldom", "page", "hdiff", "script", "matching", "html"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, KIDS, PAGES,
    "HtmlProps::diff answers what H04 says (props_ok)", "elements have attributes with different names, texts and comments have a text (sensible)",
    "the nodes of the documents form forests; the document the patches are applied to has a body and shows the old page", "what is inside opaque nodes is not compared"])
PROPS["H09"] = dict(units=["hdiff", "page"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, PAGES, "two Stems with equal text hash alike"])
PROPS["H10"] = dict(units=["page"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, KIDS, PAGES, "cinereus's compute_matching and generate_edit_script keep their contracts (C01-C08)"])
PROPS["H11"] = dict(units=["page"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, PAGES])

UNITS["htmledit"] = dict(template="unit_htmledit.rs", src=HOTSRC, safety="-", modules=["html_edit", "html_dom"])
PROPS["H13"] = dict(units=["htmledit"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA, "the nodes named exist; a node is not put below itself; siblings have a parent (of nodes without a parent indextree's sibling links are not modelled)",
    "Into is a function of the value (the crate's own From conversions for Stem are under contract)", "format_compact! of two texts joins them"])
UNITS["htmlsink"] = dict(template="unit_htmlsink.rs", src=HOTSRC, safety="-", modules=["html_sink"])
PROPS["H14"] = dict(units=["htmlsink"], level="proof", note=NOTE, assumptions=[HDEPS, SHIM, ARENA,
    "RefCell: the text is verified with the cells' contents as plain fields; that no borrow is taken while another is alive is checked on that text by the borrow checker",
    "the tree builder keeps TreeSink's rules: the nodes named exist, a sibling has a parent, no node is put below itself, children are not handed to a node below their parent",
    "a text that lies inside the input's bytes is that part of the input (tendril_to_stem_with_input: pointer arithmetic)", "two &str are equal exactly when their characters are",
    "html5ever's parse drives the sink by TreeSink's rules, from the text it is given, and answers what finish returns",
    "std: a text's bytes, ASCII lowering and str::contains are what their documentation says",
    "which calls html5ever's tree builder makes for a given page (html5ever is not in the offline cache)"])
