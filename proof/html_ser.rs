// H05: serialised text and attribute values.
pub mod html_ser {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::forest::*;
use crate::html_types::*;
use crate::html_dom::*;
verus! {

// ---------------------------------------------------------------- character references
/// The character a reference at the start of `s` stands for, and the reference's length.
pub open spec fn entity(s: Seq<char>) -> Option<(char, int)> {
    if is_pre("&amp;"@, s) { Some(('&', 5)) }
    else if is_pre("&lt;"@, s) { Some(('<', 4)) }
    else if is_pre("&gt;"@, s) { Some(('>', 4)) }
    else if is_pre("&quot;"@, s) { Some(('"', 6)) }
    else if is_pre("&#39;"@, s) { Some(('\'', 5)) }
    else if is_pre("&nbsp;"@, s) { Some(('\u{a0}', 6)) }
    else { None }
}
pub open spec fn is_pre(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i] }
/// What a parser reads from `s`.
pub open spec fn unescape(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        match entity(s) {
            Some((c, n)) => if 0 < n <= s.len() { seq![c] + unescape(s.skip(n)) } else { seq![s[0]] + unescape(s.skip(1)) },
            None => seq![s[0]] + unescape(s.skip(1)),
        }
    }
}
/// `e` reads as `t`, whatever follows it.
#[verifier::opaque]
pub open spec fn reads(e: Seq<char>, t: Seq<char>) -> bool {
    forall|z: Seq<char>| #[trigger] unescape(e + z) == t + unescape(z)
}
/// Text that cannot end the text node.
pub open spec fn text_ok(e: Seq<char>, t: Seq<char>) -> bool { !e.contains('<') && reads(e, t) }
/// Text that cannot end the quoted value.
pub open spec fn value_ok(e: Seq<char>, t: Seq<char>) -> bool { !e.contains('"') && reads(e, t) }

pub proof fn reads_gives(e: Seq<char>, t: Seq<char>)
    requires reads(e, t) ensures unescape(e) == t
{
    reveal(reads);
    assert(e + Seq::<char>::empty() =~= e);
    assert(unescape(e + Seq::<char>::empty()) == t + unescape(Seq::<char>::empty()));
    assert(t + Seq::<char>::empty() =~= t);
}
pub proof fn reads_empty()
    ensures reads(Seq::<char>::empty(), Seq::<char>::empty())
{
    reveal(reads);
    assert forall|z: Seq<char>| #[trigger] unescape(Seq::<char>::empty() + z) == Seq::<char>::empty() + unescape(z) by {
        assert(Seq::<char>::empty() + z =~= z);
        assert(Seq::<char>::empty() + unescape(z) =~= unescape(z));
    }
}
/// One source character and what was written for it.
pub open spec fn token(k: Seq<char>, c: char) -> bool {
    ||| k == seq![c] && c != '&'
    ||| k == "&amp;"@ && c == '&'
    ||| k == "&lt;"@ && c == '<'
    ||| k == "&gt;"@ && c == '>'
    ||| k == "&quot;"@ && c == '"'
    ||| k == "&#39;"@ && c == '\''
    ||| k == "&nbsp;"@ && c == '\u{a0}'
}
pub proof fn token_reads(k: Seq<char>, c: char)
    requires token(k, c) ensures reads(k, seq![c])
{
    reveal(reads);
    assert forall|z: Seq<char>| #[trigger] unescape(k + z) == seq![c] + unescape(z) by {
        reveal_strlit("&amp;");
        reveal_strlit("&lt;");
        reveal_strlit("&gt;");
        reveal_strlit("&quot;");
        reveal_strlit("&#39;");
        reveal_strlit("&nbsp;");
        let s = k + z;
        assert(s.len() > 0);
        assert(s.skip(k.len() as int) =~= z);
        if k == seq![c] && c != '&' {
            assert(s[0] == c);
            assert("&amp;"@[0] == '&' && "&lt;"@[0] == '&' && "&gt;"@[0] == '&' && "&quot;"@[0] == '&' && "&#39;"@[0] == '&' && "&nbsp;"@[0] == '&');
            assert(entity(s) is None);
        } else {
            assert(s[0] == k[0] && s[1] == k[1]);
            assert(is_pre(k, s));
            assert(entity(s) == Some((c, k.len() as int)));
        }
    }
}
pub proof fn reads_more(e: Seq<char>, t: Seq<char>, k: Seq<char>, c: char)
    requires reads(e, t), token(k, c) ensures reads(e + k, t.push(c))
{
    token_reads(k, c);
    reveal(reads);
    assert forall|z: Seq<char>| #[trigger] unescape((e + k) + z) == t.push(c) + unescape(z) by {
        assert((e + k) + z =~= e + (k + z));
        assert(unescape(e + (k + z)) == t + unescape(k + z));
        assert(unescape(k + z) == seq![c] + unescape(z));
        assert(t + (seq![c] + unescape(z)) =~= t.push(c) + unescape(z));
    }
}

// ---------------------------------------------------------------- the serialised document
/// Elements whose text HTML parsers do not unescape.
pub open spec fn raw_tag(t: Seq<char>) -> bool {
    t == "script"@ || t == "style"@ || t == "noscript"@ || t == "xmp"@ || t == "iframe"@ || t == "noembed"@ || t == "noframes"@ || t == "plaintext"@
}
pub open spec fn attr_head(q: QualName) -> Seq<char> {
    let pre = match q.prefix { Some(p) => p.s().push(':'), None => Seq::empty() };
    seq![' '] + pre + q.local.s() + "=\""@
}
pub open spec fn attrs_text(l: Seq<(QualName, Stem<'_>)>, v: Seq<Seq<char>>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else { attrs_text(l, v, (n - 1) as nat) + attr_head(l[n - 1].0) + v[n - 1] + seq!['"'] }
}
pub open spec fn flat(c: Seq<Seq<char>>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 { Seq::empty() } else { flat(c, (n - 1) as nat) + c[n - 1] }
}
/// The opening tag: its quoted values read as the attribute values.
pub open spec fn values_ok(l: Seq<(QualName, Stem<'_>)>, v: Seq<Seq<char>>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> value_ok(#[trigger] v[i], l[i].1@)
}
pub open spec fn open_ok(e: ElementData<'_>, s: Seq<char>, v: Seq<Seq<char>>) -> bool {
    &&& v.len() == e.attrs@.len()
    &&& values_ok(e.attrs@, v, v.len() as int)
    &&& s == seq!['<'] + e.tag.s() + attrs_text(e.attrs@, v, v.len()) + seq!['>']
}
pub open spec fn head_ok(e: ElementData<'_>, s: Seq<char>) -> bool { exists|v: Seq<Seq<char>>| open_ok(e, s, v) }
/// Opening tag, nodes, closing tag.
pub open spec fn parts(e: ElementData<'_>, s: Seq<char>, a: Seq<char>, c: Seq<Seq<char>>) -> bool {
    head_ok(e, a) && (s == a || s == a + flat(c, c.len()) + "</"@ + e.tag.s() + seq!['>'])
}
/// `s` is the serialised form of the node (`raw`: its parent's text is not unescaped).
pub open spec fn node_ok(m: ForestM<NodeData<'_>>, x: NodeId, raw: bool, s: Seq<char>) -> bool
    decreases m.top - m.depth(x)
{
    match m.data(x).kind {
        NodeKind::Document => true,
        NodeKind::Comment(_) => true,
        NodeKind::Text(t) => raw || text_ok(s, t@),
        NodeKind::Element(e) => exists|a: Seq<char>, c: Seq<Seq<char>>| #[trigger] parts(e, s, a, c)
            && (s == a || (c.len() == m.kids(x).len()
                && forall|i: int| 0 <= i < c.len() ==> m.depth(x) < m.depth(#[trigger] m.kids(x)[i]) <= m.top
                    && node_ok(m, m.kids(x)[i], raw_tag(e.tag.s()), c[i]))),
    }
}
pub proof fn raw_weaker(m: ForestM<NodeData<'_>>, x: NodeId, s: Seq<char>)
    requires node_ok(m, x, false, s) ensures node_ok(m, x, true, s)
{}
pub proof fn elem_alone(m: ForestM<NodeData<'_>>, x: NodeId, e: ElementData<'_>, a: Seq<char>, v: Seq<Seq<char>>)
    requires m.data(x).kind == NodeKind::Element(e), open_ok(e, a, v) ensures node_ok(m, x, false, a)
{
    assert(parts(e, a, a, Seq::empty()));
    assert(m.data(x).kind->Element_0 == e);
    let s = a;
    assert(exists|a: Seq<char>, c: Seq<Seq<char>>| #[trigger] parts(e, s, a, c) && (s == a || (c.len() == m.kids(x).len())));
    reveal_with_fuel(node_ok, 2);
    assert(node_ok(m, x, false, s));
}
pub open spec fn kids_ok(m: ForestM<NodeData<'_>>, x: NodeId, raw: bool, c: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < c.len() ==> m.depth(x) < m.depth(#[trigger] m.kids(x)[i]) <= m.top && node_ok(m, m.kids(x)[i], raw, c[i])
}
pub proof fn kids_more(m: ForestM<NodeData<'_>>, x: NodeId, raw: bool, c: Seq<Seq<char>>, w: Seq<char>)
    requires kids_ok(m, x, raw, c), trees(m), m.has(x), c.len() < m.kids(x).len(), node_ok(m, m.kids(x)[c.len() as int], raw, w)
    ensures kids_ok(m, x, raw, c.push(w)), flat(c.push(w), c.len() + 1) == flat(c, c.len()) + w
{
    kid_depth(m, x, c.len() as int);
    flat_more(c, w, c.len());
    let d = c.push(w);
    assert(d[c.len() as int] == w);
    assert forall|i: int| 0 <= i < d.len() implies m.depth(x) < m.depth(#[trigger] m.kids(x)[i]) <= m.top && node_ok(m, m.kids(x)[i], raw, d[i]) by {
        if i < c.len() { assert(d[i] == c[i]); }
    }
}
pub proof fn elem_full(m: ForestM<NodeData<'_>>, x: NodeId, e: ElementData<'_>, a: Seq<char>, v: Seq<Seq<char>>, c: Seq<Seq<char>>)
    requires m.data(x).kind == NodeKind::Element(e), open_ok(e, a, v), c.len() == m.kids(x).len(), kids_ok(m, x, raw_tag(e.tag.s()), c)
    ensures node_ok(m, x, false, a + flat(c, c.len()) + "</"@ + e.tag.s() + seq!['>'])
{
    let s = a + flat(c, c.len()) + "</"@ + e.tag.s() + seq!['>'];
    assert(parts(e, s, a, c));
    assert(m.data(x).kind->Element_0 == e);
    reveal_with_fuel(node_ok, 2);
    assert(parts(e, s, a, c) && (s == a || (c.len() == m.kids(x).len()
        && forall|i: int| 0 <= i < c.len() ==> m.depth(x) < m.depth(#[trigger] m.kids(x)[i]) <= m.top
            && node_ok(m, m.kids(x)[i], raw_tag(e.tag.s()), c[i]))));
    assert(node_ok(m, x, false, s));
}
pub proof fn attrs_text_more(l: Seq<(QualName, Stem<'_>)>, v: Seq<Seq<char>>, w: Seq<char>, n: nat)
    requires n <= v.len() ensures attrs_text(l, v.push(w), n) == attrs_text(l, v, n)
    decreases n
{
    if n > 0 { attrs_text_more(l, v, w, (n - 1) as nat); assert(v.push(w)[n - 1] == v[n - 1]); }
}
pub proof fn flat_more(v: Seq<Seq<char>>, w: Seq<char>, n: nat)
    requires n <= v.len() ensures flat(v.push(w), n) == flat(v, n)
    decreases n
{
    if n > 0 { flat_more(v, w, (n - 1) as nat); assert(v.push(w)[n - 1] == v[n - 1]); }
}
pub proof fn values_more(l: Seq<(QualName, Stem<'_>)>, v: Seq<Seq<char>>, w: Seq<char>)
    requires v.len() < l.len(), values_ok(l, v, v.len() as int), value_ok(w, l[v.len() as int].1@)
    ensures values_ok(l, v.push(w), v.len() as int + 1),
        attrs_text(l, v.push(w), v.len() + 1) == attrs_text(l, v, v.len()) + attr_head(l[v.len() as int].0) + w + seq!['"'],
{
    attrs_text_more(l, v, w, v.len());
    let d = v.push(w);
    assert(d[v.len() as int] == w);
    assert forall|i: int| 0 <= i < d.len() implies value_ok(#[trigger] d[i], l[i].1@) by {
        if i < v.len() { assert(d[i] == v[i]); }
    }
}
/// One more source character escaped.
pub proof fn escape_step(e: Seq<char>, t: Seq<char>, k: Seq<char>, c: char)
    requires reads(e, t), token(k, c)
    ensures reads(e + k, t.push(c)), !e.contains('<') && !k.contains('<') ==> !(e + k).contains('<'),
        !e.contains('"') && !k.contains('"') ==> !(e + k).contains('"'),
{
    reads_more(e, t, k, c);
    assert forall|x: char| !e.contains(x) && !k.contains(x) implies !#[trigger] (e + k).contains(x) by {
        if (e + k).contains(x) {
            let i = choose|i: int| 0 <= i < (e + k).len() && (e + k)[i] == x;
            if i < e.len() { assert(e[i] == x); } else { assert(k[i - e.len()] == x); }
        }
    }
}
/// What was written for one character is one of the known references, or the character.
pub open spec fn written(k: Seq<char>, c: char) -> bool {
    k =~= seq![c] || k =~= "&amp;"@ || k =~= "&lt;"@ || k =~= "&gt;"@ || k =~= "&quot;"@ || k =~= "&#39;"@ || k =~= "&nbsp;"@
}
pub proof fn strlits()
    ensures
        "&amp;"@ =~= seq!['&', 'a', 'm', 'p', ';'], "&lt;"@ =~= seq!['&', 'l', 't', ';'], "&gt;"@ =~= seq!['&', 'g', 't', ';'],
        "&quot;"@ =~= seq!['&', 'q', 'u', 'o', 't', ';'], "&#39;"@ =~= seq!['&', '#', '3', '9', ';'],
        "&nbsp;"@ =~= seq!['&', 'n', 'b', 's', 'p', ';'], "=\""@ =~= seq!['=', '"'], "</"@ =~= seq!['<', '/'],
{
    reveal_strlit("&amp;");
    reveal_strlit("&lt;");
    reveal_strlit("&gt;");
    reveal_strlit("&quot;");
    reveal_strlit("&#39;");
    reveal_strlit("&nbsp;");
    reveal_strlit("=\"");
    reveal_strlit("</");
}
/// `n` is `o` with the serialised form of the node behind it.
#[verifier::opaque]
pub open spec fn wrote(o: Seq<char>, n: Seq<char>, m: ForestM<NodeData<'_>>, x: NodeId, raw: bool) -> bool {
    o.len() <= n.len() && n =~= o + n.skip(o.len() as int) && node_ok(m, x, raw, n.skip(o.len() as int))
}

pub proof fn wrote_gives(o: Seq<char>, n: Seq<char>, m: ForestM<NodeData<'_>>, x: NodeId, raw: bool)
    requires wrote(o, n, m, x, raw)
    ensures o.len() <= n.len(), n =~= o + n.skip(o.len() as int), node_ok(m, x, raw, n.skip(o.len() as int))
{ reveal(wrote); }
pub proof fn wrote_is(o: Seq<char>, n: Seq<char>, s: Seq<char>, m: ForestM<NodeData<'_>>, x: NodeId, raw: bool)
    requires n =~= o + s, node_ok(m, x, raw, s) ensures wrote(o, n, m, x, raw)
{ reveal(wrote); assert(n.skip(o.len() as int) =~= s); }
/// `n` is `o` with the opening tag behind it, up to attribute `i`.
#[verifier::opaque]
pub open spec fn opened(o: Seq<char>, n: Seq<char>, e: ElementData<'_>, v: Seq<Seq<char>>) -> bool {
    v.len() <= e.attrs@.len() && values_ok(e.attrs@, v, v.len() as int) && n == o + seq!['<'] + e.tag.s() + attrs_text(e.attrs@, v, v.len())
}
pub proof fn opened_none(o: Seq<char>, n: Seq<char>, e: ElementData<'_>)
    requires n =~= o + seq!['<'] + e.tag.s() ensures opened(o, n, e, Seq::empty())
{
    reveal(opened);
    assert(n =~= o + seq!['<'] + e.tag.s() + attrs_text(e.attrs@, Seq::empty(), 0));
}
pub proof fn opened_more(o: Seq<char>, q: Seq<char>, p: Seq<char>, n: Seq<char>, e: ElementData<'_>, v: Seq<Seq<char>>, w: Seq<char>)
    requires opened(o, q, e, v), v.len() < e.attrs@.len(), p =~= q + attr_head(e.attrs@[v.len() as int].0), n =~= p + w + seq!['"'],
        value_ok(w, e.attrs@[v.len() as int].1@)
    ensures opened(o, n, e, v.push(w))
{
    reveal(opened);
    values_more(e.attrs@, v, w);
    assert(n =~= o + seq!['<'] + e.tag.s() + attrs_text(e.attrs@, v.push(w), v.len() + 1));
}
/// `n` is `o` with the opening tag and the nodes `c` behind it.
#[verifier::opaque]
pub open spec fn filled(o: Seq<char>, n: Seq<char>, m: ForestM<NodeData<'_>>, x: NodeId, e: ElementData<'_>, c: Seq<Seq<char>>) -> bool {
    exists|a: Seq<char>, v: Seq<Seq<char>>| #[trigger] open_ok(e, a, v) && n == o + a + flat(c, c.len()) && kids_ok(m, x, raw_tag(e.tag.s()), c)
}
pub proof fn filled_none(o: Seq<char>, q: Seq<char>, n: Seq<char>, m: ForestM<NodeData<'_>>, x: NodeId, e: ElementData<'_>, v: Seq<Seq<char>>)
    requires opened(o, q, e, v), v.len() == e.attrs@.len(), n =~= q.push('>'), m.data(x).kind == NodeKind::Element(e)
    ensures filled(o, n, m, x, e, Seq::empty()), wrote(o, n, m, x, false)
{
    reveal(opened);
    reveal(filled);
    let a = seq!['<'] + e.tag.s() + attrs_text(e.attrs@, v, v.len()) + seq!['>'];
    assert(open_ok(e, a, v));
    let c = Seq::<Seq<char>>::empty();
    assert(n =~= o + a);
    assert(n =~= o + a + flat(c, c.len()));
    elem_alone(m, x, e, a, v);
    wrote_is(o, n, a, m, x, false);
}
pub proof fn filled_more(o: Seq<char>, q: Seq<char>, n: Seq<char>, m: ForestM<NodeData<'_>>, x: NodeId, e: ElementData<'_>, c: Seq<Seq<char>>, w: Seq<char>)
    requires filled(o, q, m, x, e, c), trees(m), m.has(x), c.len() < m.kids(x).len(), n =~= q + w,
        node_ok(m, m.kids(x)[c.len() as int], raw_tag(e.tag.s()), w)
    ensures filled(o, n, m, x, e, c.push(w))
{
    reveal(filled);
    let (a, v) = choose|a: Seq<char>, v: Seq<Seq<char>>| #[trigger] open_ok(e, a, v) && q == o + a + flat(c, c.len()) && kids_ok(m, x, raw_tag(e.tag.s()), c);
    kids_more(m, x, raw_tag(e.tag.s()), c, w);
    assert(n =~= o + a + flat(c.push(w), c.push(w).len()));
}
pub proof fn filled_all(o: Seq<char>, q: Seq<char>, n: Seq<char>, m: ForestM<NodeData<'_>>, x: NodeId, e: ElementData<'_>, c: Seq<Seq<char>>)
    requires filled(o, q, m, x, e, c), c.len() == m.kids(x).len(), n =~= q + "</"@ + e.tag.s() + seq!['>'], m.data(x).kind == NodeKind::Element(e)
    ensures wrote(o, n, m, x, false)
{
    reveal(filled);
    let (a, v) = choose|a: Seq<char>, v: Seq<Seq<char>>| #[trigger] open_ok(e, a, v) && q == o + a + flat(c, c.len()) && kids_ok(m, x, raw_tag(e.tag.s()), c);
    elem_full(m, x, e, a, v, c);
    let s = a + flat(c, c.len()) + "</"@ + e.tag.s() + seq!['>'];
    wrote_is(o, n, s, m, x, false);
}
/// `s` is the serialised form of the first nodes below `x`.
#[verifier::opaque]
pub open spec fn inner(m: ForestM<NodeData<'_>>, x: NodeId, s: Seq<char>, c: Seq<Seq<char>>) -> bool {
    kids_ok(m, x, false, c) && s == flat(c, c.len())
}
pub open spec fn inner_ok(m: ForestM<NodeData<'_>>, x: NodeId, s: Seq<char>) -> bool {
    exists|c: Seq<Seq<char>>| c.len() == m.kids(x).len() && #[trigger] inner(m, x, s, c)
}
pub proof fn inner_none(m: ForestM<NodeData<'_>>, x: NodeId, s: Seq<char>)
    requires s =~= Seq::<char>::empty() ensures inner(m, x, s, Seq::empty())
{ reveal(inner); }
pub proof fn inner_more(m: ForestM<NodeData<'_>>, x: NodeId, q: Seq<char>, n: Seq<char>, c: Seq<Seq<char>>)
    requires inner(m, x, q, c), trees(m), m.has(x), c.len() < m.kids(x).len(), q.len() <= n.len(), n =~= q + n.skip(q.len() as int),
        node_ok(m, m.kids(x)[c.len() as int], false, n.skip(q.len() as int))
    ensures inner(m, x, n, c.push(n.skip(q.len() as int)))
{
    reveal(inner);
    kids_more(m, x, false, c, n.skip(q.len() as int));
}
/// The text written between `p` and `n` reads as the first `i` characters.
#[verifier::opaque]
pub open spec fn sofar(p: Seq<char>, n: Seq<char>, s: Seq<char>, i: int, stop: char) -> bool {
    p.len() <= n.len() && n == p + n.skip(p.len() as int) && !n.skip(p.len() as int).contains(stop) && reads(n.skip(p.len() as int), s.take(i))
}
pub proof fn sofar_none(p: Seq<char>, s: Seq<char>, stop: char)
    ensures sofar(p, p, s, 0, stop)
{
    reveal(sofar);
    reads_empty();
    assert(p.skip(p.len() as int) =~= Seq::empty());
    assert(s.take(0) =~= Seq::empty());
    assert(p + p.skip(p.len() as int) =~= p);
}
pub proof fn sofar_all(p: Seq<char>, n: Seq<char>, s: Seq<char>, stop: char)
    requires sofar(p, n, s, s.len() as int, stop)
    ensures p.len() <= n.len(), n == p + n.skip(p.len() as int), !n.skip(p.len() as int).contains(stop), reads(n.skip(p.len() as int), s)
{
    reveal(sofar);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn sofar_more(p: Seq<char>, q: Seq<char>, n: Seq<char>, s: Seq<char>, i: int, stop: char)
    requires sofar(p, q, s, i, stop), 0 <= i < s.len(), q.len() <= n.len(), n =~= q + n.skip(q.len() as int),
        stop == '<' || stop == '"',
        written(n.skip(q.len() as int), s[i]), token(n.skip(q.len() as int), s[i]), !n.skip(q.len() as int).contains(stop),
    ensures sofar(p, n, s, i + 1, stop)
{
    reveal(sofar);
    let k = n.skip(q.len() as int);
    let e = q.skip(p.len() as int);
    escape_step(e, s.take(i), k, s[i]);
    assert(n.skip(p.len() as int) =~= e + k);
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert(n =~= p + n.skip(p.len() as int));
}

//@fn is_void_element loops=0
//@spec
//@end
//@fn is_raw_text_element loops=0
//@params tag
//@spec
    ensures r ==> raw_tag(tag@), // @H05
//@end

impl<'a> Document<'a> {
    //@fn Document::serialize_node loops=1
    //@params out node_id
    //@pat 0 c
    //@attr #[verifier::loop_isolation(false)]
    //@spec
        requires trees(self.m()), self.m().has(node_id)
        ensures wrote(old(out)@, final(out)@, self.m(), node_id, false), // @H05
        decreases self.m().top - self.m().depth(node_id), 1int
    //@loop 0 pre
        proof { sofar_none(out@, __s0@, '<'); }
    //@loop 0 head
        invariant
            sofar(old(out)@, out@, __s0@, __i0 as int, '<'), // @H05
    //@loop 0 start
        let ghost p = out@;
    //@loop 0 end
        proof {
            strlits();
            let k = out@.skip(p.len() as int);
            assert(out@ =~= p + k);
            assert(written(k, c)); // @H05
            assert(token(k, c)); // @H05
            assert(!k.contains('<')); // @H05
            sofar_more(old(out)@, p, out@, __s0@, __i0 - 1, '<');
        }
    //@loop 0 after
        proof { sofar_all(old(out)@, out@, __s0@, '<'); }
    //@start
        proof { reveal(wrote); }
    //@end
    //@fn Document::serialize_element loops=3
    //@params out node_id elem
    //@pat 0 name value
    //@pat 1 c
    //@pat 2 child
    //@attr #[verifier::loop_isolation(false)]
    //@attr #[verifier::spinoff_prover]
    //@spec
        requires trees(self.m()), self.m().has(node_id), self.m().data(node_id).kind == NodeKind::Element(*elem)
        ensures wrote(old(out)@, final(out)@, self.m(), node_id, false), // @H05
        decreases self.m().top - self.m().depth(node_id), 0int
    //@loop 0 pre
        let ghost mut v: Seq<Seq<char>> = Seq::empty();
        let ghost o = old(out)@;
        proof {
            opened_none(o, out@, *elem); // @H05
        }
    //@loop 0 head
        invariant
            v.len() == __i0,
            opened(o, out@, *elem, v), // @H05
    //@loop 0 start
        let ghost q = out@;
        let ghost v0 = v;
    //@loop 1 pre
        let ghost p = out@;
        proof {
            strlits();
            assert(p =~= q + attr_head(*name)); // @H05
            assert(__s1@ == elem.attrs@[__i0 - 1].1@);
            sofar_none(p, __s1@, '"');
        }
    //@loop 1 head
        invariant
            sofar(p, out@, __s1@, __i1 as int, '"'), // @H05
    //@loop 1 start
        let ghost p1 = out@;
    //@loop 1 end
        proof {
            strlits();
            let k = out@.skip(p1.len() as int);
            assert(out@ =~= p1 + k);
            assert(written(k, c)); // @H05
            assert(token(k, c)); // @H05
            assert(!k.contains('"')); // @H05
            sofar_more(p, p1, out@, __s1@, __i1 - 1, '"');
        }
    //@loop 1 after
        let ghost w = out@.skip(p.len() as int);
        proof {
            sofar_all(p, out@, __s1@, '"');
        }
    //@loop 0 end
        proof {
            assert(out@ =~= p + w + seq!['"']); // @H05
            opened_more(o, q, p, out@, *elem, v0, w); // @H05
            v = v0.push(w);
        }
    //@loop 0 after
        let ghost q1 = out@;
        proof { filled_none(o, q1, q1.push('>'), self.m(), node_id, *elem, v); } // @H05
    //@loop 2 pre
        let ghost mut cs: Seq<Seq<char>> = Seq::empty();
    //@loop 2 head
        invariant
            cs.len() == __i2,
            filled(o, out@, self.m(), node_id, *elem, cs), // @H05
    //@loop 2 start
        let ghost q2 = out@;
        let ghost cs0 = cs;
        proof { kid_depth(self.m(), node_id, __i2 - 1); }
    //@loop 2 end
        let ghost w2 = out@.skip(q2.len() as int);
        proof {
            reveal(wrote);
            if node_ok(self.m(), child, false, w2) { raw_weaker(self.m(), child, w2); }
            assert(node_ok(self.m(), child, raw_tag(elem.tag.s()), w2)); // @H05
            filled_more(o, q2, out@, self.m(), node_id, *elem, cs0, w2); // @H05
            cs = cs0.push(w2);
        }
    //@loop 2 after
        let ghost q3 = out@;
    //@tail
        proof {
            strlits();
            filled_all(o, q3, out@, self.m(), node_id, *elem, cs); // @H05
        }
    //@end
    //@fn Document::serialize_node_raw loops=0
    //@params out node_id
    //@spec
        requires trees(self.m()), self.m().has(node_id)
        ensures wrote(old(out)@, final(out)@, self.m(), node_id, true), // @H05
        decreases self.m().top - self.m().depth(node_id), 1int
    //@start
        proof { reveal(wrote); }
    //@end
    //@fn Document::to_html_without_doctype loops=0
    //@var output 0 String::new
    //@spec
        requires trees(self.m()), self.m().has(self.root)
        ensures node_ok(self.m(), self.root, false, r@), // @H05
    //@tail
        proof { wrote_gives(Seq::empty(), output@, self.m(), self.root, false); assert(output@.skip(0) =~= output@); }
    //@end
    //@fn Document::to_html loops=0
    //@var output 0 String::new
    //@spec
        requires trees(self.m()), self.m().has(self.root)
        ensures exists|p: Seq<char>| #[trigger] wrote(p, r@, self.m(), self.root, false) && (self.doctype is None ==> p.len() == 0), // @H05
    //@end
    //@fn Document::serialize_inner_html loops=1
    //@params node_id
    //@var output 0 String::new
    //@pat 0 child_id
    //@attr #[verifier::loop_isolation(false)]
    //@spec
        requires trees(self.m()), self.m().has(node_id)
        ensures inner_ok(self.m(), node_id, r@), // @H05
    //@loop 0 pre
        let ghost mut cs: Seq<Seq<char>> = Seq::empty();
        proof { inner_none(self.m(), node_id, output@); }
    //@loop 0 head
        invariant
            cs.len() == __i0,
            inner(self.m(), node_id, output@, cs), // @H05
    //@loop 0 start
        let ghost q = output@;
    //@loop 0 end
        proof {
            wrote_gives(q, output@, self.m(), child_id, false);
            inner_more(self.m(), node_id, q, output@, cs); // @H05
            cs = cs.push(output@.skip(q.len() as int));
        }
    //@end
    //@fn Document::to_body_html loops=1
    //@var output 0 String::new
    //@pat 0 child_id
    //@attr #[verifier::loop_isolation(false)]
    //@spec
        requires trees(self.m()), self.m().has(self.root)
        ensures r@.len() == 0 || (exists|b: NodeId| #[trigger] first_named(self.m(), self.root, b, "body"@) && inner_ok(self.m(), b, r@)), // @H05
    //@loop 0 pre
        let ghost mut cs: Seq<Seq<char>> = Seq::empty();
        proof { inner_none(self.m(), body_id, output@); }
    //@loop 0 head
        invariant
            cs.len() == __i0,
            inner(self.m(), body_id, output@, cs), // @H05
    //@loop 0 start
        let ghost q = output@;
    //@loop 0 end
        proof {
            wrote_gives(q, output@, self.m(), child_id, false);
            inner_more(self.m(), body_id, q, output@, cs); // @H05
            cs = cs.push(output@.skip(q.len() as int));
        }
    //@end
}
#[verifier::rlimit(3)]
fn must_fail_serialize<'a>(d: &Document<'a>, x: NodeId, out: &mut String)
    requires trees(d.m()), d.m().has(x), d.m().kids(x).len() == 2, d.m().data(x).kind is Element, d.m().data(d.m().kids(x)[0]).kind is Text
{
    d.serialize_node(out, x);
    proof { wrote_gives(old(out)@, out@, d.m(), x, false); }
    assert(false);
}

} // verus!
}
