#module npath
#raw
// Dot-segment removal (RFC 3986 5.2.4, with a segment spelled with %2E counting as the dot segment it decodes to).
use crate::vx::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx};
/// a segment and whether it has a leading slash
pub ghost struct Seg { pub hl: bool, pub name: Seq<u8> }
pub open spec fn dot1(b: Seq<u8>) -> bool { b == seq![0x2eu8] || b == seq![0x25u8, 0x32, 0x45] || b == seq![0x25u8, 0x32, 0x65] }
pub open spec fn dot2(b: Seq<u8>) -> bool { (b.len() > 1 && dot1(b.take(1)) && dot1(b.skip(1))) || (b.len() > 3 && dot1(b.take(3)) && dot1(b.skip(3))) }
pub open spec fn slash_at(t: Seq<u8>, c: int) -> int { c + first1(sfx(t, c), 0x2f) }
pub open spec fn seg_start(t: Seq<u8>, c: int) -> int { if t[c] == 0x2f { c + 1 } else { c } }
pub open spec fn seg_end(t: Seq<u8>, c: int) -> int { slash_at(t, seg_start(t, c)) }
pub open spec fn seg_name(t: Seq<u8>, c: int) -> Seq<u8> { t.subrange(seg_start(t, c), seg_end(t, c)) }
pub open spec fn seg(t: Seq<u8>, c: int) -> Seg { Seg { hl: t[c] == 0x2f, name: seg_name(t, c) } }
/// the effect of one segment on the stack of segments
pub open spec fn step(st: Seq<Seg>, s: Seg) -> Seq<Seg> {
    if dot1(s.name) { st } else if dot2(s.name) { if st.len() > 0 { st.drop_last() } else { st } } else { st.push(s) }
}
/// all segments from the position on
pub open spec fn fold(t: Seq<u8>, c: int, st: Seq<Seg>) -> Seq<Seg>
    decreases t.len() - c
{
    if c < 0 || c >= t.len() || seg_end(t, c) <= c { st } else { fold(t, seg_end(t, c), step(st, seg(t, c))) }
}
/// the last segment is a dot segment
pub open spec fn last_dot(t: Seq<u8>, c: int) -> bool
    decreases t.len() - c
{
    if c < 0 || c >= t.len() || seg_end(t, c) <= c { false }
    else if seg_end(t, c) == t.len() { dot1(seg_name(t, c)) || dot2(seg_name(t, c)) }
    else { last_dot(t, seg_end(t, c)) }
}
/// without the leading dot segments that have no leading slash
pub open spec fn strip_pre(t: Seq<u8>) -> Seq<u8>
    decreases t.len()
{
    if t.len() == 0 || t[0] == 0x2f || !(dot1(seg_name(t, 0)) || dot2(seg_name(t, 0))) { t }
    else if seg_end(t, 0) + 1 > t.len() { Seq::empty() }
    else { strip_pre(sfx(t, seg_end(t, 0) + 1)) }
}
/// the position splits characters of a concatenation as it splits those of its part
pub proof fn lemma_bnd_cat(a: Seq<u8>, b: Seq<u8>, i: int)
    requires valid_utf8(a), valid_utf8(b), 0 <= i <= a.len() + b.len()
    ensures valid_utf8(a + b), i <= a.len() ==> is_char_boundary(a + b, i) == is_char_boundary(a, i), i >= a.len() ==> is_char_boundary(a + b, i) == is_char_boundary(b, i - a.len()),
{
    crate::text::lemma_dec_cat(a, b);
    let t = a + b;
    assert(is_char_boundary(t, 0) && is_char_boundary(t, t.len() as int) && is_char_boundary(a, 0) && is_char_boundary(a, a.len() as int) && is_char_boundary(b, 0) && is_char_boundary(b, b.len() as int));
    if i < t.len() { is_char_boundary_iff_not_is_continuation_byte(t, i); }
    if 0 <= i < a.len() { is_char_boundary_iff_not_is_continuation_byte(a, i); }
    if a.len() <= i < t.len() { is_char_boundary_iff_not_is_continuation_byte(b, i - a.len()); }
    if a.len() < t.len() && b.len() > 0 { is_char_boundary_iff_not_is_continuation_byte(b, 0); }
}
/// the next slash after a position of the first part
pub proof fn lemma_slash_cat(a: Seq<u8>, b: Seq<u8>, c: int)
    requires 0 <= c <= a.len() + b.len()
    ensures c >= a.len() ==> slash_at(a + b, c) == a.len() + slash_at(b, c - a.len()),
        c < a.len() && slash_at(a, c) < a.len() ==> slash_at(a + b, c) == slash_at(a, c),
        c < a.len() && a.last() == 0x2f ==> slash_at(a, c) < a.len(),
        c <= slash_at(a + b, c) <= a.len() + b.len(),
        slash_at(a + b, c) < a.len() + b.len() ==> (a + b)[slash_at(a + b, c)] == 0x2f,
{
    let t = a + b;
    lemma_first(sfx(t, c), 0x2f, 0x2f, 0x2f, 0x2f);
    if c >= a.len() { assert(sfx(t, c) =~= sfx(b, c - a.len())); }
    else {
        let k = slash_at(a, c) - c;
        lemma_first(sfx(a, c), 0x2f, 0x2f, 0x2f, 0x2f);
        if k + c < a.len() {
            assert(sfx(a, c)[k] == sfx(t, c)[k]);
            assert forall|j: int| 0 <= j < k implies !is4(#[trigger] sfx(t, c)[j], 0x2f, 0x2f, 0x2f, 0x2f) by { assert(sfx(t, c)[j] == sfx(a, c)[j]); }
            lemma_first_is(sfx(t, c), k, 0x2f, 0x2f, 0x2f, 0x2f);
        }
        if a.last() == 0x2f { assert(sfx(a, c)[a.len() - 1 - c] == 0x2f); }
    }
}
/// positions of a segment
pub proof fn lemma_seg(t: Seq<u8>, c: int)
    requires valid_utf8(t), 0 <= c < t.len(), is_char_boundary(t, c)
    ensures c <= seg_start(t, c) <= seg_end(t, c) <= t.len(), c < seg_end(t, c), is_char_boundary(t, seg_start(t, c)), is_char_boundary(t, seg_end(t, c)),
        seg_end(t, c) < t.len() ==> t[seg_end(t, c)] == 0x2f && is_char_boundary(t, seg_end(t, c) + 1),
{
    if t[c] == 0x2f { lemma_ascii_boundary(t, c); }
    let s = seg_start(t, c);
    lemma_slash_cat(t, Seq::empty(), s);
    assert(t + Seq::<u8>::empty() =~= t);
    let e = slash_at(t, s);
    if e < t.len() { lemma_ascii_boundary(t, e); }
    if t[c] != 0x2f { assert(sfx(t, c)[0] == t[c]); }
    assert(is_char_boundary(t, t.len() as int));
}
pub proof fn lemma_dot_lens(b: Seq<u8>)
    ensures dot1(b) || dot2(b) ==> 1 <= b.len() <= 6 && (b[0] == 0x2e || b[0] == 0x25),
        dot1(b) == (b == seq![0x2eu8] || b == seq![0x25u8, 0x32, 0x45] || b == seq![0x25u8, 0x32, 0x65]),
        dot2(b) == (b == seq![0x2eu8, 0x2e] || b == seq![0x2eu8, 0x25, 0x32, 0x45] || b == seq![0x2eu8, 0x25, 0x32, 0x65] || b == seq![0x25u8, 0x32, 0x45, 0x2e] || b == seq![0x25u8, 0x32, 0x65, 0x2e]
            || b == seq![0x25u8, 0x32, 0x45, 0x25, 0x32, 0x45] || b == seq![0x25u8, 0x32, 0x45, 0x25, 0x32, 0x65] || b == seq![0x25u8, 0x32, 0x65, 0x25, 0x32, 0x45] || b == seq![0x25u8, 0x32, 0x65, 0x25, 0x32, 0x65]),
{
    let d = seq![0x2eu8]; let u = seq![0x25u8, 0x32, 0x45]; let l = seq![0x25u8, 0x32, 0x65];
    let w = |x: Seq<u8>, y: Seq<u8>| b == x + y;
    if b.len() > 1 { assert(b =~= b.take(1) + b.skip(1)); }
    if b.len() > 3 { assert(b =~= b.take(3) + b.skip(3)); }
    assert(d + d =~= seq![0x2eu8, 0x2e]);
    assert(d + u =~= seq![0x2eu8, 0x25, 0x32, 0x45]);
    assert(d + l =~= seq![0x2eu8, 0x25, 0x32, 0x65]);
    assert(u + d =~= seq![0x25u8, 0x32, 0x45, 0x2e]);
    assert(l + d =~= seq![0x25u8, 0x32, 0x65, 0x2e]);
    assert(u + u =~= seq![0x25u8, 0x32, 0x45, 0x25, 0x32, 0x45]);
    assert(u + l =~= seq![0x25u8, 0x32, 0x45, 0x25, 0x32, 0x65]);
    assert(l + u =~= seq![0x25u8, 0x32, 0x65, 0x25, 0x32, 0x45]);
    assert(l + l =~= seq![0x25u8, 0x32, 0x65, 0x25, 0x32, 0x65]);
    assert((d + d).take(1) =~= d && (d + d).skip(1) =~= d);
    assert((d + u).take(1) =~= d && (d + u).skip(1) =~= u);
    assert((d + l).take(1) =~= d && (d + l).skip(1) =~= l);
    assert((u + d).take(3) =~= u && (u + d).skip(3) =~= d);
    assert((l + d).take(3) =~= l && (l + d).skip(3) =~= d);
    assert((u + u).take(3) =~= u && (u + u).skip(3) =~= u);
    assert((u + l).take(3) =~= u && (u + l).skip(3) =~= l);
    assert((l + u).take(3) =~= l && (l + u).skip(3) =~= u);
    assert((l + l).take(3) =~= l && (l + l).skip(3) =~= l);
    if b.len() > 1 && dot1(b.take(1)) { assert(b.take(1)[0] == b[0]); assert(b.take(1).len() == 1); }
    if b.len() > 3 && dot1(b.take(3)) { assert(b.take(3).len() == 3); }
}
