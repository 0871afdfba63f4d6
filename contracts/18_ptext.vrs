#module ptext
#raw
// The text of a normalized path: what is written for a stack of segments (RFC 3986 5.2.4 and 6.2.2; a path that
// would begin with "//" without an authority gets "/." in front, WHATWG URL 4.5).
use crate::vx::*;
use crate::pct::*;
use crate::npath::*;
use crate::parser::char::*;
use crate::vfmt::{Write, pct_all, pct_upper};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx};
// ---- triplet normalization and delimiters
/// a character that cannot be part of a triplet
pub open spec fn brk(t: Seq<char>) -> bool { t.len() == 0 || (!hexdig_c(t[0]) && t[0] != '%') }
pub proof fn lemma_is_t_cut(x: Seq<char>, t: Seq<char>)
    requires brk(t)
    ensures is_t(x + t) == is_t(x), is_t(x) ==> tv(x + t) == tv(x) && (x + t).skip(3) == x.skip(3) + t,
        x.len() > 0 ==> (x + t)[0] == x[0] && (x + t).skip(1) == x.skip(1) + t,
{
    let u = x + t;
    if x.len() == 0 { assert(u =~= t); }
    else if x.len() == 1 { if t.len() > 0 { assert(u[1] == t[0]); } }
    else if x.len() == 2 { if t.len() > 0 { assert(u[2] == t[0]); } }
    if x.len() > 0 { assert(u.skip(1) =~= x.skip(1) + t); }
    if x.len() >= 3 { assert(u.skip(3) =~= x.skip(3) + t); assert(u[1] == x[1] && u[2] == x[2]); }
}
pub proof fn lemma_wft_cut(x: Seq<char>, t: Seq<char>)
    requires brk(t)
    ensures wft(x + t) == (wft(x) && wft(t))
    decreases x.len()
{
    lemma_is_t_cut(x, t);
    if x.len() == 0 { assert(x + t =~= t); }
    else if x[0] == '%' { if is_t(x) { lemma_wft_cut(x.skip(3), t); } }
    else { lemma_wft_cut(x.skip(1), t); }
}
pub proof fn lemma_trips_cut(x: Seq<char>, t: Seq<char>, n: nat)
    requires brk(t)
    ensures trips(x + t, n) == trips(x, n), trips(x, n) ==> tb(x + t, n) == tb(x, n) && 3 * n <= x.len() && (x + t).skip(3 * n as int) == x.skip(3 * n as int) + t
    decreases n
{
    if n == 0 { assert((x + t).skip(0) =~= x.skip(0) + t); }
    else {
        lemma_is_t_cut(x, t);
        if is_t(x) {
            lemma_trips_cut(x.skip(3), t, (n - 1) as nat);
            if trips(x, n) { lemma_trips_len(x, n); assert((x + t).skip(3 * n as int) =~= x.skip(3 * n as int) + t); }
        }
    }
}
pub proof fn lemma_head_cut(x: Seq<char>, t: Seq<char>, c: char)
    requires brk(t)
    ensures is_head(x + t, c) == is_head(x, c)
{
    lemma_trips_cut(x, t, enc1(c).len());
    if trips(x, enc1(c).len()) { lemma_trips_len(x, enc1(c).len()); }
}
/// normalization does not look across a delimiter
pub proof fn lemma_norm_cut(x: Seq<char>, t: Seq<char>, iri: bool)
    requires brk(t)
    ensures norm(x + t, iri) == norm(x, iri) + norm(t, iri)
    decreases x.len()
{
    lemma_is_t_cut(x, t);
    if x.len() == 0 { assert(x + t =~= t); assert(norm(x, iri) + norm(t, iri) =~= norm(t, iri)); }
    else if !is_t(x) {
        lemma_norm_cut(x.skip(1), t, iri);
        assert(seq![x[0]] + (norm(x.skip(1), iri) + norm(t, iri)) =~= seq![x[0]] + norm(x.skip(1), iri) + norm(t, iri));
    } else if exists|c: char| is_head(x, c) {
        let c = choose|c: char| is_head(x, c);
        let n = enc1(c).len();
        lemma_head_cut(x, t, c);
        lemma_norm_head(x, c, iri);
        lemma_norm_head(x + t, c, iri);
        lemma_trips_cut(x, t, n);
        lemma_norm_cut(x.skip(3 * n as int), t, iri);
        let w = if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) };
        assert(w + (norm(x.skip(3 * n as int), iri) + norm(t, iri)) =~= w + norm(x.skip(3 * n as int), iri) + norm(t, iri));
    } else {
        assert forall|c: char| !is_head(x + t, c) by { lemma_head_cut(x, t, c); }
        lemma_norm_cut(x.skip(3), t, iri);
        assert(pct_upper(tv(x)) + (norm(x.skip(3), iri) + norm(t, iri)) =~= pct_upper(tv(x)) + norm(x.skip(3), iri) + norm(t, iri));
    }
}
pub proof fn lemma_norm_empty(s: Seq<char>, iri: bool)
    ensures (norm(s, iri).len() == 0) == (s.len() == 0)
{
    if s.len() > 0 && is_t(s) {
        if exists|c: char| is_head(s, c) {
            let c = choose|c: char| is_head(s, c);
            let b = enc1(c);
            assert(pct_all(b) == pct_all(b.drop_last()) + pct_upper(b.last()));
        }
    }
}
/// a delimiter stays
pub proof fn lemma_norm_lit(c: char, t: Seq<char>, iri: bool)
    requires c != '%'
    ensures norm(seq![c] + t, iri) == seq![c] + norm(t, iri), wft(seq![c] + t) == wft(t)
{
    assert(nopct(seq![c]));
    lemma_norm_copy(seq![c], t, iri);
    lemma_wft_copy(seq![c], t);
}
// ---- text
/// the text written for a piece of a path
pub open spec fn nm(b: Seq<u8>, pct: bool, iri: bool) -> Seq<char> { if pct { norm(dec(b), iri) } else { dec(b) } }
pub open spec fn okp(b: Seq<u8>, pct: bool) -> bool { pct ==> wft(dec(b)) }
pub open spec fn names(st: Seq<Seg>, pct: bool, iri: bool) -> Seq<char>
    decreases st.len()
{
    if st.len() == 0 { Seq::empty() } else { seq!['/'] + nm(st[0].name, pct, iri) + names(st.skip(1), pct, iri) }
}
pub open spec fn slash(x: bool) -> Seq<char> { if x { seq!['/'] } else { Seq::empty() } }
/// the text that remains to be written; `o`: nothing is written yet (`None`), only a slash (`Some(true)`), more (`Some(false)`)
pub open spec fn rem(st: Seq<Seg>, tr: bool, o: Option<bool>, auth: bool, pct: bool, iri: bool) -> Seq<char>
{
    match o {
        Some(x) => (if x && !auth && (st.len() > 0 || tr) { seq!['.', '/'] } else { Seq::empty() }) + names(st, pct, iri) + slash(tr),
        None => if st.len() == 0 { slash(tr) } else {
            let x = st[0].hl && st[0].name.len() == 0;
            slash(st[0].hl) + nm(st[0].name, pct, iri) + (if x && !auth && (st.len() > 1 || tr) { seq!['.', '/'] } else { Seq::empty() }) + names(st.skip(1), pct, iri) + slash(tr)
        },
    }
}
/// the last segment is a dot segment (`d`: if there is none)
pub open spec fn ldot(t: Seq<u8>, c: int, d: bool) -> bool
    decreases t.len() - c
{
    if c < 0 || c >= t.len() || seg_end(t, c) <= c { d } else { ldot(t, seg_end(t, c), dot1(seg_name(t, c)) || dot2(seg_name(t, c))) }
}
/// no dot segments from the position on
pub open spec fn nodots(t: Seq<u8>, c: int) -> bool
    decreases t.len() - c
{
    if c < 0 || c >= t.len() || seg_end(t, c) <= c { true } else { !dot1(seg_name(t, c)) && !dot2(seg_name(t, c)) && nodots(t, seg_end(t, c)) }
}
/// The text of the normalized path.
pub open spec fn path_text(t: Seq<u8>, opaque: bool, auth: bool, pct: bool, iri: bool) -> Seq<char> {
    if t.len() == 0 { Seq::empty() }
    else if opaque && !auth && t[0] != 0x2f { nm(t, pct, iri) }
    else {
        let u = strip_pre(t);
        if u.len() == 0 { slash(auth) } else { rem(fold(u, 0, Seq::empty()), ldot(u, 0, false), None, auth, pct, iri) }
    }
}
pub proof fn lemma_sfx_slash(t: Seq<u8>, k: int, s: int)
    requires 0 <= k <= t.len(), 0 <= s <= t.len() - k
    ensures slash_at(sfx(t, k), s) == slash_at(t, k + s) - k
{ assert(sfx(sfx(t, k), s) =~= sfx(t, k + s)); }
pub proof fn lemma_sfx_seg(t: Seq<u8>, k: int, c: int)
    requires valid_utf8(t), 0 <= k <= t.len(), 0 <= c < t.len() - k, is_char_boundary(t, k + c)
    ensures seg(sfx(t, k), c) == seg(t, k + c), seg_end(sfx(t, k), c) == seg_end(t, k + c) - k, seg_start(sfx(t, k), c) == seg_start(t, k + c) - k,
        k + c < seg_end(t, k + c) <= t.len(), is_char_boundary(t, seg_end(t, k + c)),
{
    lemma_seg(t, k + c);
    assert(sfx(t, k)[c] == t[k + c]);
    lemma_sfx_slash(t, k, seg_start(sfx(t, k), c));
    assert(seg_name(sfx(t, k), c) =~= seg_name(t, k + c));
}
/// folding a suffix
pub proof fn lemma_shift(t: Seq<u8>, k: int, c: int, st: Seq<Seg>, d: bool)
    requires valid_utf8(t), 0 <= k <= t.len(), 0 <= c <= t.len() - k, is_char_boundary(t, k + c)
    ensures fold(sfx(t, k), c, st) == fold(t, k + c, st), ldot(sfx(t, k), c, d) == ldot(t, k + c, d), nodots(sfx(t, k), c) == nodots(t, k + c)
    decreases t.len() - k - c
{
    if c < t.len() - k {
        lemma_sfx_seg(t, k, c);
        let e = seg_end(sfx(t, k), c);
        assert(e > c);
        lemma_shift(t, k, e, step(st, seg(t, k + c)), dot1(seg_name(t, k + c)) || dot2(seg_name(t, k + c)));
    }
}
pub proof fn lemma_names_push(st: Seq<Seg>, s: Seg, pct: bool, iri: bool)
    ensures names(st.push(s), pct, iri) == names(st, pct, iri) + (seq!['/'] + nm(s.name, pct, iri))
    decreases st.len()
{
    if st.len() == 0 {
        assert(st.push(s).skip(1) =~= Seq::<Seg>::empty());
        assert(names(Seq::<Seg>::empty(), pct, iri) =~= Seq::<char>::empty());
        assert(names(st, pct, iri) + (seq!['/'] + nm(s.name, pct, iri)) =~= seq!['/'] + nm(s.name, pct, iri) + Seq::<char>::empty());
    } else {
        assert(st.push(s).skip(1) =~= st.skip(1).push(s));
        assert(st.push(s)[0] == st[0]);
        lemma_names_push(st.skip(1), s, pct, iri);
        let h = seq!['/'] + nm(st[0].name, pct, iri);
        let w = seq!['/'] + nm(s.name, pct, iri);
        assert(h + (names(st.skip(1), pct, iri) + w) =~= h + names(st.skip(1), pct, iri) + w);
    }
}
/// the text of a path splits at a slash
pub proof fn lemma_nm_cut(a: Seq<u8>, b: Seq<u8>, pct: bool, iri: bool)
    requires valid_utf8(a), valid_utf8(b), b.len() == 0 || b[0] == 0x2f || (a.len() > 0 && a.last() == 0x2f)
    ensures nm(a + b, pct, iri) == nm(a, pct, iri) + nm(b, pct, iri), okp(a + b, pct) == (okp(a, pct) && okp(b, pct)), dec(a + b) == dec(a) + dec(b), valid_utf8(a + b)
{
    crate::text::lemma_dec_cat(a, b);
    let (x, y) = (dec(a), dec(b));
    if b.len() == 0 { lemma_dec_empty(b); lemma_wft_cut(x, y); lemma_norm_cut(x, y, iri); }
    else if b[0] == 0x2f { lemma_dec_slash(b); lemma_wft_cut(x, y); lemma_norm_cut(x, y, iri); }
    else {
        let n = a.len() - 1;
        crate::text::lemma_ascii_at(a, n);
        assert(sfx(a, n) =~= seq![0x2fu8]);
        let p = pfx(a, n);
        crate::text::lemma_dec1(0x2fu8);
        assert(pfx(a, n) + seq![0x2fu8] =~= a);
        crate::text::lemma_dec_cat(p, seq![0x2fu8]);
        let q = dec(p);
        let s = seq!['/'];
        assert(x == q + s);
        assert(x + y =~= q + (s + y));
        lemma_wft_cut(q, s + y); lemma_norm_cut(q, s + y, iri);
        lemma_wft_cut(q, s); lemma_norm_cut(q, s, iri);
        lemma_norm_lit('/', y, iri);
        lemma_norm_lit('/', Seq::empty(), iri);
        assert(s + Seq::<char>::empty() =~= s);
        assert(norm(q, iri) + (s + norm(y, iri)) =~= norm(q, iri) + (s + norm(Seq::<char>::empty(), iri)) + norm(y, iri));
    }
}
pub proof fn lemma_dec_empty(b: Seq<u8>)
    requires b.len() == 0
    ensures dec(b) == Seq::<char>::empty(), valid_utf8(b)
{ reveal_with_fuel(decode_utf8, 2); reveal_with_fuel(valid_utf8, 2); assert(dec(b) =~= Seq::<char>::empty()); }
pub proof fn lemma_dec_slash(b: Seq<u8>)
    requires valid_utf8(b), b.len() > 0, b[0] == 0x2f
    ensures dec(b) == seq!['/'] + dec(sfx(b, 1)), valid_utf8(sfx(b, 1))
{
    crate::text::lemma_ascii_at(b, 0);
    crate::text::lemma_dec1(0x2fu8);
    assert(b =~= seq![0x2fu8] + sfx(b, 1));
    crate::text::lemma_dec_cat(seq![0x2fu8], sfx(b, 1));
}
pub proof fn lemma_nm_slash(b: Seq<u8>, pct: bool, iri: bool)
    requires valid_utf8(b), b.len() > 0, b[0] == 0x2f
    ensures nm(b, pct, iri) == seq!['/'] + nm(sfx(b, 1), pct, iri), okp(b, pct) == okp(sfx(b, 1), pct), valid_utf8(sfx(b, 1))
{
    lemma_dec_slash(b);
    lemma_norm_lit('/', dec(sfx(b, 1)), iri);
}
/// the pieces of one segment and what follows
pub proof fn lemma_seg_text(t: Seq<u8>, c: int, pct: bool, iri: bool)
    requires valid_utf8(t), 0 <= c < t.len(), is_char_boundary(t, c), okp(sfx(t, c), pct)
    ensures nm(sfx(t, c), pct, iri) == slash(t[c] == 0x2f) + nm(seg_name(t, c), pct, iri) + nm(sfx(t, seg_end(t, c)), pct, iri),
        okp(seg_name(t, c), pct), okp(sfx(t, seg_end(t, c)), pct), valid_utf8(seg_name(t, c)),
        c < seg_end(t, c) <= t.len(), is_char_boundary(t, seg_end(t, c)), seg_end(t, c) < t.len() ==> t[seg_end(t, c)] == 0x2f, valid_utf8(sfx(t, c)), valid_utf8(sfx(t, seg_end(t, c))),
{
    lemma_seg(t, c);
    let (s, e) = (seg_start(t, c), seg_end(t, c));
    crate::text::lemma_valid_split(t, c);
    crate::text::lemma_valid_split(t, s);
    crate::text::lemma_valid_split(t, e);
    let u = sfx(t, s);
    assert(is_char_boundary(u, e - s)) by { lemma_bnd_cat(pfx(t, s), u, e); assert(pfx(t, s) + u =~= t); }
    crate::text::lemma_valid_split(u, e - s);
    let n = seg_name(t, c);
    let w = sfx(t, e);
    assert(n =~= pfx(u, e - s));
    assert(w =~= sfx(u, e - s));
    assert(u =~= n + w);
    if t[c] == 0x2f { lemma_nm_slash(sfx(t, c), pct, iri); assert(sfx(sfx(t, c), 1) =~= u); } else { assert(sfx(t, c) == u); }
    lemma_nm_cut(n, w, pct, iri);
    assert(slash(t[c] == 0x2f) + (nm(n, pct, iri) + nm(w, pct, iri)) =~= slash(t[c] == 0x2f) + nm(n, pct, iri) + nm(w, pct, iri));
}
/// without dot segments the path is its own text
pub proof fn lemma_whole(t: Seq<u8>, c: int, st: Seq<Seg>, pct: bool, iri: bool)
    requires valid_utf8(t), 0 <= c <= t.len(), is_char_boundary(t, c), c < t.len() ==> t[c] == 0x2f, okp(sfx(t, c), pct), nodots(t, c)
    ensures names(fold(t, c, st), pct, iri) == names(st, pct, iri) + nm(sfx(t, c), pct, iri), !ldot(t, c, false), c < t.len() ==> fold(t, c, st).len() > st.len(), fold(t, c, st).len() >= st.len()
    decreases t.len() - c
{
    if c == t.len() {
        lemma_dec_empty(sfx(t, c));
        assert(nm(sfx(t, c), pct, iri) =~= Seq::<char>::empty());
        assert(names(st, pct, iri) + Seq::<char>::empty() =~= names(st, pct, iri));
    } else {
        lemma_seg_text(t, c, pct, iri);
        let s = seg(t, c);
        lemma_whole(t, seg_end(t, c), st.push(s), pct, iri);
        lemma_names_push(st, s, pct, iri);
        let w = nm(sfx(t, seg_end(t, c)), pct, iri);
        assert(names(st, pct, iri) + (seq!['/'] + nm(s.name, pct, iri)) + w =~= names(st, pct, iri) + (seq!['/'] + nm(s.name, pct, iri) + w));
    }
}
// ---- progress of a writer
/// from `f0`, text was written that leads to `f`, and `rest` remains to be written
#[verifier::prophetic]
pub open spec fn prog<W: Write>(f0: W, tt: Seq<char>, f: W, rest: Seq<char>) -> bool { exists|w: Seq<char>| #[trigger] W::wrote(f0, w, f) && tt == w + rest }
pub proof fn lemma_prog_start<W: Write>(f0: W, tt: Seq<char>)
    ensures prog(f0, tt, f0, tt)
{ W::law_empty(f0); assert(tt == Seq::<char>::empty() + tt); }
pub proof fn lemma_prog_end<W: Write>(f0: W, tt: Seq<char>, f: W, rest: Seq<char>)
    requires prog(f0, tt, f, rest), rest.len() == 0
    ensures W::wrote(f0, tt, f)
{ let w = choose|w: Seq<char>| #[trigger] W::wrote(f0, w, f) && tt == w + rest; assert(w =~= tt); }
/// what the next write does
pub proof fn lemma_prog<W: Write>(f0: W, tt: Seq<char>, f: W, rest: Seq<char>, piece: Seq<char>, rest2: Seq<char>)
    requires prog(f0, tt, f, rest), rest == piece + rest2
    ensures forall|f2: W| #[trigger] W::wrote(f, piece, f2) ==> prog(f0, tt, f2, rest2), forall|f2: W| #[trigger] W::failed(f, piece, f2) ==> W::failed(f0, tt, f2)
{
    let w = choose|w: Seq<char>| #[trigger] W::wrote(f0, w, f) && tt == w + rest;
    assert forall|f2: W| #[trigger] W::wrote(f, piece, f2) implies prog(f0, tt, f2, rest2) by {
        W::law_trans(f0, w, f, piece, f2);
        assert(w + (piece + rest2) =~= (w + piece) + rest2);
    }
    assert forall|f2: W| #[trigger] W::failed(f, piece, f2) implies W::failed(f0, tt, f2) by {
        W::law_fail(f0, w, f, piece, f2);
        W::law_ext(f0, w + piece, f2, rest2);
        assert(w + (piece + rest2) =~= (w + piece) + rest2);
    }
}
/// progress inside progress
pub proof fn lemma_prog_trans<W: Write>(f0: W, tt: Seq<char>, f: W, rest: Seq<char>, f2: W, rest2: Seq<char>)
    requires prog(f0, tt, f, rest), prog(f, rest, f2, rest2)
    ensures prog(f0, tt, f2, rest2)
{
    let w = choose|w: Seq<char>| #[trigger] W::wrote(f0, w, f) && tt == w + rest;
    let v = choose|v: Seq<char>| #[trigger] W::wrote(f, v, f2) && rest == v + rest2;
    W::law_trans(f0, w, f, v, f2);
    assert(w + (v + rest2) =~= (w + v) + rest2);
}
/// one segment is emitted
pub proof fn lemma_emit(st: Seq<Seg>, tr: bool, o: Option<bool>, auth: bool, pct: bool, iri: bool)
    requires st.len() > 0
    ensures match o {
        None => rem(st, tr, o, auth, pct, iri) == slash(st[0].hl) + (nm(st[0].name, pct, iri) + rem(st.skip(1), tr, Some(st[0].hl && st[0].name.len() == 0), auth, pct, iri)),
        Some(x) => rem(st, tr, o, auth, pct, iri) == (if x && !auth { seq!['.', '/'] } else { Seq::empty() }) + (seq!['/'] + (nm(st[0].name, pct, iri) + rem(st.skip(1), tr, Some(x && auth), auth, pct, iri))),
    }
{
    let n = nm(st[0].name, pct, iri);
    let m = names(st.skip(1), pct, iri);
    match o {
        None => {
            let x = st[0].hl && st[0].name.len() == 0;
            let y = if x && !auth && (st.len() > 1 || tr) { seq!['.', '/'] } else { Seq::<char>::empty() };
            assert(slash(st[0].hl) + n + y + m + slash(tr) =~= slash(st[0].hl) + (n + (y + m + slash(tr))));
        }
        Some(x) => {
            let y = if x && !auth { seq!['.', '/'] } else { Seq::<char>::empty() };
            assert(y + (seq!['/'] + n + m) + slash(tr) =~= y + (seq!['/'] + (n + (Seq::<char>::empty() + m + slash(tr)))));
        }
    }
}
pub proof fn lemma_progs<W: Write>(f0: W, tt: Seq<char>, rest: Seq<char>, piece: Seq<char>, rest2: Seq<char>)
    requires rest == piece + rest2
    ensures forall|f: W, f2: W| #[trigger] prog(f0, tt, f, rest) && #[trigger] W::wrote(f, piece, f2) ==> prog(f0, tt, f2, rest2), forall|f: W, f2: W| #[trigger] prog(f0, tt, f, rest) && #[trigger] W::failed(f, piece, f2) ==> W::failed(f0, tt, f2)
{
    assert forall|f: W, f2: W| #[trigger] prog(f0, tt, f, rest) && #[trigger] W::wrote(f, piece, f2) implies prog(f0, tt, f2, rest2) by { lemma_prog(f0, tt, f, rest, piece, rest2); }
    assert forall|f: W, f2: W| #[trigger] prog(f0, tt, f, rest) && #[trigger] W::failed(f, piece, f2) implies W::failed(f0, tt, f2) by { lemma_prog(f0, tt, f, rest, piece, rest2); }
}
/// the last piece
pub proof fn lemma_progs_end<W: Write>(f0: W, tt: Seq<char>, piece: Seq<char>)
    ensures forall|f: W, f2: W| #[trigger] prog(f0, tt, f, piece) && #[trigger] W::wrote(f, piece, f2) ==> W::wrote(f0, tt, f2), forall|f: W, f2: W| #[trigger] prog(f0, tt, f, piece) && #[trigger] W::failed(f, piece, f2) ==> W::failed(f0, tt, f2)
{
    assert(piece + Seq::<char>::empty() =~= piece);
    lemma_progs(f0, tt, piece, piece, Seq::empty());
    assert forall|f: W, f2: W| #[trigger] prog(f0, tt, f, piece) && #[trigger] W::wrote(f, piece, f2) implies W::wrote(f0, tt, f2) by { lemma_prog_end(f0, tt, f2, Seq::empty()); }
}
/// the literals written around paths
pub proof fn lemma_lits()
    ensures forall|b: Seq<u8>| b.len() == 2 && b[0] == 0x2e && b[1] == 0x2f ==> #[trigger] decode_utf8(b) == seq!['.', '/'],
        forall|b: Seq<u8>| b.len() == 3 && b[0] == 0x2e && b[1] == 0x2f && b[2] == 0x2f ==> #[trigger] decode_utf8(b) == seq!['.', '/', '/'],
        forall|b: Seq<u8>| b.len() == 4 && b[0] == 0x2f && b[1] == 0x2e && b[2] == 0x2f && b[3] == 0x2f ==> #[trigger] decode_utf8(b) == seq!['/', '.', '/', '/'],
{
    assert forall|b: Seq<u8>| b.len() == 2 && b[0] == 0x2e && b[1] == 0x2f implies #[trigger] decode_utf8(b) == seq!['.', '/'] by { lemma_ascii_dec(b, seq!['.', '/']); }
    assert forall|b: Seq<u8>| b.len() == 3 && b[0] == 0x2e && b[1] == 0x2f && b[2] == 0x2f implies #[trigger] decode_utf8(b) == seq!['.', '/', '/'] by { lemma_ascii_dec(b, seq!['.', '/', '/']); }
    assert forall|b: Seq<u8>| b.len() == 4 && b[0] == 0x2f && b[1] == 0x2e && b[2] == 0x2f && b[3] == 0x2f implies #[trigger] decode_utf8(b) == seq!['/', '.', '/', '/'] by { lemma_ascii_dec(b, seq!['/', '.', '/', '/']); }
}
pub proof fn lemma_ascii_dec(b: Seq<u8>, s: Seq<char>)
    requires b.len() == s.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80 && s[i] == b[i] as char
    ensures dec(b) == s
{
    assert(is_ascii_chars(s)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] as nat <= 0x7f by { assert(b[i] < 0x80); } }
    is_ascii_chars_encode_utf8(s);
    assert(encode_utf8(s) =~= b);
    encode_utf8_decode_utf8(s);
}
/// the first byte of a text tells an ASCII first character
pub proof fn lemma_first_ascii(t: Seq<char>, c: char)
    requires t.len() > 0, (c as u32) < 0x80
    ensures encode_utf8(t).len() > 0, (encode_utf8(t)[0] == c as u8) == (t[0] == c), t[0] == c ==> encode_utf8(t) == seq![c as u8] + encode_utf8(t.skip(1))
{
    assert(t =~= seq![t[0]] + t.skip(1));
    encode_utf8_concat(seq![t[0]], t.skip(1));
    if (t[0] as u32) < 0x80 { crate::vstring::lemma_enc1(t[0]); } else { lemma_enc1_shape(t[0]); }
    crate::vstring::lemma_enc1(c);
}
pub proof fn lemma_dotted(t: Seq<char>)
    ensures ({ let b = encode_utf8(t); (b.len() >= 3 && b[0] == 0x2f && b[1] == 0x2e && b[2] == 0x2f) == (t.len() >= 3 && t[0] == '/' && t[1] == '.' && t[2] == '/') })
{
    let b = encode_utf8(t);
    if t.len() == 0 { assert(t =~= Seq::empty()); encode_utf8_concat(t, t); assert(t + t =~= t); assert(b.len() == 0); }
    else {
        lemma_first_ascii(t, '/');
        let u = t.skip(1);
        if t[0] == '/' {
            if u.len() == 0 { assert(u =~= Seq::empty()); encode_utf8_concat(u, u); assert(u + u =~= u); assert(b.len() == 1); }
            else {
                lemma_first_ascii(u, '.');
                let v = u.skip(1);
                if u[0] == '.' {
                    if v.len() == 0 { assert(v =~= Seq::empty()); encode_utf8_concat(v, v); assert(v + v =~= v); assert(b.len() == 2); }
                    else { lemma_first_ascii(v, '/'); assert(b[2] == encode_utf8(v)[0]); }
                } else { assert(b[1] == encode_utf8(u)[0]); }
            }
        }
    }
}
/// the path could not be written as RFC 3986 says (without an authority it would begin with "//")
pub open spec fn dotted(t: Seq<u8>) -> bool { let x = path_text(t, false, false, false, false); x.len() >= 3 && x[0] == '/' && x[1] == '.' && x[2] == '/' }
