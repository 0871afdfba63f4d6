#module isnorm
#raw
// When is an identifier its own normalized text (RFC 3986 6.2.2)?
use crate::vx::*;
use crate::pct::*;
use crate::npath::*;
use crate::ptext::*;
use crate::nstext::*;
use crate::nvalid::*;
use crate::grammar::*;
use crate::comp::*;
use crate::compose::*;
use crate::text::*;
use crate::parser::char::*;
use crate::vfmt::{pct_all, pct_upper};
use crate::comp::{host_stop, t_query, t_fragment};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx};
/// normalization does not lengthen
pub proof fn lemma_norm_len(s: Seq<char>, iri: bool)
    requires wft(s)
    ensures norm(s, iri).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let p = lemma_norm_step(s, iri);
        lemma_norm_len(s.skip(p.1), iri);
        if is_t(s) {
            if exists|c: char| is_head(s, c) {
                let c = choose|c: char| #[trigger] is_head(s, c) && p.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && p.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
                lemma_enc1_scalar(c);
                lemma_all_trips(enc1(c), Seq::empty());
            } else { lemma_upper(tv(s), Seq::empty()); }
        }
    } else { assert(norm(s, iri) =~= s); }
}
/// the pieces of a text that is normalized are
pub proof fn lemma_norm_both(x: Seq<char>, t: Seq<char>, iri: bool)
    requires brk(t), wft(x + t)
    ensures (norm(x + t, iri) == x + t) == (norm(x, iri) == x && norm(t, iri) == t), wft(x), wft(t)
{
    lemma_wft_cut(x, t);
    lemma_norm_cut(x, t, iri);
    lemma_norm_len(x, iri);
    lemma_norm_len(t, iri);
    let (a, b) = (norm(x, iri), norm(t, iri));
    if a + b == x + t {
        assert((a + b).len() == a.len() + b.len());
        assert(a =~= (a + b).take(a.len() as int));
        assert(x =~= (x + t).take(x.len() as int));
        assert(b =~= (a + b).skip(a.len() as int));
        assert(t =~= (x + t).skip(x.len() as int));
    }
}
pub proof fn lemma_norm_at(b: Seq<u8>, k: int, iri: bool)
    requires valid_utf8(b), wft(dec(b)), 0 <= k < b.len(), b[k] < 0x80u8, !hexdig(b[k]), b[k] != 0x25
    ensures valid_utf8(pfx(b, k)), valid_utf8(sfx(b, k + 1)), wft(dec(pfx(b, k))), wft(dec(sfx(b, k + 1))),
        (norm(dec(b), iri) == dec(b)) == (norm(dec(pfx(b, k)), iri) == dec(pfx(b, k)) && norm(dec(sfx(b, k + 1)), iri) == dec(sfx(b, k + 1))),
{
    lemma_dec_at(b, k);
    let c = b[k] as char;
    let y = dec(sfx(b, k + 1));
    let t = seq![c] + y;
    lemma_norm_both(dec(pfx(b, k)), t, iri);
    lemma_norm_lit(c, y, iri);
    assert(t.skip(1) =~= y);
    let n = norm(y, iri);
    assert((seq![c] + n).skip(1) =~= n);
}
pub open spec fn isdot(x: Seq<u8>) -> bool { x == seq![0x2eu8] || x == seq![0x2eu8, 0x2e] }
proof fn lemma_isdot(x: Seq<u8>, iri: bool)
    requires valid_utf8(x), wft(dec(x)), norm(dec(x), iri) == dec(x)
    ensures isdot(x) == (dot1(x) || dot2(x))
{
    lemma_dot_norm(x, iri);
    lemma_dot_chars(x);
    let (d1, d2) = (seq![0x2eu8], seq![0x2eu8, 0x2e]);
    lemma_ascii_dec(d1, seq!['.']);
    lemma_ascii_dec(d2, seq!['.', '.']);
    decode_utf8_encode_utf8(x);
    crate::vstring::lemma_enc1('.');
    assert(seq!['.', '.'] =~= seq!['.'] + seq!['.']);
    encode_utf8_concat(seq!['.'], seq!['.']);
    assert(d2 =~= d1 + d1);
}
pub open spec fn np(b: Seq<u8>, iri: bool) -> bool { valid_utf8(b) && wft(dec(b)) && norm(dec(b), iri) == dec(b) }
/// the pieces between slashes, and the segments
proof fn lemma_pieces(t: Seq<u8>, s: int, iri: bool)
    requires 0 < s <= t.len(), t[s - 1] == 0x2f, np(sfx(t, s), iri)
    ensures any_piece(sfx(t, s), 0x2f, |x: Seq<u8>| isdot(x)) == !nodots(t, s - 1)
    decreases t.len() - s
{
    let u = sfx(t, s);
    let k = first1(u, 0x2f);
    lemma_first(u, 0x2f, 0x2f, 0x2f, 0x2f);
    let p = |x: Seq<u8>| isdot(x);
    let n = pfx(u, k);
    assert(seg_start(t, s - 1) == s);
    assert(seg_end(t, s - 1) == s + k);
    assert(seg_name(t, s - 1) =~= n);
    if k < u.len() {
        lemma_norm_at(u, k, iri);
        assert(sfx(u, k + 1) =~= sfx(t, s + k + 1));
        lemma_pieces(t, s + k + 1, iri);
        lemma_isdot(n, iri);
        assert(nodots(t, s - 1) == (!dot1(n) && !dot2(n) && nodots(t, s + k)));
    } else {
        assert(n =~= u);
        lemma_isdot(n, iri);
        assert(nodots(t, s - 1) == (!dot1(n) && !dot2(n) && nodots(t, s + k)));
        assert(nodots(t, t.len() as int));
    }
}
pub proof fn lemma_pieces0(t: Seq<u8>, iri: bool)
    requires np(t, iri)
    ensures any_piece(t, 0x2f, |x: Seq<u8>| isdot(x)) == !nodots(t, 0)
{
    let k = first1(t, 0x2f);
    lemma_first(t, 0x2f, 0x2f, 0x2f, 0x2f);
    let p = |x: Seq<u8>| isdot(x);
    let n = pfx(t, k);
    assert(sfx(t, 0) =~= t);
    if k < t.len() {
        lemma_norm_at(t, k, iri);
        lemma_pieces(t, k + 1, iri);
        lemma_isdot(n, iri);
    } else { assert(n =~= t); lemma_isdot(n, iri); }
    if t.len() > 0 && t[0] != 0x2f {
        assert(seg_start(t, 0) == 0 && seg_end(t, 0) == k);
        assert(seg_name(t, 0) =~= n);
        assert(nodots(t, 0) == (!dot1(n) && !dot2(n) && nodots(t, k)));
        assert(nodots(t, t.len() as int));
    } else if t.len() > 0 { assert(k == 0) by { if k > 0 { assert(is4(t[0], 0x2f, 0x2f, 0x2f, 0x2f)); } } assert(n.len() == 0); }
    else { assert(n.len() == 0); }
}
/// without dot segments the stack keeps what it has
proof fn lemma_keep(t: Seq<u8>, c: int, st: Seq<Seg>)
    requires nodots(t, c)
    ensures fold(t, c, st).len() >= st.len(), fold(t, c, st).take(st.len() as int) == st
    decreases t.len() - c
{
    if c < 0 || c >= t.len() || seg_end(t, c) <= c { assert(st.take(st.len() as int) =~= st); }
    else {
        let s2 = st.push(seg(t, c));
        lemma_keep(t, seg_end(t, c), s2);
        assert(s2.take(st.len() as int) =~= st);
        let f = fold(t, c, st);
        assert(f.take(st.len() as int) =~= f.take(s2.len() as int).take(st.len() as int));
    }
}
/// the paths that are their own normalized text
pub open spec fn path_np(p: Seq<u8>, auth: bool, keep: bool) -> bool {
    if keep && !auth && (p.len() == 0 || p[0] != 0x2f) { true } else { nodots(p, 0) || dotpre(p, auth) }
}
proof fn lemma_np_a(p: Seq<u8>, auth: bool, pct: bool, iri: bool)
    requires np(p, iri), is_sat(p, Cls::PcharSlash, iri), p.len() > 0, p[0] == 0x2f, !auth ==> !has_ss(p), nodots(p, 0)
    ensures rem(fold(p, 0, Seq::empty()), ldot(p, 0, false), None, auth, pct, iri) == dec(p), strip_pre(p) == p
{
    hide(sat); hide(norm);
    let z = Seq::<Seg>::empty();
    if !pct { assert(nm(p, pct, iri) == dec(p)); }
    assert(is_char_boundary(p, 0));
    assert(sfx(p, 0) =~= p);
    lemma_fold_good(p, 0, z, iri);
    lemma_whole(p, 0, z, pct, iri);
    let f = fold(p, 0, z);
    assert(names(z, pct, iri) + nm(p, pct, iri) =~= nm(p, pct, iri));
    lemma_rem_out(f, false, auth, pct, iri);
    lemma_names_head(f, pct, iri);
    lemma_gst_skip(f, iri);
    lemma_names_head(f.skip(1), pct, iri);
    decode_utf8_encode_utf8(p);
    if f[0].name.len() == 0 && !auth && f.len() > 1 {
        lemma_nm_empty(f[0].name, pct, iri);
        lemma_len0(nm(f[0].name, pct, iri));
        let w = encode_utf8(names(f.skip(1), pct, iri));
        let a = encode_utf8(nm(f[0].name, pct, iri));
        assert(a + w =~= w);
        assert(p == seq![0x2fu8] + w);
        assert(p[1] == w[0]);
        assert(false);
    }
}
proof fn lemma_np_b(p: Seq<u8>, auth: bool, pct: bool, iri: bool)
    requires np(p, iri), is_sat(p, Cls::PcharSlash, iri), p.len() > 0, p[0] != 0x2f, nodots(p, 0)
    ensures rem(fold(p, 0, Seq::empty()), ldot(p, 0, false), None, auth, pct, iri) == dec(p), strip_pre(p) == p
{
    hide(sat); hide(norm);
    let z = Seq::<Seg>::empty();
    if !pct { assert(nm(p, pct, iri) == dec(p)); }
    assert(is_char_boundary(p, 0));
    assert(sfx(p, 0) =~= p);
    lemma_seg(p, 0);
    lemma_seg_text(p, 0, pct, iri);
    let e = seg_end(p, 0);
    lemma_first(p, 0x2f, 0x2f, 0x2f, 0x2f);
    assert(e == first1(p, 0x2f));
    assert(e > 0);
    let s = seg(p, 0);
    let st = seq![s];
    assert(step(z, s) =~= st);
    assert(okp(sfx(p, e), pct));
    lemma_whole(p, e, st, pct, iri);
    lemma_keep(p, e, st);
    let f = fold(p, e, st);
    assert(f[0] == s) by { assert(f.take(1)[0] == s); }
    assert(ldot(p, 0, false) == ldot(p, e, false));
    lemma_rem_out(f, false, auth, pct, iri);
    let n = nm(s.name, pct, iri);
    assert(st.skip(1) =~= z);
    assert(names(z, pct, iri).len() == 0);
    let m = names(f.skip(1), pct, iri);
    let w = nm(sfx(p, e), pct, iri);
    assert(names(f, pct, iri) == seq!['/'] + n + m);
    assert(names(st, pct, iri) =~= seq!['/'] + n);
    assert(seq!['/'] + n + m == seq!['/'] + n + w);
    assert(m =~= w) by { assert((seq!['/'] + n + m).skip(1 + n.len() as int) =~= m); assert((seq!['/'] + n + w).skip(1 + n.len() as int) =~= w); }
    assert(slash(false) + n + w =~= n + w);
}
proof fn lemma_np_c(p: Seq<u8>, pct: bool, iri: bool)
    requires np(p, iri), is_sat(p, Cls::PcharSlash, iri), dotpre(p, false)
    ensures rem(fold(p, 0, Seq::empty()), ldot(p, 0, false), None, false, pct, iri) == dec(p), strip_pre(p) == p
{
    hide(sat); hide(norm);
    let z = Seq::<Seg>::empty();
    if !pct { assert(nm(p, pct, iri) == dec(p)); }
    assert(is_char_boundary(p, 0));
    let x = sfx(p, 2);
    assert(sfx(p, 1) =~= seq![0x2eu8] + x);
    lemma_name_end(seq![0x2eu8], x);
    assert(seg_end(p, 0) == 2);
    assert(seg_name(p, 0) =~= seq![0x2eu8]);
    lemma_dec_at(p, 2);
    lemma_norm_at(p, 0, iri);
    lemma_norm_at(sfx(p, 1), 0, iri);
    assert(sfx(sfx(p, 1), 1) =~= x);
    assert(np(x, iri));
    lemma_dec_at(p, 0);
    lemma_dec_at(sfx(p, 1), 0);
    assert(pfx(p, 0) =~= Seq::<u8>::empty() && pfx(sfx(p, 1), 0) =~= Seq::<u8>::empty());
    lemma_dec_empty(Seq::empty());
    assert(dec(p) =~= seq!['/', '.'] + dec(x));
    crate::vx::lemma_ascii_boundary(p, 2);
    assert(is_char_boundary(p, 2));
    lemma_whole(p, 2, z, pct, iri);
    assert(names(z, pct, iri) + nm(x, pct, iri) =~= nm(x, pct, iri));
    let f = fold(p, 2, z);
    let s = seg(p, 2);
    assert(seg_start(p, 2) == 3);
    let y = sfx(p, 3);
    lemma_first(y, 0x2f, 0x2f, 0x2f, 0x2f);
    assert(y[0] == 0x2f);
    assert(first1(y, 0x2f) == 0) by { if first1(y, 0x2f) > 0 { assert(is4(y[0], 0x2f, 0x2f, 0x2f, 0x2f)); } }
    assert(seg_end(p, 2) == 3);
    assert(seg_name(p, 2) =~= Seq::<u8>::empty());
    assert(step(z, seg(p, 0)) == z);
    assert(fold(p, 0, z) == f);
    let st = seq![s];
    assert(step(z, s) =~= st);
    assert(f == fold(p, 3, st));
    lemma_keep(p, 3, st);
    assert(f[0] == s) by { assert(f.take(1)[0] == s); }
    crate::vx::lemma_ascii_boundary(p, 3);
    lemma_dec_at(p, 2);
    assert(okp(sfx(p, 3), pct)) by { lemma_norm_at(x, 0, iri); assert(sfx(x, 1) =~= y); }
    lemma_whole(p, 3, st, pct, iri);
    assert(f.len() > 1);
    assert(ldot(p, 0, false) == ldot(p, 2, true));
    assert(ldot(p, 2, true) == ldot(p, 3, false));
    lemma_rem_out(f, false, false, pct, iri);
    assert(seq!['/', '.'] + names(f, pct, iri) == dec(p));
}
/// a path is its own normalized text when it is normalized as a text and has no dot segments
pub proof fn lemma_path_iff(p: Seq<u8>, auth: bool, keep: bool, iri: bool)
    requires valid_utf8(p), is_sat(p, Cls::PcharSlash, iri), auth && p.len() > 0 ==> p[0] == 0x2f, !auth ==> !has_ss(p)
    ensures (path_text(p, keep, auth, true, iri) == dec(p)) == (norm(dec(p), iri) == dec(p) && path_np(p, auth, keep))
{
    hide(sat); hide(norm); hide(nodots); hide(dotpre); hide(rem); hide(fold); hide(ldot); hide(strip_pre);
    let k2 = keep && !auth;
    lemma_path_text(p, auth, k2, true, iri);
    assert(path_text(p, keep, auth, true, iri) == path_text(p, k2, auth, true, iri));
    decode_utf8_encode_utf8(p);
    lemma_sat_wft(dec(p), Cls::PcharSlash, iri);
    if p.len() == 0 { lemma_dec_empty(p); lemma_nm_empty(p, true, iri); assert(nodots(p, 0)) by { reveal(nodots); } }
    else if k2 && p[0] != 0x2f { }
    else if norm(dec(p), iri) == dec(p) && path_np(p, auth, keep) {
        if nodots(p, 0) { if p[0] == 0x2f { lemma_np_a(p, auth, true, iri); } else { lemma_np_b(p, auth, true, iri); } }
        else { assert(!auth) by { reveal(dotpre); } lemma_np_c(p, true, iri); }
    }
}
/// beginning with "/./"
proof fn lemma_sds(p: Seq<u8>)
    requires valid_utf8(p)
    ensures ({ let x = dec(p); let c = x.len() >= 3 && x[0] == '/' && x[1] == '.' && x[2] == '/'; (c ==> !nodots(p, 0)) && (p.len() >= 3 && p[0] == 0x2f && p[1] == 0x2e && p[2] == 0x2f ==> c) })
{
    let x = dec(p);
    if p.len() >= 3 && p[0] == 0x2f && p[1] == 0x2e && p[2] == 0x2f {
        lemma_dec_at(p, 0);
        lemma_dec_at(sfx(p, 1), 0);
        lemma_dec_at(sfx(sfx(p, 1), 1), 0);
        assert(pfx(p, 0) =~= Seq::<u8>::empty() && pfx(sfx(p, 1), 0) =~= Seq::<u8>::empty() && pfx(sfx(sfx(p, 1), 1), 0) =~= Seq::<u8>::empty());
        lemma_dec_empty(Seq::empty());
        assert(sfx(p, 1)[0] == p[1] && sfx(sfx(p, 1), 1)[0] == p[2]);
        assert(x.len() >= 3 && x[0] == '/' && x[1] == '.' && x[2] == '/');
    }
    if x.len() >= 3 && x[0] == '/' && x[1] == '.' && x[2] == '/' {
        decode_utf8_encode_utf8(p);
        lemma_first_ascii(x, '/');
        lemma_first_ascii(x.skip(1), '.');
        lemma_first_ascii(x.skip(1).skip(1), '/');
        assert(p[0] == 0x2f && p[1] == 0x2e && p[2] == 0x2f);
        let y = sfx(p, 2);
        assert(sfx(p, 1) =~= seq![0x2eu8] + y);
        lemma_name_end(seq![0x2eu8], y);
        assert(seg_end(p, 0) == 2);
        assert(seg_name(p, 0) =~= seq![0x2eu8]);
        assert(dec(seq![0x2eu8]) == seq!['.']) by { lemma_ascii_dec(seq![0x2eu8], seq!['.']); }
        lemma_dec_at(p, 0);
        lemma_dec_at(sfx(p, 1), 1);
        assert(pfx(sfx(p, 1), 1) =~= seq![0x2eu8]);
        lemma_ascii_both(seq![0x2eu8]);
        lemma_dot_chars(seq![0x2eu8]);
    }
}
/// without percent-encoding normalization the flavour plays no role
proof fn lemma_names_raw(st: Seq<Seg>, i: bool, j: bool)
    ensures names(st, false, i) == names(st, false, j)
    decreases st.len()
{ if st.len() > 0 { lemma_names_raw(st.skip(1), i, j); } }
pub proof fn lemma_raw(p: Seq<u8>, o: bool, auth: bool, i: bool, j: bool)
    ensures path_text(p, o, auth, false, i) == path_text(p, o, auth, false, j)
{ let u = strip_pre(p); let f = fold(u, 0, Seq::empty()); if f.len() > 0 { lemma_names_raw(f.skip(1), i, j); } }
/// on a normalized path, "cannot be normalized by RFC 3986 alone" means "has dot segments"
pub proof fn lemma_dotted_iff(p: Seq<u8>, iri: bool)
    requires np(p, iri), is_sat(p, Cls::PcharSlash, iri), !has_ss(p), path_np(p, false, false)
    ensures dotted(p) == !nodots(p, 0)
{
    hide(sat); hide(norm); hide(nodots); hide(dotpre); hide(rem); hide(fold); hide(ldot); hide(strip_pre);
    lemma_path_text(p, false, false, false, iri);
    lemma_raw(p, false, false, false, iri);
    decode_utf8_encode_utf8(p);
    let x = path_text(p, false, false, false, false);
    if p.len() == 0 { lemma_nm_empty(p, false, false); assert(x.len() == 0) by { lemma_dec_empty(p); } assert(nodots(p, 0)) by { reveal(nodots); } }
    else if nodots(p, 0) {
        if p[0] == 0x2f { lemma_np_a(p, false, false, iri); } else { lemma_np_b(p, false, false, iri); }
        assert(x == dec(p));
        if x.len() >= 3 && x[0] == '/' && x[1] == '.' && x[2] == '/' { lemma_sds(p); }
    }
    else { lemma_np_c(p, false, iri); assert(x == dec(p)); reveal(dotpre); lemma_sds(p); }
}
// ---- authority
/// host and port
proof fn lemma_hp_iff(x: Seq<u8>, iri: bool)
    requires valid_utf8(x), g_host(pfx(x, host_end(x)), iri)
    ensures ({ let h = pfx(x, host_end(x)); (hp_text(dec(x), iri) == dec(x)) == (hostn(dec(h), iri) == dec(h) && host_end(x) != x.len() - 1) })
{
    let h = pfx(x, host_end(x));
    lemma_host_end(x);
    lemma_hp(x, iri);
    lemma_hp_ok(x, iri);
    let e = host_end(x);
    let m = hostn(dec(h), iri);
    decode_utf8_encode_utf8(x);
    if e < x.len() {
        lemma_dec_at(x, e);
        let p = hp_port(x);
        if p.len() > 0 {
            let t = seq![':'] + dec(p);
            assert(dec(x) == dec(h) + t);
            if m + t == dec(h) + t {
                assert(m.len() == dec(h).len()) by { assert((m + t).len() == m.len() + t.len()); }
                assert(m =~= (m + t).take(m.len() as int));
                assert(dec(h) =~= (dec(h) + t).take(m.len() as int));
            }
        }
    } else { assert(h =~= x); }
}
pub open spec fn unorm(a: Seq<u8>, iri: bool) -> bool { match c_userinfo(a) { Some(u) => norm(dec(u), iri) == dec(u), None => true } }
pub open spec fn auth_np(a: Seq<u8>, iri: bool) -> bool {
    hostn(dec(c_host(a)), iri) == dec(c_host(a)) && unorm(a, iri) && c_port(a) != Some(Seq::<u8>::empty())
}
proof fn lemma_none_eq(a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>, d: char)
    requires none(a, d), none(b, d)
    ensures (a + seq![d] + x == b + seq![d] + y) == (a == b && x == y)
{
    let (s, t) = (a + seq![d] + x, b + seq![d] + y);
    if s == t {
        if a.len() < b.len() { assert(s[a.len() as int] == d); assert(t[a.len() as int] == b[a.len() as int]); assert(b[a.len() as int] != d); }
        if b.len() < a.len() { assert(t[b.len() as int] == d); assert(s[b.len() as int] == a[b.len() as int]); assert(a[b.len() as int] != d); }
        assert(a =~= s.take(a.len() as int));
        assert(b =~= t.take(b.len() as int));
        assert(x =~= s.skip(1 + a.len() as int));
        assert(y =~= t.skip(1 + b.len() as int));
    }
}
pub proof fn lemma_auth_iff(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a)
    ensures (auth_text(a, iri) == dec(a)) == auth_np(a, iri), valid_utf8(c_host(a)), wft(dec(c_host(a))), c_userinfo(a) matches Some(u) ==> valid_utf8(u) && wft(dec(u)),
{
    lemma_at(a, iri);
    lemma_first(a, 0x40, 0x40, 0x40, 0x40);
    lemma_wft_authority(a, iri);
    let u = first1(a, 0x40);
    let h = host_start(a);
    let x = sfx(a, h);
    lemma_host_end(x);
    assert(c_host(a) =~= pfx(x, host_end(x)));
    if host_stop(a) < a.len() { assert(sfx(a, host_stop(a) + 1) =~= sfx(x, host_end(x) + 1)); if host_end(x) == x.len() - 1 { assert(sfx(a, host_stop(a) + 1) =~= Seq::<u8>::empty()); } else { assert(sfx(a, host_stop(a) + 1).len() > 0); } }
    if u < a.len() {
        lemma_dec_at(a, u);
        let s = dec(pfx(a, u));
        lemma_hp_iff(x, iri);
        lemma_none_bytes(pfx(a, u), 0x40);
        lemma_sat_wft(s, Cls::Userinfo, iri);
        lemma_norm_none(s, '@', iri);
        assert(dec(a) =~= s + seq!['@'] + dec(x));
        lemma_none_eq(norm(s, iri), s, hp_text(dec(x), iri), dec(x), '@');
    } else {
        assert(x =~= a);
        lemma_hp_iff(a, iri);
    }
    if host_end(x) < x.len() { lemma_dec_at(x, host_end(x)); } else { assert(c_host(a) =~= x); }
    lemma_wft_host(c_host(a), iri);
}
// ---- the whole identifier
pub open spec fn onp(o: Option<Seq<u8>>, iri: bool) -> bool { match o { Some(x) => norm(dec(x), iri) == dec(x), None => true } }
pub open spec fn no_upper(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(0x41 <= #[trigger] s[i] <= 0x5a) }
/// each component is its own normalized text
pub open spec fn all_np(b: Seq<u8>, keep: bool, iri: bool) -> bool {
    no_upper(c_scheme(b)->Some_0) && (c_authority(b) matches Some(a) ==> auth_np(a, iri)) && norm(dec(c_path(b)), iri) == dec(c_path(b)) && path_np(c_path(b), c_authority(b) is Some, keep)
    && onp(c_query(b), iri) && onp(c_fragment(b), iri)
}
proof fn lemma_lob_id(s: Seq<u8>)
    ensures (lob(s) == s) == no_upper(s)
{
    if lob(s) == s { assert forall|i: int| 0 <= i < s.len() implies !(0x41 <= #[trigger] s[i] <= 0x5a) by { assert(lob(s)[i] == lowb(s[i])); } }
    else if no_upper(s) { assert(lob(s) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies lob(s)[i] == #[trigger] s[i] by { } } }
}
proof fn lemma_onp(o: Option<Seq<u8>>, iri: bool)
    requires v_opt(o)
    ensures (enco(o, true, iri) == o) == onp(o, iri)
{ if o is Some { decode_utf8_encode_utf8(o->Some_0); encode_utf8_decode_utf8(norm(dec(o->Some_0), iri)); } }
#[verifier::spinoff_prover]
pub proof fn lemma_all_iff(b: Seq<u8>, keep: bool, iri: bool)
    requires valid_utf8(b), g_uri(b, iri)
    ensures (normalized(b, keep, iri) == dec(b)) == all_np(b, keep, iri)
{
    hide(g_uri); hide(path_text); hide(auth_text); hide(auth_np); hide(path_np); hide(no_upper); hide(onp); hide(full_text); hide(g_authority); hide(sat); hide(norm); hide(g_path_abempty); hide(g_path_noauth);
    hide(g_scheme); hide(c_scheme); hide(c_authority); hide(c_path); hide(c_query); hide(c_fragment); hide(compose);
    lemma_normalized(b, keep, iri);
    assert(g_reference(b, iri)) by { reveal(g_uri); }
    lemma_comp_of(b, iri);
    lemma_ok_parts(b, iri);
    let s = c_scheme(b)->Some_0;
    let (a, p, q, f) = (c_authority(b), c_path(b), c_query(b), c_fragment(b));
    let pt = path_text(p, keep, a is Some, true, iri);
    lemma_lob_id(s);
    lemma_onp(q, iri);
    lemma_onp(f, iri);
    if a is Some { lemma_auth_iff(a->Some_0, iri); decode_utf8_encode_utf8(a->Some_0); encode_utf8_decode_utf8(auth_text(a->Some_0, iri)); }
    assert(a is None ==> !has_ss(p)) by { reveal(g_path_noauth); }
    lemma_path_iff(p, a is Some, keep, iri);
    decode_utf8_encode_utf8(p);
    encode_utf8_decode_utf8(pt);
    lemma_full_text(s, a, pt, q, f, true, iri);
    lemma_recompose(b);
    decode_utf8_encode_utf8(b);
    let t = normalized(b, keep, iri);
    encode_utf8_decode_utf8(t);
    if all_np(b, keep, iri) { assert(encode_utf8(t) == b); }
    if t == dec(b) { assert(encode_utf8(t) == b); }
}
// ---- the text after the authority
pub proof fn lemma_after(u: Seq<u8>, iri: bool)
    requires valid_utf8(u), ({ let k = first2(u, 0x3f, 0x23); wft(dec(pfx(u, k))) && wfto(t_query(sfx(u, k))) && wfto(t_fragment(sfx(u, k))) })
    ensures wft(dec(u)), ({ let k = first2(u, 0x3f, 0x23);
        (norm(dec(u), iri) == dec(u)) == (norm(dec(pfx(u, k)), iri) == dec(pfx(u, k)) && onp(t_query(sfx(u, k)), iri) && onp(t_fragment(sfx(u, k)), iri)) })
{
    let k = first2(u, 0x3f, 0x23);
    lemma_first(u, 0x3f, 0x23, 0x23, 0x23);
    if k < u.len() {
        let y = sfx(u, k + 1);
        let t = sfx(u, k);
        assert(sfx(t, 1) =~= y);
        assert(t[0] == u[k]);
        lemma_dec_at(u, k);
        if u[k] == 0x3f {
            let j = first1(y, 0x23);
            lemma_first(y, 0x23, 0x23, 0x23, 0x23);
            if j < y.len() {
                lemma_dec_at(y, j);
                lemma_norm_at(y, j, iri);
            } else { assert(pfx(y, j) =~= y); }
        }
        lemma_norm_at(u, k, iri);
    } else { assert(pfx(u, k) =~= u); assert(sfx(u, k).len() == 0); }
}
/// `p` begins with "/.//"
pub open spec fn lead(p: Seq<u8>) -> bool { p.len() >= 4 && p[0] == 0x2f && p[1] == 0x2e && p[2] == 0x2f && p[3] == 0x2f }
/// what the check looks at for dot segments
pub open spec fn span(p: Seq<u8>, strip: bool) -> Seq<u8> { if strip && lead(p) { sfx(p, 4) } else { p } }
pub open spec fn isd() -> spec_fn(Seq<u8>) -> bool { |x: Seq<u8>| isdot(x) }
proof fn lemma_lead(p: Seq<u8>)
    requires lead(p)
    ensures nodots(p, 2) == nodots(p, 3), !nodots(p, 0)
{
    assert(seg_start(p, 2) == 3);
    let y = sfx(p, 3);
    lemma_first(y, 0x2f, 0x2f, 0x2f, 0x2f);
    assert(y[0] == 0x2f);
    assert(first1(y, 0x2f) == 0) by { if first1(y, 0x2f) > 0 { assert(is4(y[0], 0x2f, 0x2f, 0x2f, 0x2f)); } }
    assert(seg_end(p, 2) == 3);
    assert(seg_name(p, 2) =~= Seq::<u8>::empty());
    assert(!dot1(Seq::<u8>::empty()) && !dot2(Seq::<u8>::empty())) by { assert(seg_name(p, 2).len() == 0); lemma_dot_chars(seg_name(p, 2)); }
    let x = sfx(p, 2);
    assert(sfx(p, 1) =~= seq![0x2eu8] + x);
    lemma_name_end(seq![0x2eu8], x);
    assert(seg_end(p, 0) == 2);
    assert(seg_name(p, 0) =~= seq![0x2eu8]);
}
/// the pieces looked at and the dot segments of the path
pub proof fn lemma_span(p: Seq<u8>, strip: bool, iri: bool)
    requires np(p, iri)
    ensures any_piece(span(p, strip), 0x2f, isd()) == !(nodots(p, 0) || (strip && dotpre(p, false)))
{
    hide(norm);
    lemma_pieces0(p, iri);
    assert(isd() =~= (|x: Seq<u8>| isdot(x)));
    if lead(p) {
        lemma_lead(p);
        if strip {
            lemma_norm_at(p, 0, iri);
            let a = sfx(p, 1);
            assert(a[0] == p[1]);
            let b = sfx(p, 2);
            lemma_norm_at(p, 2, iri);
            assert(sfx(p, 3)[0] == p[3]);
            lemma_norm_at(sfx(p, 3), 0, iri);
            assert(sfx(sfx(p, 3), 1) =~= sfx(p, 4));
            lemma_pieces(p, 4, iri);
        }
    }
}
pub open spec fn whole(b: Seq<u8>, keep: bool, strict: bool, iri: bool) -> bool {
    normalized(b, keep, iri) == dec(b) && (strict && c_authority(b) is None ==> nodots(c_path(b), 0))
}
/// the strict check is the default check on what RFC 3986 alone can normalize
pub proof fn lemma_strict(b: Seq<u8>, iri: bool)
    requires valid_utf8(b), g_uri(b, iri)
    ensures whole(b, false, true, iri) == (normalized(b, false, iri) == dec(b) && !(c_authority(b) is None && dotted(c_path(b))))
{
    hide(norm); hide(auth_np); hide(g_authority); hide(nodots); hide(dotpre); hide(no_upper); hide(normalized); hide(dotted); hide(path_np);
    assert(g_reference(b, iri)) by { reveal(g_uri); }
    lemma_all_iff(b, false, iri);
    lemma_wft_parts(b, iri);
    lemma_comp_of(b, iri);
    let p = c_path(b);
    if c_authority(b) is None && np(p, iri) && path_np(p, false, false) { lemma_dotted_iff(p, iri); }
}
/// all the parts of a valid identifier
pub proof fn lemma_whole_iff(b: Seq<u8>, keep: bool, strict: bool, iri: bool)
    requires valid_utf8(b), g_uri(b, iri), strict ==> !keep, valid_utf8(sfx(b, path_start(b)))
    ensures whole(b, keep, strict, iri) == (no_upper(c_scheme(b)->Some_0) && (c_authority(b) matches Some(a) ==> auth_np(a, iri))
        && ((keep && c_authority(b) is None && (c_path(b).len() == 0 || c_path(b)[0] != 0x2f)) || !any_piece(span(c_path(b), c_authority(b) is None && !strict), 0x2f, isd()))
        && norm(dec(sfx(b, path_start(b))), iri) == dec(sfx(b, path_start(b)))), c_authority(b) matches Some(a) ==> g_authority(a, iri), wft(dec(sfx(b, path_start(b)))), has_scheme(b),
{
    hide(norm); hide(auth_np); hide(g_authority); hide(nodots); hide(dotpre); hide(no_upper); hide(normalized);
    assert(g_reference(b, iri)) by { reveal(g_uri); }
    lemma_all_iff(b, keep, iri);
    lemma_wft_parts(b, iri);
    lemma_components(b, iri);
    lemma_comp_of(b, iri);
    let u = sfx(b, path_start(b));
    let r = rest(b);
    lemma_rest_bounds(r);
    lemma_first(b, 0x3a, 0x2f, 0x3f, 0x23);
    assert(u =~= sfx(r, r_path_start(r)));
    let k = first2(u, 0x3f, 0x23);
    assert(pfx(u, k) =~= c_path(b));
    assert(sfx(u, k) =~= r_tail(r));
    lemma_after(u, iri);
    let p = c_path(b);
    if np(p, iri) { lemma_span(p, c_authority(b) is None && !strict, iri); }
    if p.len() == 0 { assert(nodots(p, 0)) by { reveal(nodots); } }
    if dotpre(p, false) { reveal(dotpre); lemma_lead(p); assert(p[0] == 0x2f); }
    if c_authority(b) is Some { assert(!dotpre(p, true)) by { reveal(dotpre); } }
}

