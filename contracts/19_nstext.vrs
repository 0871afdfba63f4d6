#module nstext
#raw
// The text of a resolved and normalized identifier (RFC 3986 5.2.2, 5.3, 6.2.2).
use crate::vx::*;
use crate::pct::*;
use crate::ptext::*;
use crate::grammar::*;
use crate::comp::*;
use crate::compose::*;
use crate::text::*;
use crate::parser::char::*;
use crate::vfmt::Write;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx};
// ---- RFC 3986 5.2.2: the components of the target
pub open spec fn t_scheme(b: Seq<u8>, r: Seq<u8>) -> Option<Seq<u8>> { if c_scheme(r) is Some { c_scheme(r) } else { c_scheme(b) } }
pub open spec fn t_authority(b: Seq<u8>, r: Seq<u8>) -> Option<Seq<u8>> { if c_scheme(r) is Some || c_authority(r) is Some { c_authority(r) } else { c_authority(b) } }
/// RFC 3986 5.2.3
pub open spec fn merge(b: Seq<u8>, p: Seq<u8>) -> Seq<u8> {
    if c_authority(b) is Some && c_path(b).len() == 0 { seq![0x2fu8] + p }
    else { let k = last1(c_path(b), 0x2f); if k >= 0 { pfx(c_path(b), k + 1) + p } else { p } }
}
/// the path before dot segments are removed
pub open spec fn t_path(b: Seq<u8>, r: Seq<u8>) -> Seq<u8> {
    if c_scheme(r) is Some || c_authority(r) is Some { c_path(r) }
    else if c_path(r).len() == 0 { c_path(b) }
    else if c_path(r)[0] == 0x2f { c_path(r) }
    else { merge(b, c_path(r)) }
}
/// the path is taken from the base as it is
pub open spec fn t_done(r: Seq<u8>) -> bool { c_scheme(r) is None && c_authority(r) is None && c_path(r).len() == 0 }
pub open spec fn t_query(b: Seq<u8>, r: Seq<u8>) -> Option<Seq<u8>> { if t_done(r) && c_query(r) is None { c_query(b) } else { c_query(r) } }
pub open spec fn t_fragment(b: Seq<u8>, r: Seq<u8>) -> Option<Seq<u8>> { c_fragment(r) }
// ---- RFC 3986 6.2.2: the text of the components
/// host and port: without an empty port; an ASCII host in lowercase
pub open spec fn hp_text(s: Seq<char>, iri: bool) -> Seq<char> {
    let h = if s.len() > 0 && s.last() == ':' { s.drop_last() } else { s };
    if asciihost(h) { normhost(h) } else { norm(h, iri) }
}
pub open spec fn auth_text(a: Seq<u8>, iri: bool) -> Seq<char> {
    let k = last1(a, 0x40);
    if k >= 0 { norm(dec(pfx(a, k)), iri) + seq!['@'] + hp_text(dec(sfx(a, k + 1)), iri) } else { hp_text(dec(a), iri) }
}
pub open spec fn opt_text(pre: Seq<char>, o: Option<Seq<u8>>, pct: bool, iri: bool) -> Seq<char> { match o { Some(b) => pre + nm(b, pct, iri), None => Seq::empty() } }
/// scheme ":" [ "//" authority ] path [ "?" query ] [ "#" fragment ]
pub open spec fn full_text(s: Seq<u8>, a: Option<Seq<u8>>, path: Seq<char>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, pct: bool, iri: bool) -> Seq<char> {
    (if pct { lowers(dec(s)) } else { dec(s) }) + seq![':']
    + (match a { Some(b) => seq!['/', '/'] + (if pct { auth_text(b, iri) } else { dec(b) }), None => Seq::empty() })
    + path + opt_text(seq!['?'], q, pct, iri) + opt_text(seq!['#'], f, pct, iri)
}
pub open spec fn wfto(o: Option<Seq<u8>>) -> bool { match o { Some(b) => wft(dec(b)), None => true } }
// ---- the components of a valid identifier have well-formed triplets
pub proof fn lemma_wft_plain(s: Seq<char>)
    requires nopct(s)
    ensures wft(s)
{ lemma_wft_copy(s, Seq::empty()); assert(s + Seq::<char>::empty() =~= s); }
pub proof fn lemma_ascii_nopct(b: Seq<u8>)
    requires valid_utf8(b), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0x25u8
    ensures wft(dec(b))
{ lemma_no_byte_nopct(b); lemma_wft_plain(dec(b)); }
/// a text splits at an ASCII byte that is no part of a triplet
pub proof fn lemma_dec_at(b: Seq<u8>, k: int)
    requires valid_utf8(b), 0 <= k < b.len(), b[k] < 0x80u8
    ensures dec(b) == dec(pfx(b, k)) + (seq![b[k] as char] + dec(sfx(b, k + 1))), valid_utf8(pfx(b, k)), valid_utf8(sfx(b, k + 1)),
        !hexdig_c(b[k] as char) && b[k] != 0x25 ==> wft(dec(b)) == (wft(dec(pfx(b, k))) && wft(dec(sfx(b, k + 1)))),
{
    lemma_ascii_at(b, k);
    lemma_ascii_boundary(b, k);
    lemma_valid_split(b, k);
    lemma_valid_split(b, k + 1);
    lemma_dec1(b[k]);
    let (x, c, y) = (pfx(b, k), seq![b[k]], sfx(b, k + 1));
    assert(b =~= x + (c + y));
    lemma_dec_cat(c, y);
    lemma_dec_cat(x, c + y);
    let t = seq![b[k] as char] + dec(y);
    if !hexdig_c(b[k] as char) && b[k] != 0x25 {
        lemma_wft_cut(dec(x), t);
        assert(nopct(seq![b[k] as char]));
        lemma_wft_copy(seq![b[k] as char], dec(y));
    }
}
/// a bracketed host is ASCII without a percent sign
pub proof fn lemma_bracketed_bytes(b: Seq<u8>)
    requires is_bracketed(b), g_host(b, true) || g_host(b, false)
    ensures forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80 && b[i] != 0x25
{
    let a = b.subrange(1, b.len() - 1);
    if g_ipv6(a) { lemma_ipv6_bytes(a); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 0x80 && b[i] != 0x25 by {
        if 1 <= i < b.len() - 1 {
            assert(a[i - 1] == b[i]);
            if !g_ipv6(a) {
                let r = sfx(a, 1);
                let d = first1(r, 0x2e);
                if i >= 2 {
                    assert(r[i - 2] == b[i]);
                    if i - 2 < d { assert(pfx(r, d)[i - 2] == b[i]); }
                    else if i - 2 > d { assert(sfx(r, d + 1)[i - 3 - d] == b[i]); }
                }
            }
        }
    }
}
pub proof fn lemma_wft_host(b: Seq<u8>, iri: bool)
    requires g_host(b, iri), valid_utf8(b)
    ensures wft(dec(b))
{
    if is_bracketed(b) { lemma_bracketed_bytes(b); lemma_ascii_nopct(b); }
    else { lemma_sat_wft(dec(b), Cls::Regname, iri); }
}
pub proof fn lemma_wft_authority(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a)
    ensures wft(dec(a))
{
    let h = host_start(a);
    lemma_host_valid(a, iri);
    lemma_port_pos(a, iri);
    let x = sfx(a, h);
    assert(h == 0 ==> x =~= a);
    if h > 0 { lemma_ascii_boundary(a, h - 1); }
    lemma_valid_split(a, h);
    lemma_host_end(x);
    let e = host_end(x);
    if e < x.len() {
        lemma_dec_at(x, e);
        lemma_wft_host(pfx(x, e), iri);
        let p = sfx(x, e + 1);
        assert(forall|i: int| 0 <= i < p.len() ==> digit(#[trigger] p[i]));
        lemma_ascii_nopct(p);
    } else { assert(pfx(x, e) =~= x); lemma_wft_host(x, iri); }
    if h > 0 {
        lemma_dec_at(a, h - 1);
        lemma_sat_wft(dec(pfx(a, h - 1)), Cls::Userinfo, iri);
    }
}
pub proof fn lemma_wft_path(p: Seq<u8>, auth: bool, iri: bool)
    requires valid_utf8(p), if auth { g_path_abempty(p, iri) } else { is_sat(p, Cls::PcharSlash, iri) }
    ensures wft(dec(p))
{
    if auth {
        if p.len() == 0 { lemma_dec_empty(p); }
        else { lemma_dec_at(p, 0); lemma_sat_wft(dec(sfx(p, 1)), Cls::PcharSlash, iri); lemma_dec_empty(pfx(p, 0)); }
    } else { lemma_sat_wft(dec(p), Cls::PcharSlash, iri); }
}
/// the components of a valid identifier have well-formed triplets
pub proof fn lemma_wft_parts(b: Seq<u8>, iri: bool)
    requires g_reference(b, iri), valid_utf8(b)
    ensures wfto(c_authority(b)), wft(dec(c_path(b))), wfto(c_query(b)), wfto(c_fragment(b)), valid_utf8(c_path(b)), v_opt(c_authority(b)), v_opt(c_query(b)), v_opt(c_fragment(b)),
        ok_parts(c_scheme(b), c_authority(b), c_path(b), c_query(b), c_fragment(b), iri),
{
    lemma_ok_parts(b, iri);
    if c_authority(b) is Some { lemma_wft_authority(c_authority(b)->Some_0, iri); lemma_wft_path(c_path(b), true, iri); } else { lemma_wft_path(c_path(b), false, iri); }
    if c_query(b) is Some { lemma_sat_wft(dec(c_query(b)->Some_0), Cls::Query, iri); }
    if c_fragment(b) is Some { lemma_sat_wft(dec(c_fragment(b)->Some_0), Cls::Fragment, iri); }
}
/// the last character and the last byte
pub proof fn lemma_last_colon(b: Seq<u8>)
    requires valid_utf8(b)
    ensures (dec(b).len() > 0 && dec(b).last() == ':') == (b.len() > 0 && b.last() == 0x3a),
        b.len() > 0 && b.last() == 0x3a ==> dec(pfx(b, b.len() - 1)) == dec(b).drop_last() && wft(dec(b)) == wft(dec(pfx(b, b.len() - 1))),
{
    let s = dec(b);
    if b.len() > 0 && b.last() == 0x3a {
        let k = b.len() - 1;
        lemma_dec_at(b, k);
        lemma_dec_empty(sfx(b, k + 1));
        let p = dec(pfx(b, k));
        assert(s =~= p.push(':'));
        assert(s.drop_last() =~= p);
    } else if s.len() > 0 && s.last() == ':' {
        decode_utf8_encode_utf8(b);
        assert(s =~= s.drop_last() + seq![':']);
        encode_utf8_concat(s.drop_last(), seq![':']);
        crate::vstring::lemma_enc1(':');
        assert(b.last() == 0x3a);
    }
}
pub proof fn lemma_auth_cut(a: Seq<u8>)
    requires valid_utf8(a), wft(dec(a)), last1(a, 0x40) >= 0
    ensures ({ let k = last1(a, 0x40); wft(dec(pfx(a, k))) && wft(dec(sfx(a, k + 1))) })
{ lemma_dec_at(a, last1(a, 0x40)); }
pub proof fn lemma_lits2()
    ensures forall|b: Seq<u8>| b.len() == 2 && b[0] == 0x2f && b[1] == 0x2f ==> #[trigger] decode_utf8(b) == seq!['/', '/'],
        forall|b: Seq<u8>| b.len() == 1 && b[0] < 0x80 ==> #[trigger] decode_utf8(b) == seq![b[0] as char],
{
    assert forall|b: Seq<u8>| b.len() == 2 && b[0] == 0x2f && b[1] == 0x2f implies #[trigger] decode_utf8(b) == seq!['/', '/'] by { lemma_ascii_dec(b, seq!['/', '/']); }
    assert forall|b: Seq<u8>| b.len() == 1 && b[0] < 0x80 implies #[trigger] decode_utf8(b) == seq![b[0] as char] by { lemma_ascii_dec(b, seq![b[0] as char]); }
}
pub proof fn lemma_assoc(s: Seq<char>, c: Seq<char>, a: Seq<char>, p: Seq<char>, q: Seq<char>, f: Seq<char>)
    ensures s + c + a + p + q + f == s + (c + (a + (p + (q + f))))
{ assert(s + c + a + p + q + f =~= s + (c + (a + (p + (q + f))))); }
/// the pieces of an identifier are written one after the other
pub proof fn lemma_chain<W: Write>(g0: W, s: Seq<u8>, a: Option<Seq<u8>>, path: Seq<char>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, pct: bool, iri: bool)
    ensures ({ let tt = full_text(s, a, path, q, f, pct, iri);
        let r5 = opt_text(seq!['#'], f, pct, iri);
        let r4 = opt_text(seq!['?'], q, pct, iri) + r5;
        let r3 = path + r4;
        let at = if pct { auth_text(a->Some_0, iri) } else { dec(a->Some_0) };
        let r2 = if a is Some { seq!['/', '/'] + (at + r3) } else { r3 };
        let r1 = seq![':'] + r2;
        let s0 = if pct { lowers(dec(s)) } else { dec(s) };
        let q0 = nm(q->Some_0, pct, iri);
        let f0 = nm(f->Some_0, pct, iri);
        prog(g0, tt, g0, s0 + r1) && step_to(g0, tt, s0 + r1, s0, r1) && step_to(g0, tt, r1, seq![':'], r2)
        && (a is Some ==> step_to(g0, tt, r2, seq!['/', '/'], at + r3) && step_to(g0, tt, at + r3, at, r3))
        && step_to(g0, tt, r3, path, r4)
        && (q is Some ==> step_to(g0, tt, r4, seq!['?'], q0 + r5) && step_to(g0, tt, q0 + r5, q0, r5))
        && (q is None ==> r4 == r5)
        && (f is Some ==> step_to(g0, tt, r5, seq!['#'], f0) && end_by(g0, tt, f0))
        && (f is None ==> r5.len() == 0) })
{
    hide(prog); hide(nm); hide(lowers); hide(auth_text);
    let tt = full_text(s, a, path, q, f, pct, iri);
    let r5 = opt_text(seq!['#'], f, pct, iri);
    let qt = opt_text(seq!['?'], q, pct, iri);
    let r4 = qt + r5;
    let r3 = path + r4;
    let at = if pct { auth_text(a->Some_0, iri) } else { dec(a->Some_0) };
    let a0 = match a { Some(b) => seq!['/', '/'] + at, None => Seq::empty() };
    let r2 = if a is Some { seq!['/', '/'] + (at + r3) } else { r3 };
    let r1 = seq![':'] + r2;
    let s0 = if pct { lowers(dec(s)) } else { dec(s) };
    let q0 = nm(q->Some_0, pct, iri);
    let f0 = nm(f->Some_0, pct, iri);
    lemma_assoc(s0, seq![':'], a0, path, qt, r5);
    if a is Some { assert(a0 + r3 =~= seq!['/', '/'] + (at + r3)); } else { assert(a0 + r3 =~= r3); }
    assert(tt == s0 + r1);
    lemma_prog_start(g0, tt);
    lemma_progs(g0, tt, s0 + r1, s0, r1);
    lemma_progs(g0, tt, r1, seq![':'], r2);
    if a is Some { lemma_progs(g0, tt, r2, seq!['/', '/'], at + r3); lemma_progs(g0, tt, at + r3, at, r3); }
    lemma_progs(g0, tt, r3, path, r4);
    if q is Some { assert(r4 =~= seq!['?'] + (q0 + r5)); lemma_progs(g0, tt, r4, seq!['?'], q0 + r5); lemma_progs(g0, tt, q0 + r5, q0, r5); } else { assert(r4 =~= r5); }
    if f is Some { lemma_progs(g0, tt, r5, seq!['#'], f0); lemma_progs_end(g0, tt, f0); }
}
/// writing `piece` leads from `rest` to `rest2`
#[verifier::prophetic]
pub open spec fn step_to<W: Write>(f0: W, tt: Seq<char>, rest: Seq<char>, piece: Seq<char>, rest2: Seq<char>) -> bool {
    (forall|f: W, f2: W| #[trigger] prog(f0, tt, f, rest) && #[trigger] W::wrote(f, piece, f2) ==> prog(f0, tt, f2, rest2))
    && (forall|f: W, f2: W| #[trigger] prog(f0, tt, f, rest) && #[trigger] W::failed(f, piece, f2) ==> W::failed(f0, tt, f2))
}
#[verifier::prophetic]
pub open spec fn end_by<W: Write>(f0: W, tt: Seq<char>, piece: Seq<char>) -> bool {
    (forall|f: W, f2: W| #[trigger] prog(f0, tt, f, piece) && #[trigger] W::wrote(f, piece, f2) ==> W::wrote(f0, tt, f2))
    && (forall|f: W, f2: W| #[trigger] prog(f0, tt, f, piece) && #[trigger] W::failed(f, piece, f2) ==> W::failed(f0, tt, f2))
}
/// RFC 3986 6.2.2: the normalized text of an identifier (`keep`: a relative path without authority is not resolved)
pub open spec fn normalized(b: Seq<u8>, keep: bool, iri: bool) -> Seq<char> {
    full_text(c_scheme(b)->Some_0, c_authority(b), path_text(c_path(b), keep, c_authority(b) is Some, true, iri), c_query(b), c_fragment(b), true, iri)
}
