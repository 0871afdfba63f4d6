#module parser::validate::authority
#file parser/validate/authority.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use core::mem;
use crate::parser::char;
use crate::parser::char::{Cls, sat, pa, pn, hexdig, digit, alpha, scheme_c, userinfo_c};
use crate::parser::str::*;
use crate::spec::*;
use crate::validate::{Error, ErrorKind};
use crate::parser::trusted as trusted_parser;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec, crate::grammar::lemma_sat_empty};
#fn validate_userinfo
#ensures r is Ok == is_sat(i.spec_bytes(), Cls::Userinfo, S::iri())
#fn is_dec_octet
#ensures r == g_dec_octet(i.spec_bytes())
#fn validate_ipv4address/validate_ipv4address_impl
#ensures r is Ok == g_ipv4(i.spec_bytes())
#fn validate_ipv4address
#ensures r is Ok == g_ipv4(i.spec_bytes())
#closure 0 |e: ()| -> (r: Error) ensures true
#item enum V6AddrPart
#raw
pub open spec fn v6_step_ok(b: Seq<u8>, rest: Seq<u8>, part: V6AddrPart) -> bool {
    let c = first1(b, 0x3a);
    match part {
        V6AddrPart::H16Omit => c < b.len() && g_h16(pfx(b, c)) && c + 1 < b.len() && b[c + 1] == 0x3a && rest == sfx(b, c + 2),
        V6AddrPart::H16Cont => c < b.len() && g_h16(pfx(b, c)) && !(c + 1 < b.len() && b[c + 1] == 0x3a) && rest == sfx(b, c + 1),
        V6AddrPart::H16End => c == b.len() && g_h16(b) && rest.len() == 0,
        V6AddrPart::V4 => c == b.len() && !g_h16(b) && g_ipv4(b) && rest.len() == 0,
        V6AddrPart::Omit => c == 0 && b.len() >= 2 && b[1] == 0x3a && rest == sfx(b, 2),
    }
}
pub open spec fn v6_step_err(b: Seq<u8>) -> bool {
    let c = first1(b, 0x3a);
    if c < b.len() { !g_h16(pfx(b, c)) && !(c == 0 && b.len() >= 2 && b[1] == 0x3a) }
    else { !g_h16(b) && !g_ipv4(b) }
}
/// what the loop of `validate_ipv6address` has left to establish
pub open spec fn v6_state(b: Seq<u8>, n: int, om: bool) -> bool {
    if om { g_ip6_tail(b, n) } else { g_ip6_from(b, n) }
}
pub proof fn lemma_dc(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures
        i <= first_dc(b, i) <= b.len(),
        first_dc(b, i) < b.len() ==> first_dc(b, i) + 1 < b.len() && b[first_dc(b, i)] == 0x3a && b[first_dc(b, i) + 1] == 0x3a,
        forall|j: int| #![trigger b[j]] i <= j < first_dc(b, i) && j + 1 < b.len() ==> !(b[j] == 0x3a && b[j + 1] == 0x3a),
    decreases b.len() - i
{
    if i + 1 < b.len() && !(b[i] == 0x3a && b[i + 1] == 0x3a) { lemma_dc(b, i + 1); }
}
pub proof fn lemma_dc_is(b: Seq<u8>, p: int)
    requires 0 <= p <= b.len(),
        p < b.len() ==> p + 1 < b.len() && b[p] == 0x3a && b[p + 1] == 0x3a,
        forall|j: int| #![trigger b[j]] 0 <= j < p && j + 1 < b.len() ==> !(b[j] == 0x3a && b[j + 1] == 0x3a),
    ensures first_dc(b, 0) == p
{
    lemma_dc(b, 0);
}
/// the first piece of a prefix that contains the first colon
proof fn lemma_pieces_step(b: Seq<u8>, v4: bool)
    requires first1(b, 0x3a) < b.len(), g_h16(pfx(b, first1(b, 0x3a)))
    ensures g_pieces(b, v4) == ({ let t = g_pieces(sfx(b, first1(b, 0x3a) + 1), v4); if t < 0 { -1 } else { 1 + t } })
{
}
proof fn lemma_step_cont(b: Seq<u8>, n: int)
    requires ({ let c = first1(b, 0x3a); c < b.len() && g_h16(pfx(b, c)) && c + 1 < b.len() && b[c + 1] != 0x3a }), n >= 0
    ensures g_ip6_from(b, n) == g_ip6_from(sfx(b, first1(b, 0x3a) + 1), n + 1)
{
    let c = first1(b, 0x3a);
    let r = sfx(b, c + 1);
    lemma_dc(b, 0);
    lemma_dc(r, 0);
    let q = first_dc(r, 0);
    let p = if q < r.len() { c + 1 + q } else { b.len() as int };
    assert forall|j: int| #![trigger b[j]] 0 <= j < p && j + 1 < b.len() implies !(b[j] == 0x3a && b[j + 1] == 0x3a) by {
        if j > c { assert(b[j] == r[j - c - 1]); assert(b[j + 1] == r[j - c]); }
    }
    if q < r.len() { assert(b[p] == r[q]); assert(b[p + 1] == r[q + 1]); }
    lemma_dc_is(b, p);
    if q < r.len() {
        assert(q != 0);
        let l = pfx(b, p);
        lemma_first_is(l, c, 0x3a, 0x3a, 0x3a, 0x3a);
        assert(pfx(l, c) =~= pfx(b, c));
        assert(sfx(l, c + 1) =~= pfx(r, q));
        assert(sfx(b, p + 2) =~= sfx(r, q + 2));
        lemma_pieces_step(l, false);
        lemma_pieces_ne(pfx(r, q), false);
    } else {
        lemma_pieces_step(b, true);
        lemma_pieces_ne(r, true);
    }
}
/// a valid piece list counts at least one unit
proof fn lemma_pieces_ne(b: Seq<u8>, v4: bool)
    ensures g_pieces(b, v4) != 0, g_pieces(b, v4) >= -1
    decreases b.len()
{
    let c = first1(b, 0x3a);
    if 0 <= c < b.len() { lemma_pieces_ne(sfx(b, c + 1), v4); }
}
proof fn lemma_step_omit(b: Seq<u8>, n: int)
    requires ({ let c = first1(b, 0x3a); c + 1 < b.len() && b[c + 1] == 0x3a && (c == 0 ==> n == 0) && (c > 0 ==> g_h16(pfx(b, c))) }), n >= 0
    ensures g_ip6_from(b, n) == g_ip6_tail(sfx(b, first1(b, 0x3a) + 2), if first1(b, 0x3a) == 0 { n } else { n + 1 })
{
    let c = first1(b, 0x3a);
    lemma_dc_is(b, c);
    if c > 0 {
        let l = pfx(b, c);
        lemma_first_is(l, c, 0x3a, 0x3a, 0x3a, 0x3a);
    }
    lemma_pieces_ne(sfx(b, c + 2), true);
}
proof fn lemma_no_colon(b: Seq<u8>, n: int)
    requires first1(b, 0x3a) == b.len()
    ensures g_ip6_from(b, n) == (g_pieces(b, true) >= 1 && n + g_pieces(b, true) == 8),
        g_pieces(b, true) == (if g_h16(b) { 1int } else if g_ipv4(b) { 2 } else { -1 }),
{
    lemma_dc(b, 0);
    lemma_dc_is(b, b.len() as int);
}
/// a malformed first piece
proof fn lemma_step_bad(b: Seq<u8>, n: int)
    requires b.len() > 0, ({ let c = first1(b, 0x3a); c < b.len() && !g_h16(pfx(b, c)) && !(c == 0 && b.len() >= 2 && b[1] == 0x3a) })
    ensures !g_ip6_from(b, n), !g_ip6_tail(b, n)
{
    let c = first1(b, 0x3a);
    lemma_dc(b, 0);
    let p = first_dc(b, 0);
    assert(g_pieces(b, true) == -1);
    if p < b.len() {
        assert(c <= p);
        let l = pfx(b, p);
        if c < p {
            lemma_first_is(l, c, 0x3a, 0x3a, 0x3a, 0x3a);
            assert(pfx(l, c) =~= pfx(b, c));
        } else {
            lemma_first_is(l, c, 0x3a, 0x3a, 0x3a, 0x3a);
        }
        assert(p != 0);
    }
}
/// one turn of the loop
proof fn lemma_v6_step(b: Seq<u8>, rest: Seq<u8>, part: V6AddrPart, n: int, om: bool)
    requires b.len() > 0, n >= 0, v6_step_ok(b, rest, part), (n > 0 && !om) ==> b[0] != 0x3a
    ensures match part {
        V6AddrPart::H16Omit => v6_state(b, n, om) == (!om && v6_state(rest, n + 1, true)),
        V6AddrPart::H16Cont => v6_state(b, n, om) == (rest.len() > 0 && v6_state(rest, n + 1, om))
            && (rest.len() > 0 ==> rest[0] != 0x3a),
        V6AddrPart::H16End => v6_state(b, n, om) == (if om { n + 1 <= 7 } else { n + 1 == 8 }),
        V6AddrPart::V4 => v6_state(b, n, om) == (if om { n + 2 <= 7 } else { n + 2 == 8 }),
        V6AddrPart::Omit => v6_state(b, n, om) == (!om && v6_state(rest, n, true)),
    }
{
    let c = first1(b, 0x3a);
    match part {
        V6AddrPart::H16Omit => {
            if !om { lemma_step_omit(b, n); }
            else {
                let r = sfx(b, c + 1);
                lemma_first_is(r, 0, 0x3a, 0x3a, 0x3a, 0x3a);
                assert(!g_h16(pfx(r, 0)));
                assert(g_pieces(r, true) == -1);
                lemma_pieces_step(b, true);
            }
        }
        V6AddrPart::H16Cont => {
            let r = sfx(b, c + 1);
            if r.len() > 0 {
                if !om { lemma_step_cont(b, n); }
                else { lemma_pieces_step(b, true); lemma_pieces_ne(r, true); }
            } else {
                assert(!g_h16(r));
                lemma_ipv4_len_or(r);
                assert(g_pieces(r, true) == -1);
                lemma_pieces_step(b, true);
                lemma_dc_is(b, b.len() as int);
            }
        }
        V6AddrPart::H16End => { lemma_no_colon(b, n); }
        V6AddrPart::V4 => { lemma_no_colon(b, n); }
        V6AddrPart::Omit => {
            if !om { lemma_step_omit(b, n); }
            else { assert(!g_h16(pfx(b, 0))); assert(g_pieces(b, true) == -1); }
        }
    }
}
proof fn lemma_v6_err(b: Seq<u8>, n: int, om: bool)
    requires v6_step_err(b), b.len() > 0
    ensures !v6_state(b, n, om)
{
    if first1(b, 0x3a) < b.len() { lemma_step_bad(b, n); } else { lemma_no_colon(b, n); }
}
proof fn lemma_ipv4_len_or(b: Seq<u8>)
    requires b.len() < 7
    ensures !g_ipv4(b)
{
    if g_ipv4(b) { lemma_ipv4_len(b); }
}
proof fn lemma_ipvf_not_v6(b: Seq<u8>)
    requires b.len() > 0, b[0] == 0x76 || b[0] == 0x56
    ensures !g_ipv6(b)
{
    let c = first1(b, 0x3a);
    if c < b.len() {
        assert(c > 0);
        assert(pfx(b, c)[0] == b[0]);
        assert(!all_hexdig(pfx(b, c)));
        lemma_step_bad(b, 0);
    } else {
        lemma_no_colon(b, 0);
        assert(!g_h16(b));
        if g_ipv4(b) {
            let d1 = first1(b, 0x2e);
            assert(pfx(b, d1)[0] == b[0]);
        }
    }
}
#fn split_v6_addr_part
#requires i.spec_bytes().len() > 0
#ensures match r {
    Ok((rest, part)) => v6_step_ok(i.spec_bytes(), rest.spec_bytes(), part),
    Err(_) => v6_step_err(i.spec_bytes()),
}
#closure 0 |b: u8| -> (r: bool) ensures r == hexdig(b)
#closure 1 |b: u8| -> (r: bool) ensures r == hexdig(b)
#proof start
    proof { if i.spec_bytes().len() < 7 { lemma_ipv4_len_or(i.spec_bytes()); } }
#fn validate_ipv6address
#attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#ensures r is Ok == g_ipv6(i.spec_bytes())
#proof start
    let ghost b0 = i.spec_bytes();
#loop 0
    invariant_except_break
        0 <= h16_count <= 8,
        (h16_count > 0 && !is_omitted && i.spec_bytes().len() > 0) ==> i.spec_bytes()[0] != 0x3a,
        (!is_omitted && i.spec_bytes().len() == 0) ==> h16_count == 0,
        g_ipv6(b0) == v6_state(i.spec_bytes(), h16_count as int, is_omitted),
    ensures
        0 <= h16_count <= 10,
        g_ipv6(b0) == (if is_omitted { h16_count < 8 } else { h16_count == 8 }),
    decreases i.spec_bytes().len()
#proof loop 0 start
    proof { if v6_step_err(i.spec_bytes()) { lemma_v6_err(i.spec_bytes(), h16_count as int, is_omitted); } }
#proof let rest
    proof { lemma_v6_step(i.spec_bytes(), rest.spec_bytes(), part, h16_count as int, is_omitted); }
#fn validate_authority
#ensures r is Ok == g_authority(i.spec_bytes(), S::iri())
#closure 0 |b: u8| -> (r: bool) ensures r == digit(b)
#fn validate_reg_name
#ensures r is Ok == g_regname_only(i.spec_bytes(), S::iri())
#proof start
    proof { let b = i.spec_bytes(); if is_sat(b, Cls::Regname, S::iri()) && is_bracketed(b) { crate::text::lemma_is_sat_byte(b, Cls::Regname, S::iri(), 0); } }
#fn validate_host
#ensures r is Ok == g_host(i.spec_bytes(), S::iri())
#closure 0 || -> (r: Option<&str>) ensures ({ let b = maybe_addr.spec_bytes(); match r {
    Some(t) => b.len() > 0 && b[0] == 0x56 && t.spec_bytes() == sfx(b, 1),
    None => b.len() == 0 || b[0] != 0x56 } })
#closure 1 |b: u8| -> (r: bool) ensures r == hexdig(b)
#proof start
    proof {
        let b = i.spec_bytes();
        if is_bracketed(b) {
            let a = b.subrange(1, b.len() - 1);
            if a.len() > 0 && (a[0] == 0x76 || a[0] == 0x56) { lemma_ipvf_not_v6(a); }
        }
    }
