#module grammar
#raw
// RFC 3986 (and RFC 3987 with `iri`) grammar over the byte sequence of a string.
use crate::vx::*;
use crate::parser::char::*;
broadcast use {crate::vx::group_vx};

pub open spec fn is_sat(b: Seq<u8>, k: Cls, iri: bool) -> bool { sat(dec(b), k, iri) }
pub open spec fn all_hexdig(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> hexdig(#[trigger] b[i]) }
pub open spec fn all_digit(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> digit(#[trigger] b[i]) }
pub open spec fn all_scheme(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> scheme_c(#[trigger] b[i]) }
/// scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
pub open spec fn g_scheme(b: Seq<u8>) -> bool {
    b.len() > 0 && alpha(b[0]) && all_scheme(sfx(b, 1))
}
pub open spec fn g_dec_octet(b: Seq<u8>) -> bool {
    (b.len() == 1 && digit(b[0]))
    || (b.len() == 2 && 0x31 <= b[0] <= 0x39 && digit(b[1]))
    || (b.len() == 3 && b[0] == 0x31 && digit(b[1]) && digit(b[2]))
    || (b.len() == 3 && b[0] == 0x32 && 0x30 <= b[1] <= 0x34 && digit(b[2]))
    || (b.len() == 3 && b[0] == 0x32 && b[1] == 0x35 && 0x30 <= b[2] <= 0x35)
}
/// dec-octet "." dec-octet "." dec-octet "." dec-octet
pub open spec fn g_ipv4(b: Seq<u8>) -> bool {
    let d1 = first1(b, 0x2e);
    let r1 = sfx(b, d1 + 1);
    let d2 = first1(r1, 0x2e);
    let r2 = sfx(r1, d2 + 1);
    let d3 = first1(r2, 0x2e);
    d1 < b.len() && d2 < r1.len() && d3 < r2.len()
    && g_dec_octet(pfx(b, d1)) && g_dec_octet(pfx(r1, d2)) && g_dec_octet(pfx(r2, d3)) && g_dec_octet(sfx(r2, d3 + 1))
}
/// h16 = 1*4HEXDIG
pub open spec fn g_h16(b: Seq<u8>) -> bool { 1 <= b.len() <= 4 && all_hexdig(b) }
/// number of 16-bit units of `piece *( ":" piece )` (the last piece may be an IPv4 address when `v4`), or -1
pub open spec fn g_pieces(b: Seq<u8>, v4: bool) -> int
    decreases b.len()
{
    let c = first1(b, 0x3a);
    if !(0 <= c < b.len()) {
        if g_h16(b) { 1 } else if v4 && g_ipv4(b) { 2 } else { -1 }
    } else if !g_h16(pfx(b, c)) { -1 }
    else { let t = g_pieces(sfx(b, c + 1), v4); if t < 0 { -1 } else { 1 + t } }
}
/// index of the first "::" at or after i (len when none)
pub open spec fn first_dc(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if i + 1 >= b.len() { b.len() as int }
    else if b[i] == 0x3a && b[i + 1] == 0x3a { i }
    else { first_dc(b, i + 1) }
}
/// IPv6address after `n` leading units (each followed by a colon) have been consumed
pub open spec fn g_ip6_from(b: Seq<u8>, n: int) -> bool {
    let p = first_dc(b, 0);
    if 0 <= p < b.len() {
        let l = if p == 0 && n == 0 { 0 } else { g_pieces(pfx(b, p), false) };
        let r = if p + 2 >= b.len() { 0 } else { g_pieces(sfx(b, p + 2), true) };
        l >= 0 && r >= 0 && n + l + r <= 7
    } else {
        g_pieces(b, true) >= 1 && n + g_pieces(b, true) == 8
    }
}
/// IPv6address: eight 16-bit units, or at most seven around one "::"
pub open spec fn g_ipv6(b: Seq<u8>) -> bool { g_ip6_from(b, 0) }
/// the part after "::" when `n` units precede it
pub open spec fn g_ip6_tail(b: Seq<u8>, n: int) -> bool {
    if b.len() == 0 { n <= 7 } else { g_pieces(b, true) >= 1 && n + g_pieces(b, true) <= 7 }
}
pub open spec fn all_ipvf(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> userinfo_c(#[trigger] b[i]) }
/// "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
pub open spec fn g_ipvfuture(b: Seq<u8>) -> bool {
    let r = sfx(b, 1);
    let d = first1(r, 0x2e);
    b.len() >= 1 && (b[0] == 0x76 || b[0] == 0x56)
    && d < r.len() && d >= 1 && all_hexdig(pfx(r, d)) && sfx(r, d + 1).len() >= 1 && all_ipvf(sfx(r, d + 1))
}
pub open spec fn is_bracketed(b: Seq<u8>) -> bool { b.len() >= 2 && b[0] == 0x5b && b[b.len() - 1] == 0x5d }
/// host = IP-literal / IPv4address / reg-name
pub open spec fn g_host(b: Seq<u8>, iri: bool) -> bool {
    if is_bracketed(b) {
        let a = b.subrange(1, b.len() - 1);
        g_ipvfuture(a) || g_ipv6(a)
    } else { is_sat(b, Cls::Regname, iri) }
}
/// a host that is a registered name: `reg-name` text that is not an IPv4 address (RFC 3986: first match wins)
pub open spec fn g_regname_only(b: Seq<u8>, iri: bool) -> bool { is_sat(b, Cls::Regname, iri) && !g_ipv4(b) }
/// where the host ends inside `host [ ":" port ]`
pub open spec fn host_end(b: Seq<u8>) -> int {
    let c = last1(b, 0x3a);
    if c >= 0 && all_digit(sfx(b, c + 1)) { c } else { b.len() as int }
}
/// authority = [ userinfo "@" ] host [ ":" port ]
pub open spec fn g_authority(b: Seq<u8>, iri: bool) -> bool {
    let u = first1(b, 0x40);
    let hp = if u < b.len() { sfx(b, u + 1) } else { b };
    (u < b.len() ==> is_sat(pfx(b, u), Cls::Userinfo, iri)) && g_host(pfx(hp, host_end(hp)), iri)
}
/// path-abempty = *( "/" segment )
pub open spec fn g_path_abempty(b: Seq<u8>, iri: bool) -> bool {
    b.len() == 0 || (b[0] == 0x2f && is_sat(sfx(b, 1), Cls::PcharSlash, iri))
}
pub open spec fn ss() -> Seq<u8> { seq![0x2fu8, 0x2fu8] }
pub open spec fn has_ss(b: Seq<u8>) -> bool { b.len() >= 2 && b[0] == 0x2f && b[1] == 0x2f }
/// path-absolute / path-rootless / path-empty (`noscheme`: the first segment has no colon)
pub open spec fn g_path_noauth(b: Seq<u8>, noscheme: bool, iri: bool) -> bool {
    !has_ss(b) && is_sat(b, Cls::PcharSlash, iri)
    && (noscheme ==> ({ let k = first2(b, 0x2f, 0x3a); k < b.len() ==> b[k] == 0x2f }))
}
pub open spec fn g_auth_path(b: Seq<u8>, iri: bool) -> bool {
    let s = first1(b, 0x2f);
    g_authority(pfx(b, s), iri) && g_path_abempty(sfx(b, s), iri)
}
/// [ "?" query ] [ "#" fragment ]
pub open spec fn g_after_path(b: Seq<u8>, frag_ok: bool, iri: bool) -> bool {
    if b.len() == 0 { true }
    else if b[0] == 0x3f {
        let r = sfx(b, 1);
        let f = first1(r, 0x23);
        is_sat(pfx(r, f), Cls::Query, iri) && (f < r.len() ==> frag_ok && is_sat(sfx(r, f + 1), Cls::Fragment, iri))
    } else {
        b[0] == 0x23 && frag_ok && is_sat(sfx(b, 1), Cls::Fragment, iri)
    }
}
/// hier-part / relative-part, then query and fragment
pub open spec fn g_rest(b: Seq<u8>, noscheme: bool, frag_ok: bool, iri: bool) -> bool {
    let r = if has_ss(b) { sfx(b, 2) } else { b };
    let p = first2(r, 0x3f, 0x23);
    (if has_ss(b) { g_auth_path(pfx(r, p), iri) } else { g_path_noauth(pfx(r, p), noscheme, iri) })
    && g_after_path(sfx(r, p), frag_ok, iri)
}
pub open spec fn has_scheme(b: Seq<u8>) -> bool {
    let c = first1(b, 0x3a);
    c < b.len() && g_scheme(pfx(b, c))
}
pub open spec fn g_with_scheme(b: Seq<u8>, frag_ok: bool, iri: bool) -> bool {
    has_scheme(b) && g_rest(sfx(b, first1(b, 0x3a) + 1), false, frag_ok, iri)
}
/// URI / IRI
pub open spec fn g_uri(b: Seq<u8>, iri: bool) -> bool { g_with_scheme(b, true, iri) }
/// absolute-URI / absolute-IRI
pub open spec fn g_absolute(b: Seq<u8>, iri: bool) -> bool { g_with_scheme(b, false, iri) }
/// relative-ref / irelative-ref
pub open spec fn g_relative(b: Seq<u8>, iri: bool) -> bool { g_rest(b, true, true, iri) }
/// URI-reference / IRI-reference
pub open spec fn g_reference(b: Seq<u8>, iri: bool) -> bool { g_uri(b, iri) || g_relative(b, iri) }

pub broadcast proof fn lemma_sat_empty(b: Seq<u8>, k: Cls, iri: bool)
    requires b.len() == 0
    ensures #[trigger] is_sat(b, k, iri)
{
    reveal_with_fuel(decode_utf8, 1);
    assert(dec(b).len() == 0);
}
/// a string with a scheme is not a relative reference (its first segment has a colon)
pub proof fn lemma_scheme_not_relative(b: Seq<u8>, iri: bool)
    requires has_scheme(b)
    ensures !g_relative(b, iri)
{
    let c = first1(b, 0x3a);
    let s = pfx(b, c);
    assert(b[0] == s[0]);
    assert forall|i: int| 0 <= i < c implies scheme_c(#[trigger] b[i]) by { if i == 0 { assert(s[0] == b[0]); } else { assert(sfx(s, 1)[i - 1] == b[i]); } }
    let p = first2(b, 0x3f, 0x23);
    assert(p >= c) by { if p < c { assert(scheme_c(b[p])); } }
    assert(p != c);
    let path = pfx(b, p);
    assert(path[c] == 0x3a);
    let k = first2(path, 0x2f, 0x3a);
    assert(k == c) by {
        assert(k <= c);
        if k < c { assert(path[k] == b[k]); assert(scheme_c(b[k])); }
    }
}
/// absolute-URI is a subset of URI, which (like relative-ref) is a subset of URI-reference
pub proof fn lemma_inclusion(b: Seq<u8>, iri: bool)
    ensures g_absolute(b, iri) ==> g_uri(b, iri), g_uri(b, iri) ==> g_reference(b, iri), g_relative(b, iri) ==> g_reference(b, iri)
{
}
pub proof fn lemma_ipv4_len(b: Seq<u8>)
    requires g_ipv4(b)
    ensures 7 <= b.len() <= 15
{
    let d1 = first1(b, 0x2e);
    let r1 = sfx(b, d1 + 1);
    let d2 = first1(r1, 0x2e);
    let r2 = sfx(r1, d2 + 1);
    let d3 = first1(r2, 0x2e);
    assert(r2.len() >= 3);
}
