#module parser::char
#file parser/char.rs
#raw

use crate::spec::*;
use crate::vx::*;
#item const MASK_SCHEME_CONTINUE
#item const MASK_UNRESERVED
#item const MASK_GEN_DELIMS
#item const MASK_SUB_DELIMS
#item const MASK_PCHAR
#item const MASK_FRAG_QUERY
#item const MASK_USERINFO_IPVFUTUREADDR
#item const MASK_PCHAR_SLASH
#item const TABLE
#raw
// ---- RFC 3986 section 2 / RFC 3987 section 2.2 character classes ----
pub open spec fn alpha(c: u8) -> bool { (0x41 <= c <= 0x5a) || (0x61 <= c <= 0x7a) }
pub open spec fn digit(c: u8) -> bool { 0x30 <= c <= 0x39 }
pub open spec fn hexdig(c: u8) -> bool { digit(c) || (0x41 <= c <= 0x46) || (0x61 <= c <= 0x66) }
pub open spec fn unreserved(c: u8) -> bool { alpha(c) || digit(c) || c == 0x2d || c == 0x2e || c == 0x5f || c == 0x7e }
pub open spec fn gen_delims(c: u8) -> bool { c == 0x3a || c == 0x2f || c == 0x3f || c == 0x23 || c == 0x5b || c == 0x5d || c == 0x40 }
pub open spec fn sub_delims(c: u8) -> bool { c == 0x21 || c == 0x24 || c == 0x26 || c == 0x27 || c == 0x28 || c == 0x29 || c == 0x2a || c == 0x2b || c == 0x2c || c == 0x3b || c == 0x3d }
pub open spec fn pchar(c: u8) -> bool { unreserved(c) || sub_delims(c) || c == 0x3a || c == 0x40 }
pub open spec fn frag_query(c: u8) -> bool { pchar(c) || c == 0x2f || c == 0x3f }
pub open spec fn userinfo_c(c: u8) -> bool { unreserved(c) || sub_delims(c) || c == 0x3a }
pub open spec fn regname_c(c: u8) -> bool { unreserved(c) || sub_delims(c) }
pub open spec fn pchar_slash(c: u8) -> bool { pchar(c) || c == 0x2f }
pub open spec fn scheme_c(c: u8) -> bool { alpha(c) || digit(c) || c == 0x2b || c == 0x2d || c == 0x2e }

pub open spec fn unres_or_res(c: u8) -> bool { unreserved(c) || gen_delims(c) || sub_delims(c) }
pub open spec fn ucschar(c: char) -> bool {
    let v = c as u32;
    (0xA0 <= v <= 0xD7FF) || (0xF900 <= v <= 0xFDCF) || (0xFDF0 <= v <= 0xFFEF)
    || (0x10000 <= v <= 0xDFFFF && (v & 0xffff) <= 0xFFFD)
    || (0xE1000 <= v <= 0xEFFFD)
}
pub open spec fn iprivate(c: char) -> bool {
    let v = c as u32;
    (0xE000 <= v <= 0xF8FF) || (0xF0000 <= v <= 0xFFFFD) || (0x100000 <= v <= 0x10FFFD)
}
/// character classes allowed in one component: ASCII part and non-ASCII part
/// (`Varname`: `varchar` and dots of RFC 6570)
pub enum Cls { Query, Fragment, PcharSlash, Pchar, Userinfo, Regname, Varname }
pub open spec fn pa(k: Cls, c: u8) -> bool {
    match k {
        Cls::Query => frag_query(c), Cls::Fragment => frag_query(c), Cls::PcharSlash => pchar_slash(c),
        Cls::Pchar => pchar(c), Cls::Userinfo => userinfo_c(c), Cls::Regname => regname_c(c),
        Cls::Varname => alpha(c) || digit(c) || c == 0x5f || c == 0x2e,
    }
}
pub open spec fn pn(k: Cls, iri: bool, c: char) -> bool {
    iri && (ucschar(c) || (k is Query && iprivate(c)))
}
/// `*( allowed / pct-encoded )` over characters
pub open spec fn sat(s: Seq<char>, k: Cls, iri: bool) -> bool
    decreases s.len()
{
    if s.len() == 0 { true }
    else if s[0] == '%' {
        s.len() >= 3 && hexdig_c(s[1]) && hexdig_c(s[2]) && sat(s.skip(3), k, iri)
    } else if (s[0] as u32) < 0x80 {
        pa(k, s[0] as u8) && sat(s.skip(1), k, iri)
    } else {
        pn(k, iri, s[0]) && sat(s.skip(1), k, iri)
    }
}
pub open spec fn hexval(c: u8) -> int { if c <= 0x39 { c - 0x30 } else if c <= 0x46 { c - 0x41 + 10 } else { c - 0x61 + 10 } }
pub open spec fn hexdig_c(c: char) -> bool { (c as u32) < 0x80 && hexdig(c as u8) }
pub open spec fn ok_is_ascii_scheme_continue(i: int) -> bool { ((TABLE[i] & MASK_SCHEME_CONTINUE) != 0) == scheme_c(i as u8) }
pub open spec fn all_is_ascii_scheme_continue(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_scheme_continue(i - 1) && all_is_ascii_scheme_continue(i - 1) } }
proof fn at_is_ascii_scheme_continue(i: int, k: int) requires all_is_ascii_scheme_continue(i), 0 <= k < i ensures ok_is_ascii_scheme_continue(k) decreases i { if k < i - 1 { at_is_ascii_scheme_continue(i - 1, k) } }
pub open spec fn ok_is_ascii_unreserved(i: int) -> bool { ((TABLE[i] & MASK_UNRESERVED) != 0) == unreserved(i as u8) }
pub open spec fn all_is_ascii_unreserved(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_unreserved(i - 1) && all_is_ascii_unreserved(i - 1) } }
proof fn at_is_ascii_unreserved(i: int, k: int) requires all_is_ascii_unreserved(i), 0 <= k < i ensures ok_is_ascii_unreserved(k) decreases i { if k < i - 1 { at_is_ascii_unreserved(i - 1, k) } }
pub open spec fn ok_is_ascii_pchar(i: int) -> bool { ((TABLE[i] & MASK_PCHAR) != 0) == pchar(i as u8) }
pub open spec fn all_is_ascii_pchar(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_pchar(i - 1) && all_is_ascii_pchar(i - 1) } }
proof fn at_is_ascii_pchar(i: int, k: int) requires all_is_ascii_pchar(i), 0 <= k < i ensures ok_is_ascii_pchar(k) decreases i { if k < i - 1 { at_is_ascii_pchar(i - 1, k) } }
pub open spec fn ok_is_ascii_frag_query(i: int) -> bool { ((TABLE[i] & MASK_FRAG_QUERY) != 0) == frag_query(i as u8) }
pub open spec fn all_is_ascii_frag_query(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_frag_query(i - 1) && all_is_ascii_frag_query(i - 1) } }
proof fn at_is_ascii_frag_query(i: int, k: int) requires all_is_ascii_frag_query(i), 0 <= k < i ensures ok_is_ascii_frag_query(k) decreases i { if k < i - 1 { at_is_ascii_frag_query(i - 1, k) } }
pub open spec fn ok_is_ascii_userinfo_ipvfutureaddr(i: int) -> bool { ((TABLE[i] & MASK_USERINFO_IPVFUTUREADDR) != 0) == userinfo_c(i as u8) }
pub open spec fn all_is_ascii_userinfo_ipvfutureaddr(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_userinfo_ipvfutureaddr(i - 1) && all_is_ascii_userinfo_ipvfutureaddr(i - 1) } }
proof fn at_is_ascii_userinfo_ipvfutureaddr(i: int, k: int) requires all_is_ascii_userinfo_ipvfutureaddr(i), 0 <= k < i ensures ok_is_ascii_userinfo_ipvfutureaddr(k) decreases i { if k < i - 1 { at_is_ascii_userinfo_ipvfutureaddr(i - 1, k) } }
pub open spec fn ok_is_ascii_regname(i: int) -> bool { ((TABLE[i] & (MASK_UNRESERVED | MASK_SUB_DELIMS)) != 0) == regname_c(i as u8) }
pub open spec fn all_is_ascii_regname(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_regname(i - 1) && all_is_ascii_regname(i - 1) } }
proof fn at_is_ascii_regname(i: int, k: int) requires all_is_ascii_regname(i), 0 <= k < i ensures ok_is_ascii_regname(k) decreases i { if k < i - 1 { at_is_ascii_regname(i - 1, k) } }
pub open spec fn ok_is_ascii_pchar_slash(i: int) -> bool { ((TABLE[i] & MASK_PCHAR_SLASH) != 0) == pchar_slash(i as u8) }
pub open spec fn all_is_ascii_pchar_slash(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_pchar_slash(i - 1) && all_is_ascii_pchar_slash(i - 1) } }
proof fn at_is_ascii_pchar_slash(i: int, k: int) requires all_is_ascii_pchar_slash(i), 0 <= k < i ensures ok_is_ascii_pchar_slash(k) decreases i { if k < i - 1 { at_is_ascii_pchar_slash(i - 1, k) } }
pub open spec fn ok_is_ascii_unreserved_or_reserved(i: int) -> bool { ((TABLE[i] & (MASK_UNRESERVED | MASK_GEN_DELIMS | MASK_SUB_DELIMS)) != 0) == unres_or_res(i as u8) }
pub open spec fn all_is_ascii_unreserved_or_reserved(i: int) -> bool decreases i { if i <= 0 { true } else { ok_is_ascii_unreserved_or_reserved(i - 1) && all_is_ascii_unreserved_or_reserved(i - 1) } }
proof fn at_is_ascii_unreserved_or_reserved(i: int, k: int) requires all_is_ascii_unreserved_or_reserved(i), 0 <= k < i ensures ok_is_ascii_unreserved_or_reserved(k) decreases i { if k < i - 1 { at_is_ascii_unreserved_or_reserved(i - 1, k) } }
#fn is_ascii_scheme_continue
#requires c < 0x80
#ensures r == scheme_c(c)
#proof start
    proof { assert(all_is_ascii_scheme_continue(128)) by(compute); at_is_ascii_scheme_continue(128, c as int); }
#end
#fn is_ascii_unreserved
#requires c < 0x80
#ensures r == unreserved(c)
#proof start
    proof { assert(all_is_ascii_unreserved(128)) by(compute); at_is_ascii_unreserved(128, c as int); }
#end
#fn is_ascii_pchar
#requires c < 0x80
#ensures r == pchar(c)
#proof start
    proof { assert(all_is_ascii_pchar(128)) by(compute); at_is_ascii_pchar(128, c as int); }
#end
#fn is_ascii_frag_query
#requires c < 0x80
#ensures r == frag_query(c)
#proof start
    proof { assert(all_is_ascii_frag_query(128)) by(compute); at_is_ascii_frag_query(128, c as int); }
#end
#fn is_ascii_userinfo_ipvfutureaddr
#requires c < 0x80
#ensures r == userinfo_c(c)
#proof start
    proof { assert(all_is_ascii_userinfo_ipvfutureaddr(128)) by(compute); at_is_ascii_userinfo_ipvfutureaddr(128, c as int); }
#end
#fn is_ascii_regname
#requires c < 0x80
#ensures r == regname_c(c)
#proof start
    proof { assert(all_is_ascii_regname(128)) by(compute); at_is_ascii_regname(128, c as int); }
#end
#fn is_ascii_pchar_slash
#requires c < 0x80
#ensures r == pchar_slash(c)
#proof start
    proof { assert(all_is_ascii_pchar_slash(128)) by(compute); at_is_ascii_pchar_slash(128, c as int); }
#end
#fn is_ascii_unreserved_or_reserved
#requires c < 0x80
#ensures r == unres_or_res(c)
#proof start
    proof { assert(all_is_ascii_unreserved_or_reserved(128)) by(compute); at_is_ascii_unreserved_or_reserved(128, c as int); }
#end

#fn is_unreserved
#ensures r == (if (c as u32) < 0x80 { unreserved(c as u8) } else { pn(Cls::Regname, S::iri(), c) })
#fn is_nonascii_query
#ensures r == pn(Cls::Query, S::iri(), c)
#fn is_nonascii_fragment
#ensures r == pn(Cls::Fragment, S::iri(), c)
#fn is_nonascii_userinfo
#ensures r == pn(Cls::Userinfo, S::iri(), c)
#fn is_nonascii_regname
#ensures r == pn(Cls::Regname, S::iri(), c)
#fn is_ucschar
#ensures r == ucschar(c)
#proof start
    proof { let v = c as u32;
        assert(0x10000 <= v <= 0xDFFFF ==> (((v & 0xffff) <= 0xFFFD) == (
            0x10000 <= v <= 0x1FFFD || 0x20000 <= v <= 0x2FFFD || 0x30000 <= v <= 0x3FFFD || 0x40000 <= v <= 0x4FFFD
            || 0x50000 <= v <= 0x5FFFD || 0x60000 <= v <= 0x6FFFD || 0x70000 <= v <= 0x7FFFD || 0x80000 <= v <= 0x8FFFD
            || 0x90000 <= v <= 0x9FFFD || 0xA0000 <= v <= 0xAFFFD || 0xB0000 <= v <= 0xBFFFD || 0xC0000 <= v <= 0xCFFFD
            || 0xD0000 <= v <= 0xDFFFD))) by(bit_vector); }
#end
#fn is_utf8_byte_continue
#ensures r == (0x80 <= byte <= 0xbf)
#proof start
    proof { assert(((byte as i8) < -64i8) == (0x80u8 <= byte && byte <= 0xbfu8)) by(bit_vector); }
#end
