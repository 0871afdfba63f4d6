#module parser::trusted
#file parser/trusted.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::parser::char::{hexdig, hexval};
use crate::parser::str::*;
use crate::spec::*;
use crate::types::*;
use crate::components::{RiReferenceComponents, Splitter, nz};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
pub use crate::parser::normcheck::*;
pub open spec fn ob(o: Option<&str>) -> Option<Seq<u8>> { match o { Some(s) => Some(s.spec_bytes()), None => None } }
#fn scheme_colon
#requires first1(i.spec_bytes(), 0x3a) < i.spec_bytes().len()
#ensures is_split_hole(i.spec_bytes(), first1(i.spec_bytes(), 0x3a), r.1.spec_bytes(), r.0.spec_bytes())
#fn scheme_colon_opt
#ensures r.0.spec_bytes() == rest(i.spec_bytes()), ob(r.1) == c_scheme(i.spec_bytes())
#fn slash_slash_authority_opt
#ensures r.0.spec_bytes() == sfx(i.spec_bytes(), r_path_start(i.spec_bytes())), ob(r.1) == r_authority(i.spec_bytes())
#fn until_query
#ensures ({ let b = i.spec_bytes(); let k = first2(b, 0x3f, 0x23); r.0.spec_bytes() == sfx(b, k) && r.1.spec_bytes() == pfx(b, k) })
#fn decompose_query_and_fragment
#requires i.spec_bytes().len() > 0 ==> i.spec_bytes()[0] == 0x3f || i.spec_bytes()[0] == 0x23
#ensures ob(r.0) == t_query(i.spec_bytes()), ob(r.1) == t_fragment(i.spec_bytes())
#fn decompose_iri_reference/decompose
#requires sch_end(i.spec_bytes()) != 0
#ensures r.wf(i.spec_bytes())
#closure 0 |s: &str| -> (r: Option<NonZeroUsize>) ensures nz(r) == (if s.spec_bytes().len() == 0 { -1 } else { s.spec_bytes().len() as int })
#closure 1 |s: &str| -> (r: Option<NonZeroUsize>) requires 0 < start + s.spec_bytes().len() < usize::MAX ensures nz(r) == start + s.spec_bytes().len()
#proof start
    let ghost b = i.spec_bytes();
    proof { lemma_rest_bounds(rest(b)); lemma_first_hash(b); lemma_query_pos(b); }
#fn decompose_iri_reference
#ensures r.iri == i, r.splitter.wf(i.bytes())
#proof start
    proof { i.valid(); lemma_components(i.bytes(), S::iri()); }
#fn extract_scheme
#ensures ob(r) == c_scheme(i.spec_bytes())
#fn extract_scheme_absolute
#requires has_scheme(i.spec_bytes())
#ensures Some(r.spec_bytes()) == c_scheme(i.spec_bytes())
#proof start
    proof { lemma_scheme_pos(i.spec_bytes()); }
#fn extract_authority
#ensures ob(r) == c_authority(i.spec_bytes())
#fn extract_authority_absolute
#requires has_scheme(i.spec_bytes())
#ensures ob(r) == c_authority(i.spec_bytes())
#proof start
    proof { lemma_scheme_pos(i.spec_bytes()); }
#fn extract_authority_relative
#requires sch_end(i.spec_bytes()) == -1
#ensures ob(r) == c_authority(i.spec_bytes())
#fn extract_authority_and_offset
#ensures ({ let b = i.spec_bytes(); match r {
    Some((a, o)) => c_authority(b) == Some(a.spec_bytes()) && o as int + a.spec_bytes().len() == auth_end(b), None => c_authority(b) is None } })
#closure 0 |s: &str| -> (r: usize) requires s.spec_bytes().len() + 3 < usize::MAX ensures r == s.spec_bytes().len() + 3
#proof start
    proof { lemma_rest_bounds(rest(i.spec_bytes())); }
#fn extract_path
#ensures r.spec_bytes() == c_path(i.spec_bytes())
#fn extract_path_absolute
#requires has_scheme(i.spec_bytes())
#ensures r.spec_bytes() == c_path(i.spec_bytes())
#proof start
    proof { lemma_scheme_pos(i.spec_bytes()); }
#fn extract_path_relative
#requires sch_end(i.spec_bytes()) == -1
#ensures r.spec_bytes() == c_path(i.spec_bytes())
#fn extract_query
#ensures ob(r) == c_query(i.spec_bytes())
#proof start
    proof { lemma_first_qf(i.spec_bytes()); }
#fn extract_query_absolute_iri
#requires c_fragment(i.spec_bytes()) is None
#ensures ob(r) == c_query(i.spec_bytes())
#proof start
    proof { lemma_first_qf(i.spec_bytes()); }
#fn split_fragment
#ensures ob(r.1) == c_fragment(iri.spec_bytes()), r.0.spec_bytes() == before_fragment(iri.spec_bytes())
#proof start
    proof { lemma_first_hash(iri.spec_bytes()); }
#fn extract_fragment
#ensures ob(r) == c_fragment(iri.spec_bytes())
#fn hexdigits_to_byte
#requires hexdig(vx_a0[0]), hexdig(vx_a0[1])
#ensures r as int == 16 * hexval(vx_a0[0]) + hexval(vx_a0[1])
#proof start
    proof {
        let u = vx_a0[0]; let l = vx_a0[1];
        assert(0x30u8 <= u && u <= 0x39u8 ==> (u << 4) == 16 * (u - 0x30u8)) by(bit_vector);
        assert(0x41u8 <= u && u <= 0x46u8 ==> (u << 4) == 16 * (u - 0x40u8)) by(bit_vector);
        assert(0x61u8 <= u && u <= 0x66u8 ==> (u << 4) == 16 * (u - 0x60u8)) by(bit_vector);
        assert(0x30u8 <= l && l <= 0x39u8 ==> (l & 0x0f) == l - 0x30u8) by(bit_vector);
        assert(0x41u8 <= l && l <= 0x46u8 ==> (l & 0x0f) == l - 0x40u8) by(bit_vector);
        assert(0x61u8 <= l && l <= 0x66u8 ==> (l & 0x0f) == l - 0x60u8) by(bit_vector);
        assert(9u8 << 4 == 144u8) by(bit_vector);
        assert(9i32 << 4 == 144i32) by(bit_vector);
    }
#fn take_xdigits2 subst=T->str rename=take_xdigits2_str
#requires s.spec_bytes().len() >= 2, hexdig(s.spec_bytes()[0]), hexdig(s.spec_bytes()[1])
#ensures ({ let b = s.spec_bytes(); r.0 as int == 16 * hexval(b[0]) + hexval(b[1]) && r.1.spec_bytes() == sfx(b, 2) })
#fn take_xdigits2 subst=T->[u8] rename=take_xdigits2_bytes
#requires s@.len() >= 2, hexdig(s@[0]), hexdig(s@[1])
#ensures ({ let b = s@; r.0 as int == 16 * hexval(b[0]) + hexval(b[1]) && r.1@ == sfx(b, 2) })
#fn is_ascii_only_host call=take_xdigits2->take_xdigits2_str
#attr #[verifier::loop_isolation(false)]
#requires crate::pct::wft(host@)
#ensures r == crate::pct::asciihost(host@)
#proof start
    let ghost h0 = host@;
#loop 0
    invariant crate::pct::wft(host@), crate::pct::asciihost(host@) == crate::pct::asciihost(h0)
    decreases host@.len()
#proof loop 0 start
    let ghost j = choose|j: int| 0 <= j < host@.len() && pos == encode_utf8(#[trigger] host@.take(j)).len() && crate::pct::host_stop(host@[j]) && forall|k: int| 0 <= k < j ==> !crate::pct::host_stop(#[trigger] host@[k]);
    proof { crate::pct::lemma_host_pos(host, j); }
#proof let after_pct
    proof { crate::pct::lemma_hex_head(after_pct); crate::pct::lemma_tv(host@.skip(j)); }
#proof tail
    proof {
        assert forall|i: int| 0 <= i < host@.len() implies (#[trigger] host@[i] as u32) < 0x80 && host@[i] != '%' by { assert(!crate::pct::host_stop(host@[i])); }
        assert(host@ + Seq::<char>::empty() =~= host@);
        crate::pct::lemma_asciihost_copy(host@, Seq::empty());
    }
#closure 0 |c: char| -> (r: bool) ensures r == ((c as u32) >= 0x80 || c == '%')
#end
