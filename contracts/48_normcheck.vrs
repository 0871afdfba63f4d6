#module parser::normcheck
#file parser/trusted.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::spec::*;
use crate::parser::trusted::{scheme_colon, slash_slash_authority_opt, until_query, is_ascii_only_host, authority, ob};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
use crate::format::eq_str_display;
use crate::normalize::pct_case::{is_pct_case_normalized, NormalizedAsciiOnlyHost};
use crate::normalize::NormalizednessCheckMode;
use crate::isnorm::*;
use crate::nstext::normalized;
use crate::pct::{norm, wft, asciihost};
pub proof fn lemma_uri_head(b: Seq<u8>, iri: bool)
    requires g_uri(b, iri)
    ensures first1(b, 0x3a) < b.len(), sch_end(b) == first1(b, 0x3a), rest(b) == sfx(b, first1(b, 0x3a) + 1), c_scheme(b) == Some(pfx(b, first1(b, 0x3a)))
{ assert(has_scheme(b)); lemma_scheme_pos(b); }
pub proof fn lemma_after_bytes(b: Seq<u8>, a: Seq<u8>)
    requires a == sfx(rest(b), r_path_start(rest(b)))
    ensures a == sfx(b, path_start(b)), c_path(b) == pfx(a, first2(a, 0x3f, 0x23))
{ lemma_rest_bounds(rest(b)); crate::vx::lemma_first(b, 0x3a, 0x2f, 0x3f, 0x23); assert(a =~= sfx(b, path_start(b))); assert(c_path(b) =~= pfx(a, first2(a, 0x3f, 0x23))); }
pub proof fn lemma_span_is(p: Seq<u8>)
    ensures forall|l: Seq<u8>| l.len() == 4 && l[0] == 0x2f && l[1] == 0x2e && l[2] == 0x2f && l[3] == 0x2f ==> #[trigger] has_pfx(p, l) == lead(p)
{
    assert forall|l: Seq<u8>| l.len() == 4 && l[0] == 0x2f && l[1] == 0x2e && l[2] == 0x2f && l[3] == 0x2f implies #[trigger] has_pfx(p, l) == lead(p) by {
        if has_pfx(p, l) { let t = p.subrange(0, 4); assert(t[0] == p[0] && t[1] == p[1] && t[2] == p[2] && t[3] == p[3]); }
        if lead(p) { assert(p.subrange(0, 4) =~= l); }
    }
}
#fn is_normalized
#attr #[verifier::spinoff_prover]
#requires g_uri(i.spec_bytes(), S::iri())
#ensures r == whole(i.spec_bytes(), mode is PreserveAuthoritylessRelativePath, mode is Rfc3986, S::iri())
#proof start
    hide(g_uri); hide(whole); hide(norm); hide(normalized); hide(sch_end); hide(r_authority); hide(first1); hide(first2); hide(first3); hide(any_piece); hide(wft);
    let ghost b = i.spec_bytes();
    proof { lemma_uri_head(b, S::iri()); }
    let ghost keep = mode is PreserveAuthoritylessRelativePath;
    let ghost strict = mode is Rfc3986;
#closure 0 |b: u8| -> (r: bool) ensures r == (0x41 <= b <= 0x5a)
#closure 1 |segment: &str| -> (r: bool) ensures r == isd()(segment.spec_bytes())
#proof let after_authority
    proof { lemma_after_bytes(b, after_authority.spec_bytes()); lemma_whole_iff(b, mode is PreserveAuthoritylessRelativePath, mode is Rfc3986, S::iri()); }
#proof let authority_components
    proof { lemma_auth_iff(authority.spec_bytes(), S::iri()); assert forall|x: Seq<u8>| #[trigger] x.len() == 0 implies x == Seq::<u8>::empty() by { assert(x =~= Seq::<u8>::empty()); } }
#proof let path_span_no_dot_segments
    proof { lemma_span_is(path.spec_bytes());
        assert(path_span_no_dot_segments is None == (keep && authority is None && (path.spec_bytes().len() == 0 || path.spec_bytes()[0] != 0x2f)));
        assert(path_span_no_dot_segments matches Some(x) ==> x.spec_bytes() == span(path.spec_bytes(), authority is None && !strict));
        assert(path_span_no_dot_segments matches Some(x) ==> any_piece(x.spec_bytes(), '/' as u8, isd()) == any_piece(span(c_path(b), c_authority(b) is None && !strict), 0x2f, isd())); }
#proof tail
    proof {
        assert(path_span_no_dot_segments matches Some(x) ==> !any_piece(x.spec_bytes(), '/' as u8, isd()));
        assert(no_upper(c_scheme(b)->Some_0));
        assert(c_authority(b) matches Some(a) ==> auth_np(a, S::iri()));
    }
#end
