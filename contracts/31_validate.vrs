#module parser::validate
#file parser/validate.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::parser::char;
use crate::parser::char::{Cls, sat, pa, pn, hexdig, digit, alpha, scheme_c, userinfo_c};
use crate::parser::str::*;
use crate::spec::*;
use crate::validate::{Error, ErrorKind};
pub use crate::parser::validate::authority::{validate_authority, validate_host, validate_reg_name, validate_userinfo};
pub use crate::parser::validate::path::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec, crate::grammar::lemma_sat_empty};
#fn validate_scheme
#ensures r is Ok == g_scheme(i.spec_bytes())
#closure 0 |b: u8| -> (r: bool) ensures r == scheme_c(b)
#fn validate_query
#ensures r is Ok == is_sat(i.spec_bytes(), Cls::Query, S::iri())
#proof start
    proof { let _ = sat(i@, Cls::Query, S::iri()); }
#fn validate_fragment
#ensures r is Ok == is_sat(i.spec_bytes(), Cls::Fragment, S::iri())
#fn validate_authority_path_abempty
#ensures r is Ok == g_auth_path(i.spec_bytes(), S::iri())
#fn validate_uri
#ensures r is Ok == g_uri(i.spec_bytes(), S::iri())
#fn validate_uri_reference
#ensures r is Ok == g_reference(i.spec_bytes(), S::iri())
#fn validate_absolute_uri
#ensures r is Ok == g_absolute(i.spec_bytes(), S::iri())
#item enum UriReferenceRule
#fn UriReferenceRule::is_relative_allowed
#ensures r == (self is Any)
#fn UriReferenceRule::is_fragment_allowed
#ensures r == (self is Absolute || self is Any)
#fn validate_uri_reference_common
#ensures r is Ok == match ref_rule {
    UriReferenceRule::Absolute => g_uri(i.spec_bytes(), S::iri()),
    UriReferenceRule::AbsoluteWithoutFragment => g_absolute(i.spec_bytes(), S::iri()),
    UriReferenceRule::Any => g_reference(i.spec_bytes(), S::iri()),
}
#proof start
    proof { if has_scheme(i.spec_bytes()) { lemma_scheme_not_relative(i.spec_bytes(), S::iri()); } }
#fn validate_relative_ref
#ensures r is Ok == g_relative(i.spec_bytes(), S::iri())
#fn validate_after_path
#requires first == 0x3f || first == 0x23
#ensures r is Ok == (if first == 0x3f { let b = rest.spec_bytes(); let f = first1(b, 0x23);
        is_sat(pfx(b, f), Cls::Query, S::iri()) && (f < b.len() ==> accept_fragment && is_sat(sfx(b, f + 1), Cls::Fragment, S::iri())) }
    else { accept_fragment && is_sat(rest.spec_bytes(), Cls::Fragment, S::iri()) })
