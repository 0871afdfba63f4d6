#module validate
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::spec::Spec;
use crate::parser::validate as parser;
use crate::parser::char::{Cls, sat, digit};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#file validate.rs
#item struct Error
#item enum ErrorKind
#fn Error::with_kind
#ensures r.kind == kind
#fn iri
#ensures r is Ok == g_uri(s.spec_bytes(), S::iri())
#fn iri_reference
#ensures r is Ok == g_reference(s.spec_bytes(), S::iri())
#fn absolute_iri
#ensures r is Ok == g_absolute(s.spec_bytes(), S::iri())
#fn relative_ref
#ensures r is Ok == g_relative(s.spec_bytes(), S::iri())
#fn scheme
#ensures r is Ok == g_scheme(s.spec_bytes())
#fn authority
#ensures r is Ok == g_authority(s.spec_bytes(), S::iri())
#fn host
#ensures r is Ok == g_host(s.spec_bytes(), S::iri())
#fn reg_name
#ensures r is Ok == g_regname_only(s.spec_bytes(), S::iri())
#fn port
#ensures r is Ok == all_digit(s.spec_bytes())
#closure 0 |b: u8| -> (r: bool) ensures r == digit(b)
#fn userinfo
#ensures r is Ok == is_sat(s.spec_bytes(), Cls::Userinfo, S::iri())
#fn path
#ensures r is Ok == is_sat(s.spec_bytes(), Cls::PcharSlash, S::iri())
#fn path_segment
#ensures r is Ok == is_sat(s.spec_bytes(), Cls::Pchar, S::iri())
#fn query
#ensures r is Ok == is_sat(s.spec_bytes(), Cls::Query, S::iri())
#fn fragment
#ensures r is Ok == is_sat(s.spec_bytes(), Cls::Fragment, S::iri())
#end
