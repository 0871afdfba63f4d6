#module parser::validate::path
#file parser/validate/path.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::parser::char;
use crate::parser::char::{Cls, sat, pa, pn};
use crate::parser::str::*;
use crate::spec::*;
use crate::validate::{Error, ErrorKind};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#fn validate_path_abempty
#ensures r is Ok == g_path_abempty(i.spec_bytes(), S::iri())
#fn validate_path_absolute_authority_absent
#requires !has_ss(i.spec_bytes())
#ensures r is Ok == g_path_noauth(i.spec_bytes(), false, S::iri())
#fn validate_path_relative_authority_absent
#requires !has_ss(i.spec_bytes())
#ensures r is Ok == g_path_noauth(i.spec_bytes(), true, S::iri())
#fn validate_path
#ensures r is Ok == is_sat(i.spec_bytes(), Cls::PcharSlash, S::iri())
#fn validate_path_segment
#ensures r is Ok == is_sat(i.spec_bytes(), Cls::Pchar, S::iri())
