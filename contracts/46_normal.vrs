#module types::normal
#file types/generic/normal.rs
#raw
use crate::vx::*;
use crate::comp::*;
use crate::grammar::*;
use crate::spec::*;
use crate::types::*;
use crate::nstext::*;
use crate::parser::trusted::ob;
use crate::normalize::*;
use crate::normalize::error::Error;
use crate::resolve::*;
use crate::mask_password::PasswordMasked;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
use crate::parser::trusted as trusted_parser;
#fn RiStr::normalize call=NormalizationInput::from->input_from_iri
#ensures r.input.wf(), r.input.vw(S::iri()), r.input.is_of(self.bytes(), NormalizationMode::Default), r.input.tx(S::iri()) == normalized(self.bytes(), false, S::iri())
#fn RiStr::normalize_but_preserve_authorityless_relative_path call=NormalizationInput::from->input_from_iri
#ensures r.input.wf(), r.input.vw(S::iri()), r.input.is_of(self.bytes(), NormalizationMode::PreserveAuthoritylessRelativePath), r.input.tx(S::iri()) == normalized(self.bytes(), true, S::iri())
#fn RiStr::ensure_rfc3986_normalizable call=NormalizationInput::from->input_from_iri
#ensures (r is Err) == (c_authority(self.bytes()) is None && crate::ptext::dotted(c_path(self.bytes())))
#fn RiStr::is_normalized
#ensures r == (normalized(self.bytes(), false, S::iri()) == crate::vx::dec(self.bytes()))
#proof start
    proof { self.valid(); }
#fn RiStr::is_normalized_rfc3986
#ensures r == (normalized(self.bytes(), false, S::iri()) == crate::vx::dec(self.bytes()) && !(c_authority(self.bytes()) is None && crate::ptext::dotted(c_path(self.bytes()))))
#proof start
    proof { self.valid(); crate::isnorm::lemma_strict(self.bytes(), S::iri()); }
#fn RiStr::is_normalized_but_authorityless_relative_path_preserved
#ensures r == (normalized(self.bytes(), true, S::iri()) == crate::vx::dec(self.bytes()))
#proof start
    proof { self.valid(); }
#fn RiStr::mask_password
#ensures r.iri_ref == self
#file types/generic/absolute.rs
#fn RiAbsoluteStr::normalize call=NormalizationInput::from->input_from_absolute
#ensures r.input.wf(), r.input.fragment is None, r.input.vw(S::iri()), r.input.is_of(self.bytes(), NormalizationMode::Default), r.input.tx(S::iri()) == normalized(self.bytes(), false, S::iri())
#fn RiAbsoluteStr::normalize_but_preserve_authorityless_relative_path call=NormalizationInput::from->input_from_absolute
#ensures r.input.wf(), r.input.fragment is None, r.input.vw(S::iri()), r.input.is_of(self.bytes(), NormalizationMode::PreserveAuthoritylessRelativePath), r.input.tx(S::iri()) == normalized(self.bytes(), true, S::iri())
#fn RiAbsoluteStr::ensure_rfc3986_normalizable call=NormalizationInput::from->input_from_absolute
#ensures (r is Err) == (c_authority(self.bytes()) is None && crate::ptext::dotted(c_path(self.bytes())))
#fn RiAbsoluteStr::is_normalized
#ensures r == (normalized(self.bytes(), false, S::iri()) == crate::vx::dec(self.bytes()))
#proof start
    proof { self.valid(); crate::grammar::lemma_inclusion(self.bytes(), S::iri()); }
#fn RiAbsoluteStr::is_normalized_rfc3986
#ensures r == (normalized(self.bytes(), false, S::iri()) == crate::vx::dec(self.bytes()) && !(c_authority(self.bytes()) is None && crate::ptext::dotted(c_path(self.bytes()))))
#proof start
    proof { self.valid(); crate::grammar::lemma_inclusion(self.bytes(), S::iri()); crate::isnorm::lemma_strict(self.bytes(), S::iri()); }
#fn RiAbsoluteStr::is_normalized_but_authorityless_relative_path_preserved
#ensures r == (normalized(self.bytes(), true, S::iri()) == crate::vx::dec(self.bytes()))
#proof start
    proof { self.valid(); crate::grammar::lemma_inclusion(self.bytes(), S::iri()); }
#fn RiAbsoluteStr::mask_password
#ensures r.iri_ref == self
#end
