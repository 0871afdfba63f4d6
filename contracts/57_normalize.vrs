#module normalize
#file normalize.rs
#raw
use crate::vx::*;
use crate::pct::*;
use crate::ptext::*;
use crate::nstext::*;
use crate::comp::*;
use crate::grammar::*;
use crate::compose::*;
use crate::parser::str::*;
use crate::parser::trusted::{ob, is_ascii_only_host};
use crate::spec::*;
use crate::types::*;
use crate::components::*;
use crate::normalize::path::*;
pub use crate::normalize::path::PathToNormalize;
use crate::normalize::pct_case::*;
pub use crate::normalize::error::Error;
use crate::vfmt as fmt;
use crate::vfmt::{Write, WriteExt, DisplayExt};
use core::marker::PhantomData;
use crate::format::VToString;
use crate::nvalid::{comp_ok, lemma_tx_ok, lemma_comp_of, lemma_target_ok};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item enum NormalizationMode
#item enum NormalizednessCheckMode
#item struct NormalizationOp
#item struct NormalizationInput
#raw
impl NormalizationMode {
    /// case and percent-encoding normalization takes place
    pub open spec fn pct(self) -> bool { !(self is None) }
    /// a path that is not absolute and has no authority is kept as it is
    pub open spec fn keep(self) -> bool { self is PreserveAuthoritylessRelativePath }
}
impl<'a> Path<'a> {
    pub open spec fn tx(self) -> Seq<u8> { match self { Path::Done(s) => s.spec_bytes(), Path::NeedsProcessing(p) => p.tx() } }
    pub open spec fn wf(self) -> bool { match self { Path::Done(_) => true, Path::NeedsProcessing(p) => p.wf() } }
}
impl<'a> NormalizationInput<'a> {
    pub open spec fn wf(self) -> bool {
        self.path.wf() && wft(dec(self.path.tx())) && wfto(ob(self.authority)) && wfto(ob(self.query)) && wfto(ob(self.fragment))
    }
    /// the text that is written
    pub open spec fn tx(self, iri: bool) -> Seq<char> {
        let pct = self.op.mode.pct();
        let path = if self.path is Done && !pct { dec(self.path.tx()) } else { path_text(self.path.tx(), self.op.mode.keep(), self.authority is Some, pct, iri) };
        full_text(self.scheme.spec_bytes(), ob(self.authority), path, ob(self.query), ob(self.fragment), pct, iri)
    }
    /// the components are those of a valid identifier whose path may need processing
    pub open spec fn vw(self, iri: bool) -> bool {
        comp_ok(self.scheme.spec_bytes(), ob(self.authority), self.path.tx(), ob(self.query), ob(self.fragment), self.path is Done, iri)
    }
    /// so the text is a valid identifier
    pub proof fn lemma_vw(self, iri: bool)
        requires self.vw(iri)
        ensures ({ let e = encode_utf8(self.tx(iri)); valid_utf8(e) && dec(e) == self.tx(iri) && g_uri(e, iri) && (self.fragment is None ==> g_absolute(e, iri)) })
    { lemma_tx_ok(self.scheme.spec_bytes(), ob(self.authority), self.path.tx(), ob(self.query), ob(self.fragment), self.op.mode.keep(), self.path is Done, self.op.mode.pct(), iri); }
    /// normalization by RFC 3986 alone is impossible
    pub open spec fn bad(self) -> bool { self.authority is None && !(self.path is Done) && dotted(self.path.tx()) }
    /// the components are those of the target of RFC 3986 5.2.2
    pub open spec fn is_target(self, b: Seq<u8>, r: Seq<u8>) -> bool {
        Some(self.scheme.spec_bytes()) == t_scheme(b, r) && ob(self.authority) == t_authority(b, r) && self.path.tx() == t_path(b, r) && (self.path is Done) == t_done(r)
        && ob(self.query) == crate::nstext::t_query(b, r) && ob(self.fragment) == crate::nstext::t_fragment(b, r) && self.op.mode is None
    }
    /// the components are those of one identifier
    pub open spec fn is_of(self, b: Seq<u8>, mode: NormalizationMode) -> bool {
        Some(self.scheme.spec_bytes()) == c_scheme(b) && ob(self.authority) == c_authority(b) && self.path.tx() == c_path(b) && !(self.path is Done)
        && ob(self.query) == c_query(b) && ob(self.fragment) == c_fragment(b) && self.op.mode == mode
    }
}
/// the components of the target have well-formed triplets
pub proof fn lemma_target_wf(b: Seq<u8>, r: Seq<u8>, iri: bool)
    requires g_reference(b, iri), g_reference(r, iri), valid_utf8(b), valid_utf8(r)
    ensures wft(dec(t_path(b, r))), wfto(t_authority(b, r)), wfto(crate::nstext::t_query(b, r)), wfto(crate::nstext::t_fragment(b, r))
{
    lemma_wft_parts(b, iri);
    lemma_wft_parts(r, iri);
    let (p, q) = (c_path(b), c_path(r));
    let k = last1(p, 0x2f);
    if k >= 0 {
        lemma_dec_at(p, k);
        assert(valid_utf8(pfx(p, k + 1))) by { crate::text::lemma_ascii_at(p, k); crate::vx::lemma_ascii_boundary(p, k); crate::text::lemma_valid_split(p, k + 1); }
        let h = pfx(p, k + 1);
        assert(h.last() == 0x2f && pfx(h, k) =~= pfx(p, k) && sfx(h, k + 1) =~= Seq::<u8>::empty());
        lemma_dec_at(h, k);
        lemma_dec_empty(Seq::empty());
        lemma_nm_cut(h, q, true, iri);
    }
    let s = seq![0x2fu8] + q;
    crate::text::lemma_dec1(0x2fu8);
    crate::text::lemma_dec_cat(seq![0x2fu8], q);
    assert(sfx(s, 1) =~= q && pfx(s, 0) =~= Seq::<u8>::empty());
    lemma_dec_empty(Seq::empty());
    lemma_dec_at(s, 0);
}
#fn NormalizationMode::case_pct_normalization
#ensures r == self.pct()
#item enum NormalizationInput::create_normalization_input/RefToplevel
#fn NormalizationInput::create_normalization_input/RefToplevel::choose_then rename=choose_then rankcmp
#requires if self.rank() <= component.rank() { call_requires(reference, ()) } else { call_requires(base, ()) }
#ensures if self.rank() <= component.rank() { call_ensures(reference, (), r) } else { call_ensures(base, (), r) }
#fn NormalizationInput::create_normalization_input ret=n
#requires r.wf(r_iri.spec_bytes()), b.wf(b_iri.spec_bytes()), c_scheme(b_iri.spec_bytes()) is Some
#ensures n.is_target(b_iri.spec_bytes(), r_iri.spec_bytes()), n.path.wf()
#closure 0 || -> (x: &str) requires b.wf(b_iri.spec_bytes()), c_scheme(b_iri.spec_bytes()) is Some ensures Some(x.spec_bytes()) == c_scheme(b_iri.spec_bytes())
#closure 1 || -> (x: Option<&str>) requires r.wf(r_iri.spec_bytes()) ensures ob(x) == c_authority(r_iri.spec_bytes())
#closure 2 || -> (x: Option<&str>) requires b.wf(b_iri.spec_bytes()) ensures ob(x) == c_authority(b_iri.spec_bytes())
#closure 3 || -> (x: Option<&str>) requires r.wf(r_iri.spec_bytes()) ensures ob(x) == c_query(r_iri.spec_bytes())
#closure 4 || -> (x: Option<&str>) requires b.wf(b_iri.spec_bytes()) ensures ob(x) == c_query(b_iri.spec_bytes())
#fn NormalizationInput::with_resolution_params call=RiReferenceComponents::from->RiReferenceComponents::from_reference ret=n
#requires base_components.splitter.wf(base_components.iri.bytes()), c_scheme(base_components.iri.bytes()) is Some
#ensures n.is_target(base_components.iri.bytes(), reference.bytes()), n.wf(), g_uri(base_components.iri.bytes(), S::iri()) ==> n.vw(S::iri())
#proof start
    proof { reference.valid(); base_components.iri.valid(); if g_uri(base_components.iri.bytes(), S::iri()) { lemma_target_ok(base_components.iri.bytes(), reference.bytes(), S::iri()); } lemma_target_wf(base_components.iri.bytes(), reference.bytes(), S::iri()); }
#fn NormalizationInput::<From<&'aRiStr<S>>>::from free rename=input_from_iri call=RiReferenceComponents::<S>::from->RiReferenceComponents::<S>::from_reference ret=n
#ensures n.is_of(iri.bytes(), NormalizationMode::None), n.wf(), n.vw(S::iri())
#proof start
    proof { iri.valid(); lemma_comp_of(iri.bytes(), S::iri()); lemma_ok_parts(iri.bytes(), S::iri()); lemma_wft_parts(iri.bytes(), S::iri()); }
#fn NormalizationInput::<From<&'aRiAbsoluteStr<S>>>::from free rename=input_from_absolute call=RiReferenceComponents::<S>::from->RiReferenceComponents::<S>::from_reference ret=n
#ensures n.is_of(iri.bytes(), NormalizationMode::None), n.wf(), n.vw(S::iri()), n.fragment is None
#proof start
    proof { iri.valid(); lemma_comp_of(iri.bytes(), S::iri()); lemma_ok_parts(iri.bytes(), S::iri()); lemma_wft_parts(iri.bytes(), S::iri()); }
#fn NormalizationInput::ensure_rfc3986_normalizable
#requires self.path.wf()
#ensures (r is Err) == self.bad()
#item struct NormalizedInner
#raw
impl<'a, S: Spec> fmt::Display for NormalizedInner<'a, S> { open spec fn text(&self) -> Seq<char> { self.input.tx(S::iri()) } open spec fn dok(&self) -> bool { self.input.wf() } }
#fn NormalizedInner::from_input
#ensures r.input == input
#fn normalize_scheme call=.to_ascii_lowercase->.vx_lower
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), lowers(scheme@), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), lowers(scheme@), *final(f))
#loop 0
    invariant
        vx_i0 is Some ==> scheme@.len() > vx_x0@.len() && vx_i0 == Some(scheme@[scheme@.len() - vx_x0@.len() - 1]) && vx_x0@ == scheme@.skip(scheme@.len() - vx_x0@.len()),
        vx_i0 is None ==> vx_x0@.len() == 0, f0.may() == old(f).may(), f0.out() == old(f).out(),
        vx_r0 is Ok ==> f.may() == f0.may() && f.out() == f0.out() + lowers(scheme@.take(scheme@.len() - vx_x0@.len() - (if vx_i0 is Some { 1int } else { 0 }))),
        vx_r0 is Err ==> f0.may(),
    decreases vx_x0@.len(), (if vx_i0 is Some { 1int } else { 0 }),
#proof loop 0 start
    let ghost k = scheme@.len() - vx_x0@.len() - 1;
    proof { lemma_lower_step(f0.out(), scheme@, k); }
#proof let vx_x0
    let ghost f0 = *f;
    proof { lemma_lower_start(f0.out(), scheme@); assert(scheme@.len() - 0 == scheme@.len()); }
#fn normalize_host_port call=.fmt->.vx_fmt
#requires wft(host_port@)
#ensures ({ let tt = hp_text(host_port@, S::iri()); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), tt, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), tt, *final(f))) })
#proof start
    proof { lemma_last_colon(host_port.spec_bytes()); }
#fn normalize_authority call=.fmt->.vx_fmt
#requires wft(authority@)
#ensures ({ let tt = auth_text(authority.spec_bytes(), S::iri()); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), tt, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), tt, *final(f))) })
#proof start
    proof { if last1(authority.spec_bytes(), 0x40) >= 0 { lemma_auth_cut(authority.spec_bytes()); } }
    let ghost o = f.out();
#proof bindtail
    proof { if vx_ret is Ok { assert(o + auth_text(authority.spec_bytes(), S::iri()) =~= f.out()); } }
#fn normalize_query call=.fmt->.vx_fmt
#requires wft(query@)
#ensures ({ let tt = norm(query@, S::iri()); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), tt, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), tt, *final(f))) })
#fn normalize_fragment call=.fmt->.vx_fmt
#requires wft(fragment@)
#ensures ({ let tt = norm(fragment@, S::iri()); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), tt, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), tt, *final(f))) })
#fn NormalizedInner::<Display>::fmt rename=imp_fmt
#requires self.input.wf()
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#proof start
    hide(path_text); hide(norm); hide(auth_text); hide(lowers); hide(wft); hide(full_text); hide(prog);
    let ghost inp = self.input;
    let ghost pct = self.input.op.mode.pct();
    let ghost iri = S::iri();
    let ghost g0 = *f;
    let ghost tt = self.input.tx(iri);
    let ghost path = if self.input.path is Done && !pct { dec(self.input.path.tx()) } else { path_text(self.input.path.tx(), self.input.op.mode.keep(), self.input.authority is Some, pct, iri) };
    let ghost r5 = opt_text(seq!['#'], ob(inp.fragment), pct, iri);
    proof {
        lemma_lits2();
        lemma_chain(g0, inp.scheme.spec_bytes(), ob(inp.authority), path, ob(inp.query), ob(inp.fragment), pct, iri);
    }
#proof tail
    proof { if inp.fragment is None { lemma_prog_end(g0, tt, *f, r5); } }
#item struct Normalized
#fn Normalized::from_input
#ensures r.input == input
#fn Normalized::enable_normalization
#ensures final(self).input == (NormalizationInput { op: NormalizationOp { mode: NormalizationMode::Default }, ..old(self).input })
#fn Normalized::enable_normalization_preserving_authorityless_relative_path
#ensures final(self).input == (NormalizationInput { op: NormalizationOp { mode: NormalizationMode::PreserveAuthoritylessRelativePath }, ..old(self).input })
#fn Normalized::ensure_rfc3986_normalizable
#requires self.input.path.wf()
#ensures (r is Err) == self.input.bad()
#fn Normalized::and_normalize
#ensures r.input == (NormalizationInput { op: NormalizationOp { mode: NormalizationMode::Default }, ..self.input })
#fn Normalized::and_normalize_but_preserve_authorityless_relative_path
#ensures r.input == (NormalizationInput { op: NormalizationOp { mode: NormalizationMode::PreserveAuthoritylessRelativePath }, ..self.input })
#raw
impl<'a, S: Spec> fmt::Display for Normalized<'a, RiStr<S>> { open spec fn text(&self) -> Seq<char> { self.input.tx(S::iri()) } open spec fn dok(&self) -> bool { self.input.wf() } }
#fn Normalized<'_,RiStr<S>>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt
#requires self.input.wf()
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#raw
impl<'a, S: Spec> fmt::Display for Normalized<'a, RiAbsoluteStr<S>> { open spec fn text(&self) -> Seq<char> { self.input.tx(S::iri()) } open spec fn dok(&self) -> bool { self.input.wf() } }
#fn Normalized<'_,RiAbsoluteStr<S>>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt
#requires self.input.wf()
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#feature alloc
#fn Normalized<'_,RiStr<S>>::<ToDedicatedString>::try_to_dedicated_string rename=imp_try_to_dedicated_string co=s
#requires self.input.wf(), self.input.vw(S::iri())
#ensures r matches Ok(x) ==> x.bytes() == encode_utf8(self.input.tx(S::iri()))
#proof start
    proof { self.input.lemma_vw(S::iri()); }
#fn Normalized<'_,RiAbsoluteStr<S>>::<ToDedicatedString>::try_to_dedicated_string rename=imp_try_to_dedicated_string co=s
#requires self.input.wf(), self.input.vw(S::iri()), self.input.fragment is None
#ensures r matches Ok(x) ==> x.bytes() == encode_utf8(self.input.tx(S::iri()))
#proof start
    proof { self.input.lemma_vw(S::iri()); }
#end
