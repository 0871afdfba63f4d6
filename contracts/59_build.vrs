#module build
#file build.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::parser::str::*;
use crate::spec::*;
use crate::pct::*;
use crate::comp::*;
use crate::text::*;
use crate::ptext::*;
use crate::nstext::*;
use crate::nbuild::*;
use crate::validate::Error;
use crate::types::*;
use crate::format::VToString;
use crate::vstring::*;
use core::marker::PhantomData;
use crate::validate::ErrorKind;
use crate::parser::validate as parser;
use crate::normalize;
use crate::normalize::NormalizationMode;
use crate::normalize::pathchar::PathCharacteristic;
use crate::normalize::pct_case::PctCaseNormalized;
use crate::parser::char::{Cls, sat, digit};
use crate::parser::trusted::ob;
use crate::vfmt as fmt;
use crate::vfmt::{Write, WriteExt, DisplayExt, ToStringExt};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpv4Addr(std::net::Ipv4Addr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpv6Addr(std::net::Ipv6Addr);
#[verifier::external_type_specification]
pub struct ExIpAddr(std::net::IpAddr);
/// the text the standard library writes for an address (trusted: it is an address in the grammar, in lowercase)
pub uninterp spec fn v4_text(a: std::net::Ipv4Addr) -> Seq<char>;
pub uninterp spec fn v6_text(a: std::net::Ipv6Addr) -> Seq<char>;
pub axiom fn ax_v4(a: std::net::Ipv4Addr) ensures ip_ok(encode_utf8(v4_text(a)));
pub axiom fn ax_v6(a: std::net::Ipv6Addr) ensures ip_ok(seq![0x5bu8] + encode_utf8(v6_text(a)) + seq![0x5du8]);
impl fmt::Display for std::net::Ipv4Addr { open spec fn text(&self) -> Seq<char> { v4_text(*self) } open spec fn dok(&self) -> bool { true } }
impl fmt::Display for std::net::Ipv6Addr { open spec fn text(&self) -> Seq<char> { v6_text(*self) } open spec fn dok(&self) -> bool { true } }
/// decimal digits
pub open spec fn dec_b(n: nat) -> Seq<u8>
    decreases n
{ if n < 10 { seq![(0x30 + n) as u8] } else { dec_b(n / 10) + seq![(0x30 + n % 10) as u8] } }
impl fmt::Display for u16 { open spec fn text(&self) -> Seq<char> { dec(dec_b(*self as nat)) } open spec fn dok(&self) -> bool { true } }
pub proof fn lemma_dec_b(n: nat)
    ensures all_digit(dec_b(n)), dec_b(n).len() > 0
    decreases n
{ if n >= 10 { lemma_dec_b(n / 10); } }
pub open spec fn ip_b(a: std::net::IpAddr) -> Seq<u8> {
    match a { std::net::IpAddr::V4(v) => encode_utf8(v4_text(v)), std::net::IpAddr::V6(v) => seq![0x5bu8] + encode_utf8(v6_text(v)) + seq![0x5du8] }
}
#item enum PortBuilderRepr
#item struct PortBuilder
#item enum UserinfoRepr
#item struct UserinfoBuilder
#item enum HostRepr
#item struct AuthorityBuilder
#item struct Builder
#raw
// the components in the builder's values
impl<'a> PortBuilder<'a> { pub open spec fn vw(self) -> Po { match self.0 { PortBuilderRepr::Empty => Po::No, PortBuilderRepr::Integer(n) => Po::Num(dec_b(n as nat)), PortBuilderRepr::String(s) => Po::Text(s.spec_bytes()) } } }
impl<'a> UserinfoBuilder<'a> { pub open spec fn vw(self) -> Ui { match self.0 { UserinfoRepr::None => Ui::No, UserinfoRepr::Direct(s) => Ui::Direct(s.spec_bytes()), UserinfoRepr::UserPass(u, p) => Ui::Pass(u.spec_bytes(), ob(p)) } } }
impl<'a> HostRepr<'a> { pub open spec fn vw(self) -> Ho { match self { HostRepr::String(s) => Ho::Text(s.spec_bytes()), HostRepr::IpAddr(a) => Ho::Ip(ip_b(a)) } } }
impl<'a> AuthorityBuilder<'a> {
    pub open spec fn vw(self) -> Au { Au { ui: self.userinfo.vw(), ho: self.host.vw(), po: self.port.vw() } }
    pub proof fn lemma_wf(self) ensures au_wf(self.vw()) {
        if let PortBuilderRepr::Integer(n) = self.port.0 { lemma_dec_b(n as nat); }
        if let HostRepr::IpAddr(a) = self.host { match a { std::net::IpAddr::V4(v) => ax_v4(v), std::net::IpAddr::V6(v) => ax_v6(v) } }
    }
}
impl<'a> Builder<'a> {
    pub open spec fn vw(self) -> Bu { Bu { s: ob(self.scheme), a: match self.authority { Some(a) => Some(a.vw()), None => None }, p: self.path.spec_bytes(), q: ob(self.query), f: ob(self.fragment), pct: self.normalize } }
    pub proof fn lemma_wf(self) ensures bu_wf(self.vw()) { if let Some(a) = self.authority { a.lemma_wf(); } }
}
/// no authority component has been given
pub open spec fn au_none() -> Au { Au { ui: Ui::No, ho: Ho::Text(Seq::empty()), po: Po::No } }
pub open spec fn au_or(a: Option<Au>) -> Au { match a { Some(x) => x, None => au_none() } }
#fn PortBuilder::<Default>::default rename=default
#ensures r.vw() == Po::No
#fn PortBuilder::<From<u8>>::from rename=from_u8
#ensures r.vw() == Po::Num(dec_b(v as nat))
#fn PortBuilder::<From<u16>>::from rename=from_u16
#ensures r.vw() == Po::Num(dec_b(v as nat))
#fn PortBuilder::<From<&'astr>>::from rename=from_str
#ensures r.vw() == Po::Text(v.spec_bytes())
#fn UserinfoBuilder::<Default>::default rename=default
#ensures r.vw() == Ui::No
#fn UserinfoBuilder::<From<&'astr>>::from rename=from_str
#ensures r.vw() == Ui::Direct(direct.spec_bytes())
#fn UserinfoBuilder::<From<(&'astr,&'astr)>>::from rename=from_pair
#ensures r.vw() == Ui::Pass(vx_a0.0.spec_bytes(), Some(vx_a0.1.spec_bytes()))
#fn UserinfoBuilder::<From<(&'astr,Option<&'astr>)>>::from rename=from_opt_pair
#ensures r.vw() == Ui::Pass(vx_a0.0.spec_bytes(), ob(vx_a0.1))
#fn HostRepr::<Default>::default rename=default
#ensures r.vw() == Ho::Text(Seq::empty())
#raw
impl<'a> VInto<PortBuilder<'a>> for &'a str { open spec fn vto(self, r: PortBuilder<'a>) -> bool { r.vw() == Po::Text(self.spec_bytes()) } fn vx_into(self) -> (r: PortBuilder<'a>) { PortBuilder::from_str(self) } }
impl<'a> VInto<UserinfoBuilder<'a>> for &'a str { open spec fn vto(self, r: UserinfoBuilder<'a>) -> bool { r.vw() == Ui::Direct(self.spec_bytes()) } fn vx_into(self) -> (r: UserinfoBuilder<'a>) { UserinfoBuilder::from_str(self) } }
impl<'a> VDefault for PortBuilder<'a> { open spec fn vd(x: Self) -> bool { x.vw() == Po::No } fn vx_default() -> (r: Self) { PortBuilder::default() } }
impl<'a> VDefault for UserinfoBuilder<'a> { open spec fn vd(x: Self) -> bool { x.vw() == Ui::No } fn vx_default() -> (r: Self) { UserinfoBuilder::default() } }
#fn UserinfoBuilder::to_user_password
#ensures self.0 is None ==> r is None,
    self.0 matches UserinfoRepr::Direct(s) ==> ({ let b = s.spec_bytes(); let k = first1(b, 0x3a); r is Some && (if k < b.len() { r->Some_0.0.spec_bytes() == pfx(b, k) } else { r->Some_0.0.spec_bytes() == b }) }),
    self.0 matches UserinfoRepr::Direct(s) ==> ({ let b = s.spec_bytes(); let k = first1(b, 0x3a); r is Some && (if k < b.len() { r->Some_0.1 is Some && r->Some_0.1->Some_0.spec_bytes() == sfx(b, k + 1) } else { r->Some_0.1 is None }) }),
    self.0 matches UserinfoRepr::UserPass(u, p) ==> r == Some((u, p)),
#fn AuthorityBuilder::fmt_write_to call=.fmt->.vx_fmt
#requires au_ok(self.vw(), S::iri())
#ensures ({ let tt = au_t(self.vw(), normalize, S::iri()); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), tt, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), tt, *final(f))) })
#proof start
    hide(prog); hide(norm); hide(wft); hide(hp_text); hide(au_ok);
    let ghost g0 = *f;
    let ghost iri = S::iri();
    let ghost a = self.vw();
    let ghost v6 = match self.host { HostRepr::IpAddr(std::net::IpAddr::V6(v)) => v6_text(v), _ => Seq::empty() };
    proof {
        crate::nstext::lemma_lits2(); self.lemma_wf(); lemma_au_wft(a, iri); lemma_au_chain(g0, a, v6, normalize, iri); lemma_v6(v6);
        match self.host { HostRepr::IpAddr(std::net::IpAddr::V4(v)) => { encode_utf8_decode_utf8(v4_text(v)); } _ => {} }
    }
#proof tail
    proof { lemma_prog_end(g0, au_t(a, normalize, iri), *f, Seq::empty()); }
#fn Builder::new call=Self::default->Self::vx_default
#ensures r.vw() == (Bu { s: None, a: None, p: Seq::empty(), q: None, f: None, pct: false })
#fn Builder::fmt_write_to call=.fmt->.vx_fmt
#requires bu_ok(self.vw(), S::iri()), self.flag_ok(path_is_absolute)
#ensures ({ let tt = bu_text(self.vw(), S::iri()); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), tt, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), tt, *final(f))) })
#proof start
    hide(path_text); hide(norm); hide(au_t); hide(lowers); hide(wft); hide(sat); hide(au_ok); hide(prog);
    let ghost g0 = *f;
    let ghost iri = S::iri();
    let ghost b = self.vw();
    proof { crate::nstext::lemma_lits2(); self.lemma_wf(); lemma_bu_wft(b, iri); lemma_bu_chain(g0, b, iri); }
#proof tail
    proof { lemma_prog_end(g0, bu_text(b, iri), *f, Seq::empty()); }
#fn Builder::authority_builder call=AuthorityBuilder::default->AuthorityBuilder::vx_default
#ensures final(self).authority == Some(*final(r)), *final(self) == (Builder { authority: final(self).authority, ..*old(self) }), r.vw() == au_or(old(self).vw().a)
#fn Builder::userinfo
#ensures call_ensures(<T as Into<UserinfoBuilder<'a>>>::into, (v,), final(self).authority->Some_0.userinfo),
    final(self).vw() == (Bu { a: Some(Au { ui: final(self).authority->Some_0.userinfo.vw(), ..au_or(old(self).vw().a) }), ..old(self).vw() })
#fn Builder::unset_userinfo
#ensures final(self).vw() == (Bu { a: Some(Au { ui: Ui::No, ..au_or(old(self).vw().a) }), ..old(self).vw() })
#fn Builder::host
#ensures final(self).vw() == (Bu { a: Some(Au { ho: Ho::Text(v.spec_bytes()), ..au_or(old(self).vw().a) }), ..old(self).vw() })
#fn Builder::ip_address
#ensures final(self).authority->Some_0.host matches HostRepr::IpAddr(x) && call_ensures(<T as Into<std::net::IpAddr>>::into, (addr,), x),
    final(self).vw() == (Bu { a: Some(Au { ho: final(self).authority->Some_0.host.vw(), ..au_or(old(self).vw().a) }), ..old(self).vw() })
#fn Builder::port
#ensures call_ensures(<T as Into<PortBuilder<'a>>>::into, (v,), final(self).authority->Some_0.port),
    final(self).vw() == (Bu { a: Some(Au { po: final(self).authority->Some_0.port.vw(), ..au_or(old(self).vw().a) }), ..old(self).vw() })
#fn Builder::unset_port
#ensures final(self).vw() == (Bu { a: Some(Au { po: Po::No, ..au_or(old(self).vw().a) }), ..old(self).vw() })
#fn Builder::scheme
#ensures *final(self) == (Builder { scheme: Some(v), ..*old(self) })
#fn Builder::unset_scheme
#ensures *final(self) == (Builder { scheme: None, ..*old(self) })
#fn Builder::path
#ensures *final(self) == (Builder { path: v, ..*old(self) })
#fn Builder::unset_authority
#ensures *final(self) == (Builder { authority: None, ..*old(self) })
#fn Builder::query
#ensures *final(self) == (Builder { query: Some(v), ..*old(self) })
#fn Builder::unset_query
#ensures *final(self) == (Builder { query: None, ..*old(self) })
#fn Builder::fragment
#ensures *final(self) == (Builder { fragment: Some(v), ..*old(self) })
#fn Builder::unset_fragment
#ensures *final(self) == (Builder { fragment: None, ..*old(self) })
#fn Builder::normalize
#ensures *final(self) == (Builder { normalize: true, ..*old(self) })
#fn Builder::unset_normalize
#ensures *final(self) == (Builder { normalize: false, ..*old(self) })
#fn validate_builder_for_iri_reference
#ensures r is Ok == bu_ok(builder.vw(), S::iri()), r matches Ok(x) ==> builder.flag_ok(x)
#closure 0 |b: u8| -> (r: bool) ensures r == digit(b)
#proof start
    proof { lemma_whole(builder.vw(), S::iri()); }
#raw
impl<'a> Builder<'a> {
    /// whether the path is absolute, where it matters
    pub open spec fn flag_ok(self, x: bool) -> bool { self.normalize && self.scheme is None && self.authority is None ==> x == (self.path.spec_bytes().len() > 0 && self.path.spec_bytes()[0] == 0x2f) }
}
/// the verdict on the path that will be written
pub proof fn lemma_whole(b: Bu, iri: bool)
    ensures valid_utf8(b.p) && is_sat(b.p, Cls::PcharSlash, iri) && b.a is None && b.p.len() > 0 && b.p[0] == 0x2f ==> crate::normalize::pathchar::verdict(encode_utf8(path_text(b.p, false, false, true, iri))) is CommonAbsolute,
        is_sat(b.p, Cls::PcharSlash, iri) ==> wft(dec(b.p)),
{
    if is_sat(b.p, Cls::PcharSlash, iri) { lemma_sat_wft(dec(b.p), Cls::PcharSlash, iri); }
    if valid_utf8(b.p) && is_sat(b.p, Cls::PcharSlash, iri) && b.a is None && b.p.len() > 0 && b.p[0] == 0x2f { crate::nvalid::lemma_path_text(b.p, false, false, true, iri); }
}
/// the components are well-formed text
pub proof fn lemma_au_wft(a: Au, iri: bool)
    requires au_ok(a, iri), au_wf(a)
    ensures match a.ui { Ui::No => true, Ui::Direct(s) => wft(dec(s)), Ui::Pass(s, p) => wft(dec(s)) && wfto(p) }, a.ho matches Ho::Text(s) ==> wft(dec(s))
{
    match a.ui { Ui::No => {}, Ui::Direct(s) => { lemma_sat_wft(dec(s), Cls::Userinfo, iri); }, Ui::Pass(s, p) => { lemma_sat_wft(dec(s), Cls::Userinfo, iri); if let Some(x) = p { lemma_sat_wft(dec(x), Cls::Userinfo, iri); } } }
    if let Ho::Text(s) = a.ho { lemma_wft_host(s, iri); }
}
pub proof fn lemma_bu_wft(b: Bu, iri: bool)
    requires bu_ok(b, iri), bu_wf(b)
    ensures wft(dec(b.p)), wfto(b.q), wfto(b.f)
{
    lemma_sat_wft(dec(b.p), Cls::PcharSlash, iri);
    if let Some(x) = b.q { lemma_sat_wft(dec(x), Cls::Query, iri); }
    if let Some(x) = b.f { lemma_sat_wft(dec(x), Cls::Fragment, iri); }
}
#file build.rs+build.rs
#item struct Built
#raw
impl<'a, T: ?Sized> Built<'a, T> {
    /// what validation has established
    pub open spec fn bok(self, iri: bool) -> bool { bu_ok(self.builder.vw(), iri) && self.builder.flag_ok(self.path_is_absolute) }
}
pub trait Buildable<'a>: Sealed<'a> {}
/// the string types that can be built
pub trait Sealed<'a> {
    /// what the type demands beside acceptable components
    spec fn kind(b: Bu) -> bool;
    spec fn flavour() -> bool;
    fn validate_builder(builder: Builder<'a>) -> (r: Result<Built<'a, Self>, Error>)
        ensures r is Ok == (Self::kind(builder.vw()) && bu_ok(builder.vw(), Self::flavour())), r matches Ok(x) ==> x.builder == builder && x.bok(Self::flavour());
}
#fn Builder::build call=<Tasprivate::Sealed<'a>>::validate_builder->T::validate_builder
#ensures r is Ok == (T::kind(self.vw()) && bu_ok(self.vw(), T::flavour())), r matches Ok(x) ==> x.builder == self && x.bok(T::flavour())
#fn RiReferenceStr::<Sealed<'a>>::validate_builder trait=Sealed<'a>
#implspec open spec fn kind(b: Bu) -> bool { true } open spec fn flavour() -> bool { S::iri() }
#fn Built<'_,RiReferenceStr<S>>::ensure_rfc3986_normalizable
#ensures (r is Err) == (self.builder.vw().a is None && dotted(self.builder.vw().p))
#raw
impl<'a, S: Spec> fmt::Display for Built<'a, RiReferenceStr<S>> { open spec fn text(&self) -> Seq<char> { bu_text(self.builder.vw(), S::iri()) } open spec fn dok(&self) -> bool { self.bok(S::iri()) } }
#fn Built<'_,RiReferenceStr<S>>::<Display>::fmt rename=imp_fmt
#requires self.bok(S::iri())
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn Built<'_,RiReferenceStr<S>>::<ToDedicatedString>::try_to_dedicated_string rename=imp_try_to_dedicated_string co=s
#requires self.bok(S::iri()), true
#ensures r matches Ok(x) ==> x.bytes() == encode_utf8(bu_text(self.builder.vw(), S::iri()))
#proof start
    proof { self.builder.lemma_wf(); lemma_bu(self.builder.vw(), S::iri()); }
#fn RiStr::<Sealed<'a>>::validate_builder trait=Sealed<'a>
#implspec open spec fn kind(b: Bu) -> bool { b.s is Some } open spec fn flavour() -> bool { S::iri() }
#fn Built<'_,RiStr<S>>::ensure_rfc3986_normalizable
#ensures (r is Err) == (self.builder.vw().a is None && dotted(self.builder.vw().p))
#raw
impl<'a, S: Spec> fmt::Display for Built<'a, RiStr<S>> { open spec fn text(&self) -> Seq<char> { bu_text(self.builder.vw(), S::iri()) } open spec fn dok(&self) -> bool { self.bok(S::iri()) } }
#fn Built<'_,RiStr<S>>::<Display>::fmt rename=imp_fmt
#requires self.bok(S::iri())
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn Built<'_,RiStr<S>>::<ToDedicatedString>::try_to_dedicated_string rename=imp_try_to_dedicated_string co=s
#requires self.bok(S::iri()), self.builder.vw().s is Some
#ensures r matches Ok(x) ==> x.bytes() == encode_utf8(bu_text(self.builder.vw(), S::iri()))
#proof start
    proof { self.builder.lemma_wf(); lemma_bu(self.builder.vw(), S::iri()); }
#fn RiAbsoluteStr::<Sealed<'a>>::validate_builder trait=Sealed<'a>
#implspec open spec fn kind(b: Bu) -> bool { b.s is Some && b.f is None } open spec fn flavour() -> bool { S::iri() }
#fn Built<'_,RiAbsoluteStr<S>>::ensure_rfc3986_normalizable
#ensures (r is Err) == (self.builder.vw().a is None && dotted(self.builder.vw().p))
#raw
impl<'a, S: Spec> fmt::Display for Built<'a, RiAbsoluteStr<S>> { open spec fn text(&self) -> Seq<char> { bu_text(self.builder.vw(), S::iri()) } open spec fn dok(&self) -> bool { self.bok(S::iri()) } }
#fn Built<'_,RiAbsoluteStr<S>>::<Display>::fmt rename=imp_fmt
#requires self.bok(S::iri())
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn Built<'_,RiAbsoluteStr<S>>::<ToDedicatedString>::try_to_dedicated_string rename=imp_try_to_dedicated_string co=s
#requires self.bok(S::iri()), self.builder.vw().s is Some && self.builder.vw().f is None
#ensures r matches Ok(x) ==> x.bytes() == encode_utf8(bu_text(self.builder.vw(), S::iri()))
#proof start
    proof { self.builder.lemma_wf(); lemma_bu(self.builder.vw(), S::iri()); }
#fn RiRelativeStr::<Sealed<'a>>::validate_builder trait=Sealed<'a>
#implspec open spec fn kind(b: Bu) -> bool { b.s is None } open spec fn flavour() -> bool { S::iri() }
#fn Built<'_,RiRelativeStr<S>>::ensure_rfc3986_normalizable
#ensures (r is Err) == (self.builder.vw().a is None && dotted(self.builder.vw().p))
#raw
impl<'a, S: Spec> fmt::Display for Built<'a, RiRelativeStr<S>> { open spec fn text(&self) -> Seq<char> { bu_text(self.builder.vw(), S::iri()) } open spec fn dok(&self) -> bool { self.bok(S::iri()) } }
#fn Built<'_,RiRelativeStr<S>>::<Display>::fmt rename=imp_fmt
#requires self.bok(S::iri())
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn Built<'_,RiRelativeStr<S>>::<ToDedicatedString>::try_to_dedicated_string rename=imp_try_to_dedicated_string co=s
#requires self.bok(S::iri()), self.builder.vw().s is None
#ensures r matches Ok(x) ==> x.bytes() == encode_utf8(bu_text(self.builder.vw(), S::iri()))
#proof start
    proof { self.builder.lemma_wf(); lemma_bu(self.builder.vw(), S::iri()); }
#file build.rs
#fn Builder::<From<&'aRiReferenceStr<S>>>::from free rename=builder_from_reference call=trusted_parser::decompose_iri_reference->crate::parser::trusted::decompose_iri_reference call=trusted_parser::authority::decompose_authority->crate::parser::trusted::authority::decompose_authority
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#closure 0 |authority_str: &'a str| -> (r: AuthorityBuilder<'a>) requires g_authority(authority_str.spec_bytes(), S::iri()) ensures r.vw() == au_of(authority_str.spec_bytes())
#proof start
    proof { iri.valid(); lemma_authority_valid(iri.bytes(), S::iri()); lemma_bu_of(iri.bytes(), S::iri()); }
#fn Builder::<From<&'aRiAbsoluteStr<S>>>::from free rename=builder_from_RiAbsoluteStr call=<Builder<'a>>::from->builder_from_reference call=AsRef::<RiReferenceStr<S>>::as_ref->crate::vx::VAsRef::<RiReferenceStr<S>>::as_ref
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#fn Builder::<From<&'aRiRelativeStr<S>>>::from free rename=builder_from_RiRelativeStr call=<Builder<'a>>::from->builder_from_reference call=AsRef::<RiReferenceStr<S>>::as_ref->crate::vx::VAsRef::<RiReferenceStr<S>>::as_ref
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#fn Builder::<From<&'aRiStr<S>>>::from free rename=builder_from_RiStr call=<Builder<'a>>::from->builder_from_reference call=AsRef::<RiReferenceStr<S>>::as_ref->crate::vx::VAsRef::<RiReferenceStr<S>>::as_ref
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#fn Builder::<From<&'aRiAbsoluteString<S>>>::from free rename=builder_from_RiAbsoluteString call=<Builder<'a>>::from->builder_from_reference call=AsRef::<RiReferenceStr<S>>::as_ref->crate::vx::VAsRef::<RiReferenceStr<S>>::as_ref
#requires iri.wf()
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#fn Builder::<From<&'aRiReferenceString<S>>>::from free rename=builder_from_RiReferenceString call=<Builder<'a>>::from->builder_from_reference call=AsRef::<RiReferenceStr<S>>::as_ref->crate::vx::VAsRef::<RiReferenceStr<S>>::as_ref
#requires iri.wf()
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#fn Builder::<From<&'aRiRelativeString<S>>>::from free rename=builder_from_RiRelativeString call=<Builder<'a>>::from->builder_from_reference call=AsRef::<RiReferenceStr<S>>::as_ref->crate::vx::VAsRef::<RiReferenceStr<S>>::as_ref
#requires iri.wf()
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#fn Builder::<From<&'aRiString<S>>>::from free rename=builder_from_RiString call=<Builder<'a>>::from->builder_from_reference call=AsRef::<RiReferenceStr<S>>::as_ref->crate::vx::VAsRef::<RiReferenceStr<S>>::as_ref
#requires iri.wf()
#ensures r.vw() == bu_of(iri.bytes()), bu_ok(r.vw(), S::iri()), encode_utf8(bu_text(r.vw(), S::iri())) == iri.bytes()
#file build.rs+build.rs
#fn RiReferenceString::<From<&Built<'_,RiReferenceStr<S>>>>::from free rename=RiReferenceString_from_built_ref co=s call=.to_string->.vx_to_string
#requires builder.bok(S::iri()), true
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#proof start
#proof start
    hide(g_reference); hide(bu_ok); hide(bu_text); hide(bu_of);
    proof { builder.builder.lemma_wf(); lemma_bu(builder.builder.vw(), S::iri()); }
#fn RiReferenceString::<From<Built<'_,RiReferenceStr<S>>>>::from free rename=RiReferenceString_from_built call=.into->RiReferenceString_from_built_ref
#requires builder.bok(S::iri()), true
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#fn RiString::<From<&Built<'_,RiStr<S>>>>::from free rename=RiString_from_built_ref co=s call=.to_string->.vx_to_string
#requires builder.bok(S::iri()), builder.builder.vw().s is Some
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#proof start
    proof { builder.builder.lemma_wf(); lemma_bu(builder.builder.vw(), S::iri()); }
#fn RiString::<From<Built<'_,RiStr<S>>>>::from free rename=RiString_from_built call=.into->RiString_from_built_ref
#requires builder.bok(S::iri()), builder.builder.vw().s is Some
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#fn RiAbsoluteString::<From<&Built<'_,RiAbsoluteStr<S>>>>::from free rename=RiAbsoluteString_from_built_ref co=s call=.to_string->.vx_to_string
#requires builder.bok(S::iri()), builder.builder.vw().s is Some && builder.builder.vw().f is None
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#proof start
    proof { builder.builder.lemma_wf(); lemma_bu(builder.builder.vw(), S::iri()); }
#fn RiAbsoluteString::<From<Built<'_,RiAbsoluteStr<S>>>>::from free rename=RiAbsoluteString_from_built call=.into->RiAbsoluteString_from_built_ref
#requires builder.bok(S::iri()), builder.builder.vw().s is Some && builder.builder.vw().f is None
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#fn RiRelativeString::<From<&Built<'_,RiRelativeStr<S>>>>::from free rename=RiRelativeString_from_built_ref co=s call=.to_string->.vx_to_string
#requires builder.bok(S::iri()), builder.builder.vw().s is None
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#proof start
    proof { builder.builder.lemma_wf(); lemma_bu(builder.builder.vw(), S::iri()); }
#fn RiRelativeString::<From<Built<'_,RiRelativeStr<S>>>>::from free rename=RiRelativeString_from_built call=.into->RiRelativeString_from_built_ref
#requires builder.bok(S::iri()), builder.builder.vw().s is None
#ensures r.bytes() == encode_utf8(bu_text(builder.builder.vw(), S::iri()))
#end
