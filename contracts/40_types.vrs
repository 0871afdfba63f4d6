#module types
#raw
// GENERATED by tools/gen_types_contract.py
// Typed strings. The borrowed types carry their grammar as a type invariant; trusted: the
// `repr(transparent)` cast of `new_always_unchecked`, whose precondition is that invariant.
use crate::vx::*;
use crate::vfmt::Write;
use crate::grammar::*;
use crate::spec::Spec;
use crate::parser::char::{Cls, sat};
use crate::validate::{Error, ErrorKind};
use crate::vstring::*;
use crate::validate::{iri, iri_reference, absolute_iri, relative_ref, query, fragment};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};

#raw
#[verifier::accept_recursive_types(S)]
pub struct RiReferenceStr<S: Spec> { _spec: core::marker::PhantomData<S>, inner: str }
impl<S: Spec> RiReferenceStr<S> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { g_reference(self.inner.spec_bytes(), S::iri()) }
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.spec_bytes() }
    pub proof fn valid(tracked &self) ensures g_reference(self.bytes(), S::iri()), valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    { use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires g_reference(s.spec_bytes(), S::iri()) ensures r.bytes() == s.spec_bytes()
    { unsafe { &*(s as *const str as *const Self) } }
}
#file types/generic/reference.rs+types/generic/macros.rs
#fn RiReferenceStr::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() && (g_reference(r.spec_bytes(), S::iri())) }
#proof start
    proof { use_type_invariant(self); }
#fn RiReferenceStr::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r == self }
#fn RiReferenceStr::as_str
#ensures r.spec_bytes() == self.bytes(), g_reference(self.bytes(), S::iri())
#fn RiReferenceStr::len
#ensures r == self.bytes().len()
#fn RiReferenceStr::is_empty
#ensures r == (self.bytes().len() == 0)
#fn RiReferenceStr::validate
#ensures r is Ok == (g_reference(s.spec_bytes(), S::iri()))
#fn RiReferenceStr::new_unchecked
#requires g_reference(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiReferenceStr::new_unchecked_justified
#requires g_reference(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiReferenceStr::<TryFrom<&'astr>>::try_from free rename=RiReferenceStr_try_from_str
#ensures match r { Ok(x) => (g_reference(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_reference(s.spec_bytes(), S::iri())) }
#fn RiReferenceStr::new call=core::convert::TryFrom::try_from->RiReferenceStr_try_from_str
#ensures match r { Ok(x) => (g_reference(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_reference(s.spec_bytes(), S::iri())) }


#raw
impl<S: Spec> crate::vfmt::Display for RiReferenceStr<S> { open spec fn text(&self) -> Seq<char> { dec(self.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn RiReferenceStr::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::wrote(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f)), r is Err ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::failed(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f))
#raw
#[verifier::accept_recursive_types(S)]
pub struct RiStr<S: Spec> { _spec: core::marker::PhantomData<S>, inner: str }
impl<S: Spec> RiStr<S> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { g_uri(self.inner.spec_bytes(), S::iri()) }
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.spec_bytes() }
    pub proof fn valid(tracked &self) ensures g_uri(self.bytes(), S::iri()), valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    { use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires g_uri(s.spec_bytes(), S::iri()) ensures r.bytes() == s.spec_bytes()
    { unsafe { &*(s as *const str as *const Self) } }
}
#file types/generic/normal.rs+types/generic/macros.rs
#fn RiStr::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() && (g_uri(r.spec_bytes(), S::iri())) }
#proof start
    proof { use_type_invariant(self); }
#fn RiStr::<AsRef<RiStr<S>>>::as_ref trait=crate::vx::VAsRef<RiStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiStr<S>) -> bool { r == self }
#fn RiStr::as_str
#ensures r.spec_bytes() == self.bytes(), g_uri(self.bytes(), S::iri())
#fn RiStr::len
#ensures r == self.bytes().len()
#fn RiStr::is_empty
#ensures r == (self.bytes().len() == 0)
#fn RiStr::validate
#ensures r is Ok == (g_uri(s.spec_bytes(), S::iri()))
#fn RiStr::new_unchecked
#requires g_uri(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiStr::new_unchecked_justified
#requires g_uri(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiStr::<TryFrom<&'astr>>::try_from free rename=RiStr_try_from_str
#ensures match r { Ok(x) => (g_uri(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_uri(s.spec_bytes(), S::iri())) }
#fn RiStr::new call=core::convert::TryFrom::try_from->RiStr_try_from_str
#ensures match r { Ok(x) => (g_uri(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_uri(s.spec_bytes(), S::iri())) }


#raw
impl<S: Spec> crate::vfmt::Display for RiStr<S> { open spec fn text(&self) -> Seq<char> { dec(self.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn RiStr::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::wrote(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f)), r is Err ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::failed(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f))
#fn RiStr::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r.bytes() == self.bytes() }
#proof start
    proof { use_type_invariant(self); lemma_inclusion(self.bytes(), S::iri()); }
#fn RiReferenceStr::<From<&'aRiStr<S>>>::from free rename=RiStr_into_RiReferenceStr
#ensures r.bytes() == s.bytes()
#fn RiStr::<TryFrom<&'aRiReferenceStr<S>>>::try_from free rename=RiStr_try_from_RiReferenceStr call=<&'aRiStr<S>>::try_from->RiStr_try_from_str
#ensures match r { Ok(x) => (g_uri(s.bytes(), S::iri())) && x.bytes() == s.bytes(), Err(_) => !(g_uri(s.bytes(), S::iri())) }
#raw
#[verifier::accept_recursive_types(S)]
pub struct RiAbsoluteStr<S: Spec> { _spec: core::marker::PhantomData<S>, inner: str }
impl<S: Spec> RiAbsoluteStr<S> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { g_absolute(self.inner.spec_bytes(), S::iri()) }
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.spec_bytes() }
    pub proof fn valid(tracked &self) ensures g_absolute(self.bytes(), S::iri()), valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    { use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires g_absolute(s.spec_bytes(), S::iri()) ensures r.bytes() == s.spec_bytes()
    { unsafe { &*(s as *const str as *const Self) } }
}
#file types/generic/absolute.rs+types/generic/macros.rs
#fn RiAbsoluteStr::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() && (g_absolute(r.spec_bytes(), S::iri())) }
#proof start
    proof { use_type_invariant(self); }
#fn RiAbsoluteStr::<AsRef<RiAbsoluteStr<S>>>::as_ref trait=crate::vx::VAsRef<RiAbsoluteStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiAbsoluteStr<S>) -> bool { r == self }
#fn RiAbsoluteStr::as_str
#ensures r.spec_bytes() == self.bytes(), g_absolute(self.bytes(), S::iri())
#fn RiAbsoluteStr::len
#ensures r == self.bytes().len()
#fn RiAbsoluteStr::is_empty
#ensures r == (self.bytes().len() == 0)
#fn RiAbsoluteStr::validate
#ensures r is Ok == (g_absolute(s.spec_bytes(), S::iri()))
#fn RiAbsoluteStr::new_unchecked
#requires g_absolute(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiAbsoluteStr::new_unchecked_justified
#requires g_absolute(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiAbsoluteStr::<TryFrom<&'astr>>::try_from free rename=RiAbsoluteStr_try_from_str
#ensures match r { Ok(x) => (g_absolute(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_absolute(s.spec_bytes(), S::iri())) }
#fn RiAbsoluteStr::new call=core::convert::TryFrom::try_from->RiAbsoluteStr_try_from_str
#ensures match r { Ok(x) => (g_absolute(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_absolute(s.spec_bytes(), S::iri())) }


#raw
impl<S: Spec> crate::vfmt::Display for RiAbsoluteStr<S> { open spec fn text(&self) -> Seq<char> { dec(self.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn RiAbsoluteStr::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::wrote(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f)), r is Err ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::failed(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f))
#fn RiAbsoluteStr::<AsRef<RiStr<S>>>::as_ref trait=crate::vx::VAsRef<RiStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiStr<S>) -> bool { r.bytes() == self.bytes() }
#proof start
    proof { use_type_invariant(self); lemma_inclusion(self.bytes(), S::iri()); }
#fn RiStr::<From<&'aRiAbsoluteStr<S>>>::from free rename=RiAbsoluteStr_into_RiStr
#ensures r.bytes() == s.bytes()
#fn RiAbsoluteStr::<TryFrom<&'aRiStr<S>>>::try_from free rename=RiAbsoluteStr_try_from_RiStr call=<&'aRiAbsoluteStr<S>>::try_from->RiAbsoluteStr_try_from_str
#ensures match r { Ok(x) => (g_absolute(s.bytes(), S::iri())) && x.bytes() == s.bytes(), Err(_) => !(g_absolute(s.bytes(), S::iri())) }
#fn RiAbsoluteStr::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r.bytes() == self.bytes() }
#proof start
    proof { use_type_invariant(self); lemma_inclusion(self.bytes(), S::iri()); }
#fn RiReferenceStr::<From<&'aRiAbsoluteStr<S>>>::from free rename=RiAbsoluteStr_into_RiReferenceStr
#ensures r.bytes() == s.bytes()
#fn RiAbsoluteStr::<TryFrom<&'aRiReferenceStr<S>>>::try_from free rename=RiAbsoluteStr_try_from_RiReferenceStr call=<&'aRiAbsoluteStr<S>>::try_from->RiAbsoluteStr_try_from_str
#ensures match r { Ok(x) => (g_absolute(s.bytes(), S::iri())) && x.bytes() == s.bytes(), Err(_) => !(g_absolute(s.bytes(), S::iri())) }
#raw
#[verifier::accept_recursive_types(S)]
pub struct RiRelativeStr<S: Spec> { _spec: core::marker::PhantomData<S>, inner: str }
impl<S: Spec> RiRelativeStr<S> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { g_relative(self.inner.spec_bytes(), S::iri()) }
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.spec_bytes() }
    pub proof fn valid(tracked &self) ensures g_relative(self.bytes(), S::iri()), valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    { use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires g_relative(s.spec_bytes(), S::iri()) ensures r.bytes() == s.spec_bytes()
    { unsafe { &*(s as *const str as *const Self) } }
}
#file types/generic/relative.rs+types/generic/macros.rs
#fn RiRelativeStr::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() && (g_relative(r.spec_bytes(), S::iri())) }
#proof start
    proof { use_type_invariant(self); }
#fn RiRelativeStr::<AsRef<RiRelativeStr<S>>>::as_ref trait=crate::vx::VAsRef<RiRelativeStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiRelativeStr<S>) -> bool { r == self }
#fn RiRelativeStr::as_str
#ensures r.spec_bytes() == self.bytes(), g_relative(self.bytes(), S::iri())
#fn RiRelativeStr::len
#ensures r == self.bytes().len()
#fn RiRelativeStr::is_empty
#ensures r == (self.bytes().len() == 0)
#fn RiRelativeStr::validate
#ensures r is Ok == (g_relative(s.spec_bytes(), S::iri()))
#fn RiRelativeStr::new_unchecked
#requires g_relative(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiRelativeStr::new_unchecked_justified
#requires g_relative(s.spec_bytes(), S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiRelativeStr::<TryFrom<&'astr>>::try_from free rename=RiRelativeStr_try_from_str
#ensures match r { Ok(x) => (g_relative(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_relative(s.spec_bytes(), S::iri())) }
#fn RiRelativeStr::new call=core::convert::TryFrom::try_from->RiRelativeStr_try_from_str
#ensures match r { Ok(x) => (g_relative(s.spec_bytes(), S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(g_relative(s.spec_bytes(), S::iri())) }


#raw
impl<S: Spec> crate::vfmt::Display for RiRelativeStr<S> { open spec fn text(&self) -> Seq<char> { dec(self.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn RiRelativeStr::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::wrote(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f)), r is Err ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::failed(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f))
#fn RiRelativeStr::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r.bytes() == self.bytes() }
#proof start
    proof { use_type_invariant(self); lemma_inclusion(self.bytes(), S::iri()); }
#fn RiReferenceStr::<From<&'aRiRelativeStr<S>>>::from free rename=RiRelativeStr_into_RiReferenceStr
#ensures r.bytes() == s.bytes()
#fn RiRelativeStr::<TryFrom<&'aRiReferenceStr<S>>>::try_from free rename=RiRelativeStr_try_from_RiReferenceStr call=<&'aRiRelativeStr<S>>::try_from->RiRelativeStr_try_from_str
#ensures match r { Ok(x) => (g_relative(s.bytes(), S::iri())) && x.bytes() == s.bytes(), Err(_) => !(g_relative(s.bytes(), S::iri())) }
#raw
#[verifier::accept_recursive_types(S)]
pub struct RiQueryStr<S: Spec> { _spec: core::marker::PhantomData<S>, inner: str }
impl<S: Spec> RiQueryStr<S> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { is_sat(self.inner.spec_bytes(), Cls::Query, S::iri()) }
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.spec_bytes() }
    pub proof fn valid(tracked &self) ensures is_sat(self.bytes(), Cls::Query, S::iri()), valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    { use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires is_sat(s.spec_bytes(), Cls::Query, S::iri()) ensures r.bytes() == s.spec_bytes()
    { unsafe { &*(s as *const str as *const Self) } }
}
#file types/generic/query.rs+types/generic/macros.rs
#fn RiQueryStr::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() && (is_sat(r.spec_bytes(), Cls::Query, S::iri())) }
#proof start
    proof { use_type_invariant(self); }
#fn RiQueryStr::<AsRef<RiQueryStr<S>>>::as_ref trait=crate::vx::VAsRef<RiQueryStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiQueryStr<S>) -> bool { r == self }
#fn RiQueryStr::as_str
#ensures r.spec_bytes() == self.bytes(), is_sat(self.bytes(), Cls::Query, S::iri())
#fn RiQueryStr::len
#ensures r == self.bytes().len()
#fn RiQueryStr::is_empty
#ensures r == (self.bytes().len() == 0)
#fn RiQueryStr::validate
#ensures r is Ok == (is_sat(s.spec_bytes(), Cls::Query, S::iri()))
#fn RiQueryStr::new_unchecked
#requires is_sat(s.spec_bytes(), Cls::Query, S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiQueryStr::new_unchecked_justified
#requires is_sat(s.spec_bytes(), Cls::Query, S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiQueryStr::<TryFrom<&'astr>>::try_from free rename=RiQueryStr_try_from_str
#ensures match r { Ok(x) => (is_sat(s.spec_bytes(), Cls::Query, S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Query, S::iri())) }
#fn RiQueryStr::new call=core::convert::TryFrom::try_from->RiQueryStr_try_from_str
#ensures match r { Ok(x) => (is_sat(s.spec_bytes(), Cls::Query, S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Query, S::iri())) }


#raw
impl<S: Spec> crate::vfmt::Display for RiQueryStr<S> { open spec fn text(&self) -> Seq<char> { dec(self.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn RiQueryStr::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::wrote(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f)), r is Err ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::failed(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f))
#raw
#[verifier::accept_recursive_types(S)]
pub struct RiFragmentStr<S: Spec> { _spec: core::marker::PhantomData<S>, inner: str }
impl<S: Spec> RiFragmentStr<S> {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { is_sat(self.inner.spec_bytes(), Cls::Fragment, S::iri()) }
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.spec_bytes() }
    pub proof fn valid(tracked &self) ensures is_sat(self.bytes(), Cls::Fragment, S::iri()), valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    { use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires is_sat(s.spec_bytes(), Cls::Fragment, S::iri()) ensures r.bytes() == s.spec_bytes()
    { unsafe { &*(s as *const str as *const Self) } }
}
#file types/generic/fragment.rs+types/generic/macros.rs
#fn RiFragmentStr::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() && (is_sat(r.spec_bytes(), Cls::Fragment, S::iri())) }
#proof start
    proof { use_type_invariant(self); }
#fn RiFragmentStr::<AsRef<RiFragmentStr<S>>>::as_ref trait=crate::vx::VAsRef<RiFragmentStr<S>>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &RiFragmentStr<S>) -> bool { r == self }
#fn RiFragmentStr::as_str
#ensures r.spec_bytes() == self.bytes(), is_sat(self.bytes(), Cls::Fragment, S::iri())
#fn RiFragmentStr::len
#ensures r == self.bytes().len()
#fn RiFragmentStr::is_empty
#ensures r == (self.bytes().len() == 0)
#fn RiFragmentStr::validate
#ensures r is Ok == (is_sat(s.spec_bytes(), Cls::Fragment, S::iri()))
#fn RiFragmentStr::new_unchecked
#requires is_sat(s.spec_bytes(), Cls::Fragment, S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiFragmentStr::new_unchecked_justified
#requires is_sat(s.spec_bytes(), Cls::Fragment, S::iri())
#ensures r.bytes() == s.spec_bytes()
#fn RiFragmentStr::<TryFrom<&'astr>>::try_from free rename=RiFragmentStr_try_from_str
#ensures match r { Ok(x) => (is_sat(s.spec_bytes(), Cls::Fragment, S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Fragment, S::iri())) }
#fn RiFragmentStr::new call=core::convert::TryFrom::try_from->RiFragmentStr_try_from_str
#ensures match r { Ok(x) => (is_sat(s.spec_bytes(), Cls::Fragment, S::iri())) && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Fragment, S::iri())) }


#raw
impl<S: Spec> crate::vfmt::Display for RiFragmentStr<S> { open spec fn text(&self) -> Seq<char> { dec(self.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn RiFragmentStr::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::wrote(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f)), r is Err ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::failed(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f))
#file types/generic/error.rs
#item struct CreationError
#raw
impl<T> CreationError<T> { pub closed spec fn src(self) -> T { self.source } }
#fn CreationError::new
#ensures r.src() == source
#fn CreationError::into_source
#ensures r == self.src()

#file types/generic/reference.rs+types/generic/macros.rs
#item struct RiReferenceString
#raw
impl<S: Spec> RiReferenceString<S> {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.sb() }
    /// the text is in the grammar of the type
    pub open spec fn wf(&self) -> bool { g_reference(self.bytes(), S::iri()) }
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() { self.as_slice().as_str() }
}
#fn RiReferenceString::new_always_unchecked
#requires g_reference(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiReferenceString::new_unchecked
#requires g_reference(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiReferenceString::new_unchecked_justified co=s
#requires g_reference(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiReferenceString::validate
#ensures r is Ok == (g_reference(s.spec_bytes(), S::iri()))
#fn RiReferenceString::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() }
#fn RiReferenceString::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiReferenceString::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiReferenceString::as_inner_mut
#ensures r.sb() == old(self).bytes(), final(self).bytes() == final(r).sb()
#fn RiReferenceString::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiReferenceString::<Clone>::clone rename=imp_clone call=.clone->.vx_clone
#requires self.wf()
#ensures r.wf(), r.bytes() == self.bytes()
#fn RiReferenceString::<From<&'_RiReferenceStr<S>>>::from free rename=RiReferenceString_from_RiReferenceStr call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { s.valid(); }
#fn RiReferenceStr::<ToOwned>::to_owned rename=vx_to_owned call=.into->RiReferenceString_from_RiReferenceStr
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<RiReferenceString<S>>>::from free rename=RiReferenceString_into_String
#ensures r.sb() == s.bytes()
#fn RiReferenceString::<TryFrom<&'_str>>::try_from free rename=RiReferenceString_try_from_str resmap call=<&RiReferenceStr<S>>::try_from->RiReferenceStr_try_from_str call=Into::into->RiReferenceString_from_RiReferenceStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_reference(s.spec_bytes(), S::iri())) }
#fn RiReferenceString::<FromStr>::from_str free rename=RiReferenceString_from_str call=core::convert::TryFrom::try_from->RiReferenceString_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_reference(s.spec_bytes(), S::iri())) }
#fn RiReferenceStr::<TryFrom<&'a[u8]>>::try_from free rename=RiReferenceStr_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r { Ok(x) => valid_utf8(bytes@) && (g_reference(bytes@, S::iri())) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_reference(bytes@, S::iri())) }
#fn RiReferenceString::<TryFrom<&'_[u8]>>::try_from free rename=RiReferenceString_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&RiReferenceStr<S>>::try_from->RiReferenceStr_try_from_str call=Into::into->RiReferenceString_from_RiReferenceStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_reference(bytes@, S::iri())) }
#fn RiReferenceString::<TryFrom<alloc::string::String>>::try_from free rename=RiReferenceString_try_from_String
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !(g_reference(s.sb(), S::iri())) && e.src() == s }

#file types/generic/normal.rs+types/generic/macros.rs
#item struct RiString
#raw
impl<S: Spec> RiString<S> {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.sb() }
    /// the text is in the grammar of the type
    pub open spec fn wf(&self) -> bool { g_uri(self.bytes(), S::iri()) }
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() { self.as_slice().as_str() }
}
#fn RiString::new_always_unchecked
#requires g_uri(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiString::new_unchecked
#requires g_uri(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiString::new_unchecked_justified co=s
#requires g_uri(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiString::validate
#ensures r is Ok == (g_uri(s.spec_bytes(), S::iri()))
#fn RiString::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() }
#fn RiString::<AsRef<RiStr<S>>>::as_ref trait=crate::vx::VAsRef<RiStr<S>> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiString::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiString::as_inner_mut
#ensures r.sb() == old(self).bytes(), final(self).bytes() == final(r).sb()
#fn RiString::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiString::<Clone>::clone rename=imp_clone call=.clone->.vx_clone
#requires self.wf()
#ensures r.wf(), r.bytes() == self.bytes()
#fn RiString::<From<&'_RiStr<S>>>::from free rename=RiString_from_RiStr call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { s.valid(); }
#fn RiStr::<ToOwned>::to_owned rename=vx_to_owned call=.into->RiString_from_RiStr
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<RiString<S>>>::from free rename=RiString_into_String
#ensures r.sb() == s.bytes()
#fn RiString::<TryFrom<&'_str>>::try_from free rename=RiString_try_from_str resmap call=<&RiStr<S>>::try_from->RiStr_try_from_str call=Into::into->RiString_from_RiStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_uri(s.spec_bytes(), S::iri())) }
#fn RiString::<FromStr>::from_str free rename=RiString_from_str call=core::convert::TryFrom::try_from->RiString_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_uri(s.spec_bytes(), S::iri())) }
#fn RiStr::<TryFrom<&'a[u8]>>::try_from free rename=RiStr_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r { Ok(x) => valid_utf8(bytes@) && (g_uri(bytes@, S::iri())) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_uri(bytes@, S::iri())) }
#fn RiString::<TryFrom<&'_[u8]>>::try_from free rename=RiString_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&RiStr<S>>::try_from->RiStr_try_from_str call=Into::into->RiString_from_RiStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_uri(bytes@, S::iri())) }
#fn RiString::<TryFrom<alloc::string::String>>::try_from free rename=RiString_try_from_String
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !(g_uri(s.sb(), S::iri())) && e.src() == s }

#fn RiString::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>> call=AsRef::<RiStr<S>>::as_ref->crate::vx::VAsRef::<RiStr<S>>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiReferenceString::<From<RiString<S>>>::from free rename=RiString_into_RiReferenceString call=.into->RiString_into_String
#requires s.wf()
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { lemma_inclusion(s.bytes(), S::iri()); }
#fn RiString::<TryFrom<RiReferenceString<S>>>::try_from free rename=RiString_try_from_RiReferenceString call=.into->RiReferenceString_into_String
#requires s.wf()
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.bytes(), Err(e) => !(g_uri(s.bytes(), S::iri())) && e.src() == s }

#file types/generic/absolute.rs+types/generic/macros.rs
#item struct RiAbsoluteString
#raw
impl<S: Spec> RiAbsoluteString<S> {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.sb() }
    /// the text is in the grammar of the type
    pub open spec fn wf(&self) -> bool { g_absolute(self.bytes(), S::iri()) }
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() { self.as_slice().as_str() }
}
#fn RiAbsoluteString::new_always_unchecked
#requires g_absolute(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiAbsoluteString::new_unchecked
#requires g_absolute(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiAbsoluteString::new_unchecked_justified co=s
#requires g_absolute(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiAbsoluteString::validate
#ensures r is Ok == (g_absolute(s.spec_bytes(), S::iri()))
#fn RiAbsoluteString::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() }
#fn RiAbsoluteString::<AsRef<RiAbsoluteStr<S>>>::as_ref trait=crate::vx::VAsRef<RiAbsoluteStr<S>> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiAbsoluteStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiAbsoluteString::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiAbsoluteString::as_inner_mut
#ensures r.sb() == old(self).bytes(), final(self).bytes() == final(r).sb()
#fn RiAbsoluteString::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiAbsoluteString::<Clone>::clone rename=imp_clone call=.clone->.vx_clone
#requires self.wf()
#ensures r.wf(), r.bytes() == self.bytes()
#fn RiAbsoluteString::<From<&'_RiAbsoluteStr<S>>>::from free rename=RiAbsoluteString_from_RiAbsoluteStr call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { s.valid(); }
#fn RiAbsoluteStr::<ToOwned>::to_owned rename=vx_to_owned call=.into->RiAbsoluteString_from_RiAbsoluteStr
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<RiAbsoluteString<S>>>::from free rename=RiAbsoluteString_into_String
#ensures r.sb() == s.bytes()
#fn RiAbsoluteString::<TryFrom<&'_str>>::try_from free rename=RiAbsoluteString_try_from_str resmap call=<&RiAbsoluteStr<S>>::try_from->RiAbsoluteStr_try_from_str call=Into::into->RiAbsoluteString_from_RiAbsoluteStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_absolute(s.spec_bytes(), S::iri())) }
#fn RiAbsoluteString::<FromStr>::from_str free rename=RiAbsoluteString_from_str call=core::convert::TryFrom::try_from->RiAbsoluteString_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_absolute(s.spec_bytes(), S::iri())) }
#fn RiAbsoluteStr::<TryFrom<&'a[u8]>>::try_from free rename=RiAbsoluteStr_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r { Ok(x) => valid_utf8(bytes@) && (g_absolute(bytes@, S::iri())) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_absolute(bytes@, S::iri())) }
#fn RiAbsoluteString::<TryFrom<&'_[u8]>>::try_from free rename=RiAbsoluteString_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&RiAbsoluteStr<S>>::try_from->RiAbsoluteStr_try_from_str call=Into::into->RiAbsoluteString_from_RiAbsoluteStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_absolute(bytes@, S::iri())) }
#fn RiAbsoluteString::<TryFrom<alloc::string::String>>::try_from free rename=RiAbsoluteString_try_from_String
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !(g_absolute(s.sb(), S::iri())) && e.src() == s }

#fn RiAbsoluteString::<AsRef<RiStr<S>>>::as_ref trait=crate::vx::VAsRef<RiStr<S>> call=AsRef::<RiAbsoluteStr<S>>::as_ref->crate::vx::VAsRef::<RiAbsoluteStr<S>>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiString::<From<RiAbsoluteString<S>>>::from free rename=RiAbsoluteString_into_RiString call=.into->RiAbsoluteString_into_String
#requires s.wf()
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { lemma_inclusion(s.bytes(), S::iri()); }
#fn RiAbsoluteString::<TryFrom<RiString<S>>>::try_from free rename=RiAbsoluteString_try_from_RiString call=.into->RiString_into_String
#requires s.wf()
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.bytes(), Err(e) => !(g_absolute(s.bytes(), S::iri())) && e.src() == s }

#fn RiAbsoluteString::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>> call=AsRef::<RiAbsoluteStr<S>>::as_ref->crate::vx::VAsRef::<RiAbsoluteStr<S>>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiReferenceString::<From<RiAbsoluteString<S>>>::from free rename=RiAbsoluteString_into_RiReferenceString call=.into->RiAbsoluteString_into_String
#requires s.wf()
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { lemma_inclusion(s.bytes(), S::iri()); }
#fn RiAbsoluteString::<TryFrom<RiReferenceString<S>>>::try_from free rename=RiAbsoluteString_try_from_RiReferenceString call=.into->RiReferenceString_into_String
#requires s.wf()
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.bytes(), Err(e) => !(g_absolute(s.bytes(), S::iri())) && e.src() == s }

#file types/generic/relative.rs+types/generic/macros.rs
#item struct RiRelativeString
#raw
impl<S: Spec> RiRelativeString<S> {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.sb() }
    /// the text is in the grammar of the type
    pub open spec fn wf(&self) -> bool { g_relative(self.bytes(), S::iri()) }
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() { self.as_slice().as_str() }
}
#fn RiRelativeString::new_always_unchecked
#requires g_relative(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiRelativeString::new_unchecked
#requires g_relative(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiRelativeString::new_unchecked_justified co=s
#requires g_relative(s.sb(), S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiRelativeString::validate
#ensures r is Ok == (g_relative(s.spec_bytes(), S::iri()))
#fn RiRelativeString::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() }
#fn RiRelativeString::<AsRef<RiRelativeStr<S>>>::as_ref trait=crate::vx::VAsRef<RiRelativeStr<S>> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiRelativeStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiRelativeString::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiRelativeString::as_inner_mut
#ensures r.sb() == old(self).bytes(), final(self).bytes() == final(r).sb()
#fn RiRelativeString::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiRelativeString::<Clone>::clone rename=imp_clone call=.clone->.vx_clone
#requires self.wf()
#ensures r.wf(), r.bytes() == self.bytes()
#fn RiRelativeString::<From<&'_RiRelativeStr<S>>>::from free rename=RiRelativeString_from_RiRelativeStr call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { s.valid(); }
#fn RiRelativeStr::<ToOwned>::to_owned rename=vx_to_owned call=.into->RiRelativeString_from_RiRelativeStr
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<RiRelativeString<S>>>::from free rename=RiRelativeString_into_String
#ensures r.sb() == s.bytes()
#fn RiRelativeString::<TryFrom<&'_str>>::try_from free rename=RiRelativeString_try_from_str resmap call=<&RiRelativeStr<S>>::try_from->RiRelativeStr_try_from_str call=Into::into->RiRelativeString_from_RiRelativeStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_relative(s.spec_bytes(), S::iri())) }
#fn RiRelativeString::<FromStr>::from_str free rename=RiRelativeString_from_str call=core::convert::TryFrom::try_from->RiRelativeString_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(g_relative(s.spec_bytes(), S::iri())) }
#fn RiRelativeStr::<TryFrom<&'a[u8]>>::try_from free rename=RiRelativeStr_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r { Ok(x) => valid_utf8(bytes@) && (g_relative(bytes@, S::iri())) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_relative(bytes@, S::iri())) }
#fn RiRelativeString::<TryFrom<&'_[u8]>>::try_from free rename=RiRelativeString_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&RiRelativeStr<S>>::try_from->RiRelativeStr_try_from_str call=Into::into->RiRelativeString_from_RiRelativeStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(g_relative(bytes@, S::iri())) }
#fn RiRelativeString::<TryFrom<alloc::string::String>>::try_from free rename=RiRelativeString_try_from_String
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !(g_relative(s.sb(), S::iri())) && e.src() == s }

#fn RiRelativeString::<AsRef<RiReferenceStr<S>>>::as_ref trait=crate::vx::VAsRef<RiReferenceStr<S>> call=AsRef::<RiRelativeStr<S>>::as_ref->crate::vx::VAsRef::<RiRelativeStr<S>>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiReferenceStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiReferenceString::<From<RiRelativeString<S>>>::from free rename=RiRelativeString_into_RiReferenceString call=.into->RiRelativeString_into_String
#requires s.wf()
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { lemma_inclusion(s.bytes(), S::iri()); }
#fn RiRelativeString::<TryFrom<RiReferenceString<S>>>::try_from free rename=RiRelativeString_try_from_RiReferenceString call=.into->RiReferenceString_into_String
#requires s.wf()
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.bytes(), Err(e) => !(g_relative(s.bytes(), S::iri())) && e.src() == s }

#file types/generic/query.rs+types/generic/macros.rs
#item struct RiQueryString
#raw
impl<S: Spec> RiQueryString<S> {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.sb() }
    /// the text is in the grammar of the type
    pub open spec fn wf(&self) -> bool { is_sat(self.bytes(), Cls::Query, S::iri()) }
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() { self.as_slice().as_str() }
}
#fn RiQueryString::new_always_unchecked
#requires is_sat(s.sb(), Cls::Query, S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiQueryString::new_unchecked
#requires is_sat(s.sb(), Cls::Query, S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiQueryString::new_unchecked_justified co=s
#requires is_sat(s.sb(), Cls::Query, S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiQueryString::validate
#ensures r is Ok == (is_sat(s.spec_bytes(), Cls::Query, S::iri()))
#fn RiQueryString::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() }
#fn RiQueryString::<AsRef<RiQueryStr<S>>>::as_ref trait=crate::vx::VAsRef<RiQueryStr<S>> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiQueryStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiQueryString::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiQueryString::as_inner_mut
#ensures r.sb() == old(self).bytes(), final(self).bytes() == final(r).sb()
#fn RiQueryString::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiQueryString::<Clone>::clone rename=imp_clone call=.clone->.vx_clone
#requires self.wf()
#ensures r.wf(), r.bytes() == self.bytes()
#fn RiQueryString::<From<&'_RiQueryStr<S>>>::from free rename=RiQueryString_from_RiQueryStr call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { s.valid(); }
#fn RiQueryStr::<ToOwned>::to_owned rename=vx_to_owned call=.into->RiQueryString_from_RiQueryStr
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<RiQueryString<S>>>::from free rename=RiQueryString_into_String
#ensures r.sb() == s.bytes()
#fn RiQueryString::<TryFrom<&'_str>>::try_from free rename=RiQueryString_try_from_str resmap call=<&RiQueryStr<S>>::try_from->RiQueryStr_try_from_str call=Into::into->RiQueryString_from_RiQueryStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Query, S::iri())) }
#fn RiQueryString::<FromStr>::from_str free rename=RiQueryString_from_str call=core::convert::TryFrom::try_from->RiQueryString_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Query, S::iri())) }
#fn RiQueryStr::<TryFrom<&'a[u8]>>::try_from free rename=RiQueryStr_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r { Ok(x) => valid_utf8(bytes@) && (is_sat(bytes@, Cls::Query, S::iri())) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(is_sat(bytes@, Cls::Query, S::iri())) }
#fn RiQueryString::<TryFrom<&'_[u8]>>::try_from free rename=RiQueryString_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&RiQueryStr<S>>::try_from->RiQueryStr_try_from_str call=Into::into->RiQueryString_from_RiQueryStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(is_sat(bytes@, Cls::Query, S::iri())) }
#fn RiQueryString::<TryFrom<alloc::string::String>>::try_from free rename=RiQueryString_try_from_String
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !(is_sat(s.sb(), Cls::Query, S::iri())) && e.src() == s }

#file types/generic/fragment.rs+types/generic/macros.rs
#item struct RiFragmentString
#raw
impl<S: Spec> RiFragmentString<S> {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.sb() }
    /// the text is in the grammar of the type
    pub open spec fn wf(&self) -> bool { is_sat(self.bytes(), Cls::Fragment, S::iri()) }
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() { self.as_slice().as_str() }
}
#fn RiFragmentString::new_always_unchecked
#requires is_sat(s.sb(), Cls::Fragment, S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiFragmentString::new_unchecked
#requires is_sat(s.sb(), Cls::Fragment, S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiFragmentString::new_unchecked_justified co=s
#requires is_sat(s.sb(), Cls::Fragment, S::iri())
#ensures r.wf(), r.bytes() == s.sb()
#fn RiFragmentString::validate
#ensures r is Ok == (is_sat(s.spec_bytes(), Cls::Fragment, S::iri()))
#fn RiFragmentString::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() }
#fn RiFragmentString::<AsRef<RiFragmentStr<S>>>::as_ref trait=crate::vx::VAsRef<RiFragmentStr<S>> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &RiFragmentStr<S>) -> bool { r.bytes() == self.bytes() }
#fn RiFragmentString::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiFragmentString::as_inner_mut
#ensures r.sb() == old(self).bytes(), final(self).bytes() == final(r).sb()
#fn RiFragmentString::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn RiFragmentString::<Clone>::clone rename=imp_clone call=.clone->.vx_clone
#requires self.wf()
#ensures r.wf(), r.bytes() == self.bytes()
#fn RiFragmentString::<From<&'_RiFragmentStr<S>>>::from free rename=RiFragmentString_from_RiFragmentStr call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { s.valid(); }
#fn RiFragmentStr::<ToOwned>::to_owned rename=vx_to_owned call=.into->RiFragmentString_from_RiFragmentStr
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<RiFragmentString<S>>>::from free rename=RiFragmentString_into_String
#ensures r.sb() == s.bytes()
#fn RiFragmentString::<TryFrom<&'_str>>::try_from free rename=RiFragmentString_try_from_str resmap call=<&RiFragmentStr<S>>::try_from->RiFragmentStr_try_from_str call=Into::into->RiFragmentString_from_RiFragmentStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Fragment, S::iri())) }
#fn RiFragmentString::<FromStr>::from_str free rename=RiFragmentString_from_str call=core::convert::TryFrom::try_from->RiFragmentString_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !(is_sat(s.spec_bytes(), Cls::Fragment, S::iri())) }
#fn RiFragmentStr::<TryFrom<&'a[u8]>>::try_from free rename=RiFragmentStr_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r { Ok(x) => valid_utf8(bytes@) && (is_sat(bytes@, Cls::Fragment, S::iri())) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(is_sat(bytes@, Cls::Fragment, S::iri())) }
#fn RiFragmentString::<TryFrom<&'_[u8]>>::try_from free rename=RiFragmentString_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&RiFragmentStr<S>>::try_from->RiFragmentStr_try_from_str call=Into::into->RiFragmentString_from_RiFragmentStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !(is_sat(bytes@, Cls::Fragment, S::iri())) }
#fn RiFragmentString::<TryFrom<alloc::string::String>>::try_from free rename=RiFragmentString_try_from_String
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !(is_sat(s.sb(), Cls::Fragment, S::iri())) && e.src() == s }

#end
