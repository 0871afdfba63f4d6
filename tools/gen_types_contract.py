#!/usr/bin/env python3
"""Prints contracts/40_types.vrs (the six typed strings share one contract shape)."""
T = [  # borrowed, owned, file, spec predicate, convertible supersets
    ("RiReferenceStr", "RiReferenceString", "reference", "g_reference(B, S::iri())", []),
    ("RiStr", "RiString", "normal", "g_uri(B, S::iri())", ["RiReferenceStr"]),
    ("RiAbsoluteStr", "RiAbsoluteString", "absolute", "g_absolute(B, S::iri())", ["RiStr", "RiReferenceStr"]),
    ("RiRelativeStr", "RiRelativeString", "relative", "g_relative(B, S::iri())", ["RiReferenceStr"]),
    ("RiQueryStr", "RiQueryString", "query", "is_sat(B, Cls::Query, S::iri())", []),
    ("RiFragmentStr", "RiFragmentString", "fragment", "is_sat(B, Cls::Fragment, S::iri())", []),
]
OWN = dict((t[0], t[1]) for t in T)
M = "+types/generic/macros.rs"
out = []
p = out.append
p("""#module types
#raw
// GENERATED by tools/gen_types_contract.py
// Typed strings. The borrowed types carry their grammar as a type invariant; trusted: the
// `repr(transparent)` cast of `new_always_unchecked`, whose precondition is that invariant.
use crate::vx::*;
use crate::vfmt::Write;
use crate::grammar::*;
use crate::spec::Spec;
use crate::parser::char::{Cls, sat};
use crate::validate::{Error, ErrorKind};
use crate::vstring::*;
use crate::validate::{iri, iri_reference, absolute_iri, relative_ref, query, fragment};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
""")
for b, o, f, g, sup in T:
    G = g.replace("B", "self.bytes()")
    GS = g.replace("B", "s.spec_bytes()")
    p(f"""#raw
#[verifier::accept_recursive_types(S)]
pub struct {b}<S: Spec> {{ _spec: core::marker::PhantomData<S>, inner: str }}
impl<S: Spec> {b}<S> {{
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool {{ {g.replace("B", "self.inner.spec_bytes()")} }}
    pub closed spec fn bytes(&self) -> Seq<u8> {{ self.inner.spec_bytes() }}
    pub proof fn valid(tracked &self) ensures {G}, valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    {{ use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }}
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires {GS} ensures r.bytes() == s.spec_bytes()
    {{ unsafe {{ &*(s as *const str as *const Self) }} }}
}}
#file types/generic/{f}.rs{M}
#fn {b}::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool {{ true }} open spec fn ar(&self, r: &str) -> bool {{ r.spec_bytes() == self.bytes() && ({g.replace("B", "r.spec_bytes()")}) }}
#proof start
    proof {{ use_type_invariant(self); }}
#fn {b}::<AsRef<{b}<S>>>::as_ref trait=crate::vx::VAsRef<{b}<S>>
#implspec open spec fn arq(&self) -> bool {{ true }} open spec fn ar(&self, r: &{b}<S>) -> bool {{ r == self }}
#fn {b}::as_str
#ensures r.spec_bytes() == self.bytes(), {G}
#fn {b}::len
#ensures r == self.bytes().len()
#fn {b}::is_empty
#ensures r == (self.bytes().len() == 0)
#fn {b}::validate
#ensures r is Ok == ({GS})
#fn {b}::new_unchecked
#requires {GS}
#ensures r.bytes() == s.spec_bytes()
#fn {b}::new_unchecked_justified
#requires {GS}
#ensures r.bytes() == s.spec_bytes()
#fn {b}::<TryFrom<&'astr>>::try_from free rename={b}_try_from_str
#ensures match r {{ Ok(x) => ({GS}) && x.bytes() == s.spec_bytes(), Err(_) => !({GS}) }}
#fn {b}::new call=core::convert::TryFrom::try_from->{b}_try_from_str
#ensures match r {{ Ok(x) => ({GS}) && x.bytes() == s.spec_bytes(), Err(_) => !({GS}) }}

""")
    p(f"""#raw
impl<S: Spec> crate::vfmt::Display for {b}<S> {{ open spec fn text(&self) -> Seq<char> {{ dec(self.bytes()) }} open spec fn dok(&self) -> bool {{ true }} }}
#fn {b}::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::wrote(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f)), r is Err ==> <crate::vfmt::Formatter<'_> as crate::vfmt::Write>::failed(*old(f), <Self as crate::vfmt::Display>::text(self), *final(f))""")
    for t in sup:
        tg = [x for x in T if x[0] == t][0][3]
        p(f"""#fn {b}::<AsRef<{t}<S>>>::as_ref trait=crate::vx::VAsRef<{t}<S>>
#implspec open spec fn arq(&self) -> bool {{ true }} open spec fn ar(&self, r: &{t}<S>) -> bool {{ r.bytes() == self.bytes() }}
#proof start
    proof {{ use_type_invariant(self); lemma_inclusion(self.bytes(), S::iri()); }}
#fn {t}::<From<&'a{b}<S>>>::from free rename={b}_into_{t}
#ensures r.bytes() == s.bytes()
#fn {b}::<TryFrom<&'a{t}<S>>>::try_from free rename={b}_try_from_{t} call=<&'a{b}<S>>::try_from->{b}_try_from_str
#ensures match r {{ Ok(x) => ({g.replace("B", "s.bytes()")}) && x.bytes() == s.bytes(), Err(_) => !({g.replace("B", "s.bytes()")}) }}""")
p("""#file types/generic/error.rs
#item struct CreationError
#raw
impl<T> CreationError<T> { pub closed spec fn src(self) -> T { self.source } }
#fn CreationError::new
#ensures r.src() == source
#fn CreationError::into_source
#ensures r == self.src()
""")
for b, o, f, g, sup in T:
    G = g.replace("B", "self.bytes()")
    GB = g.replace("B", "s.sb()")
    p(f"""#file types/generic/{f}.rs{M}
#item struct {o}
#raw
impl<S: Spec> {o}<S> {{
    pub closed spec fn bytes(&self) -> Seq<u8> {{ self.inner.sb() }}
    /// the text is in the grammar of the type
    pub open spec fn wf(&self) -> bool {{ {G} }}
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() {{ self.as_slice().as_str() }}
}}
#fn {o}::new_always_unchecked
#requires {GB}
#ensures r.wf(), r.bytes() == s.sb()
#fn {o}::new_unchecked
#requires {GB}
#ensures r.wf(), r.bytes() == s.sb()
#fn {o}::new_unchecked_justified co=s
#requires {GB}
#ensures r.wf(), r.bytes() == s.sb()
#fn {o}::validate
#ensures r is Ok == ({g.replace("B", "s.spec_bytes()")})
#fn {o}::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool {{ self.wf() }} open spec fn ar(&self, r: &str) -> bool {{ r.spec_bytes() == self.bytes() }}
#fn {o}::<AsRef<{b}<S>>>::as_ref trait=crate::vx::VAsRef<{b}<S>> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool {{ self.wf() }} open spec fn ar(&self, r: &{b}<S>) -> bool {{ r.bytes() == self.bytes() }}
#fn {o}::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn {o}::as_inner_mut
#ensures r.sb() == old(self).bytes(), final(self).bytes() == final(r).sb()
#fn {o}::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn {o}::<Clone>::clone rename=imp_clone call=.clone->.vx_clone
#requires self.wf()
#ensures r.wf(), r.bytes() == self.bytes()
#fn {o}::<From<&'_{b}<S>>>::from free rename={o}_from_{b} call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof {{ s.valid(); }}
#fn {b}::<ToOwned>::to_owned rename=vx_to_owned call=.into->{o}_from_{b}
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<{o}<S>>>::from free rename={o}_into_String
#ensures r.sb() == s.bytes()
#fn {o}::<TryFrom<&'_str>>::try_from free rename={o}_try_from_str resmap call=<&{b}<S>>::try_from->{b}_try_from_str call=Into::into->{o}_from_{b}
#ensures match r {{ Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !({g.replace("B", "s.spec_bytes()")}) }}
#fn {o}::<FromStr>::from_str free rename={o}_from_str call=core::convert::TryFrom::try_from->{o}_try_from_str
#ensures match r {{ Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !({g.replace("B", "s.spec_bytes()")}) }}
#fn {b}::<TryFrom<&'a[u8]>>::try_from free rename={b}_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r {{ Ok(x) => valid_utf8(bytes@) && ({g.replace("B", "bytes@")}) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !({g.replace("B", "bytes@")}) }}
#fn {o}::<TryFrom<&'_[u8]>>::try_from free rename={o}_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&{b}<S>>::try_from->{b}_try_from_str call=Into::into->{o}_from_{b}
#ensures match r {{ Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !({g.replace("B", "bytes@")}) }}
#fn {o}::<TryFrom<alloc::string::String>>::try_from free rename={o}_try_from_String
#ensures match r {{ Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !({GB}) && e.src() == s }}
""")
    for t in sup:
        to = OWN[t]
        p(f"""#fn {o}::<AsRef<{t}<S>>>::as_ref trait=crate::vx::VAsRef<{t}<S>> call=AsRef::<{b}<S>>::as_ref->crate::vx::VAsRef::<{b}<S>>::as_ref
#implspec open spec fn arq(&self) -> bool {{ self.wf() }} open spec fn ar(&self, r: &{t}<S>) -> bool {{ r.bytes() == self.bytes() }}
#fn {to}::<From<{o}<S>>>::from free rename={o}_into_{to} call=.into->{o}_into_String
#requires s.wf()
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof {{ lemma_inclusion(s.bytes(), S::iri()); }}
#fn {o}::<TryFrom<{to}<S>>>::try_from free rename={o}_try_from_{to} call=.into->{to}_into_String
#requires s.wf()
#ensures match r {{ Ok(x) => x.wf() && x.bytes() == s.bytes(), Err(e) => !({g.replace("B", "s.bytes()")}) && e.src() == s }}
""")
p("#end")
open("/verif/contracts/40_types.vrs", "w").write("\n".join(out) + "\n")
