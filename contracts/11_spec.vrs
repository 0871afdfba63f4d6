#module spec
#file spec.rs
#raw
use crate::vx::*;
use crate::parser::char::*;
// the uninhabited tag types of spec.rs, as unit structs (Verus rejects empty enums)
pub struct IriSpec;
pub struct UriSpec;
/// `Spec: Sealed: SpecInternal` collapsed to one trait; `iri()` is the ghost tag of the specification.
pub trait Spec: Sized {
    spec fn iri() -> bool;
    fn is_nonascii_char_unreserved(c: char) -> (r: bool)
        ensures r == pn(Cls::Regname, Self::iri(), c);
    fn is_nonascii_char_private(c: char) -> (r: bool)
        ensures r == (Self::iri() && iprivate(c));
}
impl Spec for IriSpec {
    open spec fn iri() -> bool { true }
    fn is_nonascii_char_unreserved(c: char) -> bool { IriSpec::imp_unreserved(c) }
    fn is_nonascii_char_private(c: char) -> bool { IriSpec::imp_private(c) }
}
impl Spec for UriSpec {
    open spec fn iri() -> bool { false }
    fn is_nonascii_char_unreserved(c: char) -> bool { UriSpec::imp_unreserved(c) }
    fn is_nonascii_char_private(c: char) -> bool { UriSpec::imp_private(c) }
}
#file spec/internal.rs
#fn IriSpec::<SpecInternal>::is_nonascii_char_unreserved rename=imp_unreserved
#ensures r == pn(Cls::Regname, true, c)
#fn IriSpec::<SpecInternal>::is_nonascii_char_private rename=imp_private
#ensures r == iprivate(c)
#fn UriSpec::<SpecInternal>::is_nonascii_char_unreserved rename=imp_unreserved
#ensures r == false
#fn UriSpec::<SpecInternal>::is_nonascii_char_private rename=imp_private
#ensures r == false
