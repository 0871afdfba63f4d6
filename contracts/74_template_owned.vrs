#module template::string::owned
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::tgrammar::*;
use crate::vstring::*;
use crate::template::error::*;
use crate::template::string::*;
use crate::template::parser::validate::validate_template_str;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#feature alloc
#file template/string/owned.rs
#item struct UriTemplateString
#raw
impl UriTemplateString {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.sb() }
    pub open spec fn wf(&self) -> bool { g_template(self.bytes()) }
    /// autoderef to the borrowed type
    pub fn as_str(&self) -> (r: &str) requires self.wf() ensures r.spec_bytes() == self.bytes() { self.as_slice().as_str() }
}
#fn UriTemplateString::new_unchecked
#requires g_template(s.sb())
#ensures r.wf(), r.bytes() == s.sb()
#fn UriTemplateString::new_always_unchecked
#requires g_template(s.sb())
#ensures r.wf(), r.bytes() == s.sb()
#fn UriTemplateString::validate
#ensures r is Ok == g_template(s.spec_bytes())
#fn UriTemplateString::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str> co=self.inner
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() }
#fn UriTemplateString::<AsRef<UriTemplateStr>>::as_ref trait=crate::vx::VAsRef<UriTemplateStr> call=AsRef::<str>::as_ref->crate::vx::VAsRef::<str>::as_ref
#implspec open spec fn arq(&self) -> bool { self.wf() } open spec fn ar(&self, r: &UriTemplateStr) -> bool { r.bytes() == self.bytes() }
#fn UriTemplateString::as_slice
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn UriTemplateString::<Deref>::deref rename=vx_deref
#requires self.wf()
#ensures r.bytes() == self.bytes()
#fn UriTemplateString::<From<&'_UriTemplateStr>>::from free rename=UriTemplateString_from_UriTemplateStr call=alloc::string::String::from->crate::vstring::string_from_str
#ensures r.wf(), r.bytes() == s.bytes()
#proof start
    proof { s.valid(); }
#fn UriTemplateStr::<ToOwned>::to_owned rename=vx_to_owned call=.into->UriTemplateString_from_UriTemplateStr
#ensures r.wf(), r.bytes() == self.bytes()
#fn String::<From<UriTemplateString>>::from free rename=UriTemplateString_into_String
#ensures r.sb() == s.bytes()
#fn UriTemplateString::<TryFrom<&'_str>>::try_from free rename=UriTemplateString_try_from_str resmap call=<&UriTemplateStr>::try_from->UriTemplateStr_try_from_str call=Into::into->UriTemplateString_from_UriTemplateStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !g_template(s.spec_bytes()) }
#fn UriTemplateString::<FromStr>::from_str free rename=UriTemplateString_from_str call=TryFrom::try_from->UriTemplateString_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.spec_bytes(), Err(_) => !g_template(s.spec_bytes()) }
#fn UriTemplateString::<TryFrom<&'_[u8]>>::try_from free rename=UriTemplateString_try_from_bytes resmap call=core::str::from_utf8->crate::vx::str_from_utf8 call=<&UriTemplateStr>::try_from->UriTemplateStr_try_from_str call=Into::into->UriTemplateString_from_UriTemplateStr
#ensures match r { Ok(x) => x.wf() && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !g_template(bytes@) }
#fn UriTemplateString::<TryFrom<alloc::string::String>>::try_from free rename=UriTemplateString_try_from_String call=<&UriTemplateStr>::try_from->UriTemplateStr_try_from_str
#ensures match r { Ok(x) => x.wf() && x.bytes() == s.sb(), Err(e) => !g_template(s.sb()) && e.src() == s }
#fn UriTemplateString::append call=.push_str->.vx_push_str
#requires old(self).wf()
#ensures final(self).wf(), final(self).bytes() == old(self).bytes() + other.bytes()
#proof start
    proof { other.valid(); lemma_sb_valid(self.inner); lemma_template_concat(self.inner.sb(), other.bytes()); }
#end
