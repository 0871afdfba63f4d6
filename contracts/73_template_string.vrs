#module template::string
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::tgrammar::*;
use crate::vstring::*;
use crate::template::error::*;
use crate::template::components::*;
use crate::template::expand::{Chunk, Chunks};
use crate::template::parser::validate::validate_template_str;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
pub struct UriTemplateStr { inner: str }
impl UriTemplateStr {
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { g_template(self.inner.spec_bytes()) }
    pub closed spec fn bytes(&self) -> Seq<u8> { self.inner.spec_bytes() }
    pub proof fn valid(tracked &self) ensures g_template(self.bytes()), valid_utf8(self.bytes()), self.bytes().len() <= isize::MAX
    { use_type_invariant(self); lemma_str_dec(&self.inner); axiom_str_len(&self.inner); }
    #[verifier::external_body]
    pub fn new_always_unchecked(s: &str) -> (r: &Self) requires g_template(s.spec_bytes()) ensures r.bytes() == s.spec_bytes()
    { unsafe { &*(s as *const str as *const Self) } }
}
#file template/error.rs
#item struct CreationError
#raw
impl<T> CreationError<T> { pub closed spec fn src(self) -> T { self.source } }
#fn CreationError::new
#ensures r.src() == source
#fn CreationError::into_source
#ensures r == self.src()
#file template/string.rs
#fn UriTemplateStr::<AsRef<str>>::as_ref trait=crate::vx::VAsRef<str>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &str) -> bool { r.spec_bytes() == self.bytes() && g_template(r.spec_bytes()) }
#proof start
    proof { use_type_invariant(self); }
#fn UriTemplateStr::<AsRef<UriTemplateStr>>::as_ref trait=crate::vx::VAsRef<UriTemplateStr>
#implspec open spec fn arq(&self) -> bool { true } open spec fn ar(&self, r: &UriTemplateStr) -> bool { r == self }
#fn UriTemplateStr::new_unchecked
#requires g_template(s.spec_bytes())
#ensures r.bytes() == s.spec_bytes()
#fn UriTemplateStr::validate
#ensures r is Ok == g_template(s.spec_bytes())
#fn UriTemplateStr::as_str
#ensures r.spec_bytes() == self.bytes(), g_template(self.bytes())
#fn UriTemplateStr::len
#ensures r == self.bytes().len()
#fn UriTemplateStr::is_empty
#ensures r == (self.bytes().len() == 0)
#fn UriTemplateStr::<TryFrom<&'astr>>::try_from free rename=UriTemplateStr_try_from_str
#ensures match r { Ok(x) => g_template(s.spec_bytes()) && x.bytes() == s.spec_bytes(), Err(_) => !g_template(s.spec_bytes()) }
#fn UriTemplateStr::<TryFrom<&'a[u8]>>::try_from free rename=UriTemplateStr_try_from_bytes call=core::str::from_utf8->crate::vx::str_from_utf8
#ensures match r { Ok(x) => valid_utf8(bytes@) && g_template(bytes@) && x.bytes() == bytes@, Err(_) => !valid_utf8(bytes@) || !g_template(bytes@) }
#fn UriTemplateStr::new call=TryFrom::try_from->UriTemplateStr_try_from_str
#ensures match r { Ok(x) => g_template(s.spec_bytes()) && x.bytes() == s.spec_bytes(), Err(_) => !g_template(s.spec_bytes()) }
#item struct UriTemplateVariables
#raw
impl<'a> UriTemplateVariables<'a> {
    pub closed spec fn wf(&self) -> bool {
        self.chunks.wf() && (self.vars_in_chunk matches Some(v) ==> v.rb().len() == 0 || g_varlist(v.rb()))
    }
    /// the varspecs whose names are still to come
    pub closed spec fn todo(&self) -> Seq<Seq<u8>> {
        (match self.vars_in_chunk { Some(v) => specs(v.rb()), None => Seq::empty() }) + tspecs(self.chunks.cb())
    }
}
pub proof fn lemma_todo(v: Option<VarListIter>, c: Seq<u8>)
    requires v matches Some(v) ==> valid_utf8(v.rb()) && (v.rb().len() == 0 || g_varlist(v.rb()))
    ensures specs(Seq::<u8>::empty()) + tspecs(c) == tspecs(c),
        Seq::<Seq<u8>>::empty() + tspecs(c) == tspecs(c),
        v matches Some(v) ==> v.rb().len() > 0 ==> ({ let b = v.rb(); let k = first1(b, 0x2c); let n = if k < b.len() { sfx(b, k + 1) } else { Seq::empty() };
            specs(b) + tspecs(c) != Seq::<Seq<u8>>::empty() && (specs(b) + tspecs(c))[0] == pfx(b, k) && (specs(b) + tspecs(c)).skip(1) == specs(n) + tspecs(c) }),
{
    assert(specs(Seq::<u8>::empty()) + tspecs(c) =~= tspecs(c));
    assert(Seq::<Seq<u8>>::empty() + tspecs(c) =~= tspecs(c));
    if let Some(v) = v {
        if v.rb().len() > 0 {
            let b = v.rb(); let k = first1(b, 0x2c); let n = if k < b.len() { sfx(b, k + 1) } else { Seq::empty() };
            lemma_list_next(b);
            assert(specs(b) =~= seq![pfx(b, k)] + specs(n));
            assert((specs(b) + tspecs(c)).skip(1) =~= specs(n) + tspecs(c));
        }
    }
}
#fn UriTemplateVariables::new
#ensures r.wf(), r.todo() == tspecs(template.bytes())
#proof start
    proof { template.valid(); assert(Seq::<Seq<u8>>::empty() + tspecs(template.bytes()) =~= tspecs(template.bytes())); }
#fn UriTemplateStr::variables
#ensures r.wf(), r.todo() == tspecs(self.bytes())
#fn UriTemplateVariables::<Iterator>::next rename=imp_next findty=ExprBody<'_> call=.into_iter->.vx_into_iter
#requires old(self).wf()
#ensures final(self).wf(), match r {
    Some(n) => old(self).todo().len() > 0 && n.nb() == vname(old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1),
    None => old(self).todo().len() == 0 && final(self).todo().len() == 0 }
#loop 0
    invariant self.wf(), self.todo() == old(self).todo()
    decreases self.chunks.cb().len()
#loop 1
    invariant_except_break vx_r1 is None, specs(Seq::<u8>::empty()) + tspecs(self.chunks.cb()) == old(self).todo()
    invariant self.wf(), self.vars_in_chunk is None, self.chunks.cb().len() <= n0,
    ensures match vx_r1 {
        Some(e) => g_expr(e.eb()) && specs(expr_list(e.eb())) + tspecs(self.chunks.cb()) == old(self).todo() && self.chunks.cb().len() < n0 && valid_utf8(e.eb()),
        None => old(self).todo().len() == 0 && self.chunks.cb().len() == 0 }
    decreases self.chunks.cb().len()
#proof loop 0 start
    let ghost n0 = self.chunks.cb().len();
    proof { if self.vars_in_chunk is Some { self.vars_in_chunk->0.valid(); } lemma_todo(self.vars_in_chunk, self.chunks.cb()); }
#proof loop 1 start
    let ghost c0 = self.chunks.cb();
    proof { self.chunks.lemma_next(); }
#proof loop 0 end
    proof { expr.valid(); lemma_expr_head(expr.eb()); }
