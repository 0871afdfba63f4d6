#module template::expand
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::tgrammar::*;
use crate::template::error::*;
use crate::template::components::*;
use crate::template::string::UriTemplateStr;
use crate::parser::str::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#file template/expand.rs
#item enum Chunk
#item struct Chunks
#raw
impl<'a> Chunks<'a> {
    pub closed spec fn cb(&self) -> Seq<u8> { self.template.spec_bytes() }
    pub closed spec fn wf(&self) -> bool { g_template(self.template.spec_bytes()) }
    pub proof fn lemma_next(&self)
        requires self.wf()
        ensures ({ let b = self.cb(); let k = first1(b, 0x7b); let t = sfx(b, k + 1); let j = first1(t, 0x7d);
        valid_utf8(b) && specs(Seq::<u8>::empty()) =~= Seq::<Seq<u8>>::empty() && (b.len() == 0 ==> tspecs(b) =~= Seq::<Seq<u8>>::empty())
        && (b.len() > 0 && k == 0 ==> j < t.len() && g_expr(pfx(t, j)) && valid_utf8(pfx(t, j)) && valid_utf8(sfx(t, j + 1)) && valid_utf8(t) && g_template(sfx(t, j + 1)) && is_char_boundary(b, 1)
            && tspecs(b) == specs(expr_list(pfx(t, j))) + tspecs(sfx(t, j + 1)) && pfx(t, j).len() > 0)
        && (b.len() > 0 && k > 0 ==> g_template(sfx(b, k)) && tspecs(sfx(b, k)) == tspecs(b) && valid_utf8(sfx(b, k)) && valid_utf8(pfx(b, k))) })
    { lemma_str_dec(self.template); if self.cb().len() > 0 { lemma_chunk(self.cb()); } }
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self }
}
#fn Chunks::new
#ensures r.cb() == template.bytes(), r.wf()
#fn Chunks::<Iterator>::next rename=next call=mem::take->crate::vx::mem_take_str
#requires old(self).wf()
#ensures final(self).wf(), ({ let b = old(self).cb(); let k = first1(b, 0x7b); let t = sfx(b, k + 1); let j = first1(t, 0x7d);
    match r {
        None => b.len() == 0 && final(self).cb() == b,
        Some(Chunk::Literal(l)) => b.len() > 0 && 0 < k && l.spec_bytes() == pfx(b, k) && final(self).cb() == sfx(b, k),
        Some(Chunk::Expr(e)) => b.len() > 0 && k == 0 && j < t.len() && e.eb() == pfx(t, j) && g_expr(e.eb()) && final(self).cb() == sfx(t, j + 1),
    } })
#proof start
    hide(g_template); hide(tspecs); hide(specs); hide(g_expr);
    proof { self.lemma_next(); assert(sfx(self.cb(), self.cb().len() as int) =~= Seq::<u8>::empty()); }
