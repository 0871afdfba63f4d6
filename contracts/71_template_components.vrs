#module template::components
#file template/components.rs
#raw
use crate::vx::*;
use crate::tgrammar::*;
use crate::template::error::Error;
use crate::template::parser::validate as validate_parser;
use crate::parser::str::*;
use crate::grammar::*;
use crate::parser::char::*;
use crate::template::parser::char::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item enum Operator
#item enum Modifier
#item struct ExprBody
#item struct VarName
#item struct VarSpec
#item struct VarListStr
#item struct VarListIter
#item enum OperatorReservedForFuture
#item enum MaybeOperator
#raw
/// operator = "+" / "#" / "." / "/" / ";" / "?" / "&"
pub open spec fn op_of(b: u8) -> Option<Operator> {
    if b == 0x2b { Some(Operator::Reserved) } else if b == 0x23 { Some(Operator::Fragment) } else if b == 0x2e { Some(Operator::Label) }
    else if b == 0x2f { Some(Operator::PathSegments) } else if b == 0x3b { Some(Operator::PathParams) } else if b == 0x3f { Some(Operator::FormQuery) }
    else if b == 0x26 { Some(Operator::FormQueryCont) } else { None }
}
#fn MaybeOperator::from_byte
#ensures match r {
    Some(MaybeOperator::Operator(o)) => op_of(b) == Some(o),
    Some(MaybeOperator::Reserved(_)) => op_reserved(b),
    None => op_of(b) is None && !op_reserved(b) }
#fn Operator::from_byte
#ensures r == op_of(b)
#fn Operator::len
#ensures r == (if self is String { 0int } else { 1 })

#raw
/// the modifier of a varspec
pub open spec fn modifier_of(b: Seq<u8>) -> Modifier {
    let k = first2(b, 0x3a, 0x2a);
    if !(k < b.len()) { Modifier::None } else if b[k] == 0x3a { Modifier::MaxLen(decval(sfx(b, k + 1)) as u16) } else { Modifier::Explode }
}
impl<'a> ExprBody<'a> { pub closed spec fn eb(&self) -> Seq<u8> { self.0.spec_bytes() }
    pub proof fn valid(&self) ensures valid_utf8(self.eb()) { lemma_str_dec(self.0); } }
impl<'a> VarName<'a> { pub closed spec fn nb(&self) -> Seq<u8> { self.0.spec_bytes() } }
impl<'a> VarListStr<'a> { pub closed spec fn lb(&self) -> Seq<u8> { self.0.spec_bytes() } }
impl<'a> VarListIter<'a> { pub closed spec fn rb(&self) -> Seq<u8> { self.rest.spec_bytes() }
    pub proof fn valid(&self) ensures valid_utf8(self.rb()) { lemma_str_dec(self.rest); } }
impl<'a> VarSpec<'a> {
    pub closed spec fn nm(&self) -> Seq<u8> { self.name.nb() }
    pub closed spec fn md(&self) -> Modifier { self.modifier }
    pub open spec fn is_spec(&self, b: Seq<u8>) -> bool { self.nm() == vname(b) && self.md() == modifier_of(b) }
}
#fn ExprBody::new
#requires s.spec_bytes().len() > 0
#ensures r.eb() == s.spec_bytes()
#fn ExprBody::as_str
#ensures r.spec_bytes() == self.eb()
#fn ExprBody::decompose
#requires g_expr(self.eb())
#ensures r.0 == (match op_of(self.eb()[0]) { Some(o) => o, None => Operator::String }), r.1.lb() == expr_list(self.eb())
#proof start
    proof { lemma_str_dec(self.0); lemma_expr_head(self.eb()); }
#closure 0 || -> (r: Operator) requires false
#fn VarName::from_trusted
#ensures r.nb() == s.spec_bytes()
#fn VarName::new
#ensures match r { Ok(x) => g_varname(s.spec_bytes()) && x.nb() == s.spec_bytes(), Err(_) => !g_varname(s.spec_bytes()) }
#fn VarName::as_str
#ensures r.spec_bytes() == self.nb()
#fn VarSpec::name
#ensures r.nb() == self.nm()
#fn VarSpec::modifier
#ensures r == self.md()
#fn VarSpec::parse_trusted call=.parse->crate::vx::parse_u16
#requires g_varspec(s.spec_bytes())
#ensures r.is_spec(s.spec_bytes())
#proof start
    proof { lemma_varspec(s.spec_bytes()); }
#fn VarListStr::new
#ensures r.lb() == s.spec_bytes()
#fn VarListStr::<IntoIterator>::into_iter rename=vx_into_iter
#ensures r.rb() == self.lb()
#fn VarListIter::<Iterator>::next rename=next call=mem::take->crate::vx::mem_take_str
#requires old(self).rb().len() == 0 || g_varlist(old(self).rb())
#ensures ({ let b = old(self).rb(); let k = first1(b, 0x2c);
    match r {
        None => b.len() == 0 && final(self).rb() == b,
        Some((n, v)) => b.len() > 0 && n == k && v.is_spec(pfx(b, k))

            && final(self).rb() == (if k < b.len() { sfx(b, k + 1) } else { Seq::empty() }) && (k < b.len() ==> g_varlist(final(self).rb())),
    } })
#proof start
    proof { lemma_str_dec(self.rest); lemma_list_next(self.rest.spec_bytes()); }
