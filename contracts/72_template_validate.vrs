#module template::parser::validate
#file template/parser/validate.rs
#raw
use crate::vx::*;
use crate::grammar::*;
use crate::tgrammar::*;
use crate::parser::char::{Cls, sat, pa, pn, hexdig, digit};
use crate::parser::str::*;
use crate::template::components::*;
use crate::template::error::{Error, ErrorKind};
use crate::template::parser::char::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec, crate::grammar::lemma_sat_empty};
#fn validate_literal
#requires offset + s.spec_bytes().len() <= usize::MAX
#ensures r is Ok == g_tlit(s.spec_bytes())
#closure 0 |c: char| -> (r: bool) ensures r == ((c as u32) >= 0x80 || !tlit(c as u8))
#fn validate_varspec
#requires offset + s.spec_bytes().len() + 2 <= usize::MAX
#ensures r is Ok == g_varspec(s.spec_bytes())
#closure 0 |b: u8| -> (r: bool) ensures r == !digit(b)
#fn validate_varname
#ensures r is Ok == g_varname(s.spec_bytes())
#proof start
    proof { lemma_varname(s.spec_bytes()); }
#closure 0 |c: char| -> (r: bool) ensures r == false
#proof let is_valid
    proof {
        let b = rest.spec_bytes();
        lemma_no_dots_sub(b, 0, seq![0x2eu8, 0x2e]);
        assert forall|p: Seq<u8>| #[trigger] first_sub(b, 0, p) == first_sub(b, 0, p) && p.len() == 2 && p[0] == 0x2e && p[1] == 0x2e implies p == seq![0x2eu8, 0x2e] by { assert(p =~= seq![0x2eu8, 0x2e]); }
    }
#fn validate_expr_body
#requires offset + s.spec_bytes().len() + 3 <= usize::MAX
#ensures r is Ok == g_expr(s.spec_bytes())
#loop 0
    invariant
        g_expr(s.spec_bytes()) == (match vx_it0.rest() { Some(b) => g_varlist(b), None => true }),
        vx_it0.sep() == 0x2c,
        vx_i0 + (match vx_it0.rest() { Some(b) => b.len() as int, None => -1 }) <= s.spec_bytes().len(),
        offset + (match vx_it0.rest() { Some(b) => b.len() as int + (if vx_i0 == 0 { 0int } else { 1 }), None => 0 }) + 3 <= usize::MAX,
    ensures vx_it0.rest() is None,
    decreases (match vx_it0.rest() { Some(b) => b.len() as int + 1, None => 0 })
#fn validate_template_str
#ensures r is Ok == g_template(s.spec_bytes())
#loop 0
    invariant
        rest.spec_bytes().len() + offset == s.spec_bytes().len(),
        g_template(s.spec_bytes()) == g_template(rest.spec_bytes()),
    decreases rest.spec_bytes().len()
