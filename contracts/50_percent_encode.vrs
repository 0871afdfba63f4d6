#module percent_encode
#file percent_encode.rs
#raw
use crate::vx::*;
use crate::vfmt as fmt;
use crate::vfmt::{Write as _, WriteExt as _, pct_all, pct_upper};
use crate::parser::char;
use crate::parser::char::{Cls, pn, regname_c, userinfo_c, pchar, frag_query, unreserved, unres_or_res, iprivate};
use crate::spec::Spec;
use core::marker::PhantomData;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item enum Context
#item struct PercentEncoded
#item struct PercentEncoded::<Display>::fmt/Filter
#raw
/// what the context allows unencoded (RFC 3986 / RFC 3987 productions; ":" is kept out of user and password)
pub open spec fn allowed(k: Context, iri: bool, c: char) -> bool {
    let a = (c as u32) < 0x80;
    let b = c as u8;
    match k {
        Context::RegName => if a { regname_c(b) } else { pn(Cls::Regname, iri, c) },
        Context::UserOrPassword => if a { userinfo_c(b) && c != ':' } else { pn(Cls::Userinfo, iri, c) },
        Context::PathSegment => if a { pchar(b) } else { pn(Cls::Pchar, iri, c) },
        Context::Path => if a { pchar(b) || c == '/' } else { pn(Cls::Pchar, iri, c) },
        Context::Query => if a { frag_query(b) } else { pn(Cls::Query, iri, c) },
        Context::Fragment => if a { frag_query(b) } else { pn(Cls::Fragment, iri, c) },
        Context::Unreserve => if a { unreserved(b) } else { pn(Cls::Regname, iri, c) },
        Context::Character => if a { unres_or_res(b) } else { pn(Cls::Regname, iri, c) || (iri && iprivate(c)) },
    }
}
pub open spec fn enc_char(k: Context, iri: bool, c: char) -> Seq<char> {
    if allowed(k, iri, c) { seq![c] } else { pct_all(encode_utf8(seq![c])) }
}
pub open spec fn enc_text(k: Context, iri: bool, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { enc_text(k, iri, s.drop_last()) + enc_char(k, iri, s.last()) }
}
pub proof fn lemma_enc_concat(k: Context, iri: bool, s: Seq<char>, t: Seq<char>)
    ensures enc_text(k, iri, s + t) == enc_text(k, iri, s) + enc_text(k, iri, t)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(enc_text(k, iri, s) + Seq::<char>::empty() =~= enc_text(k, iri, s)); }
    else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_enc_concat(k, iri, s, t.drop_last());
        assert(enc_text(k, iri, s) + enc_text(k, iri, t.drop_last()) + enc_char(k, iri, t.last()) =~= enc_text(k, iri, s) + enc_text(k, iri, t));
    }
}
pub proof fn lemma_enc_one(k: Context, iri: bool, c: char)
    ensures enc_text(k, iri, seq![c]) == enc_char(k, iri, c)
{
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    assert(enc_text(k, iri, seq![c].drop_last()) == Seq::<char>::empty());
    assert(Seq::<char>::empty() + enc_char(k, iri, c) =~= enc_char(k, iri, c));
}
impl<T: fmt::Display, S: Spec> fmt::Display for PercentEncoded<T, S> {
    open spec fn text(&self) -> Seq<char> { enc_text(self.context, S::iri(), self.raw.text()) }
    open spec fn dok(&self) -> bool { self.raw.dok() }
    open spec fn solid(&self) -> bool { true }
}
impl<'a, 'b, S: Spec> fmt::Write for Filter<'a, 'b, S> {
    #[verifier::prophetic]
    open spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool {
        o.context == n.context && (*n.writer).out() == (*o.writer).out() + enc_text(o.context, S::iri(), s) && (*n.writer).may() == (*o.writer).may()
            && <fmt::Formatter<'_> as fmt::Write>::sol(*o.writer, *n.writer)
            && mut_ref_future(o.writer) == mut_ref_future(n.writer)
    }
    #[verifier::prophetic]
    open spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { (*o.writer).may() && mut_ref_future(o.writer) == mut_ref_future(n.writer) }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { true }
    proof fn law_sol_refl(o: Self) {}
    proof fn law_sol_trans(a: Self, b: Self, c: Self) {}
    proof fn law_empty(o: Self) { assert((*o.writer).out() + Seq::<char>::empty() =~= (*o.writer).out()); }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {
        lemma_enc_concat(a.context, S::iri(), s, t);
        assert((*a.writer).out() + enc_text(a.context, S::iri(), s) + enc_text(a.context, S::iri(), t) =~= (*a.writer).out() + enc_text(a.context, S::iri(), s + t));
    }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {}
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) {}
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { self.imp_write_str(s) }
    fn write_char(&mut self, c: char) -> (r: fmt::Result) { self.imp_write_char(c) }
}
#fn PercentEncoded::<Display>::fmt/Filter::<Write>::write_char rename=imp_write_char
#ensures r is Ok ==> <Self as fmt::Write>::wrote(*old(self), seq![c], *final(self)), r is Err ==> <Self as fmt::Write>::failed(*old(self), seq![c], *final(self))
#proof start
    proof { lemma_enc_one(self.context, S::iri(), c); }
#fn PercentEncoded::<Display>::fmt/Filter::<Write>::write_str rename=imp_write_str
#ensures r is Ok ==> <Self as fmt::Write>::wrote(*old(self), s@, *final(self)), r is Err ==> <Self as fmt::Write>::failed(*old(self), s@, *final(self))
#proof start
    let ghost o = *self;
    proof { <Self as fmt::Write>::law_empty(o); }
#loop 0
    invariant
        vx_i0 is Some ==> s@.len() > vx_x0@.len() && vx_i0 == Some(s@[s@.len() - vx_x0@.len() - 1]) && vx_x0@ == s@.skip(s@.len() - vx_x0@.len()),
        vx_i0 is None ==> vx_x0@.len() == 0,
        vx_r0 is Ok && vx_i0 is Some ==> <Self as fmt::Write>::wrote(o, s@.take(s@.len() - vx_x0@.len() - 1), *self),
        vx_r0 is Ok && vx_i0 is None ==> <Self as fmt::Write>::wrote(o, s@, *self),
        vx_r0 is Err ==> <Self as fmt::Write>::failed(o, s@, *self),
    decreases vx_x0@.len(), (if vx_i0 is Some { 1int } else { 0 }),
#proof loop 0 start
    let ghost k = s@.len() - vx_x0@.len() - 1;
    let ghost m = *self;
#proof loop 0 end
    proof {
        let c = s@[k];
        assert(s@.take(k) + seq![c] =~= s@.take(k + 1));
        if vx_r0 is Ok { <Self as fmt::Write>::law_trans(o, s@.take(k), m, seq![c], *self); assert(s@.take(s@.len() as int) =~= s@); }
        else { <Self as fmt::Write>::law_fail(o, s@.take(k), m, seq![c], *self); <Self as fmt::Write>::law_ext(o, s@.take(k + 1), *self, s@.skip(k + 1)); assert(s@.take(k + 1) + s@.skip(k + 1) =~= s@); }
    }
#fn PercentEncoded::<Display>::fmt rename=imp_fmt
#requires <Self as fmt::Display>::dok(self)
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f)),
    r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::sol(*old(f), *final(f))
#raw
impl<T: fmt::Display, S: Spec> PercentEncoded<T, S> { pub open spec fn is(&self, k: Context, raw: T) -> bool { self.context == k && self.raw == raw } }
#fn PercentEncoded::from_reg_name
#ensures r.is(Context::RegName, raw)
#fn PercentEncoded::from_user
#ensures r.is(Context::UserOrPassword, raw)
#fn PercentEncoded::from_password
#ensures r.is(Context::UserOrPassword, raw)
#fn PercentEncoded::from_path_segment
#ensures r.is(Context::PathSegment, raw)
#fn PercentEncoded::from_path
#ensures r.is(Context::Path, raw)
#fn PercentEncoded::from_query
#ensures r.is(Context::Query, raw)
#fn PercentEncoded::from_fragment
#ensures r.is(Context::Fragment, raw)
#fn PercentEncoded::unreserve
#ensures r.is(Context::Unreserve, raw)
#fn PercentEncoded::characters
#ensures r.is(Context::Character, raw)
#fn write_pct_encoded_char subst=fmt::Write->fmt::Write
#requires W::winv(*old(writer))
#ensures r is Ok ==> W::winv(*final(writer)), r is Ok ==> W::wrote(*old(writer), pct_all(encode_utf8(seq![c])), *final(writer)), r is Err ==> W::failed(*old(writer), pct_all(encode_utf8(seq![c])), *final(writer)),
    r is Ok ==> W::sol(*old(writer), *final(writer))
#proof let buf
    let ghost o = *writer;
    proof { W::law_empty(o); W::law_sol_refl(o); }
#loop 0
    invariant
        vx_i0 <= vx_x0@.len(), vx_x0@ == encode_utf8(seq![c]), vx_x0@.take(vx_x0@.len() as int) == vx_x0@,
        vx_r0 is Ok ==> W::wrote(o, pct_all(vx_x0@.take(vx_i0 as int)), *writer),
        vx_r0 is Err ==> W::failed(o, pct_all(vx_x0@), *writer),
        vx_r0 is Ok ==> W::sol(o, *writer) && W::winv(*writer),
    decreases vx_x0@.len() - vx_i0,
#proof loop 0 start
    let ghost m = *writer;
#proof loop 0 end
    proof { if vx_r0 is Ok { W::law_sol_trans(o, m, *writer); } crate::vfmt::lemma_pct_step(o, vx_x0@, vx_i0 - 1, m, *writer, vx_r0); }
#proof let vx_x0
    proof { assert(vx_x0@.take(0) =~= Seq::<u8>::empty()); assert(vx_x0@.take(vx_x0@.len() as int) =~= vx_x0@); }
