#module format
#file format.rs
#raw
use crate::vx::*;
use crate::vfmt as fmt;
use crate::vfmt::{Write as _, WriteExt as _};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item struct CapacityOverflowError
#item struct ByteBufWriter
//priv
#item struct StringWriter
#item struct eq_str_display/CmpWriter
#raw
impl<'b> ByteBufWriter<'b> {
    #[verifier::type_invariant]
    spec fn wf(self) -> bool { self.len_written + self.buffer@.len() <= usize::MAX }
}
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
impl<'b> fmt::Write for ByteBufWriter<'b> {
    #[verifier::prophetic]
    closed spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool {
        let k = enc(s).len() as int;
        k <= o.buffer@.len() && n.buffer@ == sfx(o.buffer@, k) && n.len_written as int + n.buffer@.len() == o.len_written as int + o.buffer@.len()
            && final(o.buffer)@ == enc(s) + final(n.buffer)@
    }
    #[verifier::prophetic]
    closed spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { o.buffer@.len() < enc(s).len() }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { true }
    proof fn law_sol_refl(o: Self) {}
    proof fn law_sol_trans(a: Self, b: Self, c: Self) {}
    proof fn law_empty(o: Self) {
        encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty());
        assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
        assert(enc(Seq::<char>::empty()) =~= Seq::<u8>::empty());
        assert(enc(Seq::<char>::empty()) + final(o.buffer)@ =~= final(o.buffer)@);
    }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {
        encode_utf8_concat(s, t);
        assert(enc(s) + (enc(t) + final(c.buffer)@) =~= enc(s) + enc(t) + final(c.buffer)@);
    }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { encode_utf8_concat(s, t); }
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) { encode_utf8_concat(s, t); }
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { self.imp_write_str(s) }
    fn write_char(&mut self, c: char) -> (r: fmt::Result) { let mut buf = [0u8; 4]; self.write_str(char_encode_utf8(c, &mut buf)) }
}
impl<'a> fmt::Write for StringWriter<'a> {
    #[verifier::prophetic]
    open spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool {
        (*n.buffer)@ == (*o.buffer)@ + s && n.error == o.error && mut_ref_future(o.buffer) == mut_ref_future(n.buffer)
    }
    #[verifier::prophetic]
    open spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { n.error is Some && mut_ref_future(o.buffer) == mut_ref_future(n.buffer) }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { true }
    proof fn law_sol_refl(o: Self) {}
    proof fn law_sol_trans(a: Self, b: Self, c: Self) {}
    proof fn law_empty(o: Self) { assert((*o.buffer)@ + Seq::<char>::empty() =~= (*o.buffer)@); }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { assert((*a.buffer)@ + s + t =~= (*a.buffer)@ + (s + t)); }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {}
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) {}
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { self.imp_write_str(s) }
    fn write_char(&mut self, c: char) -> (r: fmt::Result) { let mut buf = [0u8; 4]; self.write_str(char_encode_utf8(c, &mut buf)) }
}
pub open spec fn is_pfx(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
impl<'a> fmt::Write for CmpWriter<'a> {
    #[verifier::prophetic]
    open spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool { o.0@ == s + n.0@ }
    #[verifier::prophetic]
    open spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { !is_pfx(o.0@, s) }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { true }
    proof fn law_sol_refl(o: Self) {}
    proof fn law_sol_trans(a: Self, b: Self, c: Self) {}
    proof fn law_empty(o: Self) { assert(Seq::<char>::empty() + o.0@ =~= o.0@); }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { assert(s + (t + c.0@) =~= (s + t) + c.0@); }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {
        if is_pfx(a.0@, s + t) {
            assert(b.0@ =~= a.0@.skip(s.len() as int));
            assert(b.0@.take(t.len() as int) =~= a.0@.take((s + t).len() as int).skip(s.len() as int));
            assert((s + t).skip(s.len() as int) =~= t);
        }
    }
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) {
        if is_pfx(a.0@, s + t) { assert(a.0@.take(s.len() as int) =~= a.0@.take((s + t).len() as int).take(s.len() as int)); assert((s + t).take(s.len() as int) =~= s); }
    }
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { self.imp_write_str(s) }
    fn write_char(&mut self, c: char) -> (r: fmt::Result) { let mut buf = [0u8; 4]; self.write_str(char_encode_utf8(c, &mut buf)) }
}
#fn ByteBufWriter::<Write>::write_str rename=imp_write_str call=core::mem::take->mem_take_mut call=.split_at_mut->.vx_split_at_mut call=.copy_from_slice->.vx_copy_from_slice
#ensures r is Ok ==> <Self as fmt::Write>::wrote(*old(self), s@, *final(self)), r is Err ==> <Self as fmt::Write>::failed(*old(self), s@, *final(self))
#proof start
proof { use_type_invariant(&*self); }
#fn write_to_slice call=core::str::from_utf8->str_from_utf8
#requires value.dok()
#ensures match r {
    Ok(s) => s@ == value.text() && enc(value.text()).len() <= old(buf)@.len() && final(buf)@ == enc(value.text()) + sfx(old(buf)@, enc(value.text()).len() as int),
    Err(_) => enc(value.text()).len() > old(buf)@.len(),
    }
#proof start
proof { vstd::slice::axiom_spec_len(&*buf); }
let ghost buf0 = buf@;
#proof let len
proof { use_type_invariant(&writer); }
let ghost wb = writer.buffer@;
proof {
    assert(len == enc(value.text()).len() && wb == sfx(buf0, len as int));
    assert(buf@ =~= enc(value.text()) + wb);
    assert(buf@.take(len as int) =~= enc(value.text()));
    encode_utf8_valid_utf8(value.text());
}
#proof tail
proof {
    lemma_str_dec(result);
    encode_utf8_decode_utf8(value.text());
    encode_utf8_decode_utf8(result@);
    assert(buf@ =~= enc(value.text()) + sfx(buf0, len as int));
}
#fn StringWriter::<Write>::write_str rename=imp_write_str call=.try_reserve->.vx_try_reserve
#ensures r is Ok ==> <Self as fmt::Write>::wrote(*old(self), s@, *final(self)), r is Err ==> <Self as fmt::Write>::failed(*old(self), s@, *final(self))
#fn try_append_to_string
#requires value.dok()
#ensures r is Ok ==> final(dest)@ == old(dest)@ + value.text()
#raw
/// text of a value that can be printed
pub trait VToString {
    spec fn vq(&self) -> bool;
    spec fn vs(&self) -> Seq<char>;
    fn try_to_string(&self) -> (r: core::result::Result<String, TryReserveError>)
        requires self.vq()
        ensures r matches Ok(x) ==> x@ == self.vs();
}
#feature alloc
#fn T::<ToStringFallible>::try_to_string trait=VToString
#implspec open spec fn vq(&self) -> bool { self.dok() } open spec fn vs(&self) -> Seq<char> { self.text() }
#fn eq_str_display/CmpWriter::<Write>::write_str rename=imp_write_str call=.strip_prefix->.vx_strip_prefix
#ensures r is Ok ==> <Self as fmt::Write>::wrote(*old(self), s@, *final(self)), r is Err ==> <Self as fmt::Write>::failed(*old(self), s@, *final(self))
#fn eq_str_display
#requires d.dok()
#ensures r == (s@ == d.text())
#proof tail
proof {
    assert(d.text() + Seq::<char>::empty() =~= d.text());
    assert(s@.take(s@.len() as int) =~= s@);
    if writer.0@.len() == 0 { assert(writer.0@ =~= Seq::<char>::empty()); }
}
