#module vfmt
#raw
// Contracts of core::fmt as the crate uses it (trusted): a Formatter is the text written so far,
// plus whether the underlying writer may fail.
use crate::vx::*;
pub struct Error;
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body]
pub struct Formatter<'a> { p: core::marker::PhantomData<&'a ()> }
impl<'a> Formatter<'a> { pub uninterp spec fn out(&self) -> Seq<char>; pub uninterp spec fn may(&self) -> bool;
    /// no empty piece has been written so far
    pub uninterp spec fn solid(&self) -> bool; }
/// `core::fmt::Write`: `wrote(o, s, n)`: from state `o`, writing exactly `s` succeeded and led to `n`;
/// `failed(o, s, n)`: the attempt to write `s` from `o` failed and left `n`.
pub trait Write: Sized {
    #[verifier::prophetic]
    spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool;
    #[verifier::prophetic]
    spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool;
    /// between the two states no empty piece was written
    #[verifier::prophetic]
    spec fn sol(o: Self, n: Self) -> bool;
    /// the state in which the writer can be written to
    open spec fn winv(o: Self) -> bool { true }
    proof fn law_sol_refl(o: Self) ensures Self::sol(o, o);
    proof fn law_sol_trans(a: Self, b: Self, c: Self) requires Self::sol(a, b), Self::sol(b, c) ensures Self::sol(a, c);
    proof fn law_empty(o: Self) ensures Self::wrote(o, Seq::empty(), o);
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) requires Self::wrote(a, s, b), Self::wrote(b, t, c) ensures Self::wrote(a, s + t, c);
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) requires Self::wrote(a, s, b), Self::failed(b, t, c) ensures Self::failed(a, s + t, c);
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) requires Self::failed(a, s, b) ensures Self::failed(a, s + t, b);
    fn write_str(&mut self, s: &str) -> (r: Result)
        requires Self::winv(*old(self))
        ensures r is Ok ==> Self::winv(*final(self)), r is Ok ==> Self::wrote(*old(self), s@, *final(self)), r is Err ==> Self::failed(*old(self), s@, *final(self)),
            r is Ok && s@.len() > 0 ==> Self::sol(*old(self), *final(self));
    fn write_char(&mut self, c: char) -> (r: Result)
        requires Self::winv(*old(self))
        ensures r is Ok ==> Self::winv(*final(self)), r is Ok ==> Self::wrote(*old(self), seq![c], *final(self)), r is Err ==> Self::failed(*old(self), seq![c], *final(self)),
            r is Ok ==> Self::sol(*old(self), *final(self));
}
/// `core::fmt::Display` with the text it displays
/// (`dok`: the precondition of the implementation; `solid`: the implementation writes no empty pieces)
pub trait Display { spec fn text(&self) -> Seq<char>; spec fn dok(&self) -> bool; open spec fn solid(&self) -> bool { false } }
impl Display for str { open spec fn text(&self) -> Seq<char> { self@ } open spec fn dok(&self) -> bool { true } }
impl Display for char { open spec fn text(&self) -> Seq<char> { seq![*self] } open spec fn dok(&self) -> bool { true } }
impl<'a, T: Display + ?Sized> Display for &'a T { open spec fn text(&self) -> Seq<char> { (*self).text() } open spec fn dok(&self) -> bool { (*self).dok() } open spec fn solid(&self) -> bool { (*self).solid() } }
pub trait WriteExt: Write {
    /// `write!(self, "{}", x)`: `x` writes its text in arbitrary pieces and returns the first error of the writer
    fn vx_write_display<T: Display + ?Sized>(&mut self, x: &T) -> (r: Result)
        requires x.dok(), Self::winv(*old(self))
        ensures r is Ok ==> Self::winv(*final(self)), r is Ok ==> Self::wrote(*old(self), x.text(), *final(self)), r is Err ==> Self::failed(*old(self), x.text(), *final(self)),
            r is Ok && x.solid() ==> Self::sol(*old(self), *final(self)),
            r is Ok && x.solid() && x.text().len() == 0 ==> *final(self) == *old(self);
    /// `write!(self, "%{:02X}", b)`
    fn vx_write_pct_upper(&mut self, b: u8) -> (r: Result)
        requires Self::winv(*old(self))
        ensures r is Ok ==> Self::winv(*final(self)), r is Ok ==> Self::wrote(*old(self), pct_upper(b), *final(self)), r is Err ==> Self::failed(*old(self), pct_upper(b), *final(self)),
            r is Ok ==> Self::sol(*old(self), *final(self));
}
impl<W: Write> WriteExt for W {
    #[verifier::external_body]
    fn vx_write_display<T: Display + ?Sized>(&mut self, x: &T) -> (r: Result) { unimplemented!() }
    #[verifier::external_body]
    fn vx_write_pct_upper(&mut self, b: u8) -> (r: Result) { unimplemented!() }
}
/// `x.fmt(f)`
pub trait DisplayExt: Display {
    fn vx_fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
        requires self.dok()
        ensures r is Ok ==> <Formatter<'_> as Write>::wrote(*old(f), self.text(), *final(f)), r is Err ==> <Formatter<'_> as Write>::failed(*old(f), self.text(), *final(f));
}
impl<T: Display + ?Sized> DisplayExt for T {
    #[verifier::external_body]
    fn vx_fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() }
}
/// `alloc::string::ToString::to_string`
pub trait ToStringExt: Display {
    fn vx_to_string(&self) -> (r: String) requires self.dok() ensures r@ == self.text();
}
impl<T: Display + ?Sized> ToStringExt for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
/// `fmt::Display::fmt(x, f)`
pub fn display_fmt<T: Display + ?Sized>(x: &T, f: &mut Formatter<'_>) -> (r: Result)
    requires x.dok()
    ensures r is Ok ==> <Formatter<'_> as Write>::wrote(*old(f), x.text(), *final(f)), r is Err ==> <Formatter<'_> as Write>::failed(*old(f), x.text(), *final(f))
{ x.vx_fmt(f) }
impl<'a> Write for Formatter<'a> {
    #[verifier::prophetic]
    open spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool { n.out() == o.out() + s && n.may() == o.may() }
    #[verifier::prophetic]
    open spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { o.may() }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { o.solid() ==> n.solid() }
    proof fn law_sol_refl(o: Self) {}
    proof fn law_sol_trans(a: Self, b: Self, c: Self) {}
    proof fn law_empty(o: Self) { assert(o.out() + Seq::<char>::empty() =~= o.out()); }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { assert(a.out() + s + t =~= a.out() + (s + t)); }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {}
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) {}
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result) { unimplemented!() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: Result) { unimplemented!() }
}
impl<'x, W: Write> Write for &'x mut W {
    #[verifier::prophetic]
    open spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool { W::wrote(*o, s, *n) && mut_ref_future(o) == mut_ref_future(n) }
    #[verifier::prophetic]
    open spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { W::failed(*o, s, *n) && mut_ref_future(o) == mut_ref_future(n) }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { W::sol(*o, *n) }
    open spec fn winv(o: Self) -> bool { W::winv(*o) }
    proof fn law_sol_refl(o: Self) { W::law_sol_refl(*o); }
    proof fn law_sol_trans(a: Self, b: Self, c: Self) { W::law_sol_trans(*a, *b, *c); }
    proof fn law_empty(o: Self) { W::law_empty(*o); }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { W::law_trans(*a, s, *b, t, *c); }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { W::law_fail(*a, s, *b, t, *c); }
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) { W::law_ext(*a, s, *b, t); }
    fn write_str(&mut self, s: &str) -> (r: Result) { (**self).write_str(s) }
    fn write_char(&mut self, c: char) -> (r: Result) { (**self).write_char(c) }
}
/// uppercase hexadecimal digit
pub open spec fn hex_up(n: int) -> char { if n < 10 { (0x30 + n) as u8 as char } else { (0x41 + n - 10) as u8 as char } }
/// "%XX" of one byte
pub open spec fn pct_upper(b: u8) -> Seq<char> { seq!['%', hex_up(b as int / 16), hex_up(b as int % 16)] }
/// "%XX" of every byte
pub open spec fn pct_all(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else { pct_all(b.drop_last()) + pct_upper(b.last()) }
}
pub proof fn lemma_pct_concat(a: Seq<u8>, b: Seq<u8>)
    ensures pct_all(a + b) == pct_all(a) + pct_all(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(pct_all(a) + Seq::<char>::empty() =~= pct_all(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_pct_concat(a, b.drop_last());
        assert(pct_all(a) + pct_all(b.drop_last()) + pct_upper(b.last()) =~= pct_all(a) + pct_all(b));
    }
}
pub proof fn lemma_pct_take(b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures pct_all(b.take(i + 1)) == pct_all(b.take(i)) + pct_upper(b[i]),
        pct_all(b) == pct_all(b.take(i + 1)) + pct_all(b.skip(i + 1)),
        b.take(b.len() as int) == b,
        b.take(0) == Seq::<u8>::empty(),
{
    assert(b.take(i + 1).drop_last() =~= b.take(i));
    lemma_pct_concat(b.take(i + 1), b.skip(i + 1));
    assert(b.take(i + 1) + b.skip(i + 1) =~= b);
    assert(b.take(b.len() as int) =~= b);
    assert(b.take(0) =~= Seq::<u8>::empty());
}
/// one step of a loop that writes the triplets of `b`
pub proof fn lemma_pct_step<W: Write>(o: W, b: Seq<u8>, i: int, m: W, n: W, r: Result)
    requires 0 <= i < b.len(), W::wrote(o, pct_all(b.take(i)), m),
        r is Ok ==> W::wrote(m, pct_upper(b[i]), n), r is Err ==> W::failed(m, pct_upper(b[i]), n),
    ensures r is Ok ==> W::wrote(o, pct_all(b.take(i + 1)), n), r is Err ==> W::failed(o, pct_all(b), n)
{
    lemma_pct_take(b, i);
    if r is Ok { W::law_trans(o, pct_all(b.take(i)), m, pct_upper(b[i]), n); }
    else { W::law_fail(o, pct_all(b.take(i)), m, pct_upper(b[i]), n); W::law_ext(o, pct_all(b.take(i + 1)), n, pct_all(b.skip(i + 1))); }
}
