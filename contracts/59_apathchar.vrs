#module normalize::pathchar
#file normalize/path.rs
#raw
use crate::vx::*;
use crate::pct::*;
use crate::ptext::*;
use crate::grammar::*;
use crate::parser::str::*;
use crate::spec::*;
use crate::normalize::*;
use crate::normalize::path::*;
use crate::vfmt as fmt;
use crate::vfmt::{Write, WriteExt};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item enum PathCharacteristic
#item struct PathCharacteristic::from_path_to_display/Writer
#raw
/// the automaton that reads a path: whether it is absolute (`None`: nothing has been read), and the verdict
pub open spec fn run(st: Option<bool>, b: Seq<u8>) -> (Option<bool>, Option<PathCharacteristic>)
    decreases b.len()
{
    if b.len() == 0 { (st, None) }
    else if st is None && b[0] == 0x2f { run(Some(true), sfx(b, 1)) }
    else if st == Some(true) { (st, Some(if b[0] == 0x2f { PathCharacteristic::StartsWithDoubleSlash } else { PathCharacteristic::CommonAbsolute })) }
    else if b[0] == 0x3a { (Some(false), Some(PathCharacteristic::RelativeFirstSegmentHasColon)) }
    else if b[0] == 0x2f { (Some(false), Some(PathCharacteristic::CommonRelative)) }
    else { run(Some(false), sfx(b, 1)) }
}
pub proof fn lemma_run_cat(st: Option<bool>, a: Seq<u8>, b: Seq<u8>)
    ensures run(st, a + b) == (if run(st, a).1 is Some { run(st, a) } else { run(run(st, a).0, b) })
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert(sfx(a + b, 1) =~= sfx(a, 1) + b);
        lemma_run_cat(Some(true), sfx(a, 1), b);
        lemma_run_cat(Some(false), sfx(a, 1), b);
    }
}
/// where the first segment of a relative path ends, or has a colon
pub proof fn lemma_run_rel(b: Seq<u8>)
    ensures ({ let k = first2(b, 0x2f, 0x3a); run(Some(false), b) == (Some(false), if k < b.len() { Some(if b[k] == 0x3a { PathCharacteristic::RelativeFirstSegmentHasColon } else { PathCharacteristic::CommonRelative }) } else { None }) })
    decreases b.len()
{
    lemma_first(b, 0x2f, 0x3a, 0x3a, 0x3a);
    let k = first2(b, 0x2f, 0x3a);
    if b.len() > 0 && b[0] != 0x3a && b[0] != 0x2f {
        let t = sfx(b, 1);
        lemma_run_rel(t);
        assert forall|j: int| 0 <= j < k - 1 implies !is4(#[trigger] t[j], 0x2f, 0x3a, 0x3a, 0x3a) by { assert(t[j] == b[j + 1]); }
        lemma_first_is(t, k - 1, 0x2f, 0x3a, 0x3a, 0x3a);
    } else if b.len() > 0 { lemma_first_is(b, 0, 0x2f, 0x3a, 0x3a, 0x3a); }
}
/// a colon before the first slash
pub proof fn lemma_colon(b: Seq<u8>)
    ensures ({ let k = first2(b, 0x2f, 0x3a); let j = first1(b, 0x2f); let a = pfx(b, j); 0 <= j <= b.len() && (k < b.len() && b[k] == 0x3a) == (first1(a, 0x3a) < a.len()) && (j < b.len() ==> k < b.len()) && (j == b.len() ==> a == b) })
{
    let k = first2(b, 0x2f, 0x3a); let j = first1(b, 0x2f);
    lemma_first(b, 0x2f, 0x3a, 0x3a, 0x3a);
    lemma_first(b, 0x2f, 0x2f, 0x2f, 0x2f);
    let a = pfx(b, j);
    let c = first1(a, 0x3a);
    lemma_first(a, 0x3a, 0x3a, 0x3a, 0x3a);
    if j == b.len() { assert(a =~= b); }
    if k < b.len() && b[k] == 0x3a { assert(k < j); assert(a[k] == 0x3a); if c >= a.len() { assert(!is4(a[k], 0x3a, 0x3a, 0x3a, 0x3a)); } }
    if c < a.len() { assert(b[c] == 0x3a); assert(is4(b[c], 0x2f, 0x3a, 0x3a, 0x3a)); assert(k <= c); assert(b[k] != 0x2f) by { if b[k] == 0x2f { assert(is4(b[k], 0x2f, 0x2f, 0x2f, 0x2f)); assert(j <= k); } } }
}
/// the verdict on a whole path
pub open spec fn verdict(b: Seq<u8>) -> PathCharacteristic {
    if b.len() > 0 && b[0] == 0x2f { if has_ss(b) { PathCharacteristic::StartsWithDoubleSlash } else { PathCharacteristic::CommonAbsolute } }
    else { let k = first2(b, 0x2f, 0x3a); if k < b.len() && b[k] == 0x3a { PathCharacteristic::RelativeFirstSegmentHasColon } else { PathCharacteristic::CommonRelative } }
}
pub proof fn lemma_verdict(b: Seq<u8>)
    ensures ({ let x = run(None, b); verdict(b) == (match x.1 { Some(p) => p, None => if x.0 == Some(true) { PathCharacteristic::CommonAbsolute } else { PathCharacteristic::CommonRelative } }) })
{
    lemma_run_rel(b);
    if b.len() > 0 && b[0] != 0x2f { reveal_with_fuel(run, 2); if b[0] != 0x3a { assert(run(None, b) == run(Some(false), sfx(b, 1))); assert(run(Some(false), b) == run(Some(false), sfx(b, 1))); } }
    else if b.len() > 0 { reveal_with_fuel(run, 3); }
}
proof fn lemma_enc_empty()
    ensures encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{
    encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty());
    assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}
impl fmt::Write for Writer {
    open spec fn winv(o: Self) -> bool { o.result is None }
    #[verifier::prophetic]
    open spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool { o.result is None ==> run(o.is_absolute, encode_utf8(s)) == (n.is_absolute, n.result) && n.result is None }
    #[verifier::prophetic]
    open spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { o.result is None ==> run(o.is_absolute, encode_utf8(s)).1 == n.result && n.result is Some }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { true }
    proof fn law_sol_refl(o: Self) {}
    proof fn law_sol_trans(a: Self, b: Self, c: Self) {}
    proof fn law_empty(o: Self) { lemma_enc_empty(); }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { encode_utf8_concat(s, t); lemma_run_cat(a.is_absolute, encode_utf8(s), encode_utf8(t)); }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) { encode_utf8_concat(s, t); lemma_run_cat(a.is_absolute, encode_utf8(s), encode_utf8(t)); }
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) { encode_utf8_concat(s, t); lemma_run_cat(a.is_absolute, encode_utf8(s), encode_utf8(t)); }
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { self.imp_write_str(s) }
    fn write_char(&mut self, c: char) -> (r: fmt::Result) { let mut buf = [0u8; 4]; self.write_str(char_encode_utf8(c, &mut buf)) }
}
#fn PathCharacteristic::from_path_to_display/Writer::<Write>::write_str rename=imp_write_str
#attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#requires old(self).result is None
#ensures r is Ok ==> <Self as fmt::Write>::winv(*final(self)) && <Self as fmt::Write>::wrote(*old(self), s@, *final(self)), r is Err ==> <Self as fmt::Write>::failed(*old(self), s@, *final(self))
#loop 0
    invariant_except_break
        self.result is None, run(self.is_absolute, s.spec_bytes()) == run(old(self).is_absolute, s0.spec_bytes()),
    ensures self.result is None, run(old(self).is_absolute, s0.spec_bytes()) == (self.is_absolute, None::<PathCharacteristic>)
    decreases s.spec_bytes().len(), (if self.is_absolute is None { 1int } else { 0 })
#proof start
    let ghost s0 = s;
    proof { assert(encode_utf8(s@) == s.spec_bytes()); }
#proof loop 0 start
    proof { match self.is_absolute { Some(x) => { assert(x || !x); if !x { assert(self.is_absolute == Some(false)); } else { assert(self.is_absolute == Some(true)); } } None => {} } lemma_run_rel(s.spec_bytes()); lemma_first(s.spec_bytes(), 0x2f, 0x2f, 0x2f, 0x2f); lemma_first(s.spec_bytes(), 0x2f, 0x3a, 0x3a, 0x3a); reveal_with_fuel(run, 2); lemma_colon(s.spec_bytes()); }
#fn PathCharacteristic::is_absolute
#ensures r == (self is CommonAbsolute || self is StartsWithDoubleSlash)
#fn PathCharacteristic::from_path_to_display call=Writer::default->Writer::vx_default
#requires path.wf(), okp(path.tx(), op.mode.pct())
#ensures r == verdict(encode_utf8(path_text(path.tx(), opaque_mode(op.mode), authority_is_present, op.mode.pct(), S::iri())))
#proof start
    proof { lemma_verdict(encode_utf8(path_text(path.tx(), opaque_mode(op.mode), authority_is_present, op.mode.pct(), S::iri()))); }
#end
