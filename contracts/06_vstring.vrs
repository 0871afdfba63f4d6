#module vstring
#raw
// Contracts of alloc::string::String as the crate uses it (trusted), over the UTF-8 bytes of its text.
use crate::vx::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
pub open spec fn enc(s: Seq<char>) -> Seq<u8> { encode_utf8(s) }
pub trait VString: Sized {
    /// the bytes of the text
    spec fn sb(&self) -> Seq<u8>;
    fn vx_as_str(&self) -> (r: &str) ensures r.spec_bytes() == self.sb();
    fn vx_find_char(&self, c: char) -> (r: Option<usize>)
        requires (c as u32) < 0x80
        ensures match r { Some(i) => i < self.sb().len() && i == first1(self.sb(), c as u8), None => first1(self.sb(), c as u8) == self.sb().len() };
    fn vx_truncate(&mut self, k: usize)
        requires k <= old(self).sb().len() ==> is_char_boundary(old(self).sb(), k as int)
        ensures final(self).sb() == (if k <= old(self).sb().len() { pfx(old(self).sb(), k as int) } else { old(self).sb() });
    fn vx_push(&mut self, c: char) ensures final(self).sb() == old(self).sb() + enc(seq![c]);
    fn vx_push_str(&mut self, s: &str) ensures final(self).sb() == old(self).sb() + s.spec_bytes();
    fn vx_split_off(&mut self, k: usize) -> (r: Self)
        requires k <= old(self).sb().len(), is_char_boundary(old(self).sb(), k as int)
        ensures final(self).sb() == pfx(old(self).sb(), k as int), r.sb() == sfx(old(self).sb(), k as int);
    /// of a text that ends in an ASCII character
    fn vx_pop(&mut self) -> (r: Option<char>)
        ensures ({ let b = old(self).sb();
            b.len() > 0 && b[b.len() - 1] < 0x80u8 ==> r == Some(b[b.len() - 1] as char) && final(self).sb() == pfx(b, b.len() - 1) });
    fn vx_reserve(&mut self, n: usize) ensures final(self).sb() == old(self).sb();
}
impl VString for String {
    open spec fn sb(&self) -> Seq<u8> { encode_utf8(self@) }
    #[verifier::external_body]
    fn vx_as_str(&self) -> (r: &str) { self.as_str() }
    #[verifier::external_body]
    fn vx_find_char(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body]
    fn vx_truncate(&mut self, k: usize) { self.truncate(k) }
    #[verifier::external_body]
    fn vx_push(&mut self, c: char) { self.push(c) }
    #[verifier::external_body]
    fn vx_push_str(&mut self, s: &str) { self.push_str(s) }
    #[verifier::external_body]
    fn vx_split_off(&mut self, k: usize) -> (r: Self) { self.split_off(k) }
    #[verifier::external_body]
    fn vx_pop(&mut self) -> (r: Option<char>) { self.pop() }
    #[verifier::external_body]
    fn vx_reserve(&mut self, n: usize) { self.reserve(n) }
}
/// `len` of `str` and `String`
pub trait VLen { spec fn lb(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.lb(), r <= isize::MAX; }
impl VLen for str { open spec fn lb(&self) -> nat { self.spec_bytes().len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl VLen for String { open spec fn lb(&self) -> nat { self.sb().len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
pub proof fn lemma_sb_valid(s: String) ensures valid_utf8(s.sb()) { encode_utf8_valid_utf8(s@); }
/// encoding of one ASCII character
pub proof fn lemma_enc1(c: char)
    requires (c as u32) < 0x80
    ensures enc(seq![c]) == seq![c as u8]
{
    assert(is_ascii_chars(seq![c]));
    is_ascii_chars_encode_utf8(seq![c]);
    assert(enc(seq![c]) =~= seq![c as u8]);
}
/// `core::mem::take` on a `String`
#[verifier::external_body]
pub fn mem_take_string(s: &mut String) -> (r: String) ensures r == *old(s), final(s).sb().len() == 0 { core::mem::take(s) }
pub trait VIntoBytes { fn vx_into_bytes(self) -> (r: Vec<u8>) where Self: VString ensures r@ == self.sb(); }
impl VIntoBytes for String { #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) { self.into_bytes() } }
pub trait VExtendRepeat { spec fn xv(&self) -> Seq<u8>; fn vx_extend_repeat(&mut self, b: u8, n: usize) ensures final(self).xv() == old(self).xv() + Seq::new(n as nat, |i: int| b); }
impl VExtendRepeat for Vec<u8> {
    open spec fn xv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_extend_repeat(&mut self, b: u8, n: usize) { self.extend(core::iter::repeat(b).take(n)) }
}
impl VLen for Vec<u8> { open spec fn lb(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
#[verifier::external_body]
#[derive(Debug)]
pub struct FromUtf8Error { e: u8 }
#[verifier::external_body]
pub fn string_from_utf8(b: Vec<u8>) -> (r: core::result::Result<String, FromUtf8Error>)
    ensures match r { Ok(s) => s.sb() == b@, Err(_) => !valid_utf8(b@) }
{ unimplemented!() }
#[verifier::external_body]
pub fn string_from_str(s: &str) -> (r: String) ensures r.sb() == s.spec_bytes() { String::from(s) }
impl crate::vx::VClone for String {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { self.clone() }
}
