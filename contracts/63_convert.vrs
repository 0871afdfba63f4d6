#module convert
#file convert.rs
#raw
// IRI-to-URI conversion: every non-ASCII byte becomes its upper-case triplet.
use crate::vx::*;
use crate::vstring::*;
use crate::vfmt as fmt;
use crate::types::*;
use crate::spec::Spec;
use crate::vfmt::{Write, WriteExt, hex_up, pct_all, pct_upper, lemma_pct_take, lemma_pct_concat};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item const HEXDIGITS
#raw
/// the converted text
pub open spec fn urienc(b: Seq<u8>) -> Seq<char>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() } else { urienc(b.drop_last()) + (if b.last() < 0x80 { seq![b.last() as char] } else { pct_upper(b.last()) }) }
}
/// number of non-ASCII bytes
pub open spec fn nna(b: Seq<u8>) -> nat { count_by(b, |x: u8| x >= 0x80) }
/// the UTF-8 of an ASCII text
pub open spec fn ascii_bytes(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub proof fn lemma_ascii_bytes(s: Seq<char>)
    requires all_ascii(s)
    ensures encode_utf8(s) == ascii_bytes(s), valid_utf8(ascii_bytes(s)), dec(ascii_bytes(s)) == s
{
    assert(is_ascii_chars(s)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] as nat <= 0x7f by { assert((s[i] as u32) < 0x80); } }
    is_ascii_chars_encode_utf8(s);
    assert(encode_utf8(s) =~= ascii_bytes(s));
    encode_utf8_valid_utf8(s);
    encode_utf8_decode_utf8(s);
}
pub proof fn lemma_hex_ascii(b: u8)
    ensures all_ascii(pct_upper(b)), pct_upper(b).len() == 3
{
    assert(b as int / 16 < 16);
    assert(b as int % 16 < 16);
}
pub proof fn lemma_pct_all_ascii(b: Seq<u8>)
    ensures all_ascii(pct_all(b)), pct_all(b).len() == 3 * b.len()
    decreases b.len()
{
    if b.len() > 0 { lemma_pct_all_ascii(b.drop_last()); lemma_hex_ascii(b.last()); }
}
pub proof fn lemma_urienc_ascii(b: Seq<u8>)
    ensures all_ascii(urienc(b)), urienc(b).len() == b.len() + 2 * nna(b)
    decreases b.len()
{
    if b.len() > 0 { lemma_urienc_ascii(b.drop_last()); lemma_hex_ascii(b.last()); }
}
pub proof fn lemma_urienc_concat(a: Seq<u8>, b: Seq<u8>)
    ensures urienc(a + b) == urienc(a) + urienc(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(urienc(a) + Seq::<char>::empty() =~= urienc(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_urienc_concat(a, b.drop_last());
        let w = if b.last() < 0x80 { seq![b.last() as char] } else { pct_upper(b.last()) };
        assert(urienc(a) + urienc(b.drop_last()) + w =~= urienc(a) + (urienc(b.drop_last()) + w));
    }
}
/// a run of ASCII bytes is copied
pub proof fn lemma_urienc_copy(a: &str)
    requires forall|i: int| 0 <= i < a.spec_bytes().len() ==> #[trigger] a.spec_bytes()[i] < 0x80
    ensures urienc(a.spec_bytes()) == a@
{
    let b = a.spec_bytes();
    lemma_copy(b);
    let t = urienc(b);
    lemma_urienc_ascii(b);
    lemma_ascii_bytes(t);
    assert(ascii_bytes(t) =~= b);
    lemma_str_dec(a);
}
pub proof fn lemma_copy(b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80
    ensures urienc(b).len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] urienc(b)[i] == b[i] as char, nna(b) == 0
    decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < 0x80 by { assert(b[i] < 0x80); }
        assert(b[b.len() - 1] < 0x80);
        lemma_copy(d);
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] urienc(b)[i] == b[i] as char by { if i < d.len() { assert(urienc(d)[i] == d[i] as char); } }
    }
}
pub proof fn lemma_urienc_non(b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] >= 0x80
    ensures urienc(b) == pct_all(b)
    decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] >= 0x80 by { assert(b[i] >= 0x80); }
        assert(b[b.len() - 1] >= 0x80);
        lemma_urienc_non(d);
    }
}
/// the positions of the percent signs
pub open spec fn pcts(s: Seq<u8>) -> bool { forall|i: int| 0 <= i && 3 * i < s.len() ==> #[trigger] s[3 * i] == 0x25u8 }
/// one encoding step: the three bytes
pub proof fn lemma_three(b: u8)
    ensures b >> 4 == b / 16, b & 15 == b % 16, ascii_bytes(pct_upper(b)) == seq![0x25u8, HEXDIGITS[b as int / 16], HEXDIGITS[b as int % 16]]
{
    assert(b >> 4 == b / 16) by(bit_vector);
    assert(b & 15 == b % 16) by(bit_vector);
    lemma_hexdigits(b as int / 16);
    lemma_hexdigits(b as int % 16);
    assert(ascii_bytes(pct_upper(b)) =~= seq![0x25u8, HEXDIGITS[b as int / 16], HEXDIGITS[b as int % 16]]);
}
pub proof fn lemma_hexdigits(n: int)
    requires 0 <= n < 16
    ensures HEXDIGITS[n] == hex_up(n) as u8
{
    assert(HEXDIGITS@ =~= seq![0x30u8, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46]);
}
pub proof fn lemma_ascii_bytes_concat(a: Seq<char>, b: Seq<char>)
    ensures ascii_bytes(a + b) == ascii_bytes(a) + ascii_bytes(b)
{ assert(ascii_bytes(a + b) =~= ascii_bytes(a) + ascii_bytes(b)); }
#raw
pub open spec fn is_first(b: Seq<u8>, k: int, non: bool) -> bool { 0 <= k <= b.len() && (k < b.len() ==> (b[k] >= 0x80) == non) && forall|i: int| 0 <= i < k ==> (#[trigger] b[i] >= 0x80) == !non }
pub proof fn lemma_first_boundary(s: &str, k: int, non: bool)
    requires is_first(s.spec_bytes(), k, non)
    ensures is_char_boundary(s.spec_bytes(), k), k <= s.spec_bytes().len()
{
    let b = s.spec_bytes();
    if non { if k > 0 { assert(b[k - 1] < 0x80); lemma_ascii_boundary(b, k - 1); } }
    else if k < b.len() { lemma_ascii_boundary(b, k); }
}
pub proof fn lemma_wpe1(s: &str, p: &str, t: &str, k: int, out: Seq<char>, tt: Seq<char>)
    requires is_first(s.spec_bytes(), k, true), p.spec_bytes() == s.spec_bytes().take(k), t.spec_bytes() == s.spec_bytes().skip(k), out + urienc(s.spec_bytes()) == tt
    ensures out + p@ + urienc(t.spec_bytes()) == tt, p.spec_bytes().len() == 0 ==> s.spec_bytes() == t.spec_bytes(), p@.len() == 0 <==> p.spec_bytes().len() == 0
{
    let (b, x, y) = (s.spec_bytes(), p.spec_bytes(), t.spec_bytes());
    assert(b =~= x + y);
    lemma_urienc_concat(x, y);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] < 0x80 by { assert(b[i] < 0x80); }
    lemma_urienc_copy(p);
    lemma_urienc_ascii(x);
    assert(out + (p@ + urienc(y)) =~= out + p@ + urienc(y));
    if x.len() == 0 { assert(b =~= y); }
    lemma_copy(x);
}
pub proof fn lemma_wpe2(s: &str, p: &str, t: &str, k: int, out: Seq<char>, tt: Seq<char>)
    requires is_first(s.spec_bytes(), k, false), p.spec_bytes() == s.spec_bytes().take(k), t.spec_bytes() == s.spec_bytes().skip(k), out + urienc(s.spec_bytes()) == tt
    ensures out + pct_all(p.spec_bytes()) + urienc(t.spec_bytes()) == tt
{
    let (b, x, y) = (s.spec_bytes(), p.spec_bytes(), t.spec_bytes());
    assert(b =~= x + y);
    lemma_urienc_concat(x, y);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] >= 0x80 by { assert(b[i] >= 0x80); }
    lemma_urienc_non(x);
    assert(out + (pct_all(x) + urienc(y)) =~= out + pct_all(x) + urienc(y));
}
pub proof fn lemma_wpe_end(out: Seq<char>, b: Seq<u8>)
    requires b.len() == 0
    ensures out + urienc(b) == out
{ assert(out + Seq::<char>::empty() =~= out); }
#fn write_percent_encoded
#requires true
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), urienc(s.spec_bytes()), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), urienc(s.spec_bytes()), *final(f))
#attr #[verifier::loop_isolation(false)]
#proof start
    hide(urienc); hide(pct_all);
    let ghost o = *f;
    let ghost tt = o.out() + urienc(s.spec_bytes());
#loop 0
    invariant f.out() + urienc(s.spec_bytes()) == tt, f.may() == o.may(),
    decreases s.spec_bytes().len()
#proof loop 0 start
    let ghost s0 = s;
    let ghost f0 = *f;
#proof let non_ascii_pos
    proof { assert(is_first(s0.spec_bytes(), non_ascii_pos as int, true)); lemma_first_boundary(s0, non_ascii_pos as int, true); }
#proof let ascii
    proof { lemma_wpe1(s0, ascii, rest, non_ascii_pos as int, f0.out(), tt); if rest.spec_bytes().len() == 0 { lemma_wpe_end(f0.out() + ascii@, rest.spec_bytes()); } }
#proof let nonascii_end
    proof { assert(is_first(s.spec_bytes(), nonascii_end as int, false)); lemma_first_boundary(s, nonascii_end as int, false); }
#proof let nonasciis
    proof { lemma_wpe2(s, nonasciis, rest, nonascii_end as int, f.out(), tt); }
#proof after loop 0
    proof { lemma_wpe_end(f.out(), s.spec_bytes()); }
#closure 0 |b: u8| -> (r: bool) ensures r == (b >= 0x80)
#closure 1 |b: u8| -> (r: bool) ensures r == (b < 0x80)
#fn percent_encode_bytes call=.fill->.vx_fill
#requires old(buf)@.len() >= 3
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), pct_all(s.spec_bytes()), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), pct_all(s.spec_bytes()), *final(f))
#attr #[verifier::loop_isolation(false)]
#proof start
    let ghost o = *f;
    let ghost tt = o.out() + pct_all(s.spec_bytes());
#loop 0
    invariant f.out() + pct_all(bytes@) == tt, f.may() == o.may(), pcts(buf@), buf@.len() >= 3,
    decreases bytes@.len()
#proof loop 0 start
    let ghost b0 = bytes@;
    let ghost f0 = *f;
#proof let encoded
    proof {
        let n = b0.len() - bytes@.len();
        lemma_pct_all_ascii(b0.take(n));
        lemma_ascii_bytes(pct_all(b0.take(n)));
        lemma_str_dec(encoded);
        lemma_pct_concat(b0.take(n), b0.skip(n));
        assert(b0.take(n) + b0.skip(n) =~= b0);
        assert(f0.out() + (pct_all(b0.take(n)) + pct_all(b0.skip(n))) =~= f0.out() + pct_all(b0.take(n)) + pct_all(b0.skip(n)));
    }
#fn percent_encode_bytes/fill_by_percent_encoded call=core::str::from_utf8->crate::vx::str_from_utf8 call=core::str::from_utf8_unchecked->crate::vx::str_from_utf8_unchecked
#requires pcts(old(buf)@)
#ensures ({ let b = old(bytes)@; let n = b.len() - final(bytes)@.len(); n == (if old(buf)@.len() / 3 <= b.len() { (old(buf)@.len() / 3) as int } else { b.len() as int })
    && final(bytes)@ == b.skip(n) && r.spec_bytes() == ascii_bytes(pct_all(b.take(n))) }), pcts(final(buf)@), final(buf)@.len() == old(buf)@.len()
#attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#proof start
    let ghost b = bytes@;
    proof { assert(b.skip(0) =~= b); assert(buf@.take(0) =~= ascii_bytes(pct_all(b.take(0)))); }
#loop 0
    invariant
        vx_i0 <= vx_n0, vx_i0 <= b.len(), bytes@ == b.skip(vx_i0 as int), pcts(buf@), buf@.len() == old(buf)@.len(),
        buf@.take(3 * vx_i0) == ascii_bytes(pct_all(b.take(vx_i0 as int))),
    ensures vx_i0 == vx_n0 || vx_i0 == b.len(),
    decreases vx_n0 - vx_i0
#proof loop 0 start
    let ghost u = buf@;
    let ghost k = vx_i0 as int;
    proof { if k < b.len() { lemma_three(b[k]); lemma_pct_take(b, k); lemma_ascii_bytes_concat(pct_all(b.take(k)), pct_upper(b[k])); assert(b.skip(k).skip(1) =~= b.skip(k + 1)); } }
#proof loop 0 end
    proof { assert(buf@.take(3 * (k + 1)) =~= u.take(3 * k) + seq![0x25u8, buf@[3 * k + 1], buf@[3 * k + 2]]); assert(u[3 * k] == 0x25u8); }
#proof let num_dest_written
    proof { let n = b.len() - bytes@.len(); assert(b.skip(n) =~= bytes@); lemma_pct_all_ascii(b.take(n)); lemma_ascii_bytes(pct_all(b.take(n))); }
#raw
/// state of the in-place encoding: `k` source bytes are left, `d` is the end of the free space
pub open spec fn inl(u: Seq<u8>, b: Seq<u8>, k: int, d: int, n: int) -> bool {
    0 <= k <= b.len() && d == k + 2 * n && n == nna(b.take(k)) && n <= k && u.len() == b.len() + 2 * nna(b) && d <= u.len()
    && u.take(k) == b.take(k) && u.skip(d) == ascii_bytes(urienc(b.skip(k)))
}
pub proof fn lemma_inl_start(u: Seq<u8>, b: Seq<u8>)
    requires u.len() == b.len() + 2 * nna(b), u.take(b.len() as int) == b
    ensures inl(u, b, b.len() as int, u.len() as int, nna(b) as int)
{
    assert(b.take(b.len() as int) =~= b);
    lemma_urienc_ascii(b);
    lemma_nna_step(b, b.len() as int);
    assert(u.skip(u.len() as int) =~= ascii_bytes(urienc(b.skip(b.len() as int))));
}
pub proof fn lemma_inl_step(u: Seq<u8>, v: Seq<u8>, b: Seq<u8>, k: int, d: int, n: int)
    requires inl(u, b, k, d, n), k > 0, v.len() == u.len(),
        b[k - 1] < 0x80 ==> v == u.update(d - 1, b[k - 1]),
        b[k - 1] >= 0x80 ==> v == u.update(d - 3, 0x25u8).update(d - 2, HEXDIGITS[b[k - 1] as int / 16]).update(d - 1, HEXDIGITS[b[k - 1] as int % 16]),
    ensures b[k - 1] < 0x80 ==> inl(v, b, k - 1, d - 1, n), b[k - 1] >= 0x80 ==> inl(v, b, k - 1, d - 3, n - 1),
{
    let c = b[k - 1];
    lemma_nna_step(b, k);
    lemma_urienc_head(b.skip(k - 1));
    assert(b.skip(k - 1).skip(1) =~= b.skip(k));
    lemma_three(c);
    let w = if c < 0x80 { seq![c as char] } else { pct_upper(c) };
    lemma_ascii_bytes_concat(w, urienc(b.skip(k)));
    assert(v.take(k - 1) =~= u.take(k).take(k - 1));
    assert(b.take(k).take(k - 1) =~= b.take(k - 1));
    if c < 0x80 { assert(v.skip(d - 1) =~= ascii_bytes(w) + u.skip(d)); } else { assert(v.skip(d - 3) =~= ascii_bytes(w) + u.skip(d)); }
}
pub proof fn lemma_inl_pos(u: Seq<u8>, b: Seq<u8>, k: int, d: int, n: int)
    requires inl(u, b, k, d, n), n > 0
    ensures k > 0, d > 0, u[k - 1] == b[k - 1], b[k - 1] >= 0x80 ==> d >= k + 2, d - 1 < u.len(), k - 1 < u.len(), b[k - 1] >> 4 == b[k - 1] / 16, b[k - 1] & 15 == b[k - 1] % 16
{
    lemma_nna_step(b, k);
    assert(u[k - 1] == u.take(k)[k - 1]);
    lemma_three(b[k - 1]);
}
pub proof fn lemma_inl_end(u: Seq<u8>, b: Seq<u8>, k: int, d: int)
    requires inl(u, b, k, d, 0)
    ensures u == ascii_bytes(urienc(b)), valid_utf8(u)
{
    lemma_no_non(b.take(k));
    lemma_copy(b.take(k));
    lemma_urienc_concat(b.take(k), b.skip(k));
    assert(b.take(k) + b.skip(k) =~= b);
    lemma_ascii_bytes_concat(urienc(b.take(k)), urienc(b.skip(k)));
    assert(ascii_bytes(urienc(b.take(k))) =~= b.take(k));
    assert(u =~= u.take(k) + u.skip(k));
    lemma_urienc_ascii(b);
    lemma_ascii_bytes(urienc(b));
}
pub proof fn lemma_inl_none(b: Seq<u8>)
    requires nna(b) == 0
    ensures ascii_bytes(urienc(b)) == b
{ lemma_no_non(b); lemma_copy(b); assert(ascii_bytes(urienc(b)) =~= b); }
#fn try_percent_encode_iri_inline coarg=iri call=.try_reserve->.vx_try_reserve call=.len->.vx_len call=core::mem::take->crate::vstring::mem_take_string call=.into_bytes->.vx_into_bytes call=String::from_utf8->crate::vstring::string_from_utf8
#ensures r is Ok ==> final(iri).sb() == ascii_bytes(urienc(old(iri).sb())), r is Err ==> *final(iri) == *old(iri)
#attr #[verifier::loop_isolation(false)]
#proof start
    hide(urienc); hide(pct_all); hide(inl); hide(nna);
    let ghost b = iri.sb();
    proof { if nna(b) == 0 { lemma_inl_none(b); } }
#proof let rest_nonascii
    proof { assert(buf@.take(b.len() as int) =~= b); lemma_inl_start(buf@, b); }
#loop 0
    invariant inl(buf@, b, src_end as int, dest_end as int, rest_nonascii as int)
    decreases src_end
#proof loop 0 start
    let ghost (u, k, d, n) = (buf@, src_end as int, dest_end as int, rest_nonascii as int);
    proof { lemma_inl_pos(u, b, k, d, n); }
#proof loop 0 end
    proof { lemma_inl_step(u, buf@, b, k, d, n); }
#proof after loop 0
    proof { lemma_inl_end(buf@, b, src_end as int, dest_end as int); }
#fn count_nonascii
#ensures r == nna(s.spec_bytes()), r <= s.spec_bytes().len()
#closure 0 |b: u8| -> (r: bool) ensures r == (b >= 0x80)
#raw
pub proof fn lemma_no_non(b: Seq<u8>)
    requires nna(b) == 0
    ensures forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80
    decreases b.len()
{
    if b.len() > 0 { lemma_no_non(b.drop_last()); assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 0x80 by { if i < b.len() - 1 { assert(b.drop_last()[i] < 0x80); } } }
}
pub proof fn lemma_nna_step(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len()
    ensures k > 0 ==> nna(b.take(k)) == nna(b.take(k - 1)) + (if b[k - 1] >= 0x80 { 1nat } else { 0 }), k == 0 ==> nna(b.take(k)) == 0, nna(b.take(k)) <= k, k > 0 ==> nna(b.take(k - 1)) <= k - 1
    decreases k
{
    if k > 0 { assert(b.take(k).drop_last() =~= b.take(k - 1)); lemma_nna_step(b, k - 1); }
}
pub proof fn lemma_urienc_head(b: Seq<u8>)
    requires b.len() > 0
    ensures urienc(b) == (if b[0] < 0x80 { seq![b[0] as char] } else { pct_upper(b[0]) }) + urienc(b.skip(1))
{
    let a = seq![b[0]];
    assert(b =~= a + b.skip(1));
    lemma_urienc_concat(a, b.skip(1));
    assert(a.drop_last() =~= Seq::<u8>::empty());
    assert(urienc(a.drop_last()) =~= Seq::<char>::empty());
    let w = if b[0] < 0x80 { seq![b[0] as char] } else { pct_upper(b[0]) };
    assert(urienc(a) =~= w);
}
#item struct MappedToUri
#file convert.rs+convert.rs
#raw
impl<'a, S: Spec> fmt::Display for MappedToUri<'a, RiReferenceStr<S>> { open spec fn text(&self) -> Seq<char> { urienc(self.0.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn MappedToUri<'_,RiReferenceStr<S>>::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn MappedToUri<'a,RiReferenceStr<S>>::<From<&'aRiReferenceStr<S>>>::from rename=imp_from
#ensures r.0 == iri
#raw
impl<'a, S: Spec> fmt::Display for MappedToUri<'a, RiStr<S>> { open spec fn text(&self) -> Seq<char> { urienc(self.0.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn MappedToUri<'_,RiStr<S>>::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn MappedToUri<'a,RiStr<S>>::<From<&'aRiStr<S>>>::from rename=imp_from
#ensures r.0 == iri
#raw
impl<'a, S: Spec> fmt::Display for MappedToUri<'a, RiAbsoluteStr<S>> { open spec fn text(&self) -> Seq<char> { urienc(self.0.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn MappedToUri<'_,RiAbsoluteStr<S>>::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn MappedToUri<'a,RiAbsoluteStr<S>>::<From<&'aRiAbsoluteStr<S>>>::from rename=imp_from
#ensures r.0 == iri
#raw
impl<'a, S: Spec> fmt::Display for MappedToUri<'a, RiRelativeStr<S>> { open spec fn text(&self) -> Seq<char> { urienc(self.0.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn MappedToUri<'_,RiRelativeStr<S>>::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn MappedToUri<'a,RiRelativeStr<S>>::<From<&'aRiRelativeStr<S>>>::from rename=imp_from
#ensures r.0 == iri
#raw
impl<'a, S: Spec> fmt::Display for MappedToUri<'a, RiQueryStr<S>> { open spec fn text(&self) -> Seq<char> { urienc(self.0.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn MappedToUri<'_,RiQueryStr<S>>::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn MappedToUri<'a,RiQueryStr<S>>::<From<&'aRiQueryStr<S>>>::from rename=imp_from
#ensures r.0 == iri
#raw
impl<'a, S: Spec> fmt::Display for MappedToUri<'a, RiFragmentStr<S>> { open spec fn text(&self) -> Seq<char> { urienc(self.0.bytes()) } open spec fn dok(&self) -> bool { true } }
#fn MappedToUri<'_,RiFragmentStr<S>>::<Display>::fmt rename=imp_fmt
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#fn MappedToUri<'a,RiFragmentStr<S>>::<From<&'aRiFragmentStr<S>>>::from rename=imp_from
#ensures r.0 == iri
#end
