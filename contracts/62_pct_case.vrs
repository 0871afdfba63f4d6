#module normalize::pct_case
#file normalize/pct_case.rs
#raw
use crate::vx::*;
use crate::pct::*;
use crate::parser::char::*;
use crate::parser::str::*;
use crate::spec::*;
use crate::format::eq_str_display;
use crate::vfmt as fmt;
use crate::vfmt::{Write, WriteExt, pct_all, pct_upper, lemma_pct_step, lemma_pct_take};
use core::marker::PhantomData;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item struct PctCaseNormalized
#raw
impl<'a, S: Spec> fmt::Display for PctCaseNormalized<'a, S> { open spec fn text(&self) -> Seq<char> { norm(self.path@, S::iri()) } open spec fn dok(&self) -> bool { wft(self.path@) } }
pub open spec fn htgt(out: Seq<char>, rest: Seq<char>, tt: Seq<char>) -> bool { out + normhost(rest) == tt && wft(rest) && asciihost(rest) }
pub proof fn lemma_lower_start(out: Seq<char>, s: Seq<char>)
    ensures out + lowers(s.take(0)) == out, s.take(s.len() as int) == s, s.skip(0) == s
{
    assert(s.take(s.len() as int) =~= s);
    assert(s.skip(0) =~= s);
    assert(lowers(s.take(0)) =~= Seq::<char>::empty());
    assert(out + Seq::<char>::empty() =~= out);
}
pub proof fn lemma_lower_step(out: Seq<char>, s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures out + lowers(s.take(k)) + seq![lower(s[k])] == out + lowers(s.take(k + 1)), s.skip(k).skip(1) == s.skip(k + 1),
{
    assert(lowers(s.take(k)) + seq![lower(s[k])] =~= lowers(s.take(k + 1)));
    assert(out + (lowers(s.take(k)) + seq![lower(s[k])]) =~= out + lowers(s.take(k)) + seq![lower(s[k])]);
    assert(s.skip(k).skip(1) =~= s.skip(k + 1));
}
pub proof fn lemma_host_hole(rest: &str, out: Seq<char>, tt: Seq<char>)
    requires htgt(out, rest@, tt)
    ensures ({ let b = rest.spec_bytes(); let k = first1(b, 0x25u8); let a = dec(sfx(b, k + 1)); let s0 = seq!['%'] + a; let p = dec(pfx(b, k));
        if k == b.len() { out + lowers(rest@) == tt }
        else { a.len() >= 2 && hexdig_c(a[0]) && hexdig_c(a[1]) && tv(s0) < 0x80 && s0[1] == a[0] && s0[2] == a[1] && rest@.len() >= s0.len()
            && (if unreserved(tv(s0)) { htgt(out + lowers(p) + seq![lower(tv(s0) as char)], a.skip(2), tt) } else { htgt(out + lowers(p) + pct_upper(tv(s0)), a.skip(2), tt) }) } })
{
    let r0 = rest@;
    lemma_hole(rest.spec_bytes());
    let k = first1(rest.spec_bytes(), 0x25u8);
    let p = dec(pfx(rest.spec_bytes(), k));
    if k == rest.spec_bytes().len() {
        lemma_normhost_copy(r0, Seq::empty());
        assert(r0 + Seq::<char>::empty() =~= r0);
        assert(lowers(r0) + normhost(Seq::<char>::empty()) =~= lowers(r0));
    } else {
        let a = dec(sfx(rest.spec_bytes(), k + 1));
        let t = seq!['%'] + a;
        lemma_normhost_copy(p, t);
        lemma_asciihost_copy(p, t);
        lemma_wft_copy(p, t);
        assert(t[0] == '%');
        assert(is_t(t));
        assert(t[1] == a[0] && t[2] == a[1]);
        assert(t.skip(3) =~= a.skip(2));
        let w = if unreserved(tv(t)) { seq![lower(tv(t) as char)] } else { pct_upper(tv(t)) };
        assert(out + (lowers(p) + (w + normhost(a.skip(2)))) =~= out + lowers(p) + w + normhost(a.skip(2)));
    }
}
#item struct NormalizedAsciiOnlyHost
#raw
impl<'a> fmt::Display for NormalizedAsciiOnlyHost<'a> { open spec fn text(&self) -> Seq<char> { normhost(self.host_port@) } open spec fn dok(&self) -> bool { wft(self.host_port@) && asciihost(self.host_port@) } }
/// `out` is written and `rest` remains, for the target text `tt`
pub open spec fn tgt(out: Seq<char>, rest: Seq<char>, tt: Seq<char>, iri: bool) -> bool { out + norm(rest, iri) == tt && wft(rest) }
pub proof fn lemma_tgt(out: Seq<char>, s: Seq<char>, w: Seq<char>, t: Seq<char>, tt: Seq<char>, iri: bool)
    requires tgt(out, s, tt, iri), norm(s, iri) == w + norm(t, iri), wft(t)
    ensures tgt(out + w, t, tt, iri)
{
    assert(out + (w + norm(t, iri)) =~= out + w + norm(t, iri));
}
pub proof fn lemma_step_hole(rest: &str, out: Seq<char>, tt: Seq<char>, iri: bool)
    requires tgt(out, rest@, tt, iri)
    ensures ({ let b = rest.spec_bytes(); let k = first1(b, 0x25u8); let a = dec(sfx(b, k + 1)); let s0 = seq!['%'] + a;
        if k == b.len() { out + rest@ == tt }
        else { tgt(out + dec(pfx(b, k)), s0, tt, iri) && is_t(s0) && a.len() >= 2 && hexdig_c(a[0]) && hexdig_c(a[1]) && s0[1] == a[0] && s0[2] == a[1] && s0.skip(3) == a.skip(2) && rest@.len() >= s0.len() } })
{
    let r0 = rest@;
    lemma_hole(rest.spec_bytes());
    let k = first1(rest.spec_bytes(), 0x25u8);
    let p = dec(pfx(rest.spec_bytes(), k));
    if k == rest.spec_bytes().len() {
        lemma_norm_copy(r0, Seq::empty(), iri);
        assert(r0 + Seq::<char>::empty() =~= r0);
        assert(r0 + norm(Seq::<char>::empty(), iri) =~= r0);
    } else {
        let t = seq!['%'] + dec(sfx(rest.spec_bytes(), k + 1));
        lemma_norm_copy(p, t, iri);
        lemma_wft_copy(p, t);
        lemma_tgt(out, r0, p, t, tt, iri);
        assert(t[0] == '%');
        assert(is_t(t));
        let a = dec(sfx(rest.spec_bytes(), k + 1));
        assert(t[1] == a[0] && t[2] == a[1]);
        assert(t.skip(3) =~= a.skip(2));
    }
}
/// the first triplet
pub proof fn lemma_step_first(s0: Seq<char>, out: Seq<char>, tt: Seq<char>, iri: bool)
    requires tgt(out, s0, tt, iri), is_t(s0)
    ensures s0.len() >= 3, trips(s0, 1), tb(s0, 1) == seq![tv(s0)],
        tv(s0) < 0x80 && unreserved(tv(s0)) ==> tgt(out + seq![tv(s0) as char], s0.skip(3), tt, iri),
        (tv(s0) < 0x80 && !unreserved(tv(s0))) || no_lead(tv(s0)) ==> tgt(out + pct_upper(tv(s0)), s0.skip(3), tt, iri),
{
    assert(trips(s0.skip(3), 0));
    assert(trips(s0, 1));
    assert(tb(s0.skip(3), 0) =~= Seq::<u8>::empty());
    assert(tb(s0, 1) =~= seq![tv(s0)]);
    lemma_wft_skip(s0, 1);
    if tv(s0) < 0x80 {
        lemma_norm_ascii(s0, iri);
        if unreserved(tv(s0)) { lemma_tgt(out, s0, seq![tv(s0) as char], s0.skip(3), tt, iri); } else { lemma_tgt(out, s0, pct_upper(tv(s0)), s0.skip(3), tt, iri); }
    }
    if no_lead(tv(s0)) { lemma_norm_no_lead(s0, iri); lemma_tgt(out, s0, pct_upper(tv(s0)), s0.skip(3), tt, iri); }
}
/// `m` triplets are read: lead byte and continuation bytes `cb`
pub proof fn lemma_step_more(s0: Seq<char>, m: nat, cb: Seq<u8>, out: Seq<char>, tt: Seq<char>, iri: bool)
    requires tgt(out, s0, tt, iri), is_t(s0), 1 <= m < lead_len(tv(s0)), trips(s0, m), tb(s0, m) == cb, conts(cb)
    ensures ({ let r1 = s0.skip(3 * m as int);
        wft(r1) && 3 * m <= s0.len()
        && (is_t(r1) && 0x80 <= tv(r1) <= 0xbf ==> trips(s0, m + 1) && tb(s0, m + 1) == cb.push(tv(r1)) && r1.skip(3) == s0.skip(3 * m as int + 3) && conts(cb.push(tv(r1))) && 3 * m + 3 <= s0.len())
        && (!(is_t(r1) && 0x80 <= tv(r1) <= 0xbf) ==> tgt(out + pct_all(cb), r1, tt, iri))
        && (r1.len() > 0 && r1[0] != '%' ==> tgt(out + pct_all(cb) + seq![r1[0]], r1.skip(1), tt, iri))
        && (r1.len() > 0 && r1[0] == '%' ==> is_t(r1))
    })
{
    let r1 = s0.skip(3 * m as int);
    lemma_wft_skip(s0, m);
    lemma_trips_len(s0, m);
    lemma_tb(s0, m);
    assert(cb[0] == tv(s0));
    if !(is_t(r1) && 0x80 <= tv(r1) <= 0xbf) {
        lemma_not_head(s0, m);
        assert forall|i: int| 1 <= i < m implies no_lead(#[trigger] tb(s0, m)[i]) by { assert(0x80 <= cb[i] <= 0xbf); }
        lemma_norm_not_head(s0, m, iri);
        lemma_tgt(out, s0, pct_all(cb), r1, tt, iri);
        if r1.len() > 0 && r1[0] != '%' {
            assert(!is_t(r1));
            assert(norm(r1, iri) == seq![r1[0]] + norm(r1.skip(1), iri));
            lemma_tgt(out + pct_all(cb), r1, seq![r1[0]], r1.skip(1), tt, iri);
        }
    } else { lemma_trips_more(s0, m); }
}
/// all triplets of a character's length are read
pub proof fn lemma_step_full(s0: Seq<char>, cb: Seq<u8>, out: Seq<char>, tt: Seq<char>, iri: bool)
    requires tgt(out, s0, tt, iri), is_t(s0), cb.len() >= 1, lead_len(tv(s0)) == cb.len(), trips(s0, cb.len()), tb(s0, cb.len()) == cb, conts(cb)
    ensures ({ let t = s0.skip(3 * cb.len() as int);
        3 * cb.len() <= s0.len() && cb[0] == tv(s0)
        && (forall|c: char| #[trigger] enc1(c) == cb ==> if unres(c, iri) { tgt(out + seq![c], t, tt, iri) } else { tgt(out + pct_all(cb), t, tt, iri) })
        && ((forall|c: char| #[trigger] enc1(c) != cb) ==> tgt(out + pct_all(cb), t, tt, iri))
    })
{
    let t = s0.skip(3 * cb.len() as int);
    lemma_wft_skip(s0, cb.len());
    lemma_trips_len(s0, cb.len());
    lemma_tb(s0, cb.len());
    assert forall|c: char| #[trigger] enc1(c) == cb implies if unres(c, iri) { tgt(out + seq![c], t, tt, iri) } else { tgt(out + pct_all(cb), t, tt, iri) } by {
        lemma_all_head(s0, cb, c);
        lemma_norm_head(s0, c, iri);
        if unres(c, iri) { lemma_tgt(out, s0, seq![c], t, tt, iri); } else { lemma_tgt(out, s0, pct_all(cb), t, tt, iri); }
    }
    if forall|c: char| #[trigger] enc1(c) != cb {
        lemma_no_head(s0, cb);
        assert forall|i: int| 1 <= i < cb.len() implies no_lead(#[trigger] tb(s0, cb.len())[i]) by { assert(0x80 <= cb[i] <= 0xbf); }
        lemma_norm_not_head(s0, cb.len(), iri);
        lemma_tgt(out, s0, pct_all(cb), t, tt, iri);
    }
}
pub proof fn lemma_not_head(s: Seq<char>, m: nat)
    requires trips(s, m), 1 <= m < lead_len(tv(s)), is_t(s.skip(3 * m as int)) ==> !(0x80 <= tv(s.skip(3 * m as int)) <= 0xbf)
    ensures forall|c: char| !#[trigger] is_head(s, c)
{
    assert forall|c: char| !#[trigger] is_head(s, c) by {
        if is_head(s, c) {
            let n = enc1(c).len();
            lemma_enc1_shape(c);
            lemma_tb(s, n);
            lemma_trips_pre(s, n, m + 1);
            lemma_trips_at(s, m);
            assert(enc1(c)[m as int] == tb(s, n).take(m as int + 1)[m as int]);
        }
    }
}
/// the last of `m + 1` triplets
pub proof fn lemma_trips_at(s: Seq<char>, m: nat)
    requires trips(s, m + 1)
    ensures is_t(s.skip(3 * m as int)), tb(s, m + 1)[m as int] == tv(s.skip(3 * m as int))
    decreases m
{
    lemma_trips_len(s, m + 1);
    lemma_tb(s, m + 1);
    if m == 0 { assert(s.skip(0) =~= s); }
    else { let t = s.skip(3); lemma_trips_at(t, (m - 1) as nat); assert(t.skip(3 * (m - 1)) =~= s.skip(3 * m as int)); lemma_tb(t, m); assert(tb(s, m + 1)[m as int] == tb(t, m)[m - 1]); }
}
pub proof fn lemma_all_head(s: Seq<char>, b: Seq<u8>, c: char)
    requires trips(s, b.len()), tb(s, b.len()) == b, enc1(c) == b, b.len() >= 1
    ensures is_head(s, c)
{ lemma_trips_len(s, b.len()); }
pub proof fn lemma_no_head(s: Seq<char>, b: Seq<u8>)
    requires trips(s, b.len()), tb(s, b.len()) == b, lead_len(tv(s)) == b.len(), forall|c: char| #[trigger] enc1(c) != b
    ensures forall|c: char| !#[trigger] is_head(s, c)
{
    assert forall|c: char| !#[trigger] is_head(s, c) by {
        if is_head(s, c) { lemma_enc1_shape(c); lemma_tb(s, enc1(c).len()); assert(enc1(c).len() == b.len()); }
    }
}
/// an encoded ASCII character
pub proof fn lemma_norm_ascii(s: Seq<char>, iri: bool)
    requires is_t(s), tv(s) < 0x80
    ensures norm(s, iri) == (if unreserved(tv(s)) { seq![tv(s) as char] } else { pct_upper(tv(s)) }) + norm(s.skip(3), iri)
{
    let c = tv(s) as char;
    crate::vstring::lemma_enc1(c);
    assert(trips(s.skip(3), 0));
    assert(trips(s, 1));
    assert(tb(s.skip(3), 0) =~= Seq::<u8>::empty());
    assert(tb(s, 1) =~= enc1(c));
    assert(is_head(s, c));
    lemma_norm_head(s, c, iri);
    lemma_pct1(tv(s));
}
pub proof fn lemma_loop_start(out: Seq<char>, b: Seq<u8>)
    ensures out == out + pct_all(b.take(0)), b.take(b.len() as int) == b
{
    assert(b.take(0) =~= Seq::<u8>::empty());
    assert(b.take(b.len() as int) =~= b);
    assert(out + Seq::<char>::empty() =~= out);
}
pub proof fn lemma_loop_step(out: Seq<char>, b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures out + pct_all(b.take(i)) + pct_upper(b[i]) == out + pct_all(b.take(i + 1))
{
    lemma_pct_take(b, i);
    assert(out + (pct_all(b.take(i)) + pct_upper(b[i])) =~= out + pct_all(b.take(i)) + pct_upper(b[i]));
}
/// triplets are ASCII: byte and character positions agree
pub proof fn lemma_trips_bytes(a: &str, s: Seq<char>, n: nat)
    requires trips(s, n), n >= 1, a@ == s.skip(3)
    ensures 3 * (n - 1) <= a.spec_bytes().len(), is_char_boundary(a.spec_bytes(), 3 * (n - 1)), dec(sfx(a.spec_bytes(), 3 * (n - 1))) == s.skip(3 * n as int)
{
    lemma_trips_enc(s.skip(3), (n - 1) as nat);
    lemma_trips_len(s, n);
    let t = s.skip(3);
    let (x, y) = (t.take(3 * (n - 1)), t.skip(3 * (n - 1)));
    assert(t =~= x + y);
    encode_utf8_concat(x, y);
    encode_utf8_valid_utf8(y);
    encode_utf8_decode_utf8(y);
    let b = a.spec_bytes();
    assert(sfx(b, 3 * (n - 1)) =~= encode_utf8(y));
    assert(y =~= s.skip(3 * n as int));
    lemma_str_dec(a);
    assert(x == t.take(3 * ((n - 1) as nat) as int));
    assert(n > 1 ==> encode_utf8(x)[3 * ((n - 1) as nat) - 1] < 0x80u8);
    let k = 3 * (n - 1);
    let xb = encode_utf8(x);
    assert(n > 1 ==> xb[k - 1] < 0x80u8);
    assert(b.take(k) =~= xb);
    if n > 1 { lemma_trips_last(b, xb, k); } else { assert(is_char_boundary(b, 0)); }
}
pub proof fn lemma_trips_last(b: Seq<u8>, x: Seq<u8>, k: int)
    requires valid_utf8(b), 0 < k <= b.len(), x.len() == k, b.take(k) == x, x[k - 1] < 0x80u8
    ensures is_char_boundary(b, k)
{
    assert(b[k - 1] == b.take(k)[k - 1]);
    lemma_ascii_boundary(b, k - 1);
}
pub proof fn lemma_trips_enc(s: Seq<char>, n: nat)
    requires trips(s, n)
    ensures encode_utf8(s.take(3 * n as int)).len() == 3 * n, n > 0 ==> encode_utf8(s.take(3 * n as int))[3 * n - 1] < 0x80u8
    decreases n
{
    lemma_trips_len(s, n);
    if n == 0 { assert(s.take(0) =~= Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()).len() == 0) by { reveal_with_fuel(encode_utf8, 2); } }
    else {
        let t = s.skip(3);
        lemma_trips_enc(t, (n - 1) as nat);
        let (a, b, c, d) = (seq![s[0]], seq![s[1]], seq![s[2]], t.take(3 * (n - 1)));
        assert(s.take(3 * n as int) =~= a + (b + (c + d)));
        encode_utf8_concat(a, b + (c + d));
        encode_utf8_concat(b, c + d);
        encode_utf8_concat(c, d);
        crate::vstring::lemma_enc1(s[0]);
        crate::vstring::lemma_enc1(s[1]);
        crate::vstring::lemma_enc1(s[2]);
        assert(encode_utf8(s.take(3 * n as int)) == seq![s[0] as u8] + (seq![s[1] as u8] + (seq![s[2] as u8] + encode_utf8(d))));
        if n == 1 { assert(d =~= Seq::<char>::empty()); assert(encode_utf8(d).len() == 0) by { reveal_with_fuel(encode_utf8, 2); } }
    }
}
#fn into_char_trusted call=char::from_u32->crate::vx::char_from_u32
#requires bytes@.len() >= 2, lead_len(bytes@[0]) == bytes@.len(), conts(bytes@)
#ensures match r { Ok(c) => enc1(c) == bytes@, Err(_) => forall|c: char| #[trigger] enc1(c) != bytes@ }
#proof let c
    proof {
        let b = bytes@;
        let (w, x, y, z) = (b[0], b[1], if b.len() > 2 { b[2] } else { 0 }, if b.len() > 3 { b[3] } else { 0 });
        assert(is_continuation_byte(x));
        if b.len() > 2 { assert(is_continuation_byte(y)); }
        if b.len() > 3 { assert(is_continuation_byte(z)); }
        assert(b.len() == 2 ==> c == codepoint_width_2(w, x));
        assert(b.len() == 3 ==> c == codepoint_width_3(w, x, y));
        assert(b.len() == 4 ==> c == codepoint_width_4(w, x, y, z));
        assert(c == decode_first_scalar(b));
        assert(length_of_first_scalar(b) == b.len());
        let ok = c >= MIN[b.len() - 2] && (c <= 0xd7ff || 0xe000 <= c <= 0x10ffff);
        assert(valid_leading_and_continuation_bytes_first_codepoint(b));
        assert(((((w & 0x1fu8) as u32) << 6) | ((x & 0x3fu8) as u32)) <= 0x7ffu32) by(bit_vector);
        assert(((((w & 0x0fu8) as u32) << 12) | (((x & 0x3fu8) as u32) << 6) | ((y & 0x3fu8) as u32)) <= 0xffffu32) by(bit_vector);
        assert(ok ==> valid_first_scalar(b));
        if ok { let d = lemma_one_scalar(b); }
        assert forall|e: char| #[trigger] enc1(e) == b implies ok by { lemma_enc1_scalar(e); }
    }
#fn PctCaseNormalized::new
#ensures r.path == source
#fn PctCaseNormalized::<Display>::fmt rename=imp_fmt call=take_xdigits2->crate::parser::trusted::take_xdigits2_str dropdbg=1
#attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
#requires wft(self.path@)
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#proof start
    hide(norm); hide(wft); hide(trips); hide(tb); hide(pct_all); hide(tv);
    let ghost o = *f;
    let ghost iri = S::iri();
    let ghost tt = o.out() + norm(self.path@, iri);
#loop 0
    invariant tgt(f.out(), rest@, tt, iri), f.may() == o.may(), iri == S::iri(),
    ensures tgt(f.out(), rest@, tt, iri), f.may() == o.may(), rest@.len() == 0,
    decreases rest@.len()
#proof loop 0 start
    let ghost r0 = rest@;
    proof { lemma_step_hole(rest, f.out(), tt, iri); }
#proof let after_percent
    let ghost s0 = seq!['%'] + after_percent@;
    proof {
        lemma_hex_head(after_percent);
        lemma_tv(s0);
    }
#proof let after_first_triplet
    let ghost f1 = *f;
    proof {
        reveal(tv);
        assert(after_first_triplet@ == s0.skip(3));
        assert(first_decoded == tv(s0));
        lemma_step_first(s0, f1.out(), tt, iri);
    }
#loop 1
    invariant
        tgt(f1.out(), s0, tt, iri), *f == f1, iri == S::iri(), f1.may() == o.may(), s0.len() <= r0.len(), is_t(s0),
        expected_char_len == lead_len(first_decoded), 2 <= expected_char_len <= 4, c_buf@.len() == expected_char_len, first_decoded == tv(s0),
        vx_i1 + 1 <= expected_char_len,
        trips(s0, (vx_i1 + 1) as nat), tb(s0, (vx_i1 + 1) as nat) == c_buf@.take(vx_i1 + 1), conts(c_buf@.take(vx_i1 + 1)),
        rest@ == s0.skip(3 * (vx_i1 + 1)), after_first_triplet@ == s0.skip(3),
    decreases expected_char_len - vx_i1
#proof loop 1 start
    let ghost m = (vx_i1 + 1) as nat;
    let ghost r1 = rest@;
    let ghost cb = c_buf@;
    proof {
        lemma_step_more(s0, m, cb.take(m as int), f1.out(), tt, iri);
        assert forall|t: &str| #![trigger t.spec_bytes()] is_t(r1) && t@ == r1.skip(1) implies ({ let b = t.spec_bytes(); b.len() >= 2 && b[0] == r1[1] as u8 && b[1] == r1[2] as u8 && hexdig(b[0]) && hexdig(b[1]) && dec(sfx(b, 2)) == r1.skip(3) }) by {
            assert(t@[0] == r1[1] && t@[1] == r1[2]);
            lemma_hex_head(t);
            assert(t@.skip(2) =~= r1.skip(3));
        }
        if is_t(r1) { lemma_tv(r1); }
    }
#proof let byte
    proof { reveal(tv); assert(byte == tv(r1)); }
#proof loop 1 end
    proof { assert(c_buf@.take(m as int + 1) =~= cb.take(m as int).push(c_buf@[m as int])); }
#proof after loop 1
    proof {
        assert(c_buf@.take(expected_char_len as int) =~= c_buf@);
        lemma_step_full(s0, c_buf@, f1.out(), tt, iri);
        lemma_trips_bytes(after_first_triplet, s0, expected_char_len as nat);
    }
#proof after loop 0
    proof { reveal_with_fuel(norm, 1); assert(f.out() + Seq::<char>::empty() =~= f.out()); }
#proof let vx_x2
    let ghost f2 = *f;
    proof { lemma_loop_start(f2.out(), vx_x2@); }
#loop 2
    invariant
        vx_i2 <= vx_x2@.len(), f2.may() == o.may(),
        vx_r2 is Ok ==> f.may() == o.may() && f.out() == f2.out() + pct_all(vx_x2@.take(vx_i2 as int)),
        vx_r2 is Err ==> o.may(),
    decreases vx_x2@.len() - vx_i2
#proof loop 2 start
    proof { lemma_loop_step(f2.out(), vx_x2@, vx_i2 as int); }
#proof let vx_x3
    let ghost f3 = *f;
    proof { lemma_loop_start(f3.out(), vx_x3@); }
#loop 3
    invariant
        vx_i3 <= vx_x3@.len(), f3.may() == o.may(),
        vx_r3 is Ok ==> f.may() == o.may() && f.out() == f3.out() + pct_all(vx_x3@.take(vx_i3 as int)),
        vx_r3 is Err ==> o.may(),
    decreases vx_x3@.len() - vx_i3
#proof loop 3 start
    proof { lemma_loop_step(f3.out(), vx_x3@, vx_i3 as int); }
#proof let vx_x4
    let ghost f4 = *f;
    proof { lemma_loop_start(f4.out(), vx_x4@); }
#loop 4
    invariant
        vx_i4 <= vx_x4@.len(), f4.may() == o.may(),
        vx_r4 is Ok ==> f.may() == o.may() && f.out() == f4.out() + pct_all(vx_x4@.take(vx_i4 as int)),
        vx_r4 is Err ==> o.may(),
    decreases vx_x4@.len() - vx_i4
#proof loop 4 start
    proof { lemma_loop_step(f4.out(), vx_x4@, vx_i4 as int); }
#proof let vx_x5
    let ghost f5 = *f;
    proof { lemma_loop_start(f5.out(), vx_x5@); }
#loop 5
    invariant
        vx_i5 <= vx_x5@.len(), f5.may() == o.may(),
        vx_r5 is Ok ==> f.may() == o.may() && f.out() == f5.out() + pct_all(vx_x5@.take(vx_i5 as int)),
        vx_r5 is Err ==> o.may(),
    decreases vx_x5@.len() - vx_i5
#proof loop 5 start
    proof { lemma_loop_step(f5.out(), vx_x5@, vx_i5 as int); }
#proof let vx_x6
    let ghost f6 = *f;
    proof { lemma_loop_start(f6.out(), vx_x6@); }
#loop 6
    invariant
        vx_i6 <= vx_x6@.len(), f6.may() == o.may(),
        vx_r6 is Ok ==> f.may() == o.may() && f.out() == f6.out() + pct_all(vx_x6@.take(vx_i6 as int)),
        vx_r6 is Err ==> o.may(),
    decreases vx_x6@.len() - vx_i6
#proof loop 6 start
    proof { lemma_loop_step(f6.out(), vx_x6@, vx_i6 as int); }
#fn is_pct_case_normalized
#requires wft(s@)
#ensures r == (norm(s@, S::iri()) == s@)
#fn NormalizedAsciiOnlyHost::new
#ensures r.host_port == host_port
#fn NormalizedAsciiOnlyHost::<Display>::fmt rename=imp_fmt call=take_xdigits2->crate::parser::trusted::take_xdigits2_str call=.to_ascii_lowercase->.vx_lower
#requires wft(self.host_port@), asciihost(self.host_port@)
#ensures r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), <Self as fmt::Display>::text(self), *final(f)), r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), <Self as fmt::Display>::text(self), *final(f))
#attr #[verifier::loop_isolation(false)]
#proof start
    let ghost o = *f;
    let ghost tt = normhost(self.host_port@);
    proof { assert(o.out() + tt == o.out() + normhost(self.host_port@)); }
#loop 0
    invariant htgt(f.out(), rest@, o.out() + tt), f.may() == o.may(), tt == normhost(self.host_port@),
    decreases rest@.len()
#proof loop 0 start
    proof { lemma_host_hole(rest, f.out(), o.out() + tt); }
#proof let after_percent
    let ghost s0 = seq!['%'] + after_percent@;
    proof { lemma_hex_head(after_percent); lemma_tv(s0); }
#proof let after_triplet
    proof { assert(first_decoded == tv(s0)); assert(after_triplet@ == after_percent@.skip(2)); }
#proof after loop 1
    proof { assert(vx_r1 is Ok ==> f.out() == f1.out() + lowers(rest@.take(rest@.len() as int))); }
#loop 1
    invariant
        vx_i1 is Some ==> rest@.len() > vx_x1@.len() && vx_i1 == Some(rest@[rest@.len() - vx_x1@.len() - 1]) && vx_x1@ == rest@.skip(rest@.len() - vx_x1@.len()),
        vx_i1 is None ==> vx_x1@.len() == 0, f1.may() == o.may(),
        vx_r1 is Ok ==> f.may() == o.may() && f.out() == f1.out() + lowers(rest@.take(rest@.len() - vx_x1@.len() - (if vx_i1 is Some { 1int } else { 0 }))),
        vx_r1 is Err ==> o.may(),
    decreases vx_x1@.len(), (if vx_i1 is Some { 1int } else { 0 }),
#proof loop 1 start
    let ghost k = rest@.len() - vx_x1@.len() - 1;
    proof { lemma_lower_step(f1.out(), rest@, k); }
#proof let vx_x1
    let ghost f1 = *f;
    proof { lemma_lower_start(f1.out(), rest@); }
#loop 2
    invariant
        vx_i2 is Some ==> prefix@.len() > vx_x2@.len() && vx_i2 == Some(prefix@[prefix@.len() - vx_x2@.len() - 1]) && vx_x2@ == prefix@.skip(prefix@.len() - vx_x2@.len()),
        vx_i2 is None ==> vx_x2@.len() == 0, f2.may() == o.may(),
        vx_r2 is Ok ==> f.may() == o.may() && f.out() == f2.out() + lowers(prefix@.take(prefix@.len() - vx_x2@.len() - (if vx_i2 is Some { 1int } else { 0 }))),
        vx_r2 is Err ==> o.may(),
    decreases vx_x2@.len(), (if vx_i2 is Some { 1int } else { 0 }),
#proof loop 2 start
    let ghost k = prefix@.len() - vx_x2@.len() - 1;
    proof { lemma_lower_step(f2.out(), prefix@, k); }
#proof let vx_x2
    let ghost f2 = *f;
    proof { lemma_lower_start(f2.out(), prefix@); assert(prefix@.len() - 0 == prefix@.len()); }
#end
