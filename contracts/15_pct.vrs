#module pct
#raw
// Percent-encoded triplets over characters, and percent-encoding / case normalization (RFC 3986 6.2.2.1, 6.2.2.2; RFC 3987 5.3.2.3).
use crate::vx::*;
use crate::grammar::*;
use crate::parser::char::*;
use crate::vfmt::{pct_upper, pct_all, lemma_pct_concat, lemma_pct_take};
broadcast use {crate::vx::group_vx};

/// a triplet at the head
pub open spec fn is_t(s: Seq<char>) -> bool { s.len() >= 3 && s[0] == '%' && hexdig_c(s[1]) && hexdig_c(s[2]) }
/// its value
pub open spec fn tv(s: Seq<char>) -> u8 { (16 * hexval(s[1] as u8) + hexval(s[2] as u8)) as u8 }
/// every percent sign starts a triplet
pub open spec fn wft(s: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() == 0 { true } else if s[0] == '%' { is_t(s) && wft(s.skip(3)) } else { wft(s.skip(1)) }
}
/// `n` triplets at the head
pub open spec fn trips(s: Seq<char>, n: nat) -> bool
    decreases n
{
    if n == 0 { true } else { is_t(s) && trips(s.skip(3), (n - 1) as nat) }
}
/// their values
pub open spec fn tb(s: Seq<char>, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { seq![tv(s)] + tb(s.skip(3), (n - 1) as nat) }
}
pub open spec fn enc1(c: char) -> Seq<u8> { encode_utf8(seq![c]) }
/// the text starts with the percent-encoded form of the character `c`
pub open spec fn is_head(s: Seq<char>, c: char) -> bool {
    enc1(c).len() >= 1 && 3 * enc1(c).len() <= s.len() && trips(s, enc1(c).len()) && tb(s, enc1(c).len()) == enc1(c)
}
pub open spec fn unres(c: char, iri: bool) -> bool { if (c as u32) < 0x80 { unreserved(c as u8) } else { pn(Cls::Regname, iri, c) } }
/// percent-encoding and case normalization: literal characters stay, an encoded unreserved character is
/// decoded, every other triplet is written in upper case
pub open spec fn norm(s: Seq<char>, iri: bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if !is_t(s) { seq![s[0]] + norm(s.skip(1), iri) }
    else if exists|c: char| is_head(s, c) {
        let c = choose|c: char| is_head(s, c);
        let n = enc1(c).len() as int;
        (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) }) + norm(s.skip(3 * n), iri)
    }
    else { pct_upper(tv(s)) + norm(s.skip(3), iri) }
}
pub open spec fn nopct(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '%' }

// ---- UTF-8 of one character
pub proof fn lemma_scalar_range(b: Seq<u8>)
    requires b.len() > 0, valid_first_scalar(b)
    ensures decode_first_scalar(b) <= 0xd7ff || 0xe000 <= decode_first_scalar(b) <= 0x10ffff
{
    let x = b[0]; let y = b[1]; let z = b[2];
    assert(((x & 0x7fu8) as u32) <= 0x7fu32) by(bit_vector);
    assert(((((x & 0x1fu8) as u32) << 6) | ((y & 0x3fu8) as u32)) <= 0x7ffu32) by(bit_vector);
    assert(((((x & 0x0fu8) as u32) << 12) | (((y & 0x3fu8) as u32) << 6) | ((z & 0x3fu8) as u32)) <= 0xffffu32) by(bit_vector);
}
pub proof fn lemma_scalar_cast(v: u32)
    requires v <= 0xd7ff || 0xe000 <= v <= 0x10ffff
    ensures (v as char) as u32 == v
{ }
pub proof fn lemma_enc1_scalar(c: char)
    ensures valid_utf8(enc1(c)), enc1(c).len() >= 1, valid_first_scalar(enc1(c)), length_of_first_scalar(enc1(c)) == enc1(c).len(), dec(enc1(c)) == seq![c],
        decode_first_scalar(enc1(c)) == c as u32,
{
    let b = enc1(c);
    encode_utf8_valid_utf8(seq![c]);
    encode_utf8_decode_utf8(seq![c]);
    reveal_with_fuel(valid_utf8, 2);
    reveal_with_fuel(decode_utf8, 2);
    if b.len() == 0 { assert(dec(b).len() == 0); assert(false); }
    let p = pop_first_scalar(b);
    assert(dec(b).len() == 1);
    assert(dec(b) == seq![decode_first_scalar(b) as char] + dec(p));
    assert(dec(p).len() == 0);
    if p.len() > 0 { assert(false); }
    assert(seq![c][0] == dec(b)[0]);
    lemma_scalar_range(b);
    lemma_scalar_cast(decode_first_scalar(b));
}
/// a valid sequence whose first character takes all of it is that character
pub proof fn lemma_one_scalar(b: Seq<u8>) -> (c: char)
    requires valid_first_scalar(b), length_of_first_scalar(b) == b.len(), b.len() >= 1
    ensures enc1(c) == b, c as u32 == decode_first_scalar(b), valid_utf8(b)
{
    reveal_with_fuel(valid_utf8, 3);
    reveal_with_fuel(decode_utf8, 3);
    assert(pop_first_scalar(b) =~= Seq::<u8>::empty());
    assert(valid_utf8(b));
    lemma_scalar_range(b);
    lemma_scalar_cast(decode_first_scalar(b));
    let c = decode_first_scalar(b) as char;
    assert(dec(b) =~= seq![c]);
    decode_utf8_encode_utf8(b);
    c
}
/// the first byte fixes the length
pub proof fn lemma_head_len(a: Seq<u8>, c: char)
    requires a.len() >= enc1(c).len(), a.take(enc1(c).len() as int) == enc1(c)
    ensures length_of_first_scalar(a) == enc1(c).len()
{
    lemma_enc1_scalar(c);
    assert(a[0] == a.take(enc1(c).len() as int)[0]);
}
pub proof fn lemma_tb(s: Seq<char>, n: nat)
    ensures tb(s, n).len() == n, n > 0 ==> tb(s, n)[0] == tv(s)
    decreases n
{
    if n > 0 { lemma_tb(s.skip(3), (n - 1) as nat); }
}
pub proof fn lemma_trips_len(s: Seq<char>, n: nat)
    requires trips(s, n)
    ensures 3 * n <= s.len()
    decreases n
{
    if n > 0 { lemma_trips_len(s.skip(3), (n - 1) as nat); }
}
/// one more triplet
pub proof fn lemma_trips_more(s: Seq<char>, n: nat)
    requires trips(s, n), is_t(s.skip(3 * n as int))
    ensures trips(s, n + 1), tb(s, n + 1) == tb(s, n).push(tv(s.skip(3 * n as int))), 3 * n + 3 <= s.len(), s.skip(3 * n as int).skip(3) == s.skip(3 * n as int + 3),
    decreases n
{
    lemma_trips_len(s, n);
    assert(s.skip(3 * n as int).skip(3) =~= s.skip(3 * n as int + 3));
    if n > 0 {
        let t = s.skip(3);
        assert(t.skip(3 * (n - 1)) =~= s.skip(3 * n as int));
        lemma_trips_more(t, (n - 1) as nat);
        assert(seq![tv(s)] + tb(t, (n - 1) as nat).push(tv(s.skip(3 * n as int))) =~= (seq![tv(s)] + tb(t, (n - 1) as nat)).push(tv(s.skip(3 * n as int))));
    } else {
        assert(s.skip(0) =~= s);
        assert(tb(s.skip(3), 0) =~= Seq::<u8>::empty());
        assert(tb(s, 1) =~= seq![tv(s)]);
        assert(trips(s.skip(3), 0));
    }
}
pub proof fn lemma_trips_pre(s: Seq<char>, n: nat, m: nat)
    requires trips(s, n), m <= n
    ensures trips(s, m), tb(s, m) == tb(s, n).take(m as int)
    decreases m
{
    lemma_tb(s, n);
    if m > 0 { lemma_trips_pre(s.skip(3), (n - 1) as nat, (m - 1) as nat); lemma_tb(s.skip(3), (n - 1) as nat);
        assert(tb(s, m) =~= tb(s, n).take(m as int)); }
    else { assert(tb(s, 0) =~= tb(s, n).take(0)); }
}
/// at most one character starts a text
pub proof fn lemma_head_unique(s: Seq<char>, c: char, d: char)
    requires is_head(s, c), is_head(s, d)
    ensures c == d
{
    lemma_enc1_scalar(c);
    lemma_enc1_scalar(d);
    lemma_tb(s, enc1(c).len());
    lemma_tb(s, enc1(d).len());
    let n = enc1(c).len();
    assert(enc1(c)[0] == enc1(d)[0]);
    assert(length_of_first_scalar(enc1(c)) == length_of_first_scalar(enc1(d)));
    assert(enc1(c) == enc1(d));
    assert(seq![c][0] == seq![d][0]);
}
pub proof fn lemma_norm_head(s: Seq<char>, c: char, iri: bool)
    requires is_head(s, c)
    ensures norm(s, iri) == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) }) + norm(s.skip(3 * enc1(c).len() as int), iri), is_t(s)
{
    let d = choose|d: char| is_head(s, d);
    lemma_head_unique(s, c, d);
}
/// literal text is copied
pub proof fn lemma_norm_copy(p: Seq<char>, t: Seq<char>, iri: bool)
    requires nopct(p)
    ensures norm(p + t, iri) == p + norm(t, iri)
    decreases p.len()
{
    if p.len() == 0 { assert(p + t =~= t); assert(p + norm(t, iri) =~= norm(t, iri)); }
    else {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '%' by { assert(p[i + 1] != '%'); }
        lemma_norm_copy(q, t, iri);
        assert((p + t)[0] == p[0]);
        assert((p + t).skip(1) =~= q + t);
        assert(seq![p[0]] + (q + norm(t, iri)) =~= p + norm(t, iri));
    }
}
pub proof fn lemma_wft_copy(p: Seq<char>, t: Seq<char>)
    requires nopct(p)
    ensures wft(p + t) == wft(t)
    decreases p.len()
{
    if p.len() == 0 { assert(p + t =~= t); }
    else {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '%' by { assert(p[i + 1] != '%'); }
        lemma_wft_copy(q, t);
        assert((p + t)[0] == p[0]);
        assert((p + t).skip(1) =~= q + t);
    }
}
pub proof fn lemma_tv(s: Seq<char>)
    requires is_t(s)
    ensures 0 <= 16 * hexval(s[1] as u8) + hexval(s[2] as u8) < 256, tv(s) as int == 16 * hexval(s[1] as u8) + hexval(s[2] as u8)
{ }
/// a byte that cannot start a character
pub open spec fn no_lead(b: u8) -> bool { 0x80 <= b <= 0xc1 || b >= 0xf5 }
pub proof fn lemma_no_lead(c: char)
    ensures !no_lead(enc1(c)[0])
{
    lemma_enc1_scalar(c);
    let b = enc1(c);
    let x = b[0]; 
    if 0xc0 <= x <= 0xc1 {
        let y = b[1];
        assert(codepoint_width_2(x, y) < 0x80) by {
            assert(0xc0u8 <= x <= 0xc1u8 && 0x80u8 <= y <= 0xbfu8 ==> ((((x & 0x1fu8) as u32) << 6) | ((y & 0x3fu8) as u32)) < 0x80u32) by(bit_vector);
        }
    } else if x >= 0xf5 {
        let (y, z, w) = (b[1], b[2], b[3]);
        assert(0xf5u8 <= x <= 0xf7u8 ==> ((((x & 0x07u8) as u32) << 18) | (((y & 0x3fu8) as u32) << 12) | (((z & 0x3fu8) as u32) << 6) | ((w & 0x3fu8) as u32)) > 0x10ffffu32) by(bit_vector);
    }
}
pub proof fn lemma_norm_no_lead(s: Seq<char>, iri: bool)
    requires is_t(s), no_lead(tv(s))
    ensures norm(s, iri) == pct_upper(tv(s)) + norm(s.skip(3), iri)
{
    if exists|c: char| is_head(s, c) {
        let c = choose|c: char| is_head(s, c);
        lemma_no_lead(c);
        lemma_tb(s, enc1(c).len());
        assert(false);
    }
}
/// triplets whose bytes all cannot start a character
pub proof fn lemma_norm_conts(s: Seq<char>, n: nat, iri: bool)
    requires trips(s, n), forall|i: int| 0 <= i < n ==> no_lead(#[trigger] tb(s, n)[i])
    ensures norm(s, iri) == pct_all(tb(s, n)) + norm(s.skip(3 * n as int), iri)
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); assert(pct_all(Seq::<u8>::empty()) + norm(s, iri) =~= norm(s, iri)); }
    else {
        let t = s.skip(3);
        lemma_tb(s, n);
        lemma_trips_len(s, n);
        assert(tb(s, n)[0] == tv(s));
        lemma_norm_no_lead(s, iri);
        let u = tb(t, (n - 1) as nat);
        lemma_tb(t, (n - 1) as nat);
        assert forall|i: int| 0 <= i < n - 1 implies no_lead(#[trigger] u[i]) by { assert(tb(s, n)[i + 1] == u[i]); }
        lemma_norm_conts(t, (n - 1) as nat, iri);
        assert(t.skip(3 * (n - 1)) =~= s.skip(3 * n as int));
        lemma_pct_concat(seq![tv(s)], u);
        lemma_pct1(tv(s));
        assert(pct_upper(tv(s)) + (pct_all(u) + norm(s.skip(3 * n as int), iri)) =~= pct_upper(tv(s)) + pct_all(u) + norm(s.skip(3 * n as int), iri));
    }
}
pub proof fn lemma_pct1(b: u8)
    ensures pct_all(seq![b]) == pct_upper(b)
{
    assert(seq![b].drop_last() =~= Seq::<u8>::empty());
    assert(pct_all(seq![b].drop_last()) =~= Seq::<char>::empty());
    assert(Seq::<char>::empty() + pct_upper(b) =~= pct_upper(b));
}
/// a lead byte followed by continuation bytes only, that is no character
pub proof fn lemma_norm_not_head(s: Seq<char>, n: nat, iri: bool)
    requires trips(s, n), n >= 1, forall|c: char| !is_head(s, c), forall|i: int| 1 <= i < n ==> no_lead(#[trigger] tb(s, n)[i])
    ensures norm(s, iri) == pct_all(tb(s, n)) + norm(s.skip(3 * n as int), iri)
{
    let t = s.skip(3);
    let u = tb(t, (n - 1) as nat);
    lemma_tb(s, n);
    lemma_tb(t, (n - 1) as nat);
    lemma_trips_len(s, n);
    assert forall|i: int| 0 <= i < n - 1 implies no_lead(#[trigger] u[i]) by { assert(tb(s, n)[i + 1] == u[i]); }
    lemma_norm_conts(t, (n - 1) as nat, iri);
    assert(t.skip(3 * (n - 1)) =~= s.skip(3 * n as int));
    lemma_pct_concat(seq![tv(s)], u);
    lemma_pct1(tv(s));
    assert(pct_upper(tv(s)) + (pct_all(u) + norm(s.skip(3 * n as int), iri)) =~= pct_upper(tv(s)) + pct_all(u) + norm(s.skip(3 * n as int), iri));
}
pub open spec fn lead_len(x: u8) -> nat { if x < 0x80 { 1 } else if 0xc2 <= x <= 0xdf { 2 } else if 0xe0 <= x <= 0xef { 3 } else if 0xf0 <= x <= 0xf4 { 4 } else { 0 } }
pub open spec fn conts(b: Seq<u8>) -> bool { forall|i: int| 1 <= i < b.len() ==> 0x80 <= #[trigger] b[i] <= 0xbf }
/// an encoded character has the length its first byte tells, and continuation bytes after it
pub proof fn lemma_enc1_shape(c: char)
    ensures lead_len(enc1(c)[0]) == enc1(c).len(), conts(enc1(c)), enc1(c).len() >= 1
{
    lemma_enc1_scalar(c);
    lemma_no_lead(c);
}
pub proof fn lemma_wft_skip(s: Seq<char>, n: nat)
    requires wft(s), trips(s, n)
    ensures wft(s.skip(3 * n as int))
    decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); }
    else { lemma_trips_len(s, n); lemma_wft_skip(s.skip(3), (n - 1) as nat); assert(s.skip(3).skip(3 * (n - 1)) =~= s.skip(3 * n as int)); }
}
pub proof fn lemma_sat_wft(s: Seq<char>, k: Cls, iri: bool)
    requires sat(s, k, iri)
    ensures wft(s)
    decreases s.len()
{
    if s.len() > 0 { if s[0] == '%' { lemma_sat_wft(s.skip(3), k, iri); } else { lemma_sat_wft(s.skip(1), k, iri); } }
}
// ---- bytes and characters around a percent sign
pub proof fn lemma_no_byte_nopct(b: Seq<u8>)
    requires valid_utf8(b), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0x25u8
    ensures nopct(dec(b))
{
    let s = dec(b);
    decode_utf8_encode_utf8(b);
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != '%' by {
        if s[j] == '%' {
            let x = s.take(j); let y = s.skip(j + 1);
            assert(s =~= x + (seq!['%'] + y));
            encode_utf8_concat(x, seq!['%'] + y);
            encode_utf8_concat(seq!['%'], y);
            crate::vstring::lemma_enc1('%');
            assert(b == encode_utf8(x) + (seq![0x25u8] + encode_utf8(y)));
            assert(b[encode_utf8(x).len() as int] == 0x25u8);
        }
    }
}
pub proof fn lemma_hole(b: Seq<u8>)
    requires valid_utf8(b)
    ensures ({ let k = first1(b, 0x25u8); nopct(dec(pfx(b, k))) && (k < b.len() ==> dec(b) == dec(pfx(b, k)) + (seq!['%'] + dec(sfx(b, k + 1))) && valid_utf8(sfx(b, k + 1))) && (k == b.len() ==> nopct(dec(b))) })
{
    let k = first1(b, 0x25u8);
    if k < b.len() { crate::text::lemma_ascii_at(b, k); assert(dec(pfx(b, k)) + seq!['%'] + dec(sfx(b, k + 1)) =~= dec(pfx(b, k)) + (seq!['%'] + dec(sfx(b, k + 1)))); }
    assert(valid_utf8(pfx(b, k)));
    assert forall|i: int| 0 <= i < pfx(b, k).len() implies #[trigger] pfx(b, k)[i] != 0x25u8 by { assert(b[i] != 0x25u8); }
    lemma_no_byte_nopct(pfx(b, k));
}
/// two hexadecimal digits at the head
pub proof fn lemma_hex_head(s: &str)
    requires s@.len() >= 2, hexdig_c(s@[0]), hexdig_c(s@[1])
    ensures ({ let b = s.spec_bytes(); b.len() >= 2 && b[0] == s@[0] as u8 && b[1] == s@[1] as u8 && hexdig(b[0]) && hexdig(b[1]) && valid_utf8(sfx(b, 2)) && dec(sfx(b, 2)) == s@.skip(2) && is_char_boundary(b, 2) })
{
    let (c0, c1, t) = (s@[0], s@[1], s@.skip(2));
    assert(s@ =~= seq![c0] + (seq![c1] + t));
    encode_utf8_concat(seq![c0], seq![c1] + t);
    encode_utf8_concat(seq![c1], t);
    crate::vstring::lemma_enc1(c0);
    crate::vstring::lemma_enc1(c1);
    lemma_str_dec(s);
    let b = s.spec_bytes();
    assert(b == seq![c0 as u8] + (seq![c1 as u8] + encode_utf8(t)));
    assert(sfx(b, 2) =~= encode_utf8(t));
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    lemma_ascii_boundary(b, 1);
}
// ---- hosts
/// the characters after decoding the triplets are all ASCII
pub open spec fn asciihost(s: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() == 0 { true }
    else if is_t(s) { tv(s) < 0x80 && asciihost(s.skip(3)) }
    else { (s[0] as u32) < 0x80 && asciihost(s.skip(1)) }
}
/// case and percent-encoding normalization of an ASCII-only host
pub open spec fn normhost(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if is_t(s) { (if unreserved(tv(s)) { seq![lower(tv(s) as char)] } else { pct_upper(tv(s)) }) + normhost(s.skip(3)) }
    else { seq![lower(s[0])] + normhost(s.skip(1)) }
}
pub open spec fn lowers(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower(s[i])) }
pub proof fn lemma_normhost_copy(p: Seq<char>, t: Seq<char>)
    requires nopct(p)
    ensures normhost(p + t) == lowers(p) + normhost(t)
    decreases p.len()
{
    if p.len() == 0 { assert(p + t =~= t); assert(lowers(p) + normhost(t) =~= normhost(t)); }
    else {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '%' by { assert(p[i + 1] != '%'); }
        lemma_normhost_copy(q, t);
        assert((p + t)[0] == p[0]);
        assert((p + t).skip(1) =~= q + t);
        assert(seq![lower(p[0])] + (lowers(q) + normhost(t)) =~= lowers(p) + normhost(t));
    }
}
pub proof fn lemma_asciihost_copy(p: Seq<char>, t: Seq<char>)
    requires nopct(p)
    ensures asciihost(p + t) == ((forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] as u32) < 0x80) && asciihost(t))
    decreases p.len()
{
    if p.len() == 0 { assert(p + t =~= t); }
    else {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '%' by { assert(p[i + 1] != '%'); }
        lemma_asciihost_copy(q, t);
        assert((p + t)[0] == p[0]);
        assert((p + t).skip(1) =~= q + t);
        if forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] as u32) < 0x80 {
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i] as u32) < 0x80 by { assert((p[i + 1] as u32) < 0x80); }
        }
        if forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i] as u32) < 0x80 {
            assert forall|i: int| 0 <= i < p.len() && (p[0] as u32) < 0x80 implies (#[trigger] p[i] as u32) < 0x80 by { if i > 0 { assert((q[i - 1] as u32) < 0x80); } }
        }
    }
}
pub open spec fn host_stop(c: char) -> bool { (c as u32) >= 0x80 || c == '%' }
/// the position found by `is_ascii_only_host`
pub proof fn lemma_host_pos(h: &str, j: int)
    requires 0 <= j < h@.len(), wft(h@), host_stop(h@[j]), forall|k: int| 0 <= k < j ==> !host_stop(#[trigger] h@[k])
    ensures ({ let b = h.spec_bytes(); let s0 = h@.skip(j);
        encode_utf8(h@.take(j)).len() == j && j < b.len() && (b[j] == 0x25u8 <==> h@[j] == '%')
        && (h@[j] != '%' ==> !asciihost(h@))
        && (h@[j] == '%' ==> is_char_boundary(b, j + 1) && dec(sfx(b, j + 1)) == h@.skip(j + 1) && is_t(s0) && h@.skip(j + 1).skip(2) == s0.skip(3)
            && hexdig_c(h@.skip(j + 1)[0]) && hexdig_c(h@.skip(j + 1)[1]) && h@.skip(j + 1).len() >= 2 && s0[1] == h@.skip(j + 1)[0] && s0[2] == h@.skip(j + 1)[1]
            && wft(s0.skip(3)) && asciihost(h@) == (tv(s0) < 0x80 && asciihost(s0.skip(3)))) })
{
    let (p, t) = (h@.take(j), h@.skip(j));
    let c = h@[j];
    let u = t.skip(1);
    let b = h.spec_bytes();
    assert(h@ =~= p + t);
    assert(t =~= seq![c] + u);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] != '%' && (p[i] as u32) < 0x80 by { assert(!host_stop(h@[i])); }
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i] as u32) < 0x80 by { assert(p[i] != '%'); }
    lemma_wft_copy(p, t);
    lemma_asciihost_copy(p, t);
    assert(is_ascii_chars(p)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] as nat <= 0x7f by { assert((p[i] as u32) < 0x80); } }
    is_ascii_chars_encode_utf8(p);
    encode_utf8_concat(p, t);
    encode_utf8_concat(seq![c], u);
    lemma_str_dec(h);
    assert(b == encode_utf8(p) + (enc1(c) + encode_utf8(u)));
    lemma_enc1_first(c);
    assert(b[j] == enc1(c)[0]);
    if c == '%' {
        crate::vstring::lemma_enc1(c);
        assert(sfx(b, j + 1) =~= encode_utf8(u));
        encode_utf8_decode_utf8(u);
        assert(u =~= h@.skip(j + 1));
        lemma_ascii_boundary(b, j);
        assert(u.skip(2) =~= t.skip(3));
    }
}
pub proof fn lemma_enc1_first(c: char)
    ensures enc1(c).len() >= 1, (enc1(c)[0] == 0x25u8) <==> c == '%'
{
    if (c as u32) < 0x80 { crate::vstring::lemma_enc1(c); }
    else { lemma_enc1_shape(c); }
}
