#module text
#raw
// Characters of a byte string at ASCII positions, and how character classes split there.
use crate::vx::*;
use crate::grammar::*;
use crate::parser::char::*;
broadcast use {crate::vx::group_vx};

pub proof fn lemma_dec_split(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i <= b.len(), is_char_boundary(b, i)
    ensures valid_utf8(pfx(b, i)), valid_utf8(sfx(b, i)), dec(b) == dec(pfx(b, i)) + dec(sfx(b, i)),
{
    lemma_valid_split(b, i);
    decode_utf8_split(b, i);
}
pub proof fn lemma_valid_split(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i <= b.len(), is_char_boundary(b, i)
    ensures valid_utf8(pfx(b, i)), valid_utf8(sfx(b, i))
    decreases b.len()
{
    reveal_with_fuel(is_char_boundary, 2);
    reveal_with_fuel(valid_utf8, 2);
    if i == 0 { assert(sfx(b, 0) =~= b); }
    else {
        let n = length_of_first_scalar(b);
        let p = pop_first_scalar(b);
        lemma_valid_split(p, i - n);
        assert(n <= i);
        assert(pop_first_scalar(pfx(b, i)) =~= pfx(p, i - n));
        assert(sfx(b, i) =~= sfx(p, i - n));
    }
}
pub proof fn lemma_dec_cat(x: Seq<u8>, y: Seq<u8>)
    requires valid_utf8(x), valid_utf8(y)
    ensures valid_utf8(x + y), dec(x + y) == dec(x) + dec(y)
{
    decode_utf8_encode_utf8(x);
    decode_utf8_encode_utf8(y);
    encode_utf8_concat(dec(x), dec(y));
    encode_utf8_valid_utf8(dec(x) + dec(y));
    encode_utf8_decode_utf8(dec(x) + dec(y));
}
pub proof fn lemma_dec1(c: u8)
    requires c < 0x80
    ensures valid_utf8(seq![c]), dec(seq![c]) == seq![c as char]
{
    let b = seq![c];
    reveal_with_fuel(valid_utf8, 3);
    reveal_with_fuel(decode_utf8, 3);
    assert(pop_first_scalar(b) =~= Seq::<u8>::empty());
    assert(c < 0x80u8 ==> (c & 0x7f) == c) by(bit_vector);
    assert(codepoint_width_1(c) == c as u32);
    assert(dec(b) =~= seq![c as char]);
}
/// an ASCII byte is one character, and the text splits around it
pub proof fn lemma_ascii_at(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 0x80u8
    ensures
        valid_utf8(pfx(b, i)), valid_utf8(sfx(b, i + 1)), valid_utf8(sfx(b, i)), valid_utf8(pfx(b, i + 1)),
        dec(b) == dec(pfx(b, i)) + seq![b[i] as char] + dec(sfx(b, i + 1)),
        dec(pfx(b, i + 1)) == dec(pfx(b, i)) + seq![b[i] as char],
        dec(sfx(b, i)) == seq![b[i] as char] + dec(sfx(b, i + 1)),
{
    lemma_ascii_boundary(b, i);
    lemma_dec_split(b, i);
    let t = sfx(b, i);
    assert(t[0] == b[i]);
    lemma_ascii_boundary(t, 0);
    lemma_dec_split(t, 1);
    lemma_dec1(b[i]);
    assert(pfx(t, 1) =~= seq![b[i]]);
    assert(sfx(t, 1) =~= sfx(b, i + 1));
    lemma_dec_split(b, i + 1);
    let p = pfx(b, i + 1);
    assert(p[i] == b[i]);
    lemma_ascii_boundary(p, i);
    lemma_dec_split(p, i);
    assert(sfx(p, i) =~= seq![b[i]]);
    assert(pfx(p, i) =~= pfx(b, i));
    assert(dec(b) =~= dec(pfx(b, i)) + seq![b[i] as char] + dec(sfx(b, i + 1)));
}
pub proof fn lemma_sat_cat(x: Seq<char>, y: Seq<char>, k: Cls, iri: bool)
    requires sat(x, k, iri), sat(y, k, iri)
    ensures sat(x + y, k, iri)
    decreases x.len()
{
    if x.len() == 0 { assert(x + y =~= y); }
    else if x[0] == '%' {
        lemma_sat_cat(x.skip(3), y, k, iri);
        assert((x + y).skip(3) =~= x.skip(3) + y);
    } else {
        lemma_sat_cat(x.skip(1), y, k, iri);
        assert((x + y).skip(1) =~= x.skip(1) + y);
    }
}
/// every character of an accepted text is a percent sign, a hex digit or allowed
pub proof fn lemma_sat_each(s: Seq<char>, k: Cls, iri: bool, i: int)
    requires sat(s, k, iri), 0 <= i < s.len()
    ensures s[i] == '%' || hexdig_c(s[i]) || ((s[i] as u32) < 0x80 && pa(k, s[i] as u8)) || ((s[i] as u32) >= 0x80 && pn(k, iri, s[i])),
    decreases s.len()
{
    if s[0] == '%' {
        if i >= 3 { lemma_sat_each(s.skip(3), k, iri, i - 3); }
    } else if i >= 1 {
        lemma_sat_each(s.skip(1), k, iri, i - 1);
    }
}
/// splitting around an ASCII character that is no part of a triplet
pub proof fn lemma_sat_split(x: Seq<char>, c: char, y: Seq<char>, k: Cls, iri: bool)
    requires (c as u32) < 0x80, c != '%', !hexdig_c(c)
    ensures sat(x + seq![c] + y, k, iri) == (sat(x, k, iri) && pa(k, c as u8) && sat(y, k, iri))
    decreases x.len()
{
    let s = x + seq![c] + y;
    if x.len() == 0 {
        assert(s[0] == c);
        assert(s.skip(1) =~= y);
    } else if x[0] == '%' {
        assert(s[0] == '%');
        if x.len() >= 3 {
            assert(s.skip(3) =~= x.skip(3) + seq![c] + y);
            lemma_sat_split(x.skip(3), c, y, k, iri);
        } else {
            assert(s[x.len() as int] == c);
        }
    } else {
        assert(s.skip(1) =~= x.skip(1) + seq![c] + y);
        lemma_sat_split(x.skip(1), c, y, k, iri);
    }
}
/// an ASCII byte of an accepted text
pub proof fn lemma_is_sat_byte(b: Seq<u8>, k: Cls, iri: bool, i: int)
    requires valid_utf8(b), is_sat(b, k, iri), 0 <= i < b.len(), b[i] < 0x80u8
    ensures b[i] == 0x25 || hexdig(b[i]) || pa(k, b[i])
{
    lemma_ascii_at(b, i);
    let j = dec(pfx(b, i)).len();
    assert(dec(b)[j as int] == b[i] as char);
    lemma_sat_each(dec(b), k, iri, j as int);
}
/// byte form of the split at an ASCII delimiter
pub proof fn lemma_is_sat_split(b: Seq<u8>, k: Cls, iri: bool, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 0x80u8, b[i] != 0x25, !hexdig(b[i])
    ensures is_sat(b, k, iri) == (is_sat(pfx(b, i), k, iri) && pa(k, b[i]) && is_sat(sfx(b, i + 1), k, iri))
{
    lemma_ascii_at(b, i);
    lemma_sat_split(dec(pfx(b, i)), b[i] as char, dec(sfx(b, i + 1)), k, iri);
}
