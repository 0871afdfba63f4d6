#module parser::str
#file parser/str.rs
#raw
use crate::vx::*;
use crate::parser::char::*;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx};

pub open spec fn is_split(h: Seq<u8>, k: int, a: Seq<u8>, b: Seq<u8>) -> bool {
    0 <= k < h.len() && a == pfx(h, k) && b == sfx(h, k)
}
pub open spec fn is_split_hole(h: Seq<u8>, k: int, a: Seq<u8>, b: Seq<u8>) -> bool {
    0 <= k < h.len() && a == pfx(h, k) && b == sfx(h, k + 1)
}
#fn get_wrapped_inner
#requires open < 0x80, close < 0x80
#ensures ({ let b = s.spec_bytes(); let w = b.len() >= 2 && b[0] == open && b[b.len() - 1] == close;
    match r { Some(t) => w && t.spec_bytes() == b.subrange(1, b.len() - 1), None => !w } })
#fn prior_byte2
#ensures ({ let k = first2(haystack@, needle1, needle2);
    match r { Some(x) => k < haystack@.len() && x == haystack@[k], None => k == haystack@.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle1 || b == needle2)
#fn rfind
#ensures ({ let k = last1(haystack@, needle); match r { Some(i) => i as int == k, None => k == -1 } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle)
#fn find_split
#requires needle < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = first1(h, needle);
    match r { Some((a, b)) => is_split(h, k, a.spec_bytes(), b.spec_bytes()), None => k == h.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle)
#closure 1 |pos: usize| -> (r: (&str, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] == needle
    ensures is_split(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.1.spec_bytes())
#fn rfind_split2
#requires needle1 < 0x80, needle2 < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = last2(h, needle1, needle2);
    match r { Some((a, b)) => is_split(h, k, a.spec_bytes(), b.spec_bytes()), None => k == -1 } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle1 || b == needle2)
#closure 1 |pos: usize| -> (r: (&str, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] < 0x80
    ensures is_split(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.1.spec_bytes())
#fn find_split2
#requires needle1 < 0x80, needle2 < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = first2(h, needle1, needle2);
    match r { Some((a, b)) => is_split(h, k, a.spec_bytes(), b.spec_bytes()), None => k == h.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle1 || b == needle2)
#closure 1 |pos: usize| -> (r: (&str, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] < 0x80
    ensures is_split(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.1.spec_bytes())
#fn find_split3
#requires needle1 < 0x80, needle2 < 0x80, needle3 < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = first3(h, needle1, needle2, needle3);
    match r { Some((a, b)) => is_split(h, k, a.spec_bytes(), b.spec_bytes()), None => k == h.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle1 || b == needle2 || b == needle3)
#closure 1 |pos: usize| -> (r: (&str, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] < 0x80
    ensures is_split(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.1.spec_bytes())
#fn find_split_hole subst=T->str
#requires needle < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = first1(h, needle);
    match r { Some((a, b)) => is_split_hole(h, k, a.spec_bytes(), b.spec_bytes()), None => k == h.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle)
#closure 1 |pos: usize| -> (r: (&str, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] < 0x80
    ensures is_split_hole(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.1.spec_bytes())
#fn find_split_hole subst=T->[u8] rename=find_split_hole_bytes
#ensures ({ let h = haystack@; let k = first1(h, needle);
    match r { Some((a, b)) => is_split_hole(h, k, a@, b@), None => k == h.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle)
#closure 1 |pos: usize| -> (r: (&[u8], &[u8])) requires pos < haystack@.len(), pos < usize::MAX
    ensures is_split_hole(haystack@, pos as int, r.0@, r.1@)
#fn find_split2_hole
#requires needle1 < 0x80, needle2 < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = first2(h, needle1, needle2);
    match r { Some((a, c, b)) => is_split_hole(h, k, a.spec_bytes(), b.spec_bytes()) && c == h[k], None => k == h.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle1 || b == needle2)
#closure 1 |pos: usize| -> (r: (&str, u8, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] < 0x80
    ensures is_split_hole(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.2.spec_bytes()), r.1 == haystack.spec_bytes()[pos as int]
#fn find_split4_hole
#requires needle1 < 0x80, needle2 < 0x80, needle3 < 0x80, needle4 < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = first4(h, needle1, needle2, needle3, needle4);
    match r { Some((a, c, b)) => is_split_hole(h, k, a.spec_bytes(), b.spec_bytes()) && c == h[k], None => k == h.len() } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle1 || b == needle2 || b == needle3 || b == needle4)
#closure 1 |pos: usize| -> (r: (&str, u8, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] < 0x80
    ensures is_split_hole(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.2.spec_bytes()), r.1 == haystack.spec_bytes()[pos as int]
#fn rfind_split_hole
#requires needle < 0x80
#ensures ({ let h = haystack.spec_bytes(); let k = last1(h, needle);
    match r { Some((a, b)) => is_split_hole(h, k, a.spec_bytes(), b.spec_bytes()), None => k == -1 } })
#closure 0 |b: u8| -> (r: bool) ensures r == (b == needle)
#closure 1 |pos: usize| -> (r: (&str, &str)) requires pos < haystack.spec_bytes().len(), haystack.spec_bytes()[pos as int] < 0x80
    ensures is_split_hole(haystack.spec_bytes(), pos as int, r.0.spec_bytes(), r.1.spec_bytes())
#fn satisfy_chars_with_pct_encoded
#requires forall|c: u8| c < 0x80 ==> #[trigger] call_requires(pred_ascii, (c,)),
    forall|c: char| #[trigger] call_requires(pred_nonascii, (c,)),
#ensures forall|k: Cls, iri: bool| #![trigger sat(s@, k, iri)]
    (forall|c: u8, x: bool| c < 0x80 && #[trigger] call_ensures(pred_ascii, (c,), x) ==> x == pa(k, c))
    && (forall|c: char, x: bool| #[trigger] call_ensures(pred_nonascii, (c,), x) ==> x == pn(k, iri, c))
    ==> r == sat(s@, k, iri)
#closure 0 |c: &char| -> (r: bool) ensures r == hexdig_c(*c)
#closure 1 |c: &char| -> (r: bool) ensures r == hexdig_c(*c)
#loop 0
    invariant
        forall|c: u8| c < 0x80 ==> #[trigger] call_requires(pred_ascii, (c,)),
        forall|c: char| #[trigger] call_requires(pred_nonascii, (c,)),
        forall|k: Cls, iri: bool| #![trigger sat(s@, k, iri)]
            (forall|c: u8, x: bool| c < 0x80 && #[trigger] call_ensures(pred_ascii, (c,), x) ==> x == pa(k, c))
            && (forall|c: char, x: bool| #[trigger] call_ensures(pred_nonascii, (c,), x) ==> x == pn(k, iri, c))
            ==> sat(s@, k, iri) == sat(chars@, k, iri),
    ensures chars@.len() == 0,
    decreases chars@.len()
#fn starts_with_double_hexdigits
#ensures r == (s@.len() >= 2 && hexdig(s@[0]) && hexdig(s@[1]))
#fn strip_ascii_char_prefix
#requires prefix < 0x80
#ensures ({ let b = s.spec_bytes(); match r {
    Some(t) => b.len() > 0 && b[0] == prefix && t.spec_bytes() == sfx(b, 1),
    None => b.len() == 0 || b[0] != prefix } })
#fn strip_decode_xdigits2 subst=T->str rename=strip_decode_xdigits2_str call=trusted_parser::take_xdigits2->crate::parser::trusted::take_xdigits2_str
#ensures ({ let b = s.spec_bytes(); let h = b.len() >= 2 && hexdig(b[0]) && hexdig(b[1]);
    match r.0 { Some(v) => h && v as int == 16 * hexval(b[0]) + hexval(b[1]) && r.1.spec_bytes() == sfx(b, 2), None => !h && r.1 == s } })
#fn strip_decode_xdigits2 subst=T->[u8] rename=strip_decode_xdigits2_bytes call=trusted_parser::take_xdigits2->crate::parser::trusted::take_xdigits2_bytes
#ensures ({ let b = s@; let h = b.len() >= 2 && hexdig(b[0]) && hexdig(b[1]);
    match r.0 { Some(v) => h && v as int == 16 * hexval(b[0]) + hexval(b[1]) && r.1@ == sfx(b, 2), None => !h && r.1 == s } })
#fn take_first_char
#ensures match r { Some((c, t)) => s@.len() > 0 && c == s@[0] && t@ == s@.skip(1), None => s@.len() == 0 }
