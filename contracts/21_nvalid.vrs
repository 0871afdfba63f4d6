#module nvalid
#raw
// The normalized text of an identifier: a fixed point of normalization, and a valid identifier (RFC 3986 6.2.2).
use crate::vx::*;
use crate::pct::*;
use crate::npath::*;
use crate::ptext::*;
use crate::nstext::*;
use crate::grammar::*;
use crate::comp::*;
use crate::compose::*;
use crate::text::*;
use crate::parser::char::*;
use crate::comp::host_stop;
use crate::vfmt::{pct_all, pct_upper, hex_up, lemma_pct_concat};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx};
// ---- triplets
pub proof fn lemma_upper(v: u8, t: Seq<char>)
    ensures ({ let s = pct_upper(v) + t; is_t(s) && tv(s) == v && s.skip(3) == t && s[0] == '%' }), pct_upper(v).len() == 3
{
    let s = pct_upper(v) + t;
    assert(s.skip(3) =~= t);
    let (a, b) = (v as int / 16, v as int % 16);
    assert(hexdig_c(hex_up(a)) && hexval(hex_up(a) as u8) == a);
    assert(hexdig_c(hex_up(b)) && hexval(hex_up(b) as u8) == b);
    assert(s[1] == hex_up(a) && s[2] == hex_up(b));
}
pub proof fn lemma_all_head(v: u8, b: Seq<u8>)
    ensures pct_all(seq![v] + b) == pct_upper(v) + pct_all(b)
{ lemma_pct_concat(seq![v], b); lemma_pct1(v); }
pub proof fn lemma_all_trips(b: Seq<u8>, t: Seq<char>)
    ensures trips(pct_all(b) + t, b.len()), tb(pct_all(b) + t, b.len()) == b, (pct_all(b) + t).skip(3 * b.len() as int) == t, pct_all(b).len() == 3 * b.len()
    decreases b.len()
{
    if b.len() == 0 { assert(pct_all(b) + t =~= t); assert(t.skip(0) =~= t); assert(tb(t, 0) =~= b); }
    else {
        let r = b.skip(1);
        assert(b =~= seq![b[0]] + r);
        lemma_all_head(b[0], r);
        let u = pct_all(r) + t;
        assert(pct_all(b) + t =~= pct_upper(b[0]) + u);
        lemma_upper(b[0], u);
        lemma_all_trips(r, t);
        assert((pct_all(b) + t).skip(3 * b.len() as int) =~= u.skip(3 * r.len() as int)) by { assert(u =~= (pct_all(b) + t).skip(3)); }
        assert(seq![b[0]] + r =~= b);
    }
}
/// an encoded character at the head
pub proof fn lemma_all_is_head(c: char, t: Seq<char>)
    ensures is_head(pct_all(enc1(c)) + t, c)
{ lemma_enc1_scalar(c); lemma_all_trips(enc1(c), t); lemma_trips_len(pct_all(enc1(c)) + t, enc1(c).len()); }
pub proof fn lemma_unres(c: char, iri: bool)
    requires unres(c, iri)
    ensures c != '%', c != '/', c != ':', c != '@', c != '[', c != ']', (c as u32) < 0x80 ==> unreserved(c as u8)
{ }
/// `n` characters that are one literal or whole triplets
pub open spec fn whole(s: Seq<char>, n: int) -> bool { (n == 1 && !is_t(s)) || (exists|m: nat| n == 3 * m && #[trigger] trips(s, m)) }
/// one step of the normalization
pub proof fn lemma_norm_step(s: Seq<char>, iri: bool) -> (k: (Seq<char>, int))
    requires wft(s), s.len() > 0
    ensures 1 <= k.1 <= s.len(), whole(s, k.1), norm(s, iri) == k.0 + norm(s.skip(k.1), iri), wft(s.skip(k.1)), k.0.len() > 0,
        !is_t(s) ==> k == (seq![s[0]], 1int) && s[0] != '%',
        is_t(s) && (exists|c: char| is_head(s, c)) ==> exists|c: char| #[trigger] is_head(s, c) && k.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && k.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) }),
        is_t(s) && !(exists|c: char| is_head(s, c)) ==> k == (pct_upper(tv(s)), 3int),
{
    if !is_t(s) { (seq![s[0]], 1) }
    else if exists|c: char| is_head(s, c) {
        let c = choose|c: char| is_head(s, c);
        lemma_norm_head(s, c, iri);
        lemma_enc1_scalar(c);
        lemma_tb(s, enc1(c).len());
        lemma_wft_skip(s, enc1(c).len());
        lemma_all_trips(enc1(c), Seq::empty());
        (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) }, 3 * enc1(c).len() as int)
    } else { assert(trips(s.skip(3), 0)); assert(trips(s, 1)); (pct_upper(tv(s)), 3) }
}
/// continuation bytes in a normalized text were there before
pub proof fn lemma_trips_back(s: Seq<char>, n: nat, iri: bool)
    requires wft(s), trips(norm(s, iri), n), forall|i: int| 0 <= i < n ==> no_lead(#[trigger] tb(norm(s, iri), n)[i])
    ensures trips(s, n), tb(s, n) == tb(norm(s, iri), n)
    decreases n
{
    if n > 0 {
        let y = norm(s, iri);
        lemma_tb(y, n);
        assert(no_lead(tb(y, n)[0]));
        let k = lemma_norm_step(s, iri);
        let r = norm(s.skip(k.1), iri);
        if !is_t(s) { assert(y[0] == s[0]); assert(false); }
        else if exists|c: char| is_head(s, c) {
            let c = choose|c: char| #[trigger] is_head(s, c) && k.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && k.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
            if unres(c, iri) { lemma_unres(c, iri); assert(y[0] == c); assert(false); }
            lemma_no_lead(c);
            lemma_all_trips(enc1(c), r);
            lemma_tb(y, enc1(c).len());
            assert(false);
        } else {
            lemma_upper(tv(s), r);
            lemma_tb(r, (n - 1) as nat);
            assert forall|i: int| 0 <= i < n - 1 implies no_lead(#[trigger] tb(r, (n - 1) as nat)[i]) by { assert(tb(y, n)[i + 1] == tb(r, (n - 1) as nat)[i]); }
            lemma_trips_back(s.skip(3), (n - 1) as nat, iri);
        }
    }
}
/// normalizing once is enough
pub proof fn lemma_norm_idem(s: Seq<char>, iri: bool)
    requires wft(s)
    ensures norm(norm(s, iri), iri) == norm(s, iri), wft(norm(s, iri))
    decreases s.len()
{
    if s.len() > 0 {
        let k = lemma_norm_step(s, iri);
        let y = norm(s.skip(k.1), iri);
        let n = norm(s, iri);
        lemma_norm_idem(s.skip(k.1), iri);
        if !is_t(s) { lemma_norm_lit(s[0], y, iri); }
        else if exists|c: char| is_head(s, c) {
            let c = choose|c: char| #[trigger] is_head(s, c) && k.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && k.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
            if unres(c, iri) { lemma_unres(c, iri); lemma_norm_lit(c, y, iri); }
            else { lemma_all_is_head(c, y); lemma_norm_head(n, c, iri); lemma_all_trips(enc1(c), y); lemma_wft_all(enc1(c), y); }
        } else {
            lemma_upper(tv(s), y);
            assert forall|c: char| !is_head(n, c) by {
                if is_head(n, c) {
                    let m = enc1(c).len();
                    lemma_enc1_shape(c);
                    lemma_tb(n, m);
                    lemma_tb(y, (m - 1) as nat);
                    let u = tb(y, (m - 1) as nat);
                    assert forall|i: int| 0 <= i < m - 1 implies no_lead(#[trigger] u[i]) by { assert(tb(n, m)[i + 1] == u[i]); }
                    lemma_trips_back(s.skip(3), (m - 1) as nat, iri);
                    assert(tb(s, m) == tb(n, m));
                    lemma_trips_len(s, m);
                    assert(is_head(s, c));
                }
            }
        }
    }
}
pub proof fn lemma_wft_all(b: Seq<u8>, t: Seq<char>)
    ensures wft(pct_all(b) + t) == wft(t)
    decreases b.len()
{
    if b.len() == 0 { assert(pct_all(b) + t =~= t); }
    else {
        assert(b =~= seq![b[0]] + b.skip(1));
        lemma_all_head(b[0], b.skip(1));
        let u = pct_all(b.skip(1)) + t;
        assert(pct_all(b) + t =~= pct_upper(b[0]) + u);
        lemma_upper(b[0], u);
        lemma_wft_all(b.skip(1), t);
    }
}
pub proof fn lemma_sat_all(b: Seq<u8>, t: Seq<char>, k: Cls, iri: bool)
    requires sat(t, k, iri)
    ensures sat(pct_all(b) + t, k, iri)
    decreases b.len()
{
    if b.len() == 0 { assert(pct_all(b) + t =~= t); }
    else {
        assert(b =~= seq![b[0]] + b.skip(1));
        lemma_all_head(b[0], b.skip(1));
        let u = pct_all(b.skip(1)) + t;
        assert(pct_all(b) + t =~= pct_upper(b[0]) + u);
        lemma_upper(b[0], u);
        lemma_sat_all(b.skip(1), t, k, iri);
    }
}
/// the characters stay in their class
pub proof fn lemma_norm_sat(s: Seq<char>, k: Cls, iri: bool)
    requires sat(s, k, iri), !(k is Varname)
    ensures sat(norm(s, iri), k, iri)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sat_wft(s, k, iri);
        let p = lemma_norm_step(s, iri);
        let y = norm(s.skip(p.1), iri);
        let n = norm(s, iri);
        lemma_sat_skip(s, k, iri, p.1);
        lemma_norm_sat(s.skip(p.1), k, iri);
        if !is_t(s) { assert(n.skip(1) =~= y); }
        else if exists|c: char| is_head(s, c) {
            let c = choose|c: char| #[trigger] is_head(s, c) && p.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && p.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
            if unres(c, iri) { lemma_unres(c, iri); assert(n.skip(1) =~= y); }
            else { lemma_sat_all(enc1(c), y, k, iri); }
        } else { lemma_upper(tv(s), y); }
    }
}
/// what follows whole characters and triplets
pub proof fn lemma_sat_skip(s: Seq<char>, k: Cls, iri: bool, n: int)
    requires sat(s, k, iri), 1 <= n <= s.len(), whole(s, n)
    ensures sat(s.skip(n), k, iri)
    decreases n
{
    if !(n == 1 && !is_t(s)) {
        let m = choose|m: nat| n == 3 * m && #[trigger] trips(s, m);
        if n > 3 {
            assert(trips(s.skip(3), (m - 1) as nat));
            assert(n - 3 == 3 * (m - 1) as nat);
            lemma_sat_skip(s.skip(3), k, iri, n - 3);
            assert(s.skip(3).skip(n - 3) =~= s.skip(n));
        }
    }
}
/// no character that is no part of a triplet, and is not unreserved, comes from a triplet
pub open spec fn none(s: Seq<char>, d: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != d }
pub proof fn lemma_none_cat(a: Seq<char>, b: Seq<char>, d: char)
    requires none(a, d), none(b, d)
    ensures none(a + b, d)
{ assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != d by { if i < a.len() { assert(a[i] != d); } else { assert(b[i - a.len()] != d); } } }
pub proof fn lemma_none_all(b: Seq<u8>, d: char)
    requires d != '%', !hexdig_c(d)
    ensures none(pct_all(b), d)
    decreases b.len()
{
    if b.len() > 0 {
        lemma_none_all(b.drop_last(), d);
        let v = b.last();
        let (x, y) = (v as int / 16, v as int % 16);
        assert(hexdig_c(hex_up(x)) && hexdig_c(hex_up(y)));
        assert(none(pct_upper(v), d));
        lemma_none_cat(pct_all(b.drop_last()), pct_upper(v), d);
    }
}
pub proof fn lemma_norm_none(s: Seq<char>, d: char, iri: bool)
    requires wft(s), none(s, d), d == '/' || d == ':' || d == '@' || d == '[' || d == ']'
    ensures none(norm(s, iri), d)
    decreases s.len()
{
    if s.len() > 0 {
        let p = lemma_norm_step(s, iri);
        let r = s.skip(p.1);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != d by { assert(s[i + p.1] != d); }
        lemma_norm_none(r, d, iri);
        if !is_t(s) { assert(s[0] != d); }
        else if exists|c: char| is_head(s, c) {
            let c = choose|c: char| #[trigger] is_head(s, c) && p.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && p.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
            if unres(c, iri) { lemma_unres(c, iri); } else { lemma_none_all(enc1(c), d); }
        } else { lemma_pct1(tv(s)); lemma_none_all(seq![tv(s)], d); }
        lemma_none_cat(p.0, norm(r, iri), d);
    }
}
// ---- dot segments
/// the length of a leading dot, literal or encoded
pub open spec fn hd(s: Seq<char>) -> int {
    if s.len() >= 1 && s[0] == '.' { 1 } else if s.len() >= 3 && s[0] == '%' && s[1] == '2' && (s[2] == 'E' || s[2] == 'e') { 3 } else { 0 }
}
pub proof fn lemma_hd(s: Seq<char>, iri: bool)
    requires wft(s)
    ensures hd(s) > 0 <==> norm(s, iri).len() > 0 && norm(s, iri)[0] == '.',
        hd(s) > 0 ==> norm(s, iri) == seq!['.'] + norm(s.skip(hd(s)), iri) && wft(s.skip(hd(s))) && norm(s.skip(hd(s)), iri) == norm(s, iri).skip(1),
{
    crate::vstring::lemma_enc1('.');
    if hd(s) == 3 {
        assert(tv(s) == 0x2e);
        reveal_with_fuel(trips, 2); reveal_with_fuel(tb, 2);
        assert(tb(s, 1) =~= seq![0x2eu8]);
        assert(is_head(s, '.'));
        lemma_norm_head(s, '.', iri);
        lemma_wft_skip(s, 1);
    } else if hd(s) == 1 {
    } else if s.len() > 0 {
        let k = lemma_norm_step(s, iri);
        if is_t(s) {
            if exists|c: char| is_head(s, c) {
                let c = choose|c: char| #[trigger] is_head(s, c) && k.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && k.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
                if unres(c, iri) {
                    if c == '.' { assert(tv(s) == 0x2e); assert(false); }
                } else { lemma_enc1_scalar(c); lemma_all_trips(enc1(c), Seq::empty()); assert(pct_all(enc1(c)) + Seq::<char>::empty() =~= pct_all(enc1(c))); }
            }
        }
    }
    if hd(s) > 0 { assert(norm(s.skip(hd(s)), iri) =~= norm(s, iri).skip(1)); }
}
pub proof fn lemma_ascii_both(b: Seq<u8>)
    requires valid_utf8(b), (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80) || (forall|i: int| 0 <= i < dec(b).len() ==> (#[trigger] dec(b)[i] as u32) < 0x80)
    ensures b.len() == dec(b).len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80 && dec(b)[i] == b[i] as char,
        forall|i: int| 0 <= i < b.len() ==> #[trigger] dec(b)[i] == b[i] as char && b[i] == dec(b)[i] as u8 && b[i] < 0x80,
{
    let s = dec(b);
    if forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80 {
        let t = Seq::new(b.len(), |i: int| b[i] as char);
        lemma_ascii_dec(b, t);
    } else {
        assert(is_ascii_chars(s)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] as nat <= 0x7f by { assert((s[i] as u32) < 0x80); } }
        is_ascii_chars_encode_utf8(s);
        decode_utf8_encode_utf8(b);
    }
}
pub proof fn lemma_dot_chars(b: Seq<u8>)
    requires valid_utf8(b)
    ensures ({ let s = dec(b); let h = hd(s);
        dot1(b) == (h > 0 && s.len() == h) && dot2(b) == (h > 0 && hd(s.skip(h)) > 0 && s.len() == h + hd(s.skip(h))) })
{
    let s = dec(b);
    let h = hd(s);
    let u = s.skip(h);
    lemma_dot_lens(b);
    if (dot1(b) || dot2(b)) || (h > 0 && s.len() == h) || (h > 0 && hd(u) > 0 && s.len() == h + hd(u)) {
        if dot1(b) || dot2(b) { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 0x80 by { } }
        else {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 by { if i >= h { assert(s[i] == u[i - h]); } }
        }
        lemma_ascii_both(b);
        let d = seq![0x2eu8]; let p = seq![0x25u8, 0x32, 0x45]; let l = seq![0x25u8, 0x32, 0x65];
        if h > 0 && s.len() == h { assert(b =~= d || b =~= p || b =~= l); }
        if h > 0 && hd(u) > 0 && s.len() == h + hd(u) {
            assert(forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] == s[i + h]);
            assert(b =~= seq![0x2eu8, 0x2e] || b =~= seq![0x2eu8, 0x25, 0x32, 0x45] || b =~= seq![0x2eu8, 0x25, 0x32, 0x65] || b =~= seq![0x25u8, 0x32, 0x45, 0x2e] || b =~= seq![0x25u8, 0x32, 0x65, 0x2e]
                || b =~= seq![0x25u8, 0x32, 0x45, 0x25, 0x32, 0x45] || b =~= seq![0x25u8, 0x32, 0x45, 0x25, 0x32, 0x65] || b =~= seq![0x25u8, 0x32, 0x65, 0x25, 0x32, 0x45] || b =~= seq![0x25u8, 0x32, 0x65, 0x25, 0x32, 0x65]);
        }
    }
}
/// a dot segment is one whose normalized text is "." or ".."
pub proof fn lemma_dot_norm(b: Seq<u8>, iri: bool)
    requires valid_utf8(b), wft(dec(b))
    ensures dot1(b) == (norm(dec(b), iri) == seq!['.']), dot2(b) == (norm(dec(b), iri) == seq!['.', '.'])
{
    let s = dec(b);
    let h = hd(s);
    let n = norm(s, iri);
    lemma_dot_chars(b);
    lemma_hd(s, iri);
    lemma_norm_empty(s, iri);
    if h > 0 {
        let u = s.skip(h);
        let m = norm(u, iri);
        lemma_norm_empty(u, iri);
        lemma_hd(u, iri);
        assert(n == seq!['.'] + m);
        if n == seq!['.'] { assert(m.len() == 0); }
        if u.len() == 0 { assert(m =~= Seq::<char>::empty()); assert(n =~= seq!['.']); assert(n.len() == 1); }
        if hd(u) > 0 {
            let w = u.skip(hd(u));
            lemma_norm_empty(w, iri);
            if w.len() == 0 { assert(norm(w, iri) =~= Seq::<char>::empty()); assert(n =~= seq!['.', '.']); assert(n.len() == 2); }
            else { assert(n.len() > 2) by { assert(m == seq!['.'] + norm(w, iri)); } }
        } else if n == seq!['.', '.'] { assert(m[0] == n[1]); assert(m.len() > 0); assert(false); }
    }
}
// ---- the text of a normalized path
pub open spec fn noneb(b: Seq<u8>, d: u8) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != d }
pub proof fn lemma_none_bytes(b: Seq<u8>, d: u8)
    requires valid_utf8(b), d < 0x80
    ensures noneb(b, d) == none(dec(b), d as char)
{
    let s = dec(b);
    decode_utf8_encode_utf8(b);
    if noneb(b, d) {
        assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != d as char by {
            if s[j] == d as char {
                let x = s.take(j); let y = s.skip(j + 1);
                assert(s =~= x + (seq![d as char] + y));
                encode_utf8_concat(x, seq![d as char] + y);
                encode_utf8_concat(seq![d as char], y);
                crate::vstring::lemma_enc1(d as char);
                assert(b == encode_utf8(x) + (seq![d] + encode_utf8(y)));
                assert(b[encode_utf8(x).len() as int] == d);
            }
        }
    }
    if none(s, d as char) {
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != d by {
            if b[i] == d { lemma_ascii_at(b, i); assert(s[dec(pfx(b, i)).len() as int] == d as char); }
        }
    }
}
pub proof fn lemma_sat_brk(x: Seq<char>, t: Seq<char>, k: Cls, iri: bool)
    requires brk(t)
    ensures sat(x + t, k, iri) == (sat(x, k, iri) && sat(t, k, iri))
    decreases x.len()
{
    lemma_is_t_cut(x, t);
    if x.len() == 0 { assert(x + t =~= t); }
    else if x[0] == '%' { if is_t(x) { lemma_sat_brk(x.skip(3), t, k, iri); } }
    else { lemma_sat_brk(x.skip(1), t, k, iri); }
}
/// a segment that stays
pub open spec fn gs(s: Seg, iri: bool) -> bool { valid_utf8(s.name) && is_sat(s.name, Cls::PcharSlash, iri) && noneb(s.name, 0x2f) && !dot1(s.name) && !dot2(s.name) && (s.hl || s.name.len() > 0) }
/// the segments of a stack; only the first may be without a slash
pub open spec fn gst(st: Seq<Seg>, iri: bool) -> bool { forall|i: int| 0 <= i < st.len() ==> gs(#[trigger] st[i], iri) && (i > 0 ==> st[i].hl) }
pub open spec fn allhl(st: Seq<Seg>) -> bool { forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).hl }
pub proof fn lemma_seg_sat(t: Seq<u8>, c: int, iri: bool)
    requires valid_utf8(t), 0 <= c < t.len(), is_char_boundary(t, c), is_sat(sfx(t, c), Cls::PcharSlash, iri)
    ensures is_sat(seg_name(t, c), Cls::PcharSlash, iri), is_sat(sfx(t, seg_end(t, c)), Cls::PcharSlash, iri), noneb(seg_name(t, c), 0x2f), t[c] == 0x2f || seg_name(t, c).len() > 0
{
    lemma_valid_split(t, c);
    lemma_sat_wft(dec(sfx(t, c)), Cls::PcharSlash, iri);
    lemma_seg_text(t, c, false, iri);
    lemma_seg(t, c);
    let (h, n, w) = (slash(t[c] == 0x2f), dec(seg_name(t, c)), dec(sfx(t, seg_end(t, c))));
    if seg_end(t, c) < t.len() { lemma_dec_slash(sfx(t, seg_end(t, c))); } else { lemma_dec_empty(sfx(t, seg_end(t, c))); }
    assert(h + n + w =~= h + (n + w));
    if t[c] == 0x2f { assert((h + (n + w)).skip(1) =~= n + w); } else { assert(h + (n + w) =~= n + w); }
    lemma_sat_brk(n, w, Cls::PcharSlash, iri);
    let s = seg_start(t, c);
    lemma_first(sfx(t, s), 0x2f, 0x2f, 0x2f, 0x2f);
    assert forall|i: int| 0 <= i < seg_name(t, c).len() implies #[trigger] seg_name(t, c)[i] != 0x2f by { assert(sfx(t, s)[i] == seg_name(t, c)[i]); assert(!is4(sfx(t, s)[i], 0x2f, 0x2f, 0x2f, 0x2f)); }
}
pub proof fn lemma_fold_good(t: Seq<u8>, c: int, st: Seq<Seg>, iri: bool)
    requires valid_utf8(t), 0 <= c <= t.len(), is_char_boundary(t, c), is_sat(sfx(t, c), Cls::PcharSlash, iri), gst(st, iri), c < t.len() ==> t[c] == 0x2f || st.len() == 0
    ensures gst(fold(t, c, st), iri), allhl(st) && (c < t.len() ==> t[c] == 0x2f) ==> allhl(fold(t, c, st))
    decreases t.len() - c
{
    if c < t.len() {
        lemma_seg(t, c);
        lemma_seg_sat(t, c, iri);
        lemma_valid_split(t, c);
        lemma_sat_wft(dec(sfx(t, c)), Cls::PcharSlash, iri);
        lemma_seg_text(t, c, false, iri);
        let s2 = step(st, seg(t, c));
        assert(gst(s2, iri)) by { assert forall|i: int| 0 <= i < s2.len() implies gs(#[trigger] s2[i], iri) && (i > 0 ==> s2[i].hl) by { if i < st.len() { assert(s2[i] == st[i]); } } }
        lemma_fold_good(t, seg_end(t, c), s2, iri);
    }
}
pub proof fn lemma_strip_sat(t: Seq<u8>, iri: bool)
    requires valid_utf8(t), is_sat(t, Cls::PcharSlash, iri)
    ensures valid_utf8(strip_pre(t)), is_sat(strip_pre(t), Cls::PcharSlash, iri), t.len() > 0 && t[0] == 0x2f ==> strip_pre(t) == t
    decreases t.len()
{
    if !(t.len() == 0 || t[0] == 0x2f || !(dot1(seg_name(t, 0)) || dot2(seg_name(t, 0)))) {
        assert(is_char_boundary(t, 0));
        assert(sfx(t, 0) =~= t);
        lemma_seg(t, 0);
        lemma_seg_sat(t, 0, iri);
        let e = seg_end(t, 0);
        if e + 1 > t.len() { lemma_dec_empty(Seq::<u8>::empty()); }
        else {
            lemma_valid_split(t, e);
            lemma_valid_split(t, e + 1);
            lemma_dec_slash(sfx(t, e));
            assert(sfx(sfx(t, e), 1) =~= sfx(t, e + 1));
            assert(dec(sfx(t, e)).skip(1) =~= dec(sfx(t, e + 1)));
            lemma_strip_sat(sfx(t, e + 1), iri);
        }
    }
}
/// the text of a segment
pub proof fn lemma_nm_good(b: Seq<u8>, pct: bool, iri: bool)
    requires valid_utf8(b), is_sat(b, Cls::PcharSlash, iri), noneb(b, 0x2f)
    ensures ({ let m = nm(b, pct, iri); let e = encode_utf8(m);
        valid_utf8(e) && dec(e) == m && nm(e, pct, iri) == m && wft(m) && wft(dec(b)) && sat(m, Cls::PcharSlash, iri) && noneb(e, 0x2f) && none(m, '/') && dot1(e) == dot1(b) && dot2(e) == dot2(b)
        && (e.len() == 0) == (b.len() == 0) && (m.len() == 0) == (b.len() == 0) })
{
    let s = dec(b);
    let m = nm(b, pct, iri);
    let e = encode_utf8(m);
    lemma_sat_wft(s, Cls::PcharSlash, iri);
    encode_utf8_valid_utf8(m);
    encode_utf8_decode_utf8(m);
    decode_utf8_encode_utf8(b);
    lemma_none_bytes(b, 0x2f);
    if pct {
        lemma_norm_idem(s, iri);
        lemma_norm_sat(s, Cls::PcharSlash, iri);
        lemma_norm_none(s, '/', iri);
        lemma_dot_norm(b, iri);
        lemma_norm_empty(s, iri);
    }
    lemma_none_bytes(e, 0x2f);
    if pct { lemma_dot_norm(e, iri); }
    if m.len() == 0 { lemma_dec_empty(Seq::<u8>::empty()); assert(m =~= Seq::<char>::empty()); assert(e == encode_utf8(dec(Seq::<u8>::empty()))); decode_utf8_encode_utf8(Seq::<u8>::empty()); }
    if e.len() == 0 { lemma_dec_empty(e); }
    if b.len() == 0 { lemma_dec_empty(b); }
}
pub open spec fn conv1(s: Seg, pct: bool, iri: bool) -> Seg { Seg { hl: true, name: encode_utf8(nm(s.name, pct, iri)) } }
pub open spec fn conv(st: Seq<Seg>, pct: bool, iri: bool) -> Seq<Seg> { Seq::new(st.len(), |i: int| conv1(st[i], pct, iri)) }
pub proof fn lemma_gst_skip(st: Seq<Seg>, iri: bool)
    requires gst(st, iri), st.len() > 0
    ensures gst(st.skip(1), iri), allhl(st.skip(1)), gs(st[0], iri)
{
    let u = st.skip(1);
    assert forall|i: int| 0 <= i < u.len() implies gs(#[trigger] u[i], iri) && u[i].hl by { assert(u[i] == st[i + 1]); }
}
pub proof fn lemma_names_conv(st: Seq<Seg>, pct: bool, iri: bool)
    requires gst(st, iri)
    ensures names(conv(st, pct, iri), pct, iri) == names(st, pct, iri)
    decreases st.len()
{
    if st.len() > 0 {
        lemma_gst_skip(st, iri);
        lemma_nm_good(st[0].name, pct, iri);
        assert(conv(st, pct, iri).skip(1) =~= conv(st.skip(1), pct, iri));
        lemma_names_conv(st.skip(1), pct, iri);
    }
}
/// the first slash of two pieces
pub proof fn lemma_name_end(a: Seq<u8>, w: Seq<u8>)
    requires noneb(a, 0x2f), w.len() == 0 || w[0] == 0x2f
    ensures first1(a + w, 0x2f) == a.len()
{
    let b = a + w;
    assert forall|j: int| 0 <= j < a.len() implies !is4(#[trigger] b[j], 0x2f, 0x2f, 0x2f, 0x2f) by { assert(b[j] == a[j]); }
    lemma_first_is(b, a.len() as int, 0x2f, 0x2f, 0x2f, 0x2f);
}
/// the bytes of the text of a stack
pub proof fn lemma_names_head(st: Seq<Seg>, pct: bool, iri: bool)
    requires gst(st, iri)
    ensures ({ let e = encode_utf8(names(st, pct, iri)); valid_utf8(e) && dec(e) == names(st, pct, iri) && (e.len() == 0) == (st.len() == 0)
        && (st.len() > 0 ==> e[0] == 0x2f && e == seq![0x2fu8] + (encode_utf8(nm(st[0].name, pct, iri)) + encode_utf8(names(st.skip(1), pct, iri)))
            && names(st, pct, iri)[0] == '/') })
{
    let t = names(st, pct, iri);
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    if st.len() == 0 { lemma_dec_empty(Seq::<u8>::empty()); assert(t =~= dec(Seq::<u8>::empty())); decode_utf8_encode_utf8(Seq::<u8>::empty()); }
    else {
        let n = nm(st[0].name, pct, iri);
        let r = names(st.skip(1), pct, iri);
        assert(t =~= seq!['/'] + (n + r));
        encode_utf8_concat(seq!['/'], n + r);
        encode_utf8_concat(n, r);
        crate::vstring::lemma_enc1('/');
    }
}
/// reading the text of a stack gives the stack
pub proof fn lemma_refold(t: Seq<u8>, c: int, st: Seq<Seg>, z: Seq<Seg>, d: bool, pct: bool, iri: bool)
    requires valid_utf8(t), 0 <= c <= t.len(), is_char_boundary(t, c), gst(st, iri), sfx(t, c) == encode_utf8(names(st, pct, iri))
    ensures nodots(t, c), fold(t, c, z) == z + conv(st, pct, iri), ldot(t, c, d) == (st.len() == 0 && d)
    decreases st.len()
{
    lemma_names_head(st, pct, iri);
    if st.len() == 0 { assert(c == t.len()); assert(z + conv(st, pct, iri) =~= z); }
    else {
        lemma_gst_skip(st, iri);
        let a = encode_utf8(nm(st[0].name, pct, iri));
        let w = encode_utf8(names(st.skip(1), pct, iri));
        lemma_names_head(st.skip(1), pct, iri);
        lemma_nm_good(st[0].name, pct, iri);
        assert(sfx(t, c)[0] == t[c]);
        assert(sfx(t, c + 1) =~= a + w) by { assert(sfx(t, c + 1) =~= sfx(sfx(t, c), 1)); }
        lemma_name_end(a, w);
        let e = c + 1 + a.len();
        assert(seg_end(t, c) == e);
        assert(seg_name(t, c) =~= a) by { assert(seg_name(t, c) =~= pfx(sfx(t, c + 1), a.len() as int)); }
        assert(sfx(t, e) =~= w) by { assert(sfx(t, e) =~= sfx(sfx(t, c + 1), a.len() as int)); }
        lemma_seg(t, c);
        let s2 = z.push(conv1(st[0], pct, iri));
        assert(step(z, seg(t, c)) == s2);
        lemma_refold(t, e, st.skip(1), s2, false, pct, iri);
        assert(s2 + conv(st.skip(1), pct, iri) =~= z + conv(st, pct, iri));
    }
}
/// the text of a nonempty stack
pub open spec fn out(st: Seq<Seg>, auth: bool, pct: bool, iri: bool) -> Seq<char> {
    if !st[0].hl { nm(st[0].name, pct, iri) + names(st.skip(1), pct, iri) }
    else if st[0].name.len() == 0 && !auth && st.len() > 1 { seq!['/', '.'] + names(st, pct, iri) }
    else { names(st, pct, iri) }
}
pub proof fn lemma_nm_empty(b: Seq<u8>, pct: bool, iri: bool)
    requires b.len() == 0
    ensures nm(b, pct, iri) == Seq::<char>::empty()
{ lemma_dec_empty(b); assert(norm(Seq::<char>::empty(), iri) =~= Seq::<char>::empty()); }
pub open spec fn with_end(st: Seq<Seg>, tr: bool) -> Seq<Seg> { if tr { st.push(Seg { hl: true, name: Seq::empty() }) } else { st } }
pub proof fn lemma_rem_out(st: Seq<Seg>, tr: bool, auth: bool, pct: bool, iri: bool)
    requires st.len() > 0 || tr
    ensures rem(st, tr, None, auth, pct, iri) == out(with_end(st, tr), auth, pct, iri)
{
    let s = with_end(st, tr);
    let e = Seg { hl: true, name: Seq::<u8>::empty() };
    lemma_nm_empty(e.name, pct, iri);
    if tr { lemma_names_push(st, e, pct, iri); assert(seq!['/'] + nm(e.name, pct, iri) =~= seq!['/']); }
    else { assert(names(st, pct, iri) + Seq::<char>::empty() =~= names(st, pct, iri)); }
    assert(names(s, pct, iri) == names(st, pct, iri) + slash(tr));
    if st.len() == 0 { assert(names(st, pct, iri) =~= Seq::<char>::empty()); assert(names(s, pct, iri) =~= slash(tr)); assert(s[0] == e); }
    else {
        assert(s[0] == st[0]);
        assert(s.skip(1) =~= with_end(st.skip(1), tr));
        let n = nm(st[0].name, pct, iri);
        let m = names(st.skip(1), pct, iri);
        if tr { lemma_names_push(st.skip(1), e, pct, iri); } else { assert(m + Seq::<char>::empty() =~= m); }
        assert(names(s.skip(1), pct, iri) == m + slash(tr));
        assert(names(s, pct, iri) == seq!['/'] + n + (m + slash(tr)));
        let x = st[0].hl && st[0].name.len() == 0;
        if x { lemma_nm_empty(st[0].name, pct, iri); }
        assert((s.len() > 1) == (st.len() > 1 || tr));
        if x && !auth && (st.len() > 1 || tr) {
            assert(slash(true) + n + seq!['.', '/'] + m + slash(tr) =~= seq!['/', '.'] + (seq!['/'] + n + (m + slash(tr))));
        } else if st[0].hl {
            assert(slash(true) + n + Seq::<char>::empty() + m + slash(tr) =~= seq!['/'] + n + (m + slash(tr)));
        } else {
            assert(slash(false) + n + Seq::<char>::empty() + m + slash(tr) =~= n + (m + slash(tr)));
        }
    }
}
pub proof fn lemma_names_sat(st: Seq<Seg>, pct: bool, iri: bool)
    requires gst(st, iri)
    ensures sat(names(st, pct, iri), Cls::PcharSlash, iri), nm(encode_utf8(names(st, pct, iri)), pct, iri) == names(st, pct, iri)
    decreases st.len()
{
    lemma_names_head(st, pct, iri);
    let t = names(st, pct, iri);
    if st.len() == 0 { lemma_nm_empty(encode_utf8(t), pct, iri); }
    else {
        lemma_gst_skip(st, iri);
        lemma_names_sat(st.skip(1), pct, iri);
        lemma_names_head(st.skip(1), pct, iri);
        lemma_nm_good(st[0].name, pct, iri);
        let n = nm(st[0].name, pct, iri);
        let r = names(st.skip(1), pct, iri);
        assert(t =~= seq!['/'] + (n + r));
        lemma_sat_cat(n, r, Cls::PcharSlash, iri);
        assert(t.skip(1) =~= n + r);
        if pct { lemma_norm_cut(n, r, iri); lemma_norm_lit('/', n + r, iri); }
    }
}
/// dots in front of a text without authority that would begin with two slashes
pub open spec fn dotpre(e: Seq<u8>, auth: bool) -> bool { !auth && e.len() >= 4 && e[0] == 0x2f && e[1] == 0x2e && e[2] == 0x2f && e[3] == 0x2f && nodots(e, 2) }
/// what the text of a stack is
pub open spec fn out_ok(st: Seq<Seg>, t: Seq<char>, auth: bool, opaque: bool, pct: bool, iri: bool) -> bool {
    let e = encode_utf8(t);
    valid_utf8(e) && dec(e) == t && e.len() > 0 && is_sat(e, Cls::PcharSlash, iri) && (e[0] == 0x2f) == st[0].hl && (!auth ==> !has_ss(e)) && nm(e, pct, iri) == t
    && (nodots(e, 0) || dotpre(e, auth)) && path_text(e, opaque, auth, pct, iri) == t
}
pub proof fn lemma_out(st: Seq<Seg>, auth: bool, opaque: bool, pct: bool, iri: bool)
    requires gst(st, iri), st.len() > 0
    ensures out_ok(st, out(st, auth, pct, iri), auth, opaque, pct, iri)
{
    if !st[0].hl { lemma_out1(st, auth, opaque, pct, iri); }
    else if st[0].name.len() == 0 && !auth && st.len() > 1 { lemma_out2(st, auth, opaque, pct, iri); }
    else { lemma_out3(st, auth, opaque, pct, iri); }
}
proof fn lemma_out1(st: Seq<Seg>, auth: bool, opaque: bool, pct: bool, iri: bool)
    requires gst(st, iri), st.len() > 0, !st[0].hl
    ensures out_ok(st, out(st, auth, pct, iri), auth, opaque, pct, iri)
{
    hide(sat); hide(norm); hide(nodots); hide(dotpre);
    let t = out(st, auth, pct, iri);
    let e = encode_utf8(t);
    let z = Seq::<Seg>::empty();
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    assert(is_char_boundary(e, 0));
    lemma_gst_skip(st, iri);
    lemma_names_head(st.skip(1), pct, iri);
    lemma_names_sat(st.skip(1), pct, iri);
    lemma_nm_good(st[0].name, pct, iri);
    lemma_names_conv(st.skip(1), pct, iri);
    let n = nm(st[0].name, pct, iri);
    let a = encode_utf8(n);
    let m = names(st.skip(1), pct, iri);
    let w = encode_utf8(m);
    encode_utf8_concat(n, m);
    lemma_sat_cat(n, m, Cls::PcharSlash, iri);
    if pct { lemma_norm_cut(n, m, iri); }
    assert(a[0] != 0x2f);
    assert(e[0] == a[0]);
    let k = a.len() as int;
    let f = Seg { hl: false, name: a };
    lemma_first_seg(e, a, w);
    assert(step(z, f) =~= seq![f]);
    lemma_refold(e, k, st.skip(1), seq![f], false, pct, iri);
    let fs = seq![f] + conv(st.skip(1), pct, iri);
    lemma_unroll(e);
    assert(fold(e, 0, z) == fs);
    assert(fs.skip(1) =~= conv(st.skip(1), pct, iri));
    assert(strip_pre(e) == e);
    assert(fs[0] == f);
    assert(slash(false) + n + Seq::<char>::empty() + m + slash(false) =~= n + m);
    assert(rem(fs, false, None, auth, pct, iri) == t);
    assert(nodots(e, 0));
}
proof fn lemma_unroll(e: Seq<u8>)
    requires e.len() > 0, seg_end(e, 0) > 0
    ensures fold(e, 0, Seq::empty()) == fold(e, seg_end(e, 0), step(Seq::empty(), seg(e, 0))), ldot(e, 0, false) == ldot(e, seg_end(e, 0), dot1(seg_name(e, 0)) || dot2(seg_name(e, 0))),
        nodots(e, 0) == (!dot1(seg_name(e, 0)) && !dot2(seg_name(e, 0)) && nodots(e, seg_end(e, 0)))
{ }
proof fn lemma_first_seg(e: Seq<u8>, a: Seq<u8>, w: Seq<u8>)
    requires e == a + w, a.len() > 0, noneb(a, 0x2f), w.len() == 0 || w[0] == 0x2f, valid_utf8(e)
    ensures seg_end(e, 0) == a.len(), seg_name(e, 0) == a, seg(e, 0) == (Seg { hl: false, name: a }), sfx(e, a.len() as int) == w, is_char_boundary(e, a.len() as int)
{
    assert(is_char_boundary(e, 0));
    assert(e[0] == a[0]);
    assert(a[0] != 0x2f);
    assert(sfx(e, 0) =~= e);
    lemma_name_end(a, w);
    lemma_seg(e, 0);
    assert(seg_name(e, 0) =~= a);
    assert(sfx(e, a.len() as int) =~= w);
}
proof fn lemma_out2(st: Seq<Seg>, auth: bool, opaque: bool, pct: bool, iri: bool)
    requires gst(st, iri), st.len() > 1, st[0].hl, st[0].name.len() == 0, !auth
    ensures out_ok(st, out(st, auth, pct, iri), auth, opaque, pct, iri)
{
    hide(sat); hide(norm); hide(nodots); hide(fold); hide(rem);
    let t = out(st, auth, pct, iri);
    let e = encode_utf8(t);
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    lemma_names_sat(st, pct, iri);
    lemma_gst_skip(st, iri);
    let n = nm(st[0].name, pct, iri);
    let m = names(st.skip(1), pct, iri);
    let x = names(st, pct, iri);
    lemma_nm_empty(st[0].name, pct, iri);
    encode_utf8_concat(seq!['/', '.'], x);
    lemma_two();
    lemma_refold_pre(e, st, pct, iri);
    assert(sat(seq!['/', '.'], Cls::PcharSlash, iri)) by { reveal_with_fuel(sat, 3); }
    lemma_sat_cat(seq!['/', '.'], x, Cls::PcharSlash, iri);
    assert(x =~= seq!['/'] + m);
    if pct {
        assert(t =~= seq!['/'] + (seq!['.'] + x));
        encode_utf8_decode_utf8(x);
        lemma_norm_lit('.', x, iri);
        lemma_norm_lit('/', seq!['.'] + x, iri);
    }
    lemma_rem_conv(st, auth, pct, iri);
    assert(slash(true) + n + seq!['.', '/'] + m + slash(false) =~= t);
}
proof fn lemma_out3(st: Seq<Seg>, auth: bool, opaque: bool, pct: bool, iri: bool)
    requires gst(st, iri), st.len() > 0, st[0].hl, !(st[0].name.len() == 0 && !auth && st.len() > 1)
    ensures out_ok(st, out(st, auth, pct, iri), auth, opaque, pct, iri)
{
    hide(sat); hide(norm); hide(nodots); hide(fold); hide(dotpre);
    let t = out(st, auth, pct, iri);
    let e = encode_utf8(t);
    let z = Seq::<Seg>::empty();
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    assert(is_char_boundary(e, 0));
    assert(sfx(e, 0) =~= e);
    lemma_names_head(st, pct, iri);
    lemma_names_sat(st, pct, iri);
    lemma_gst_skip(st, iri);
    lemma_names_head(st.skip(1), pct, iri);
    lemma_nm_good(st[0].name, pct, iri);
    lemma_names_conv(st.skip(1), pct, iri);
    let n = nm(st[0].name, pct, iri);
    let a = encode_utf8(n);
    let m = names(st.skip(1), pct, iri);
    let w = encode_utf8(m);
    let cv = conv(st, pct, iri);
    assert(cv.skip(1) =~= conv(st.skip(1), pct, iri));
    assert(z + cv =~= cv);
    lemma_refold(e, 0, st, z, false, pct, iri);
    assert(strip_pre(e) == e);
    if !auth && has_ss(e) {
        assert(e[1] == (a + w)[0]);
        if a.len() > 0 { assert((a + w)[0] == a[0]); assert(a[0] != 0x2f); assert(false); }
        else { assert(w.len() == 0); assert(a + w =~= Seq::<u8>::empty()); assert(false); }
    }
    assert(t =~= seq!['/'] + n + m);
    assert(slash(true) + n + Seq::<char>::empty() + m + slash(false) =~= t);
    assert(cv[0].name == a);
    assert(rem(cv, false, None, auth, pct, iri) == t);
}
proof fn lemma_two()
    ensures encode_utf8(seq!['/', '.']) == seq![0x2fu8, 0x2e]
{
    assert(seq!['/', '.'] =~= seq!['/'] + seq!['.']);
    encode_utf8_concat(seq!['/'], seq!['.']);
    crate::vstring::lemma_enc1('/');
    crate::vstring::lemma_enc1('.');
    assert(seq![0x2fu8, 0x2e] =~= seq![0x2fu8] + seq![0x2eu8]);
}
proof fn lemma_rem_conv(st: Seq<Seg>, auth: bool, pct: bool, iri: bool)
    requires gst(st, iri), st.len() > 1, st[0].hl, st[0].name.len() == 0, !auth
    ensures rem(conv(st, pct, iri), false, None, auth, pct, iri) == slash(true) + nm(st[0].name, pct, iri) + seq!['.', '/'] + names(st.skip(1), pct, iri) + slash(false)
{
    lemma_gst_skip(st, iri);
    lemma_nm_good(st[0].name, pct, iri);
    lemma_names_conv(st.skip(1), pct, iri);
    assert(conv(st, pct, iri).skip(1) =~= conv(st.skip(1), pct, iri));
}
proof fn lemma_refold_pre(e: Seq<u8>, st: Seq<Seg>, pct: bool, iri: bool)
    requires valid_utf8(e), gst(st, iri), st.len() > 1, st[0].hl, st[0].name.len() == 0, e == seq![0x2fu8, 0x2e] + encode_utf8(names(st, pct, iri))
    ensures fold(e, 0, Seq::empty()) == conv(st, pct, iri), !ldot(e, 0, false), strip_pre(e) == e, dotpre(e, false), e.len() > 0 && e[0] == 0x2f && !has_ss(e)
{
    let x = encode_utf8(names(st, pct, iri));
    let z = Seq::<Seg>::empty();
    lemma_names_head(st, pct, iri);
    lemma_gst_skip(st, iri);
    lemma_nm_good(st[0].name, pct, iri);
    lemma_names_head(st.skip(1), pct, iri);
    assert(x =~= seq![0x2fu8] + encode_utf8(names(st.skip(1), pct, iri)));
    assert(e[0] == 0x2f && e[1] == 0x2e && e[2] == x[0] && e[3] == x[1]);
    assert(is_char_boundary(e, 0));
    assert(sfx(e, 1) =~= seq![0x2eu8] + x);
    lemma_name_end(seq![0x2eu8], x);
    assert(seg_end(e, 0) == 2);
    assert(seg_name(e, 0) =~= seq![0x2eu8]);
    assert(sfx(e, 2) =~= x);
    lemma_seg(e, 0);
    lemma_refold(e, 2, st, z, true, pct, iri);
    assert(step(z, seg(e, 0)) == z);
    assert(z + conv(st, pct, iri) =~= conv(st, pct, iri));
}
/// the normalized path is a path, and normalizing it again changes nothing
pub open spec fn path_ok(e: Seq<u8>, t: Seq<char>, auth: bool, opaque: bool, pct: bool, iri: bool) -> bool {
    valid_utf8(e) && dec(e) == t && is_sat(e, Cls::PcharSlash, iri) && (if auth { g_path_abempty(e, iri) } else { g_path_noauth(e, false, iri) }) && path_text(e, opaque, auth, pct, iri) == t
    && (opaque || nodots(e, 0) || dotpre(e, auth)) && nm(e, pct, iri) == t
    && (opaque && !auth && e.len() > 0 && e[0] == 0x2f ==> nodots(e, 0) || dotpre(e, auth))
}
/// when no segment remains, the last one was a dot segment
proof fn lemma_fold_ldot(t: Seq<u8>, c: int, st: Seq<Seg>, d: bool)
    requires 0 <= c < t.len(), valid_utf8(t), is_char_boundary(t, c), fold(t, c, st).len() == 0
    ensures ldot(t, c, d)
    decreases t.len() - c
{
    lemma_seg(t, c);
    let e = seg_end(t, c);
    let s = step(st, seg(t, c));
    let d2 = dot1(seg_name(t, c)) || dot2(seg_name(t, c));
    if e < t.len() { lemma_fold_ldot(t, e, s, d2); } else { assert(fold(t, e, s) == s); assert(ldot(t, e, d2) == d2); }
}
pub proof fn lemma_path_text(p: Seq<u8>, auth: bool, opaque: bool, pct: bool, iri: bool)
    requires valid_utf8(p), is_sat(p, Cls::PcharSlash, iri), auth && p.len() > 0 ==> p[0] == 0x2f
    ensures path_ok(encode_utf8(path_text(p, opaque, auth, pct, iri)), path_text(p, opaque, auth, pct, iri), auth, opaque, pct, iri),
        p.len() > 0 && p[0] == 0x2f ==> ({ let e = encode_utf8(path_text(p, opaque, auth, pct, iri)); e.len() > 0 && e[0] == 0x2f }),
{
    hide(sat); hide(norm); hide(nodots); hide(fold); hide(dotpre); hide(rem); hide(out); hide(ldot);
    let t = path_text(p, opaque, auth, pct, iri);
    let e = encode_utf8(t);
    let z = Seq::<Seg>::empty();
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    if p.len() == 0 { lemma_path_empty(t, e, auth, opaque, pct, iri); }
    else if opaque && !auth && p[0] != 0x2f {
        lemma_nm_opaque(p, pct, iri);
    } else {
        lemma_strip_sat(p, iri);
        let u = strip_pre(p);
        if u.len() == 0 {
            if auth { lemma_one_slash(auth, opaque, pct, iri); } else { lemma_path_empty(t, e, auth, opaque, pct, iri); }
        } else {
            let st = fold(u, 0, z);
            let tr = ldot(u, 0, false);
            assert(is_char_boundary(u, 0));
            assert(sfx(u, 0) =~= u);
            lemma_fold_good(u, 0, z, iri);
            let s = with_end(st, tr);
            if st.len() == 0 { lemma_fold_ldot(u, 0, z, false); }
            if st.len() > 0 || tr {
                lemma_rem_out(st, tr, auth, pct, iri);
                lemma_seg_empty(iri);
                assert(gst(s, iri)) by { assert forall|i: int| 0 <= i < s.len() implies gs(#[trigger] s[i], iri) && (i > 0 ==> s[i].hl) by { if i < st.len() { assert(s[i] == st[i]); } } }
                lemma_out(s, auth, opaque, pct, iri);
                assert(auth || (opaque && !auth) || p[0] == 0x2f ==> s[0].hl) by { if st.len() > 0 { assert(s[0] == st[0]); } }
                if auth { lemma_abempty(e, iri); }
            } else {
                assert(t =~= Seq::<char>::empty()) by { reveal(rem); reveal_with_fuel(names, 1); }
                lemma_path_empty(t, e, auth, opaque, pct, iri);
            }
        }
    }
}
proof fn lemma_abempty(e: Seq<u8>, iri: bool)
    requires valid_utf8(e), is_sat(e, Cls::PcharSlash, iri), e.len() > 0, e[0] == 0x2f
    ensures g_path_abempty(e, iri)
{
    lemma_dec_slash(e);
    assert(dec(e).skip(1) =~= dec(sfx(e, 1)));
}
proof fn lemma_seg_empty(iri: bool)
    ensures gs(Seg { hl: true, name: Seq::empty() }, iri)
{ lemma_dec_empty(Seq::<u8>::empty()); }
proof fn lemma_path_empty(t: Seq<char>, e: Seq<u8>, auth: bool, opaque: bool, pct: bool, iri: bool)
    requires t.len() == 0, e == encode_utf8(t)
    ensures path_ok(e, t, auth, opaque, pct, iri), e.len() == 0
{
    lemma_dec_empty(Seq::<u8>::empty());
    assert(t =~= dec(Seq::<u8>::empty()));
    decode_utf8_encode_utf8(Seq::<u8>::empty());
    lemma_nm_empty(e, pct, iri);
    assert(e =~= Seq::<u8>::empty());
}
proof fn lemma_one_slash(auth: bool, opaque: bool, pct: bool, iri: bool)
    ensures path_ok(encode_utf8(seq!['/']), seq!['/'], auth, opaque, pct, iri)
{
    let s = seq![Seg { hl: true, name: Seq::<u8>::empty() }];
    lemma_seg_empty(iri);
    lemma_out(s, auth, opaque, pct, iri);
    lemma_nm_empty(s[0].name, pct, iri);
    reveal_with_fuel(names, 3);
    assert(names(s.skip(1), pct, iri) =~= Seq::<char>::empty());
    assert(out(s, auth, pct, iri) =~= seq!['/']);
    lemma_abempty(encode_utf8(seq!['/']), iri);
}
proof fn lemma_nm_opaque(p: Seq<u8>, pct: bool, iri: bool)
    requires valid_utf8(p), is_sat(p, Cls::PcharSlash, iri), p.len() > 0, p[0] != 0x2f
    ensures path_ok(encode_utf8(nm(p, pct, iri)), nm(p, pct, iri), false, true, pct, iri), encode_utf8(nm(p, pct, iri)).len() > 0, encode_utf8(nm(p, pct, iri))[0] != 0x2f
{
    let m = nm(p, pct, iri);
    let e = encode_utf8(m);
    let s = dec(p);
    encode_utf8_valid_utf8(m);
    encode_utf8_decode_utf8(m);
    decode_utf8_encode_utf8(p);
    lemma_sat_wft(s, Cls::PcharSlash, iri);
    if s.len() == 0 { lemma_dec_empty(Seq::<u8>::empty()); assert(s =~= dec(Seq::<u8>::empty())); decode_utf8_encode_utf8(Seq::<u8>::empty()); }
    lemma_first_ascii(s, '/');
    if pct {
        lemma_norm_idem(s, iri);
        lemma_norm_sat(s, Cls::PcharSlash, iri);
        lemma_norm_empty(s, iri);
        let k = lemma_norm_step(s, iri);
        if m[0] == '/' {
            if !is_t(s) { }
            else if exists|c: char| is_head(s, c) {
                let c = choose|c: char| #[trigger] is_head(s, c) && k.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && k.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
                if unres(c, iri) { lemma_unres(c, iri); } else { lemma_enc1_scalar(c); lemma_all_trips(enc1(c), Seq::empty()); assert(pct_all(enc1(c)) + Seq::<char>::empty() =~= pct_all(enc1(c))); }
            }
        }
    }
    lemma_first_ascii(m, '/');
}
// ---- hosts
pub proof fn lemma_normhost_cut(x: Seq<char>, t: Seq<char>)
    requires brk(t)
    ensures normhost(x + t) == normhost(x) + normhost(t), asciihost(x + t) == (asciihost(x) && asciihost(t))
    decreases x.len()
{
    lemma_is_t_cut(x, t);
    if x.len() == 0 { assert(x + t =~= t); assert(normhost(x) + normhost(t) =~= normhost(t)); }
    else if is_t(x) {
        lemma_normhost_cut(x.skip(3), t);
        let w = if unreserved(tv(x)) { seq![lower(tv(x) as char)] } else { pct_upper(tv(x)) };
        assert(w + (normhost(x.skip(3)) + normhost(t)) =~= w + normhost(x.skip(3)) + normhost(t));
    } else {
        lemma_normhost_cut(x.skip(1), t);
        assert(seq![lower(x[0])] + (normhost(x.skip(1)) + normhost(t)) =~= seq![lower(x[0])] + normhost(x.skip(1)) + normhost(t));
    }
}
pub open spec fn hostd(d: char) -> bool { d == '/' || d == ':' || d == '@' || d == '[' || d == ']' }
pub proof fn lemma_normhost(s: Seq<char>)
    requires wft(s), asciihost(s)
    ensures normhost(normhost(s)) == normhost(s), asciihost(normhost(s)), wft(normhost(s)), (normhost(s).len() == 0) == (s.len() == 0)
    decreases s.len()
{
    if s.len() > 0 {
        let n = normhost(s);
        if is_t(s) {
            let y = normhost(s.skip(3));
            lemma_normhost(s.skip(3));
            let v = tv(s);
            if unreserved(v) {
                let c = lower(v as char);
                assert(n.skip(1) =~= y);
                assert(c != '%' && lower(c) == c && (c as u32) < 0x80);
                assert(n[0] == c);
            } else { lemma_upper(v, y); }
        } else {
            let y = normhost(s.skip(1));
            lemma_normhost(s.skip(1));
            let c = lower(s[0]);
            assert(n.skip(1) =~= y);
            assert(c != '%' && lower(c) == c && (c as u32) < 0x80);
            assert(n[0] == c);
        }
    }
}
pub proof fn lemma_normhost_sat(s: Seq<char>, iri: bool)
    requires sat(s, Cls::Regname, iri), asciihost(s)
    ensures sat(normhost(s), Cls::Regname, iri)
    decreases s.len()
{
    if s.len() > 0 {
        let n = normhost(s);
        if is_t(s) {
            let y = normhost(s.skip(3));
            lemma_normhost_sat(s.skip(3), iri);
            if unreserved(tv(s)) { assert(n.skip(1) =~= y); assert(n[0] == lower(tv(s) as char)); }
            else { lemma_upper(tv(s), y); }
        } else {
            let y = normhost(s.skip(1));
            lemma_normhost_sat(s.skip(1), iri);
            assert(n.skip(1) =~= y);
            assert(n[0] == lower(s[0]));
        }
    }
}
pub proof fn lemma_normhost_none(s: Seq<char>, d: char)
    requires none(s, d), hostd(d)
    ensures none(normhost(s), d)
    decreases s.len()
{
    if s.len() > 0 {
        let k: int = if is_t(s) { 3 } else { 1 };
        let r = s.skip(k);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != d by { assert(s[i + k] != d); }
        lemma_normhost_none(r, d);
        let w = if !is_t(s) { seq![lower(s[0])] } else if unreserved(tv(s)) { seq![lower(tv(s) as char)] } else { pct_upper(tv(s)) };
        assert(none(w, d)) by {
            assert(s[0] != d);
            if is_t(s) && !unreserved(tv(s)) { lemma_pct1(tv(s)); lemma_none_all(seq![tv(s)], d); }
        }
        lemma_none_cat(w, normhost(r), d);
    }
}
pub proof fn lemma_asciihost_all(b: Seq<u8>, t: Seq<char>)
    ensures asciihost(pct_all(b) + t) == ((forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80) && asciihost(t))
    decreases b.len()
{
    if b.len() == 0 { assert(pct_all(b) + t =~= t); }
    else {
        let r = b.skip(1);
        assert(b =~= seq![b[0]] + r);
        lemma_all_head(b[0], r);
        let u = pct_all(r) + t;
        assert(pct_all(b) + t =~= pct_upper(b[0]) + u);
        lemma_upper(b[0], u);
        lemma_asciihost_all(r, t);
        assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == b[i + 1]);
        if forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80 { assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] < 0x80 by { assert(b[i + 1] < 0x80); } }
        if b[0] < 0x80 && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] < 0x80 { assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] < 0x80 by { if i > 0 { assert(r[i - 1] < 0x80); } } }
    }
}
/// normalization keeps a host ASCII-only or not
pub proof fn lemma_norm_asciihost(s: Seq<char>, iri: bool)
    requires wft(s)
    ensures asciihost(norm(s, iri)) == asciihost(s)
    decreases s.len()
{
    if s.len() > 0 {
        let k = lemma_norm_step(s, iri);
        let y = norm(s.skip(k.1), iri);
        let n = norm(s, iri);
        lemma_norm_asciihost(s.skip(k.1), iri);
        if !is_t(s) { assert(n.skip(1) =~= y); assert(n[0] == s[0]); }
        else if exists|c: char| is_head(s, c) {
            let c = choose|c: char| #[trigger] is_head(s, c) && k.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && k.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
            lemma_enc1_scalar(c);
            lemma_enc1_shape(c);
            if enc1(c).len() == 1 { assert((c as u32) < 0x80); crate::vstring::lemma_enc1(c); assert(s.skip(3) =~= s.skip(k.1)); }
            else { assert(enc1(c)[0] >= 0x80); if (c as u32) < 0x80 { crate::vstring::lemma_enc1(c); } }
            if unres(c, iri) { lemma_unres(c, iri); assert(n.skip(1) =~= y); assert(n[0] == c); }
            else { lemma_asciihost_all(enc1(c), y); }
        } else { lemma_upper(tv(s), y); }
    }
}
// ---- bracketed hosts
pub open spec fn lowb(c: u8) -> u8 { if 0x41 <= c <= 0x5a { (c + 0x20) as u8 } else { c } }
pub open spec fn lob(b: Seq<u8>) -> Seq<u8> { Seq::new(b.len(), |i: int| lowb(b[i])) }
proof fn lemma_lob_first(b: Seq<u8>, x: u8)
    requires x == 0x2e || x == 0x3a
    ensures first1(lob(b), x) == first1(b, x), forall|i: int| 0 <= i <= b.len() ==> #[trigger] pfx(lob(b), i) == lob(pfx(b, i)), forall|i: int| 0 <= i <= b.len() ==> #[trigger] sfx(lob(b), i) == lob(sfx(b, i))
{
    let k = first1(b, x);
    let l = lob(b);
    assert forall|j: int| 0 <= j < k implies !is4(#[trigger] l[j], x, x, x, x) by { assert(!is4(b[j], x, x, x, x)); }
    if k < b.len() { assert(is4(b[k], x, x, x, x)); }
    lemma_first_is(l, k, x, x, x, x);
    assert forall|i: int| 0 <= i <= b.len() implies #[trigger] pfx(l, i) == lob(pfx(b, i)) by { assert(pfx(l, i) =~= lob(pfx(b, i))); }
    assert forall|i: int| 0 <= i <= b.len() implies #[trigger] sfx(l, i) == lob(sfx(b, i)) by { assert(sfx(l, i) =~= lob(sfx(b, i))); }
}
proof fn lemma_lob_octet(b: Seq<u8>)
    requires g_dec_octet(b)
    ensures g_dec_octet(lob(b))
{ assert(lob(b) =~= b); }
proof fn lemma_lob_ipv4(b: Seq<u8>)
    requires g_ipv4(b)
    ensures g_ipv4(lob(b))
{
    let d1 = first1(b, 0x2e);
    let r1 = sfx(b, d1 + 1);
    let d2 = first1(r1, 0x2e);
    let r2 = sfx(r1, d2 + 1);
    let d3 = first1(r2, 0x2e);
    lemma_lob_first(b, 0x2e); lemma_lob_first(r1, 0x2e); lemma_lob_first(r2, 0x2e);
    lemma_lob_octet(pfx(b, d1)); lemma_lob_octet(pfx(r1, d2)); lemma_lob_octet(pfx(r2, d3)); lemma_lob_octet(sfx(r2, d3 + 1));
    assert(sfx(lob(b), d1 + 1) == lob(r1));
    assert(sfx(lob(r1), d2 + 1) == lob(r2));
}
proof fn lemma_lob_h16(b: Seq<u8>)
    ensures g_h16(lob(b)) == g_h16(b)
{
    if g_h16(b) { assert forall|i: int| 0 <= i < b.len() implies hexdig(#[trigger] lob(b)[i]) by { assert(hexdig(b[i])); } }
    if g_h16(lob(b)) { assert forall|i: int| 0 <= i < b.len() implies hexdig(#[trigger] b[i]) by { assert(hexdig(lob(b)[i])); } }
}
proof fn lemma_lob_pieces(b: Seq<u8>, v4: bool)
    requires g_pieces(b, v4) >= 0
    ensures g_pieces(lob(b), v4) == g_pieces(b, v4)
    decreases b.len()
{
    let c = first1(b, 0x3a);
    lemma_lob_first(b, 0x3a);
    lemma_lob_h16(b);
    if !(0 <= c < b.len()) { if !g_h16(b) { lemma_lob_ipv4(b); } }
    else { lemma_lob_h16(pfx(b, c)); lemma_lob_pieces(sfx(b, c + 1), v4); assert(sfx(lob(b), c + 1) == lob(sfx(b, c + 1))); assert(pfx(lob(b), c) == lob(pfx(b, c))); }
}
proof fn lemma_lob_dc(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures first_dc(lob(b), i) == first_dc(b, i)
    decreases b.len() - i
{
    if i + 1 < b.len() {
        assert((lob(b)[i] == 0x3a) == (b[i] == 0x3a));
        assert((lob(b)[i + 1] == 0x3a) == (b[i + 1] == 0x3a));
        lemma_lob_dc(b, i + 1);
    }
}
proof fn lemma_lob_ipv6(b: Seq<u8>)
    requires g_ipv6(b)
    ensures g_ipv6(lob(b))
{
    let p = first_dc(b, 0);
    lemma_first_dc(b, 0);
    lemma_lob_dc(b, 0);
    lemma_lob_first(b, 0x3a);
    if p < b.len() {
        assert(pfx(lob(b), p) == lob(pfx(b, p)));
        if p > 0 { lemma_lob_pieces(pfx(b, p), false); }
        if p + 2 < b.len() { assert(sfx(lob(b), p + 2) == lob(sfx(b, p + 2))); lemma_lob_pieces(sfx(b, p + 2), true); }
    } else { lemma_lob_pieces(b, true); }
}
proof fn lemma_lob_ipvf(b: Seq<u8>)
    requires g_ipvfuture(b)
    ensures g_ipvfuture(lob(b))
{
    let l = lob(b);
    let r = sfx(b, 1);
    let d = first1(r, 0x2e);
    lemma_lob_first(b, 0x2e);
    lemma_lob_first(r, 0x2e);
    assert(sfx(l, 1) == lob(r));
    assert(pfx(lob(r), d) == lob(pfx(r, d)));
    assert(sfx(lob(r), d + 1) == lob(sfx(r, d + 1)));
    assert forall|i: int| 0 <= i < d implies hexdig(#[trigger] lob(pfx(r, d))[i]) by { assert(hexdig(pfx(r, d)[i])); }
    let s = sfx(r, d + 1);
    assert forall|i: int| 0 <= i < s.len() implies userinfo_c(#[trigger] lob(s)[i]) by { assert(userinfo_c(s[i])); }
}
pub open spec fn hostn(s: Seq<char>, iri: bool) -> Seq<char> { if asciihost(s) { normhost(s) } else { norm(s, iri) } }
pub proof fn lemma_lob_lowers(b: Seq<u8>)
    requires valid_utf8(b), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80 && b[i] != 0x25
    ensures encode_utf8(lowers(dec(b))) == lob(b), normhost(dec(b)) == lowers(dec(b)), asciihost(dec(b)), nopct(dec(b))
{
    assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80);
    lemma_ascii_both(b);
    let s = dec(b);
    lemma_no_byte_nopct(b);
    lemma_normhost_copy(s, Seq::empty());
    lemma_asciihost_copy(s, Seq::empty());
    assert(s + Seq::<char>::empty() =~= s);
    assert(lowers(s) + normhost(Seq::<char>::empty()) =~= lowers(s));
    let l = lob(b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 by { assert(b[i] < 0x80); }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] < 0x80 && lowers(s)[i] == l[i] as char by { assert(b[i] < 0x80); assert(s[i] == b[i] as char); }
    lemma_ascii_dec(l, lowers(s));
    assert(is_ascii_chars(lowers(s))) by { assert forall|i: int| 0 <= i < l.len() implies #[trigger] lowers(s)[i] as nat <= 0x7f by { assert(l[i] < 0x80); } }
    is_ascii_chars_encode_utf8(lowers(s));
    assert(encode_utf8(lowers(s)) =~= l);
}
/// what the text of a host is
pub open spec fn host_ok(h: Seq<u8>, iri: bool) -> bool {
    let m = hostn(dec(h), iri);
    let e = encode_utf8(m);
    valid_utf8(e) && dec(e) == m && g_host(e, iri) && hostn(m, iri) == m && noneb(e, 0x40) && host_end(e) == e.len() && is_bracketed(e) == is_bracketed(h) && (e.len() > 0 ==> e.last() != 0x3a) && (e.len() == 0) == (h.len() == 0) && wft(m)
}
pub proof fn lemma_no_colon_end(e: Seq<u8>)
    requires noneb(e, 0x3a)
    ensures host_end(e) == e.len(), last1(e, 0x3a) == -1
{
    lemma_last(e, 0x3a, 0x3a);
    if last1(e, 0x3a) >= 0 { assert(e[last1(e, 0x3a)] != 0x3a); }
}
pub proof fn lemma_not_digit_end(e: Seq<u8>)
    requires e.len() > 0, e.last() == 0x5d
    ensures host_end(e) == e.len()
{
    lemma_last(e, 0x3a, 0x3a);
    let c = last1(e, 0x3a);
    if c >= 0 { let s = sfx(e, c + 1); assert(s.len() > 0 && s[s.len() - 1] == 0x5d); }
}
pub proof fn lemma_host_br(h: Seq<u8>, iri: bool)
    requires g_host(h, iri), valid_utf8(h), is_bracketed(h)
    ensures host_ok(h, iri), asciihost(dec(h))
{
    lemma_bracketed_bytes(h);
    lemma_lob_lowers(h);
    let m = hostn(dec(h), iri);
    let e = lob(h);
    encode_utf8_valid_utf8(m);
    encode_utf8_decode_utf8(m);
    let a = h.subrange(1, h.len() - 1);
    assert(e.subrange(1, e.len() - 1) =~= lob(a));
    if g_ipv6(a) { lemma_lob_ipv6(a); } else { lemma_lob_ipvf(a); }
    assert(e[0] == 0x5b && e[e.len() - 1] == 0x5d);
    lemma_not_digit_end(e);
    lemma_wft_plain(dec(h));
    lemma_normhost(dec(h));
    lemma_host_bytes(h, iri);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 0x40 by { assert(h[i] != 0x40); }
}
pub proof fn lemma_host_name(h: Seq<u8>, iri: bool)
    requires g_host(h, iri), valid_utf8(h), !is_bracketed(h)
    ensures host_ok(h, iri), noneb(h, 0x3a)
{
    let s = dec(h);
    let m = hostn(s, iri);
    let e = encode_utf8(m);
    encode_utf8_valid_utf8(m);
    encode_utf8_decode_utf8(m);
    decode_utf8_encode_utf8(h);
    lemma_sat_wft(s, Cls::Regname, iri);
    lemma_host_bytes(h, iri);
    lemma_none_bytes(h, 0x3a); lemma_none_bytes(h, 0x40); lemma_none_bytes(h, 0x5b);
    if asciihost(s) {
        lemma_normhost(s); lemma_normhost_sat(s, iri);
        lemma_normhost_none(s, ':'); lemma_normhost_none(s, '@'); lemma_normhost_none(s, '[');
    } else {
        lemma_norm_asciihost(s, iri);
        lemma_norm_idem(s, iri); lemma_norm_sat(s, Cls::Regname, iri); lemma_norm_empty(s, iri);
        lemma_norm_none(s, ':', iri); lemma_norm_none(s, '@', iri); lemma_norm_none(s, '[', iri);
    }
    lemma_none_bytes(e, 0x3a); lemma_none_bytes(e, 0x40); lemma_none_bytes(e, 0x5b);
    lemma_no_colon_end(e);
    if e.len() > 0 { assert(e[0] != 0x5b); assert(e[e.len() - 1] != 0x3a); }
    lemma_len0(m); lemma_len0(s);
}
pub proof fn lemma_len0(s: Seq<char>)
    ensures (encode_utf8(s).len() == 0) == (s.len() == 0)
{
    if s.len() == 0 { lemma_dec_empty(Seq::<u8>::empty()); assert(s =~= dec(Seq::<u8>::empty())); decode_utf8_encode_utf8(Seq::<u8>::empty()); }
    else if encode_utf8(s).len() == 0 { encode_utf8_decode_utf8(s); lemma_dec_empty(encode_utf8(s)); }
}
pub proof fn lemma_host_ok(h: Seq<u8>, iri: bool)
    requires g_host(h, iri), valid_utf8(h)
    ensures host_ok(h, iri)
{ if is_bracketed(h) { lemma_host_br(h, iri); } else { lemma_host_name(h, iri); } }
/// the text of host and port: without the colon of an empty port
pub open spec fn hp_bytes(m: Seq<u8>, p: Seq<u8>) -> Seq<u8> { if p.len() > 0 { m + (seq![0x3au8] + p) } else { m } }
pub open spec fn hp_port(x: Seq<u8>) -> Seq<u8> { let e = host_end(x); if e < x.len() { sfx(x, e + 1) } else { Seq::empty() } }
pub proof fn lemma_digits(p: Seq<u8>)
    requires all_digit(p)
    ensures valid_utf8(p), nopct(dec(p)), asciihost(dec(p)), normhost(dec(p)) == dec(p), forall|iri: bool| norm(dec(p), iri) == dec(p)
{
    let t = Seq::new(p.len(), |i: int| p[i] as char);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < 0x80 && t[i] == p[i] as char by { assert(digit(p[i])); }
    lemma_ascii_dec(p, t);
    assert(is_ascii_chars(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] as nat <= 0x7f by { assert(p[i] < 0x80); } }
    is_ascii_chars_encode_utf8(t);
    encode_utf8_valid_utf8(t);
    assert(encode_utf8(t) =~= p);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] < 0x80 && p[i] != 0x25 by { assert(digit(p[i])); }
    lemma_lob_lowers(p);
    assert(lowers(t) =~= t) by { assert forall|i: int| 0 <= i < t.len() implies lower(#[trigger] t[i]) == t[i] by { assert(digit(p[i])); } }
    assert forall|iri: bool| norm(dec(p), iri) == dec(p) by { lemma_norm_copy(t, Seq::empty(), iri); assert(t + Seq::<char>::empty() =~= t); }
}
/// the text of host and port
pub proof fn lemma_hp(x: Seq<u8>, iri: bool)
    requires valid_utf8(x), g_host(pfx(x, host_end(x)), iri)
    ensures ({ let h = pfx(x, host_end(x)); let m = hostn(dec(h), iri); let p = hp_port(x);
        valid_utf8(h) && all_digit(p) && hp_text(dec(x), iri) == (if p.len() > 0 { m + (seq![':'] + dec(p)) } else { m }) })
{
    lemma_host_end(x);
    let e = host_end(x);
    let h = pfx(x, e);
    let p = hp_port(x);
    if e < x.len() {
        lemma_dec_at(x, e);
        lemma_digits(p);
        lemma_last_colon(x);
        let s = dec(h);
        let t = seq![':'] + dec(p);
        assert(dec(x) == s + t);
        if p.len() > 0 {
            assert(x.last() == p.last());
            assert(digit(p[p.len() - 1]));
            assert(brk(t));
            lemma_normhost_cut(s, t);
            lemma_norm_cut(s, t, iri);
            lemma_norm_lit(':', dec(p), iri);
            assert(t.skip(1) =~= dec(p));
            assert(t[0] == ':');
            assert(asciihost(t) && normhost(t) == t);
        } else {
            assert(x.len() == e + 1);
        }
    } else {
        assert(h =~= x);
        lemma_host_ok(h, iri);
        if is_bracketed(h) { } else { lemma_host_name(h, iri); }
        lemma_last_colon(x);
        if x.len() > 0 { assert(x.last() != 0x3a) by { if is_bracketed(h) { assert(h[h.len() - 1] == 0x5d); } } }
    }
}
/// and it is a valid host and port, normalized
pub proof fn lemma_hp_ok(x: Seq<u8>, iri: bool)
    requires valid_utf8(x), g_host(pfx(x, host_end(x)), iri)
    ensures ({ let t = hp_text(dec(x), iri); let e = encode_utf8(t);
        valid_utf8(e) && dec(e) == t && g_host(pfx(e, host_end(e)), iri) && hp_text(t, iri) == t && noneb(e, 0x40) && wft(t) && !(host_end(e) == e.len() - 1) })
{
    let t = hp_text(dec(x), iri);
    let e = encode_utf8(t);
    lemma_hp(x, iri);
    let h = pfx(x, host_end(x));
    let p = hp_port(x);
    let m = hostn(dec(h), iri);
    let a = encode_utf8(m);
    lemma_host_ok(h, iri);
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    if p.len() > 0 {
        lemma_digits(p);
        let u = seq![':'] + dec(p);
        encode_utf8_concat(m, u);
        encode_utf8_concat(seq![':'], dec(p));
        crate::vstring::lemma_enc1(':');
        decode_utf8_encode_utf8(p);
        assert(e == a + (seq![0x3au8] + p));
        let k = a.len() as int;
        assert(sfx(e, k + 1) =~= p);
        assert(pfx(e, k) =~= a);
        assert(e[k] == 0x3a);
        lemma_last(e, 0x3a, 0x3a);
        assert(last1(e, 0x3a) == k) by { let l = last1(e, 0x3a); if l > k { assert(p[l - k - 1] == e[l]); assert(digit(p[l - k - 1])); } }
        assert(host_end(e) == k);
        assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != 0x40 by { if i < k { assert(a[i] != 0x40); } else if i > k { assert(digit(p[i - k - 1])); } }
        assert(hp_port(e) == p);
        lemma_hp(e, iri);
        lemma_wft_cut(m, u);
        lemma_wft_plain(dec(p));
        assert(u[0] == ':' && u.skip(1) =~= dec(p));
    } else {
        assert(e == a);
        assert(pfx(e, host_end(e)) =~= a);
        lemma_hp(e, iri);
    }
}
// ---- authority
pub proof fn lemma_at(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a)
    ensures ({ let u = first1(a, 0x40); last1(a, 0x40) == (if u < a.len() { u } else { -1 })
        && (u < a.len() ==> valid_utf8(pfx(a, u)) && valid_utf8(sfx(a, u + 1)) && noneb(pfx(a, u), 0x40)) })
{
    let u = first1(a, 0x40);
    lemma_first(a, 0x40, 0x40, 0x40, 0x40);
    lemma_last(a, 0x40, 0x40);
    if u < a.len() {
        lemma_dec_at(a, u);
        let x = sfx(a, u + 1);
        let h = pfx(x, host_end(x));
        lemma_host_end(x);
        if host_end(x) < x.len() { lemma_dec_at(x, host_end(x)); } else { assert(h =~= x); }
        lemma_host_bytes(h, iri);
        let l = last1(a, 0x40);
        if l > u {
            assert(x[l - u - 1] == 0x40);
            if l - u - 1 < host_end(x) { assert(h[l - u - 1] == 0x40); }
            else if l - u - 1 > host_end(x) { let p = sfx(x, host_end(x) + 1); assert(digit(p[l - u - 1 - host_end(x) - 1])); }
        }
        assert forall|i: int| 0 <= i < u implies #[trigger] pfx(a, u)[i] != 0x40 by { assert(a[i] != 0x40) by { assert(!is4(a[i], 0x40, 0x40, 0x40, 0x40)); } }
    }
}
pub open spec fn auth_ok(e: Seq<u8>, t: Seq<char>, iri: bool) -> bool {
    valid_utf8(e) && dec(e) == t && g_authority(e, iri) && auth_text(e, iri) == t && wft(t) && c_port(e) != Some(Seq::<u8>::empty())
}
proof fn lemma_auth_nouser(e: Seq<u8>, t: Seq<char>, iri: bool)
    requires valid_utf8(e), dec(e) == t, g_host(pfx(e, host_end(e)), iri), hp_text(t, iri) == t, noneb(e, 0x40), wft(t), host_end(e) != e.len() - 1
    ensures auth_ok(e, t, iri)
{
    lemma_first(e, 0x40, 0x40, 0x40, 0x40);
    lemma_last(e, 0x40, 0x40);
    assert(first1(e, 0x40) == e.len()) by { if first1(e, 0x40) < e.len() { assert(e[first1(e, 0x40)] != 0x40); } }
    assert(last1(e, 0x40) == -1) by { if last1(e, 0x40) >= 0 { assert(e[last1(e, 0x40)] != 0x40); } }
    assert(sfx(e, 0) =~= e);
    lemma_host_end(e);
    assert(host_stop(e) == host_end(e));
    if host_stop(e) < e.len() { assert(sfx(e, host_stop(e) + 1).len() > 0); }
}
proof fn lemma_auth_user(n: Seq<char>, x: Seq<char>, t: Seq<char>, iri: bool)
    requires sat(n, Cls::Userinfo, iri), norm(n, iri) == n, none(n, '@'), t == n + seq!['@'] + x,
        ({ let e = encode_utf8(x); valid_utf8(e) && dec(e) == x && g_host(pfx(e, host_end(e)), iri) && hp_text(x, iri) == x && noneb(e, 0x40) && wft(x) && host_end(e) != e.len() - 1 }),
    ensures auth_ok(encode_utf8(t), t, iri)
{
    let e = encode_utf8(t);
    let eu = encode_utf8(n);
    let ex = encode_utf8(x);
    encode_utf8_valid_utf8(t); encode_utf8_decode_utf8(t);
    encode_utf8_valid_utf8(n); encode_utf8_decode_utf8(n);
    crate::vstring::lemma_enc1('@');
    encode_utf8_concat(n + seq!['@'], x);
    encode_utf8_concat(n, seq!['@']);
    assert(e == eu + seq![0x40u8] + ex);
    let u = eu.len() as int;
    lemma_none_bytes(eu, 0x40);
    assert(e[u] == 0x40);
    assert(pfx(e, u) =~= eu);
    assert(sfx(e, u + 1) =~= ex);
    assert forall|j: int| 0 <= j < u implies !is4(#[trigger] e[j], 0x40, 0x40, 0x40, 0x40) by { assert(eu[j] != 0x40); }
    lemma_first_is(e, u, 0x40, 0x40, 0x40, 0x40);
    assert(g_authority(e, iri));
    lemma_at(e, iri);
    lemma_sat_wft(n, Cls::Userinfo, iri);
    let r = seq!['@'] + x;
    assert(t =~= n + r);
    lemma_wft_cut(n, r);
    assert(r.skip(1) =~= x);
    lemma_host_end(ex);
    if host_stop(e) < e.len() { assert(sfx(e, host_stop(e) + 1).len() > 0); }
}
pub proof fn lemma_auth_ok(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a)
    ensures auth_ok(encode_utf8(auth_text(a, iri)), auth_text(a, iri), iri)
{
    let t = auth_text(a, iri);
    lemma_at(a, iri);
    let u = first1(a, 0x40);
    lemma_first(a, 0x40, 0x40, 0x40, 0x40);
    if u < a.len() {
        let x = sfx(a, u + 1);
        let s = dec(pfx(a, u));
        lemma_hp_ok(x, iri);
        lemma_none_bytes(pfx(a, u), 0x40);
        lemma_sat_wft(s, Cls::Userinfo, iri);
        lemma_norm_none(s, '@', iri);
        lemma_norm_sat(s, Cls::Userinfo, iri);
        lemma_norm_idem(s, iri);
        lemma_auth_user(norm(s, iri), hp_text(dec(x), iri), t, iri);
    } else {
        lemma_hp_ok(a, iri);
        lemma_auth_nouser(encode_utf8(t), t, iri);
    }
}
// ---- scheme
pub proof fn lemma_scheme_lob(s: Seq<u8>)
    requires g_scheme(s)
    ensures valid_utf8(s), g_scheme(lob(s)), encode_utf8(lowers(dec(s))) == lob(s), dec(lob(s)) == lowers(dec(s)), lowers(lowers(dec(s))) == lowers(dec(s)), is_ascii_chars(dec(s))
{
    let t = Seq::new(s.len(), |i: int| s[i] as char);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 && s[i] != 0x25 && t[i] == s[i] as char by { if i > 0 { assert(scheme_c(sfx(s, 1)[i - 1])); } }
    lemma_ascii_dec(s, t);
    assert(is_ascii_chars(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] as nat <= 0x7f by { assert(s[i] < 0x80); } }
    is_ascii_chars_encode_utf8(t);
    encode_utf8_valid_utf8(t);
    assert(encode_utf8(t) =~= s);
    lemma_lob_lowers(s);
    encode_utf8_decode_utf8(lowers(dec(s)));
    let l = lob(s);
    assert forall|i: int| 0 <= i < sfx(l, 1).len() implies scheme_c(#[trigger] sfx(l, 1)[i]) by { assert(scheme_c(sfx(s, 1)[i])); }
    assert(lowers(lowers(dec(s))) =~= lowers(dec(s)));
}
// ---- the whole identifier
pub open spec fn enco(o: Option<Seq<u8>>, pct: bool, iri: bool) -> Option<Seq<u8>> { match o { Some(b) => Some(encode_utf8(nm(b, pct, iri))), None => None } }
pub open spec fn n_auth(a: Option<Seq<u8>>, pct: bool, iri: bool) -> Option<Seq<u8>> { match a { Some(b) => Some(if pct { encode_utf8(auth_text(b, iri)) } else { b }), None => None } }
/// the text is the composition of the texts of the components
pub proof fn lemma_full_text(s: Seq<u8>, a: Option<Seq<u8>>, path: Seq<char>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, pct: bool, iri: bool)
    requires g_scheme(s), v_opt(a), v_opt(q), v_opt(f)
    ensures encode_utf8(full_text(s, a, path, q, f, pct, iri)) == compose(Some(if pct { lob(s) } else { s }), n_auth(a, pct, iri), encode_utf8(path), enco(q, pct, iri), enco(f, pct, iri))
{
    lemma_scheme_lob(s);
    decode_utf8_encode_utf8(s);
    let s0 = if pct { lowers(dec(s)) } else { dec(s) };
    let a0 = match a { Some(b) => seq!['/', '/'] + (if pct { auth_text(b, iri) } else { dec(b) }), None => Seq::<char>::empty() };
    let q0 = opt_text(seq!['?'], q, pct, iri);
    let f0 = opt_text(seq!['#'], f, pct, iri);
    lemma_enc_two();
    encode_utf8_concat(s0 + seq![':'] + a0 + path + q0, f0);
    encode_utf8_concat(s0 + seq![':'] + a0 + path, q0);
    encode_utf8_concat(s0 + seq![':'] + a0, path);
    encode_utf8_concat(s0 + seq![':'], a0);
    encode_utf8_concat(s0, seq![':']);
    if a is Some { let b = a->Some_0; decode_utf8_encode_utf8(b); encode_utf8_concat(seq!['/', '/'], if pct { auth_text(b, iri) } else { dec(b) }); }
    if q is Some { encode_utf8_concat(seq!['?'], nm(q->Some_0, pct, iri)); }
    if f is Some { encode_utf8_concat(seq!['#'], nm(f->Some_0, pct, iri)); }
}
pub proof fn lemma_enc_two()
    ensures encode_utf8(seq!['/', '/']) == ss(), encode_utf8(seq![':']) == seq![0x3au8], encode_utf8(seq!['?']) == seq![0x3fu8], encode_utf8(seq!['#']) == seq![0x23u8], encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{
    crate::vstring::lemma_enc1(':'); crate::vstring::lemma_enc1('?'); crate::vstring::lemma_enc1('#'); crate::vstring::lemma_enc1('/');
    assert(seq!['/', '/'] =~= seq!['/'] + seq!['/']);
    encode_utf8_concat(seq!['/'], seq!['/']);
    assert(seq![0x2fu8] + seq![0x2fu8] =~= ss());
    lemma_len0(Seq::<char>::empty());
    assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}
/// RFC 3986 6.2.2: the normalized components of a valid identifier are valid components, and normalizing them again changes nothing
pub open spec fn n_ok(b: Seq<u8>, e: Seq<u8>, keep: bool, iri: bool) -> bool {
    let t = normalized(b, keep, iri);
    e == encode_utf8(t) && valid_utf8(e) && dec(e) == t && g_uri(e, iri) && (c_fragment(b) is None ==> g_absolute(e, iri)) && normalized(e, keep, iri) == t
    && c_scheme(e) == Some(lob(c_scheme(b)->Some_0))
    && c_authority(e) == n_auth(c_authority(b), true, iri)
    && c_path(e) == encode_utf8(path_text(c_path(b), keep, c_authority(b) is Some, true, iri))
    && c_query(e) == enco(c_query(b), true, iri) && c_fragment(e) == enco(c_fragment(b), true, iri)
}
pub proof fn lemma_opt_ok(o: Option<Seq<u8>>, k: Cls, iri: bool)
    requires o matches Some(x) ==> valid_utf8(x) && is_sat(x, k, iri), !(k is Varname)
    ensures enco(o, true, iri) matches Some(x) ==> valid_utf8(x) && is_sat(x, k, iri), enco(enco(o, true, iri), true, iri) == enco(o, true, iri),
        forall|c: Seq<char>| #[trigger] opt_text(c, enco(o, true, iri), true, iri) == opt_text(c, o, true, iri),
{
    if o is Some {
        let s = dec(o->Some_0);
        lemma_sat_wft(s, k, iri);
        lemma_norm_sat(s, k, iri);
        lemma_norm_idem(s, iri);
        encode_utf8_valid_utf8(norm(s, iri));
        encode_utf8_decode_utf8(norm(s, iri));
    }
}
pub proof fn lemma_path_sat(p: Seq<u8>, auth: bool, noscheme: bool, iri: bool)
    requires valid_utf8(p), if auth { g_path_abempty(p, iri) } else { g_path_noauth(p, noscheme, iri) }
    ensures is_sat(p, Cls::PcharSlash, iri), auth && p.len() > 0 ==> p[0] == 0x2f
{
    if auth && p.len() > 0 {
        lemma_dec_at(p, 0);
        lemma_dec_empty(pfx(p, 0));
        assert(dec(p) =~= seq!['/'] + dec(sfx(p, 1)));
        assert(dec(p).skip(1) =~= dec(sfx(p, 1)));
    } else if auth { lemma_dec_empty(p); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_normalized(b: Seq<u8>, keep: bool, iri: bool)
    requires valid_utf8(b), g_uri(b, iri)
    ensures n_ok(b, encode_utf8(normalized(b, keep, iri)), keep, iri)
{
    hide(g_uri); hide(g_absolute); hide(path_text); hide(auth_text); hide(g_authority); hide(g_path_abempty); hide(g_path_noauth); hide(sat); hide(norm);
    hide(g_scheme); hide(c_scheme); hide(c_authority); hide(c_path); hide(c_query); hide(c_fragment); hide(compose);
    assert(g_reference(b, iri)) by { reveal(g_uri); }
    lemma_ok_parts(b, iri);
    assert(c_scheme(b) is Some) by { reveal(c_scheme); reveal(g_uri); lemma_scheme_pos(b); }
    let s = c_scheme(b)->Some_0;
    let (a, p, q, f) = (c_authority(b), c_path(b), c_query(b), c_fragment(b));
    lemma_path_sat(p, a is Some, false, iri);
    lemma_path_text(p, a is Some, keep, true, iri);
    let pt = path_text(p, keep, a is Some, true, iri);
    let pe = encode_utf8(pt);
    lemma_scheme_lob(s);
    if a is Some { lemma_auth_ok(a->Some_0, iri); }
    lemma_opt_ok(q, Cls::Query, iri);
    lemma_opt_ok(f, Cls::Fragment, iri);
    lemma_full_text(s, a, pt, q, f, true, iri);
    let t = normalized(b, keep, iri);
    let e = encode_utf8(t);
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    let (s2, a2, q2, f2) = (lob(s), n_auth(a, true, iri), enco(q, true, iri), enco(f, true, iri));
    assert(ok_parts(Some(s2), a2, pe, q2, f2, iri));
    lemma_compose(Some(s2), a2, pe, q2, f2, iri);
    assert(normalized(e, keep, iri) == t);
}
// ---- the text of a resolved or normalized identifier is valid
/// components of an identifier whose path still needs processing (`done`: it does not)
pub open spec fn comp_ok(s: Seq<u8>, a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, done: bool, iri: bool) -> bool {
    g_scheme(s) && (a matches Some(x) ==> g_authority(x, iri)) && v_opt(a) && valid_utf8(p) && is_sat(p, Cls::PcharSlash, iri) && (a is Some && p.len() > 0 ==> p[0] == 0x2f)
    && (q matches Some(x) ==> is_sat(x, Cls::Query, iri)) && v_opt(q) && (f matches Some(x) ==> is_sat(x, Cls::Fragment, iri)) && v_opt(f)
    && (done && a is None ==> !has_ss(p))
}
pub proof fn lemma_comp_of(b: Seq<u8>, iri: bool)
    requires valid_utf8(b), g_uri(b, iri)
    ensures c_scheme(b) is Some, comp_ok(c_scheme(b)->Some_0, c_authority(b), c_path(b), c_query(b), c_fragment(b), false, iri)
{
    lemma_ok_parts(b, iri);
    lemma_scheme_pos(b);
    lemma_path_sat(c_path(b), c_authority(b) is Some, false, iri);
}
proof fn lemma_opt_false(o: Option<Seq<u8>>, iri: bool)
    requires v_opt(o)
    ensures enco(o, false, iri) == o
{ if o is Some { decode_utf8_encode_utf8(o->Some_0); } }
pub proof fn lemma_opt_valid(o: Option<Seq<u8>>, k: Cls, pct: bool, iri: bool)
    requires o matches Some(x) ==> valid_utf8(x) && is_sat(x, k, iri), !(k is Varname)
    ensures enco(o, pct, iri) matches Some(x) ==> valid_utf8(x) && is_sat(x, k, iri)
{ if pct { lemma_opt_ok(o, k, iri); } else { lemma_opt_false(o, iri); } }
pub open spec fn tx_path(p: Seq<u8>, auth: bool, keep: bool, done: bool, pct: bool, iri: bool) -> Seq<char> { if done && !pct { dec(p) } else { path_text(p, keep, auth, pct, iri) } }
#[verifier::spinoff_prover]
pub proof fn lemma_tx_ok(s: Seq<u8>, a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, keep: bool, done: bool, pct: bool, iri: bool)
    requires comp_ok(s, a, p, q, f, done, iri)
    ensures ({ let t = full_text(s, a, tx_path(p, a is Some, keep, done, pct, iri), q, f, pct, iri); let e = encode_utf8(t);
        valid_utf8(e) && dec(e) == t && g_uri(e, iri) && (f is None ==> g_absolute(e, iri)) && c_scheme(e) == Some(if pct { lob(s) } else { s })
        && c_authority(e) == n_auth(a, pct, iri) && c_path(e) == encode_utf8(tx_path(p, a is Some, keep, done, pct, iri)) && c_query(e) == enco(q, pct, iri) && c_fragment(e) == enco(f, pct, iri) })
{
    hide(g_uri); hide(g_absolute); hide(path_text); hide(auth_text); hide(g_authority); hide(sat); hide(norm); hide(full_text);
    hide(g_scheme); hide(c_scheme); hide(c_authority); hide(c_path); hide(c_query); hide(c_fragment); hide(compose);
    let pt = tx_path(p, a is Some, keep, done, pct, iri);
    let pe = encode_utf8(pt);
    let t = full_text(s, a, pt, q, f, pct, iri);
    if done && !pct {
        decode_utf8_encode_utf8(p);
        lemma_abempty2(p, iri);
    } else { lemma_path_text(p, a is Some, keep, pct, iri); }
    lemma_scheme_lob(s);
    if a is Some { lemma_auth_ok(a->Some_0, iri); }
    lemma_opt_valid(q, Cls::Query, pct, iri);
    lemma_opt_valid(f, Cls::Fragment, pct, iri);
    lemma_full_text(s, a, pt, q, f, pct, iri);
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
    let s2 = if pct { lob(s) } else { s };
    assert(ok_parts(Some(s2), n_auth(a, pct, iri), pe, enco(q, pct, iri), enco(f, pct, iri), iri));
    lemma_compose(Some(s2), n_auth(a, pct, iri), pe, enco(q, pct, iri), enco(f, pct, iri), iri);
}
pub proof fn lemma_abempty2(e: Seq<u8>, iri: bool)
    requires valid_utf8(e), is_sat(e, Cls::PcharSlash, iri)
    ensures e.len() == 0 || e[0] == 0x2f ==> g_path_abempty(e, iri)
{ if e.len() > 0 && e[0] == 0x2f { lemma_abempty(e, iri); } }
proof fn lemma_merge_ok(p: Seq<u8>, k: int, q: Seq<u8>, iri: bool)
    requires valid_utf8(p), is_sat(p, Cls::PcharSlash, iri), 0 <= k < p.len(), p[k] == 0x2f, valid_utf8(q), is_sat(q, Cls::PcharSlash, iri)
    ensures ({ let m = pfx(p, k + 1) + q; valid_utf8(m) && is_sat(m, Cls::PcharSlash, iri) })
{
    let m = pfx(p, k + 1) + q;
    lemma_dec_at(p, k);
    let x = dec(pfx(p, k));
    let t = seq!['/'] + dec(q);
    lemma_sat_brk(x, seq!['/'] + dec(sfx(p, k + 1)), Cls::PcharSlash, iri);
    assert(t.skip(1) =~= dec(q));
    lemma_sat_brk(x, t, Cls::PcharSlash, iri);
    lemma_one_slash_sat(iri);
    lemma_dec_cat(seq![0x2fu8], q);
    lemma_dec1(0x2fu8);
    lemma_dec_cat(pfx(p, k), seq![0x2fu8] + q);
    assert(m =~= pfx(p, k) + (seq![0x2fu8] + q));
}
#[verifier::spinoff_prover]
/// RFC 3986 5.2.2: the components of the target
pub proof fn lemma_target_ok(b: Seq<u8>, r: Seq<u8>, iri: bool)
    requires valid_utf8(b), valid_utf8(r), g_uri(b, iri), g_reference(r, iri)
    ensures t_scheme(b, r) is Some, comp_ok(t_scheme(b, r)->Some_0, t_authority(b, r), t_path(b, r), crate::nstext::t_query(b, r), crate::nstext::t_fragment(b, r), t_done(r), iri)
{
    hide(g_uri); hide(g_authority); hide(sat); hide(g_scheme); hide(c_scheme); hide(c_authority); hide(c_path); hide(c_query); hide(c_fragment);
    lemma_comp_of(b, iri);
    assert(g_reference(b, iri)) by { reveal(g_uri); }
    lemma_ok_parts(b, iri);
    lemma_ok_parts(r, iri);
    lemma_path_sat(c_path(r), c_authority(r) is Some, c_scheme(r) is None, iri);
    let (p, q) = (c_path(b), c_path(r));
    if !(c_scheme(r) is Some || c_authority(r) is Some) && q.len() > 0 && q[0] != 0x2f {
        let k = last1(p, 0x2f);
        lemma_last(p, 0x2f, 0x2f);
        if c_authority(b) is Some && p.len() == 0 {
            let s1 = seq![0x2fu8];
            assert(is_sat(s1, Cls::PcharSlash, iri) && valid_utf8(s1)) by { lemma_one_slash_sat(iri); }
            lemma_merge_ok(s1, 0, q, iri);
            assert(pfx(s1, 1) =~= s1);
        } else if k >= 0 { lemma_merge_ok(p, k, q, iri); assert(merge(b, q)[0] == p[0]); }
        else if c_authority(b) is Some { assert(p[0] == 0x2f); assert(false); }
    }
}
proof fn lemma_one_slash_sat(iri: bool)
    ensures valid_utf8(seq![0x2fu8]), is_sat(seq![0x2fu8], Cls::PcharSlash, iri)
{
    lemma_dec1(0x2fu8);
    let s = seq!['/'];
    assert(dec(seq![0x2fu8]) =~= s);
    crate::vstring::lemma_enc1('/'); encode_utf8_valid_utf8(s);
    assert(s.skip(1) =~= Seq::<char>::empty());
    assert(sat(s.skip(1), Cls::PcharSlash, iri));
    assert(sat(s, Cls::PcharSlash, iri));
}
