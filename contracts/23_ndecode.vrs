#module ndecode
#raw
// Percent-decoding does not see percent-encoding and case normalization.
use crate::vx::*;
use crate::pct::*;
use crate::ptext::*;
use crate::nstext::*;
use crate::nvalid::{lemma_norm_step, lemma_none_bytes, lemma_upper, lemma_all_head, lemma_unres, noneb, lemma_all_trips};
use crate::text::*;
use crate::parser::char::*;
use crate::percent_encode::decode::{whatwg, trip_at, trip_val, lemma_whatwg_copy};
use crate::vfmt::{pct_all, pct_upper, lemma_pct_step};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx};
/// the bytes a text stands for
pub open spec fn pdec(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if is_t(s) { seq![tv(s)] + pdec(s.skip(3)) }
    else { enc1(s[0]) + pdec(s.skip(1)) }
}
proof fn lemma_pdec_all(b: Seq<u8>, t: Seq<char>)
    ensures pdec(pct_all(b) + t) == b + pdec(t)
    decreases b.len()
{
    if b.len() == 0 { assert(pct_all(b) + t =~= t); assert(b + pdec(t) =~= pdec(t)); }
    else {
        let r = b.skip(1);
        assert(b =~= seq![b[0]] + r);
        lemma_all_head(b[0], r);
        let u = pct_all(r) + t;
        assert(pct_all(b) + t =~= pct_upper(b[0]) + u);
        lemma_upper(b[0], u);
        lemma_pdec_all(r, t);
        assert(seq![b[0]] + (r + pdec(t)) =~= b + pdec(t));
    }
}
proof fn lemma_pdec_trips(s: Seq<char>, n: nat)
    requires trips(s, n)
    ensures 3 * n <= s.len(), pdec(s) == tb(s, n) + pdec(s.skip(3 * n as int))
    decreases n
{
    lemma_trips_len(s, n);
    if n == 0 { assert(s.skip(0) =~= s); assert(tb(s, 0) + pdec(s) =~= pdec(s)); }
    else {
        lemma_pdec_trips(s.skip(3), (n - 1) as nat);
        assert(s.skip(3).skip(3 * (n - 1)) =~= s.skip(3 * n as int));
        let a = tb(s.skip(3), (n - 1) as nat);
        let z = pdec(s.skip(3 * n as int));
        assert(seq![tv(s)] + (a + z) =~= seq![tv(s)] + a + z);
    }
}
/// the normal form stands for the same bytes
pub proof fn lemma_pdec_norm(s: Seq<char>, iri: bool)
    requires wft(s)
    ensures pdec(norm(s, iri)) == pdec(s)
    decreases s.len()
{
    if s.len() > 0 {
        let p = lemma_norm_step(s, iri);
        let n = norm(s.skip(p.1), iri);
        lemma_pdec_norm(s.skip(p.1), iri);
        let t = p.0 + n;
        if !is_t(s) {
            assert(t[0] == s[0]);
            assert(t.skip(1) =~= n);
        } else if exists|c: char| is_head(s, c) {
            let c = choose|c: char| #[trigger] is_head(s, c) && p.1 == 3 * enc1(c).len() && tv(s) == enc1(c)[0] && p.0 == (if unres(c, iri) { seq![c] } else { pct_all(enc1(c)) });
            lemma_pdec_trips(s, enc1(c).len());
            if unres(c, iri) { lemma_unres(c, iri); assert(t[0] == c); assert(t.skip(1) =~= n); }
            else { lemma_pdec_all(enc1(c), n); }
        } else {
            lemma_upper(tv(s), n);
        }
    } else { assert(norm(s, iri) =~= s); }
}
/// and it is what percent-decoding of the UTF-8 text gives
pub proof fn lemma_pdec_whatwg(s: Seq<char>)
    requires wft(s)
    ensures whatwg(encode_utf8(s)) == pdec(s)
    decreases s.len()
{
    let b = encode_utf8(s);
    if s.len() == 0 { assert(b =~= Seq::<u8>::empty()) by { assert(s =~= Seq::empty()); } }
    else if is_t(s) {
        lemma_first_ascii(s, '%');
        let (s1, s2) = (s.skip(1), s.skip(1).skip(1));
        lemma_first_ascii(s1, s[1]);
        lemma_first_ascii(s2, s[2]);
        let e = encode_utf8(s.skip(3));
        assert(s2.skip(1) =~= s.skip(3));
        assert(b[0] == 0x25 && b[1] == s[1] as u8 && b[2] == s[2] as u8 && b.len() == 3 + e.len());
        assert(sfx(b, 3) =~= e);
        assert(hexdig(s[1] as u8) && hexdig(s[2] as u8));
        assert(trip_at(b, 0));
        assert(trip_val(b, 0) == tv(s));
        lemma_pdec_whatwg(s.skip(3));
    } else {
        let c = s[0];
        assert(s =~= seq![c] + s.skip(1));
        let e = encode_utf8(s.skip(1));
        encode_utf8_concat(seq![c], s.skip(1));
        lemma_enc1_scalar(c);
        lemma_none_bytes(enc1(c), 0x25);
        let k = enc1(c).len() as int;
        assert forall|j: int| 0 <= j < k implies !#[trigger] trip_at(b, j) by { assert(b[j] == enc1(c)[j]); }
        lemma_whatwg_copy(b, k);
        assert(pfx(b, k) =~= enc1(c));
        assert(sfx(b, k) =~= e);
        lemma_pdec_whatwg(s.skip(1));
    }
}
/// C06: percent-decoding the normal form and the text gives the same bytes
pub proof fn lemma_decode_norm(s: Seq<char>, iri: bool)
    requires wft(s)
    ensures whatwg(encode_utf8(norm(s, iri))) == whatwg(encode_utf8(s))
{
    lemma_pdec_norm(s, iri);
    lemma_pdec_whatwg(s);
    crate::nvalid::lemma_norm_idem(s, iri);
    lemma_pdec_whatwg(norm(s, iri));
}
#end
