#module percent_encode::decode
#file percent_encode/decode.rs
#raw
use crate::vx::*;
use crate::parser::char::{hexdig, hexval};
use crate::parser::str::*;
broadcast use {crate::vx::group_vx};
/// `%` and two hexadecimal digits at `i`
pub open spec fn trip_at(b: Seq<u8>, i: int) -> bool { 0 <= i && i + 2 < b.len() && b[i] == 0x25 && hexdig(b[i + 1]) && hexdig(b[i + 2]) }
pub open spec fn trip_val(b: Seq<u8>, i: int) -> u8 { (16 * hexval(b[i + 1]) + hexval(b[i + 2])) as u8 }
/// the WHATWG percent-decode algorithm
pub open spec fn whatwg(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() }
    else if trip_at(b, 0) { seq![trip_val(b, 0)] + whatwg(sfx(b, 3)) }
    else { seq![b[0]] + whatwg(sfx(b, 1)) }
}
/// index of the first triplet at or after `i` (len when none)
pub open spec fn ft(b: Seq<u8>, i: int) -> int
    decreases b.len() - i
{
    if i >= b.len() { b.len() as int } else if trip_at(b, i) { i } else { ft(b, i + 1) }
}
pub proof fn lemma_ft(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures i <= ft(b, i) <= b.len(), ft(b, i) < b.len() ==> trip_at(b, ft(b, i)), forall|j: int| i <= j < ft(b, i) ==> !#[trigger] trip_at(b, j)
    decreases b.len() - i
{
    if i < b.len() && !trip_at(b, i) { lemma_ft(b, i + 1); }
}
pub proof fn lemma_ft_skip(b: Seq<u8>, i: int, k: int)
    requires 0 <= i <= k <= b.len(), forall|j: int| i <= j < k ==> !#[trigger] trip_at(b, j)
    ensures ft(b, i) == ft(b, k)
    decreases k - i
{
    if i < k { assert(!trip_at(b, i)); lemma_ft_skip(b, i + 1, k); }
}
/// a prefix without triplet starts is copied
pub proof fn lemma_whatwg_copy(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(), forall|j: int| 0 <= j < k ==> !#[trigger] trip_at(b, j)
    ensures whatwg(b) == pfx(b, k) + whatwg(sfx(b, k))
    decreases k
{
    if k > 0 {
        let t = sfx(b, 1);
        assert(!trip_at(b, 0));
        assert forall|j: int| 0 <= j < k - 1 implies !#[trigger] trip_at(t, j) by { assert(!trip_at(b, j + 1)); }
        lemma_whatwg_copy(t, k - 1);
        assert(sfx(t, k - 1) =~= sfx(b, k));
        assert(seq![b[0]] + (pfx(t, k - 1) + whatwg(sfx(b, k))) =~= pfx(b, k) + whatwg(sfx(b, k)));
    } else {
        assert(sfx(b, 0) =~= b);
        assert(pfx(b, 0) + whatwg(b) =~= whatwg(b));
    }
}
pub proof fn lemma_whatwg_at(b: Seq<u8>)
    ensures ft(b, 0) == b.len() ==> whatwg(b) == b,
        ft(b, 0) < b.len() ==> whatwg(b) == pfx(b, ft(b, 0)).push(trip_val(b, ft(b, 0))) + whatwg(sfx(b, ft(b, 0) + 3)),
{
    lemma_ft(b, 0);
    let k = ft(b, 0);
    lemma_whatwg_copy(b, k);
    let t = sfx(b, k);
    if k < b.len() {
        assert(trip_at(t, 0));
        assert(sfx(t, 3) =~= sfx(b, k + 3));
        assert(pfx(b, k) + (seq![trip_val(b, k)] + whatwg(sfx(b, k + 3))) =~= pfx(b, k).push(trip_val(b, k)) + whatwg(sfx(b, k + 3)));
    } else {
        assert(t =~= Seq::<u8>::empty());
        assert(pfx(b, k) + whatwg(t) =~= b);
    }
}
#item struct PercentDecodedWhatwgBytes
#item enum DecodedFragment
#item struct PercentDecodedBytesFragments
#raw
pub open spec fn frag_bytes(f: DecodedFragment<'_>) -> Seq<u8> {
    match f { DecodedFragment::Direct(x) => x@, DecodedFragment::DecodedByte(b) => seq![b], DecodedFragment::StrayPercent => seq![0x25u8] }
}
#fn PercentDecodedWhatwgBytes::from_raw
#ensures r.not_yet_decoded == not_yet_decoded
#fn decode_whatwg_bytes
#ensures r.not_yet_decoded == bytes
#fn PercentDecodedWhatwgBytes::not_yet_decoded
#ensures r == self.not_yet_decoded
#fn PercentDecodedWhatwgBytes::try_non_allocating_decode call=strip_decode_xdigits2->strip_decode_xdigits2_bytes
#ensures ({ let b = self.not_yet_decoded@; let k = ft(b, 0); match r {
    Some((n, d, t)) => k < b.len() && n == k && d == trip_val(b, k) && t@ == sfx(b, k + 3),
    None => k == b.len() } })
#proof start
    let ghost b = self.not_yet_decoded@;
#closure 0 |b: u8| -> (r: bool) ensures r == (b == 0x25u8)
#loop 0
    invariant rest@.len() <= b.len(), rest@ == sfx(b, b.len() - rest@.len()), ft(b, 0) == ft(b, b.len() - rest@.len()), b == self.not_yet_decoded@,
    decreases rest@.len()
#proof loop 0 start
    let ghost p = b.len() - rest@.len();
    let ghost r0 = rest@;
    proof {
        if forall|j: int| 0 <= j < r0.len() ==> r0[j] != 0x25u8 {
            assert forall|j: int| p <= j < b.len() implies !#[trigger] trip_at(b, j) by { assert(r0[j - p] != 0x25u8); assert(r0[j - p] == b[j]); }
            lemma_ft_skip(b, p, b.len() as int);
        }
    }
#proof let len_before_pct
    proof {
        assert(r0[pct_pos as int] == b[p + pct_pos]);
        assert forall|j: int| p <= j < p + pct_pos implies !#[trigger] trip_at(b, j) by { assert(r0[j - p] == b[j]); }
        lemma_ft_skip(b, p, p + pct_pos);
    }
#proof let after_pct
    proof {
        assert(after_pct@ =~= sfx(b, p + pct_pos + 1));
        if after_pct@.len() >= 2 { assert(after_pct@[0] == b[p + pct_pos + 1]); assert(after_pct@[1] == b[p + pct_pos + 2]); }
        if after_pct@.len() >= 2 { assert(sfx(after_pct@, 2) =~= sfx(b, p + pct_pos + 3)); }
        if !trip_at(b, p + pct_pos) { lemma_ft_skip(b, p + pct_pos, p + pct_pos + 1); }
    }
#fn PercentDecodedWhatwgBytes::to_bytes
#ensures ({ let b = self.not_yet_decoded@; match r { Some(t) => t@ == b && whatwg(b) == b && ft(b, 0) == b.len(), None => ft(b, 0) < b.len() } })
#proof start
    proof { lemma_whatwg_at(self.not_yet_decoded@); }
#fn PercentDecodedWhatwgBytes::into_bytes call=strip_decode_xdigits2->strip_decode_xdigits2_bytes call=find_split_hole->find_split_hole_bytes call=alloc::vec::Vec::from->vec_from_slice call=core::mem::take->mem_take_bytes call=.extend->.vx_extend
#ensures r.bytes() == whatwg(self.not_yet_decoded@), r is Borrowed == (ft(self.not_yet_decoded@, 0) == self.not_yet_decoded@.len())
#proof start
    let ghost b = self.not_yet_decoded@;
    proof {
        lemma_whatwg_at(b); lemma_ft(b, 0);
        assert(whatwg(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
        assert forall|x: Seq<u8>, y: Seq<u8>| #![trigger x + whatwg(y)] y.len() == 0 implies x + whatwg(y) == x by {
            assert(y =~= Seq::<u8>::empty());
            assert(x + whatwg(y) =~= x);
        }
    }
#loop 0
    invariant_except_break whatwg(b) == result@ + whatwg(rest@),
    ensures whatwg(b) == result@,
    decreases rest@.len()
#proof loop 0 start
    let ghost r0 = rest@;
    let ghost o0 = result@;
    let ghost k = first1(r0, 0x25u8);
    proof {
        assert forall|j: int| 0 <= j < k implies !#[trigger] trip_at(r0, j) by { }
        lemma_whatwg_copy(r0, k);
        if k == r0.len() { assert(sfx(r0, k) =~= Seq::<u8>::empty()); assert(pfx(r0, k) =~= r0); assert(o0 + (r0 + Seq::<u8>::empty()) =~= o0 + r0 + Seq::<u8>::empty()); assert(whatwg(Seq::<u8>::empty()) =~= Seq::<u8>::empty()); }
        else {
            let t = sfx(r0, k);
            assert(t[0] == 0x25u8);
            assert(sfx(t, 1) =~= sfx(r0, k + 1));
            let a = sfx(r0, k + 1);
            if a.len() >= 2 { assert(a[0] == t[1] && a[1] == t[2]); }
            assert(sfx(t, 3) =~= sfx(a, 2) || a.len() < 2);
            assert forall|x: u8, y: Seq<u8>| #![trigger (o0 + pfx(r0, k)).push(x) + y] o0 + (pfx(r0, k) + (seq![x] + y)) == (o0 + pfx(r0, k)).push(x) + y by {
                assert(o0 + (pfx(r0, k) + (seq![x] + y)) =~= (o0 + pfx(r0, k)).push(x) + y);
            }
        }
    }
#fn PercentDecodedWhatwgBytes::bytes_fragments
#ensures r.rest == self.not_yet_decoded
#fn PercentDecodedBytesFragments::not_yet_decoded
#ensures r == self.rest
#fn PercentDecodedBytesFragments::<Iterator>::next rename=imp_next call=strip_decode_xdigits2->strip_decode_xdigits2_bytes
#ensures match r {
    None => old(self).rest@.len() == 0 && final(self).rest@.len() == 0,
    Some(f) => whatwg(old(self).rest@) == frag_bytes(f) + whatwg(final(self).rest@) && final(self).rest@.len() < old(self).rest@.len()
        && (f matches DecodedFragment::Direct(x) ==> x@.len() > 0 && first1(x@, 0x25) == x@.len()),
    }
#closure 0 |b: u8| -> (r: bool) ensures r == (b == 0x25u8)
#proof start
    let ghost r0 = self.rest@;
    let ghost a = sfx(r0, 1);
    let ghost k = first1(a, 0x25u8);
    proof {
        assert(whatwg(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
        if r0.len() > 0 {
            if r0[0] == 0x25u8 {
                if a.len() >= 2 { assert(a[0] == r0[1] && a[1] == r0[2]); assert(sfx(a, 2) =~= sfx(r0, 3)); }
            } else {
                assert forall|j: int| 0 <= j < k + 1 implies !#[trigger] trip_at(r0, j) by { if j > 0 { assert(a[j - 1] == r0[j]); } }
                lemma_whatwg_copy(r0, k + 1);
                let x = pfx(r0, k + 1);
                assert forall|j: int| 0 <= j < x.len() implies #[trigger] x[j] != 0x25u8 by { if j > 0 { assert(a[j - 1] == x[j]); } }
                lemma_first_is(x, x.len() as int, 0x25u8, 0x25u8, 0x25u8, 0x25u8);
                if k + 1 == r0.len() { assert(x =~= r0); assert(sfx(r0, k + 1) =~= Seq::<u8>::empty()); }
            }
        }
    }
