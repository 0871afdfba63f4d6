#module normalize::path
#file normalize/path.rs
#raw
use crate::vx::*;
use crate::pct::*;
use crate::npath::*;
use crate::ptext::*;
use crate::normalize::*;
use crate::parser::char::*;
use crate::parser::str::*;
use crate::spec::*;
use crate::normalize::pct_case::*;
use crate::normalize::error::Error;
use crate::vfmt as fmt;
use crate::vfmt::{Write, WriteExt};
use core::ops::{ControlFlow, Range};
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec};
#item struct PathToNormalize
#item enum Path
#raw
impl<'a> PathToNormalize<'a> {
    /// the path
    pub closed spec fn tx(self) -> Seq<u8> { self.front.spec_bytes() + match self.back { Some(b) => b.spec_bytes(), None => Seq::empty() } }
    pub closed spec fn wf(self) -> bool {
        match self.back { Some(b) => b.spec_bytes().len() > 0 && self.front.spec_bytes().len() > 0 && self.front.spec_bytes().last() == 0x2f, None => true }
    }
    /// the two parts
    pub proof fn lemma_parts(self, i: int)
        requires self.wf(), 0 <= i <= self.tx().len()
        ensures ({ let a = self.front.spec_bytes(); let b = match self.back { Some(b) => b.spec_bytes(), None => Seq::empty() }; let t = self.tx();
            t == a + b && valid_utf8(t) && t.len() <= usize::MAX && valid_utf8(a) && valid_utf8(b)
            && (i <= a.len() ==> is_char_boundary(t, i) == is_char_boundary(a, i)) && (i >= a.len() ==> is_char_boundary(t, i) == is_char_boundary(b, i - a.len())) })
    {
        lemma_str_dec(self.front);
        let b = match self.back { Some(b) => { lemma_str_dec(b); b.spec_bytes() }, None => { assert(valid_utf8(Seq::<u8>::empty())) by { reveal_with_fuel(valid_utf8, 1); } Seq::empty() } };
        lemma_bnd_cat(self.front.spec_bytes(), b, i);
        crate::vx::axiom_str_len(self.front);
        if self.back is Some { crate::vx::axiom_str_len(self.back->Some_0); }
    }
}
pub open spec fn kind_of(b: Seq<u8>) -> SegmentKind { if dot1(b) { SegmentKind::Dot } else if dot2(b) { SegmentKind::DotDot } else { SegmentKind::Normal } }
/// merging of paths (RFC 3986 5.2.3, for a base that is not empty)
pub open spec fn merged(b: Seq<u8>, r: Seq<u8>) -> Seq<u8> {
    if r.len() > 0 && r[0] == 0x2f { r } else { let k = last1(b, 0x2f); if k >= 0 { pfx(b, k + 1) + r } else { r } }
}
#fn PathToNormalize::from_single_path
#ensures r.wf(), r.tx() == path.spec_bytes()
#fn PathToNormalize::from_paths_to_be_resolved
#ensures r.wf(), r.tx() == merged(base.spec_bytes(), reference.spec_bytes())
#closure 0 |s: &&str| -> (r: bool) ensures r == (s.spec_bytes().len() > 0)
#fn PathToNormalize::is_empty
#requires self.wf()
#ensures r == (self.tx().len() == 0)
#fn PathToNormalize::len
#requires self.wf()
#ensures r == self.tx().len()
#closure 0 |s: &str| -> (r: usize) ensures r == s.spec_bytes().len()
#fn PathToNormalize::starts_with_slash
#requires self.wf()
#ensures r == (self.tx().len() > 0 && self.tx()[0] == 0x2f)
#fn PathToNormalize::byte_at
#requires self.wf(), i <= self.tx().len()
#ensures r == (if i < self.tx().len() { Some(self.tx()[i as int]) } else { None::<u8> })
#closure 0 |back: &str| -> (r: Option<u8>) ensures r == (if back_i < back.spec_bytes().len() { Some(back.spec_bytes()[back_i as int]) } else { None::<u8> })
#fn PathToNormalize::find_next_slash_from
#requires self.wf(), start <= self.tx().len(), is_char_boundary(self.tx(), start as int)
#ensures match r { Some(i) => i == slash_at(self.tx(), start as int) && i < self.tx().len(), None => slash_at(self.tx(), start as int) == self.tx().len() }
#proof start
    proof {
        self.lemma_parts(start as int);
        let b = match self.back { Some(b) => b.spec_bytes(), None => Seq::empty() };
        lemma_slash_cat(self.front.spec_bytes(), b, start as int);
        assert(sfx(self.tx(), self.tx().len() as int).len() == 0);
        assert(sfx(b, 0) =~= b);
        assert(self.front.spec_bytes() + Seq::<u8>::empty() =~= self.front.spec_bytes());
    }
#closure 0 |pos: usize| -> (r: usize) requires start + pos <= usize::MAX ensures r == start + pos
#fn PathToNormalize::remove_start
#requires old(self).wf(), len <= old(self).tx().len(), is_char_boundary(old(self).tx(), len as int)
#ensures final(self).wf(), final(self).tx() == sfx(old(self).tx(), len as int)
#proof start
    proof {
        self.lemma_parts(len as int);
        let a = self.front.spec_bytes();
        let b = match self.back { Some(b) => b.spec_bytes(), None => Seq::empty() };
        if len >= a.len() { assert(sfx(self.tx(), len as int) =~= sfx(b, len - a.len())); assert(sfx(b, len - a.len()) + Seq::<u8>::empty() =~= sfx(b, len - a.len())); }
        else { assert(sfx(self.tx(), len as int) =~= sfx(a, len as int) + b); assert(self.back is Some ==> sfx(a, len as int).last() == 0x2f); }
        assert(self.back is None ==> sfx(b, 0) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty());
    }
#closure 0 |s: &'a str| -> (r: Option<&'a str>) ensures match r { Some(t) => back_len <= s.spec_bytes().len() && t.spec_bytes() == sfx(s.spec_bytes(), back_len as int), None => back_len > s.spec_bytes().len() || !is_char_boundary(s.spec_bytes(), back_len as int) }
#item enum SegmentKind
#fn SegmentKind::from_segment
#ensures r == kind_of(s.spec_bytes())
#proof start
    proof { lemma_dot_lens(s.spec_bytes()); }
#item struct PathSegment
#raw
impl PathSegment {
    /// the name lies in one of the parts
    pub closed spec fn in_path(self, path: PathToNormalize<'_>) -> bool { self.name_range.end <= path.front.spec_bytes().len() || self.name_range.start >= path.front.spec_bytes().len() }
}
#fn PathSegment::segment rangeidx
#requires path.wf(), self.in_path(*path), self.name_range.start <= self.name_range.end <= path.tx().len(), is_char_boundary(path.tx(), self.name_range.start as int), is_char_boundary(path.tx(), self.name_range.end as int),
#proof start
    proof {
        let (x, y) = (self.name_range.start as int, self.name_range.end as int);
        path.lemma_parts(x); path.lemma_parts(y);
        let a = path.front.spec_bytes();
        let b = match path.back { Some(b) => b.spec_bytes(), None => Seq::empty() };
        if y <= a.len() { assert(path.tx().subrange(x, y) =~= a.subrange(x, y)); }
        else if x >= a.len() { assert(path.tx().subrange(x, y) =~= b.subrange(x - a.len(), y - a.len())); }
    }
#ensures r.spec_bytes() == path.tx().subrange(self.name_range.start as int, self.name_range.end as int)
#fn PathSegment::kind
#requires path.wf(), self.in_path(*path), self.name_range.start <= self.name_range.end <= path.tx().len(), is_char_boundary(path.tx(), self.name_range.start as int), is_char_boundary(path.tx(), self.name_range.end as int),
#ensures r == kind_of(path.tx().subrange(self.name_range.start as int, self.name_range.end as int))
#raw
impl<'a> PathToNormalize<'a> {
    pub proof fn lemma_in_path(self, c: int)
        requires self.wf(), 0 <= c < self.tx().len()
        ensures ({ let t = self.tx(); seg_end(t, c) <= self.front.spec_bytes().len() || seg_start(t, c) >= self.front.spec_bytes().len() })
    {
        let b = match self.back { Some(b) => b.spec_bytes(), None => Seq::empty() };
        let s = seg_start(self.tx(), c);
        lemma_slash_cat(self.front.spec_bytes(), b, s);
        assert(self.front.spec_bytes() + Seq::<u8>::empty() =~= self.front.spec_bytes());
    }
}
#item struct PathSegmentsIter
#fn PathSegmentsIter::new
#requires path.wf()
#ensures r.path == path, r.cursor == 0, is_char_boundary(path.tx(), 0)
#proof start
    proof { path.lemma_parts(0); assert(is_char_boundary(path.tx(), 0)); }
#fn PathSegmentsIter::<Iterator>::next rename=next
#requires old(self).path.wf(), old(self).cursor <= old(self).path.tx().len(), is_char_boundary(old(self).path.tx(), old(self).cursor as int)
#proof start
    proof {
        self.path.lemma_parts(self.cursor as int);
        if self.cursor < self.path.tx().len() { lemma_seg(self.path.tx(), self.cursor as int); self.path.lemma_in_path(self.cursor as int); }
    }
#closure 0 || -> (r: usize) ensures r == self.path.tx().len()
#ensures final(self).path == old(self).path, ({ let t = old(self).path.tx(); let c = old(self).cursor as int;
    match r {
        None => c == t.len() && final(self).cursor == c,
        Some(x) => c < t.len() && x.has_leading_slash == (t[c] == 0x2f) && x.name_range.start == seg_start(t, c) && x.name_range.end == seg_end(t, c) && final(self).cursor == seg_end(t, c) && x.in_path(*old(self).path),
    } })
#fn PathToNormalize::remove_ignorable_prefix
#requires old(self).wf()
#ensures final(self).wf(), final(self).tx() == strip_pre(old(self).tx())
#loop 0
    invariant self.wf(), strip_pre(self.tx()) == strip_pre(old(self).tx()),
    ensures self.tx() == strip_pre(self.tx()),
    decreases self.tx().len()
#proof loop 0 start
    let ghost t0 = self.tx();
    proof {
        self.lemma_parts(0);
        self.lemma_parts(t0.len() as int);
        lemma_seg(t0, 0);
        self.lemma_in_path(0);
        if seg_end(t0, 0) < t0.len() { self.lemma_parts(seg_end(t0, 0) + 1); }
        assert(sfx(t0, t0.len() as int) =~= Seq::<u8>::empty());
        assert(strip_pre(Seq::<u8>::empty()) =~= Seq::<u8>::empty());
        let a = self.front.spec_bytes();
        lemma_first(sfx(t0, 0), 0x2f, 0x2f, 0x2f, 0x2f);
        if t0[0] != 0x2f {
            if seg_end(t0, 0) == a.len() && self.back is Some { assert(sfx(t0, 0)[a.len() - 1] == 0x2f); }
            assert(seg_end(t0, 0) == a.len() ==> t0 == a);
            assert(seg_name(t0, 0) == t0.subrange(0, seg_end(t0, 0)));
        }
    }
#raw
/// the text written for a segment
pub open spec fn emitted(o: Option<bool>, hl: bool, name: Seq<u8>, auth: bool, pct: bool, iri: bool) -> Seq<char> {
    match o {
        None => slash(hl) + nm(name, pct, iri),
        Some(x) => if x && !auth { seq!['.', '/', '/'] + nm(name, pct, iri) } else { seq!['/'] + nm(name, pct, iri) },
    }
}
pub proof fn lemma_emitted<W: Write>(f: W, o: Option<bool>, hl: bool, name: Seq<u8>, auth: bool, pct: bool, iri: bool)
    ensures ({ let tt = emitted(o, hl, name, auth, pct, iri); let n = nm(name, pct, iri);
        prog(f, tt, f, tt)
        && (match o { None => tt == slash(hl) + n && (!hl ==> tt == n), Some(x) => if x && !auth { tt == seq!['.', '/'] + (seq!['/'] + n) } else { tt == seq!['/'] + n } })
        && n + Seq::<char>::empty() == n })
{
    let tt = emitted(o, hl, name, auth, pct, iri); let n = nm(name, pct, iri);
    lemma_prog_start(f, tt);
    assert(n + Seq::<char>::empty() =~= n);
    assert(Seq::<char>::empty() + n =~= n);
    assert(seq!['.', '/', '/'] + n =~= seq!['.', '/'] + (seq!['/'] + n));
}
#fn PathToNormalize::emit_segment
#requires W::winv(*old(f)), okp(segname.spec_bytes(), op.mode.pct())
#ensures ({ let tt = emitted(*old(only_a_slash_is_written), first_segment_has_leading_slash, segname.spec_bytes(), authority_is_present, op.mode.pct(), S::iri());
    (r is Ok ==> W::winv(*final(f)) && W::wrote(*old(f), tt, *final(f)) && *final(only_a_slash_is_written) == (match *old(only_a_slash_is_written) { None => Some(first_segment_has_leading_slash && segname.spec_bytes().len() == 0), Some(x) => Some(x && authority_is_present) }))
    && (r is Err ==> W::failed(*old(f), tt, *final(f))) })
#proof start
    let ghost f0 = *f;
    let ghost tt = emitted(*only_a_slash_is_written, first_segment_has_leading_slash, segname.spec_bytes(), authority_is_present, op.mode.pct(), S::iri());
    let ghost n = nm(segname.spec_bytes(), op.mode.pct(), S::iri());
    proof {
        lemma_emitted(*f, *only_a_slash_is_written, first_segment_has_leading_slash, segname.spec_bytes(), authority_is_present, op.mode.pct(), S::iri());
        lemma_lits();
        let sn = seq!['/'] + n;
        lemma_progs(f0, tt, seq!['.', '/'] + sn, seq!['.', '/'], sn);
        lemma_progs(f0, tt, sn, seq!['/'], n);
        lemma_progs_end(f0, tt, n);
    }
#raw
impl<'a> PathSegmentsIter<'a> { pub fn vx_into_iter(self) -> (r: Self) ensures r == self { self } }
pub open spec fn isdot(b: Seq<u8>) -> bool { dot1(b) || dot2(b) }
pub proof fn lemma_skip_step(t: Seq<u8>, k: int, d: bool)
    requires valid_utf8(t), 0 <= k < t.len(), is_char_boundary(t, k), isdot(seg_name(t, k))
    ensures fold(t, k, Seq::empty()) == fold(t, seg_end(t, k), Seq::empty()), ldot(t, k, d) == ldot(t, seg_end(t, k), true)
{ lemma_seg(t, k); }
/// after the leading dot segments
pub proof fn lemma_skipped(t: Seq<u8>, k: int, d: bool, pct: bool)
    requires okp(t, pct), 0 < k < t.len() ==> t[k] == 0x2f, valid_utf8(t), 0 <= k <= t.len(), is_char_boundary(t, k), t.len() > 0, fold(t, 0, Seq::empty()) == fold(t, k, Seq::empty()), ldot(t, 0, false) == ldot(t, k, d), k == t.len() ==> d
    ensures fold(sfx(t, k), 0, Seq::empty()) == fold(t, 0, Seq::empty()), k < t.len() ==> ldot(sfx(t, k), 0, false) == ldot(t, 0, false), k == t.len() ==> ldot(t, 0, false) && fold(t, 0, Seq::empty()) == Seq::<Seg>::empty(),
        okp(sfx(t, k), pct), k < t.len() ==> seg_name(sfx(t, k), 0) == seg_name(t, k)
{
    crate::text::lemma_valid_split(t, k);
    assert(t =~= pfx(t, k) + sfx(t, k));
    if k > 0 { lemma_nm_cut(pfx(t, k), sfx(t, k), pct, true); } else { assert(sfx(t, k) =~= t); }
    if k < t.len() { lemma_sfx_seg(t, k, 0); }
    lemma_shift(t, k, 0, Seq::empty(), d);
    if k < t.len() { let u = sfx(t, k); crate::text::lemma_valid_split(t, k); assert(is_char_boundary(u, 0)); lemma_seg(u, 0); }
}
pub proof fn lemma_emit2(st: Seq<Seg>, tr: bool, o: Option<bool>, hl: bool, auth: bool, pct: bool, iri: bool)
    requires st.len() > 0, o is None ==> hl == st[0].hl
    ensures rem(st, tr, o, auth, pct, iri) == emitted(o, hl, st[0].name, auth, pct, iri) + rem(st.skip(1), tr, match o { None => Some(hl && st[0].name.len() == 0), Some(x) => Some(x && auth) }, auth, pct, iri)
{
    lemma_emit(st, tr, o, auth, pct, iri);
    let n = nm(st[0].name, pct, iri);
    match o {
        None => { let r = rem(st.skip(1), tr, Some(hl && st[0].name.len() == 0), auth, pct, iri); assert(slash(hl) + (n + r) =~= slash(hl) + n + r); }
        Some(x) => { let r = rem(st.skip(1), tr, Some(x && auth), auth, pct, iri);
            assert(seq!['.', '/'] + (seq!['/'] + (n + r)) =~= seq!['.', '/', '/'] + n + r);
            assert(Seq::<char>::empty() + (seq!['/'] + (n + r)) =~= seq!['/'] + n + r); }
    }
}
/// the state of the scan of segments: stack `st`, split into its first `n` entries and the segments `tst` from `e` on
pub open spec fn scan(t: Seq<u8>, c: int, st: Seq<Seg>, tst: Seq<Seg>, d: bool, e: int, n: int, pct: bool) -> bool {
    &&& 0 <= e <= c <= t.len() && is_char_boundary(t, c) && is_char_boundary(t, e)
    &&& (0 < c < t.len() ==> t[c] == 0x2f) && (0 < e < t.len() ==> t[e] == 0x2f) && (c > 0 ==> e > 0)
    &&& fold(t, 0, Seq::empty()) == fold(t, c, st) && ldot(t, 0, false) == ldot(t, c, d)
    &&& fold(t, e, Seq::empty()) == fold(t, c, tst) && ldot(t, e, false) == ldot(t, c, d)
    &&& st.len() <= c && tst.len() <= st.len() && st == st.take(st.len() - tst.len()) + tst && st.len() - tst.len() == (if st.len() < n { st.len() as int } else { n })
    &&& okp(sfx(t, c), pct) && okp(sfx(t, e), pct)
    &&& forall|i: int| 0 <= i < st.len() ==> okp(#[trigger] st[i].name, pct) && valid_utf8(st[i].name)
}
pub proof fn lemma_scan_start(t: Seq<u8>, n: int, pct: bool)
    requires valid_utf8(t), t.len() > 0, okp(t, pct), n > 0
    ensures scan(t, 0, Seq::empty(), Seq::empty(), false, 0, n, pct)
{
    assert(sfx(t, 0) =~= t);
    assert(Seq::<Seg>::empty().take(0) + Seq::<Seg>::empty() =~= Seq::<Seg>::empty());
    assert(is_char_boundary(t, 0));
}
pub proof fn lemma_scan_step(t: Seq<u8>, c: int, st: Seq<Seg>, tst: Seq<Seg>, d: bool, e: int, n: int, pct: bool)
    requires valid_utf8(t), scan(t, c, st, tst, d, e, n, pct), c < t.len(), n > 0, c == 0 ==> !isdot(seg_name(t, 0))
    ensures ({ let s = seg(t, c); let c2 = seg_end(t, c); let st2 = step(st, s);
        c2 > c && (if isdot(s.name) { scan(t, c2, st2, step(tst, s), true, e, n, pct) } else if st.len() < n { scan(t, c2, st2, Seq::empty(), false, c2, n, pct) } else { scan(t, c2, st2, step(tst, s), false, e, n, pct) })
        && nodots(t, c) == (!isdot(s.name) && nodots(t, c2)) && nodots(t, t.len() as int)
    })
{
    lemma_seg(t, c);
    lemma_seg_text(t, c, pct, true);
    let s = seg(t, c); let c2 = seg_end(t, c); let st2 = step(st, s); let tst2 = step(tst, s);
    lemma_dot_lens(s.name);
    assert(fold(t, c, st) == fold(t, c2, st2));
    assert(fold(t, c, tst) == fold(t, c2, tst2));
    assert(ldot(t, c, d) == ldot(t, c2, isdot(s.name)));
    let k = st.len() - tst.len();
    if dot1(s.name) { }
    else if dot2(s.name) {
        if tst.len() > 0 {
            assert(st2 =~= st2.take(k) + tst2);
        } else if st.len() > 0 { assert(st2 =~= st2.take(st2.len() as int) + tst2); }
        assert forall|i: int| 0 <= i < st2.len() implies okp(#[trigger] st2[i].name, pct) && valid_utf8(st2[i].name) by { assert(st2[i] == st[i]); }
    } else {
        assert forall|i: int| 0 <= i < st2.len() implies okp(#[trigger] st2[i].name, pct) && valid_utf8(st2[i].name) by { if i < st.len() { assert(st2[i] == st[i]); } }
        if st.len() < n {
            assert(st2 =~= st2.take(st2.len() as int) + Seq::<Seg>::empty());
        } else {
            assert(st2 =~= st2.take(k) + tst2);
        }
    }
}
/// after the scan
pub proof fn lemma_scan_end(t: Seq<u8>, st: Seq<Seg>, tst: Seq<Seg>, d: bool, e: int, n: int, pct: bool)
    requires valid_utf8(t), scan(t, t.len() as int, st, tst, d, e, n, pct)
    ensures st == fold(t, 0, Seq::empty()), d == ldot(t, 0, false), ({ let u = sfx(t, e); tst == fold(u, 0, Seq::empty()) && d == ldot(u, 0, false) && nodots(u, 0) == nodots(t, e) && okp(u, pct) && (u.len() > 0 && e > 0 ==> u[0] == 0x2f) }),
        st.skip(st.len() - tst.len()) == tst, nodots(t, t.len() as int), st.len() - tst.len() == (if st.len() < n { st.len() as int } else { n }), t.len() > 0 ==> e > 0, is_char_boundary(t, e), e <= t.len(),
{
    lemma_shift(t, e, 0, Seq::empty(), false);
    assert(st.skip(st.len() - tst.len()) =~= tst);
}
#raw
pub open spec fn jmin(i: int, n: int) -> int { if i < n { i } else { n } }
pub proof fn lemma_rem_end(o: Option<bool>, auth: bool, pct: bool, iri: bool)
    ensures rem(Seq::empty(), true, o, auth, pct, iri) == (if o == Some(true) && !auth { seq!['.', '/', '/'] } else { seq!['/'] })
{
    let r = rem(Seq::empty(), true, o, auth, pct, iri);
    assert(r =~= (if o == Some(true) && !auth { seq!['.', '/', '/'] } else { seq!['/'] }));
}
#fn PathToNormalize::resolve_and_write_path_prefixes foriter findty=usize call=.get_mut->&mut:crate::vx::array_get_mut
#requires old(self).wf(), old(self).tx().len() > 0, *old(may_have_not_yet_resolved_dot_segments), W::winv(*old(f)), okp(old(self).tx(), op.mode.pct()), QUEUE_SIZE > 0,
    old(self).tx()[0] == 0x2f || (!isdot(seg_name(old(self).tx(), 0)) && *old(only_a_slash_is_written) is None)
#ensures ({ let t = old(self).tx(); let o = *old(only_a_slash_is_written); let (auth, pct, iri) = (authority_is_present, op.mode.pct(), S::iri()); let tt = rem(fold(t, 0, Seq::empty()), ldot(t, 0, false), o, auth, pct, iri);
    match r {
        Err(_) => W::failed(*old(f), tt, *final(f)),
        Ok(ControlFlow::Break(_)) => W::wrote(*old(f), tt, *final(f)) && W::winv(*final(f)),
        Ok(ControlFlow::Continue(_)) => ({ let u = final(self).tx(); let o2 = *final(only_a_slash_is_written);
            W::winv(*final(f)) && prog(*old(f), tt, *final(f), rem(fold(u, 0, Seq::empty()), ldot(u, 0, false), o2, auth, pct, iri))
            && final(self).wf() && okp(u, pct) && u.len() < t.len() && (u.len() > 0 ==> u[0] == 0x2f) && (!*final(may_have_not_yet_resolved_dot_segments) ==> nodots(u, 0) && o2 is Some) })
    } })
#proof start
    hide(rem); hide(emitted); hide(fold); hide(ldot); hide(nodots); hide(prog); hide(okp); hide(strip_pre);
    let ghost t0 = self.tx();
    let ghost f0 = *f;
    let ghost o0 = *only_a_slash_is_written;
    let ghost pct = op.mode.pct();
    let ghost iri = S::iri();
    let ghost auth = authority_is_present;
    let ghost tt = rem(fold(t0, 0, Seq::empty()), ldot(t0, 0, false), o0, auth, pct, iri);
    let ghost mut st: Seq<Seg> = Seq::empty();
    let ghost mut tst: Seq<Seg> = Seq::empty();
    let ghost mut d = false;
    let ghost mut t1: Seq<u8> = t0;
    proof {
        self.lemma_parts(0); assert(is_char_boundary(t0, 0)); lemma_prog_start(f0, tt); lemma_lits(); lemma_rem_end(o0, auth, pct, iri); lemma_progs_end(f0, tt, seq!['.', '/', '/']); lemma_progs_end(f0, tt, seq!['/']); }
#loop 0
    invariant_except_break vx_it0.cursor == (match vx_r0 { Some(k) => k, None => 0 }),
    invariant vx_it0.path == *self, self.wf(), self.tx() == t0, t0.len() > 0, t0[0] == 0x2f || !isdot(seg_name(t0, 0)), vx_it0.cursor <= t0.len(), is_char_boundary(t0, vx_it0.cursor as int),
        ({ let k = match vx_r0 { Some(k) => k as int, None => 0 }; 0 <= k <= t0.len() && is_char_boundary(t0, k) && fold(t0, 0, Seq::empty()) == fold(t0, k, Seq::empty()) && ldot(t0, 0, false) == ldot(t0, k, vx_r0 is Some) && (0 < k < t0.len() ==> t0[k] == 0x2f) }),
    ensures ({ let k = match vx_r0 { Some(k) => k as int, None => 0 }; k < t0.len() ==> !isdot(seg_name(t0, k)) }),
    decreases t0.len() - vx_it0.cursor
#proof loop 0 start
    let ghost k0 = vx_it0.cursor as int;
    proof {
        self.lemma_parts(k0);
        if k0 < t0.len() { lemma_seg(t0, k0); lemma_dot_lens(seg_name(t0, k0)); if isdot(seg_name(t0, k0)) { lemma_skip_step(t0, k0, vx_r0 is Some); } }
    }
#proof let skipped_len
    proof { lemma_skipped(t0, skipped_len as int, skipped_len > 0, pct); }
#proof before loop 1
    proof { t1 = self.tx(); self.lemma_parts(0); lemma_scan_start(t1, QUEUE_SIZE as int, pct); lemma_seg(t1, 0); }
#loop 1
    invariant QUEUE_SIZE > 0, vx_it1.path == *self, self.wf(), self.tx() == t1, vx_it1.cursor <= t1.len(), t1.len() > 0, !isdot(seg_name(t1, 0)), valid_utf8(t1), t1.len() <= usize::MAX,
        scan(t1, vx_it1.cursor as int, st, tst, d, resolved_end as int, QUEUE_SIZE as int, pct), level == st.len(),
        forall|i: int| 0 <= i < QUEUE_SIZE ==> if i < level { (#[trigger] segname_queue@[i]) is Some && segname_queue@[i]->Some_0.spec_bytes() == st[i].name } else { segname_queue@[i] is None },
        !*may_have_not_yet_resolved_dot_segments ==> nodots(t1, resolved_end as int) == nodots(t1, vx_it1.cursor as int) && level > 0,
        level > 0 ==> first_segment_has_leading_slash == st[0].hl,
    ensures vx_it1.cursor == t1.len(),
    decreases t1.len() - vx_it1.cursor
#proof loop 1 start
    let ghost c0 = vx_it1.cursor as int;
    let ghost st0 = st;
    proof {
        self.lemma_parts(c0);
        if c0 < t1.len() {
            lemma_seg(t1, c0);
            lemma_dot_lens(seg_name(t1, c0));
            lemma_scan_step(t1, c0, st, tst, d, resolved_end as int, QUEUE_SIZE as int, pct);
        }
    }
#proof loop 1 end
    proof {
        let s = crate::npath::seg(t1, c0);
        tst = if !isdot(s.name) && st.len() < QUEUE_SIZE { Seq::empty() } else { step(tst, s) };
        st = step(st, s);
        d = isdot(s.name);
    }
#loop 2
    invariant self.wf(), self.tx() == t1, vx_i2 <= QUEUE_SIZE, W::winv(*f), pct == op.mode.pct(), iri == S::iri(), auth == authority_is_present, f0 == *old(f), t0 == old(self).tx(), o0 == *old(only_a_slash_is_written), tt == rem(fold(t0, 0, Seq::empty()), ldot(t0, 0, false), o0, auth, pct, iri),
        forall|i: int| 0 <= i < QUEUE_SIZE ==> if i < st.len() { (#[trigger] segname_queue@[i]) is Some && segname_queue@[i]->Some_0.spec_bytes() == st[i].name } else { segname_queue@[i] is None },
        forall|i: int| 0 <= i < st.len() ==> okp(#[trigger] st[i].name, pct),
        st.len() > 0 ==> first_segment_has_leading_slash == st[0].hl,
        vx_i2 > 0 && st.len() > 0 ==> *only_a_slash_is_written is Some,
        prog(f0, tt, *f, rem(st.skip(jmin(vx_i2 as int, st.len() as int)), d, *only_a_slash_is_written, auth, pct, iri)),
        vx_i2 > 0 && st.len() > 0 ==> *only_a_slash_is_written is Some,
        vx_i2 == 0 ==> *only_a_slash_is_written == o0,
    decreases QUEUE_SIZE - vx_i2
#proof loop 2 start
    let ghost j0 = vx_i2 as int;
    let ghost ow = *only_a_slash_is_written;
    proof {
        if j0 < st.len() {
            let u = st.skip(j0);
            assert(u[0] == st[j0] && u.skip(1) =~= st.skip(j0 + 1));
            assert(segname_queue@[j0] is Some);
            lemma_emit2(u, d, ow, first_segment_has_leading_slash, auth, pct, iri);
            lemma_progs(f0, tt, rem(u, d, ow, auth, pct, iri), emitted(ow, first_segment_has_leading_slash, u[0].name, auth, pct, iri), rem(u.skip(1), d, match ow { None => Some(first_segment_has_leading_slash && u[0].name.len() == 0), Some(x) => Some(x && auth) }, auth, pct, iri));
        } else { assert(segname_queue@[j0] is None); }
    }
#proof before loop 2
    proof {
        lemma_scan_end(t1, st, tst, d, resolved_end as int, QUEUE_SIZE as int, pct);
        assert(st.skip(0) =~= st);
    }
#proof tail
    proof { }
#raw
impl<'a> PathToNormalize<'a> {
    pub closed spec fn fr(self) -> Seq<u8> { self.front.spec_bytes() }
    pub closed spec fn bk(self) -> Seq<u8> { match self.back { Some(b) => b.spec_bytes(), None => Seq::empty() } }
    /// the texts of the two parts
    pub proof fn lemma_two(self, pct: bool, iri: bool)
        requires self.wf(), okp(self.tx(), pct)
        ensures nm(self.tx(), pct, iri) == nm(self.fr(), pct, iri) + nm(self.bk(), pct, iri), okp(self.fr(), pct), okp(self.bk(), pct), self.back is None ==> nm(self.bk(), pct, iri) == Seq::<char>::empty()
    {
        self.lemma_parts(0);
        lemma_nm_cut(self.fr(), self.bk(), pct, iri);
        if self.back is None { lemma_dec_empty(self.bk()); assert(nm(self.bk(), pct, iri) =~= Seq::<char>::empty()); }
    }
}
/// writing the two parts one after the other
pub proof fn lemma_two_progs<W: Write>(f0: W, tt: Seq<char>, pct: bool, iri: bool)
    ensures forall|p: PathToNormalize<'_>, f: W, w: Seq<char>, f2: W| #[trigger] p.wf() && #[trigger] W::wrote(f, w, f2) && okp(p.tx(), pct) && w == nm(p.fr(), pct, iri) && prog(f0, tt, f, nm(p.tx(), pct, iri)) ==> prog(f0, tt, f2, nm(p.bk(), pct, iri)) && (p.back is None ==> W::wrote(f0, tt, f2)),
        forall|p: PathToNormalize<'_>, f: W, w: Seq<char>, f2: W| #[trigger] p.wf() && #[trigger] W::failed(f, w, f2) && okp(p.tx(), pct) && w == nm(p.fr(), pct, iri) && prog(f0, tt, f, nm(p.tx(), pct, iri)) ==> W::failed(f0, tt, f2),
        forall|f: W, w: Seq<char>, f2: W| #[trigger] W::wrote(f, w, f2) && prog(f0, tt, f, w) ==> W::wrote(f0, tt, f2),
        forall|f: W, w: Seq<char>, f2: W| #[trigger] W::failed(f, w, f2) && prog(f0, tt, f, w) ==> W::failed(f0, tt, f2),
        forall|p: PathToNormalize<'_>| #[trigger] p.wf() && okp(p.tx(), pct) ==> okp(p.fr(), pct) && okp(p.bk(), pct),
{
    assert forall|p: PathToNormalize<'_>, f: W, w: Seq<char>, f2: W| #[trigger] p.wf() && #[trigger] W::wrote(f, w, f2) && okp(p.tx(), pct) && w == nm(p.fr(), pct, iri) && prog(f0, tt, f, nm(p.tx(), pct, iri)) implies prog(f0, tt, f2, nm(p.bk(), pct, iri)) && (p.back is None ==> W::wrote(f0, tt, f2)) by {
        p.lemma_two(pct, iri);
        lemma_prog(f0, tt, f, nm(p.tx(), pct, iri), w, nm(p.bk(), pct, iri));
        if p.back is None { lemma_prog_end(f0, tt, f2, nm(p.bk(), pct, iri)); }
    }
    assert forall|p: PathToNormalize<'_>, f: W, w: Seq<char>, f2: W| #[trigger] p.wf() && #[trigger] W::failed(f, w, f2) && okp(p.tx(), pct) && w == nm(p.fr(), pct, iri) && prog(f0, tt, f, nm(p.tx(), pct, iri)) implies W::failed(f0, tt, f2) by {
        p.lemma_two(pct, iri);
        lemma_prog(f0, tt, f, nm(p.tx(), pct, iri), w, nm(p.bk(), pct, iri));
    }
    assert forall|f: W, w: Seq<char>, f2: W| #[trigger] W::wrote(f, w, f2) && prog(f0, tt, f, w) implies W::wrote(f0, tt, f2) by { lemma_progs_end(f0, tt, w); }
    assert forall|f: W, w: Seq<char>, f2: W| #[trigger] W::failed(f, w, f2) && prog(f0, tt, f, w) implies W::failed(f0, tt, f2) by { lemma_progs_end(f0, tt, w); }
    assert forall|p: PathToNormalize<'_>| #[trigger] p.wf() && okp(p.tx(), pct) implies okp(p.fr(), pct) && okp(p.bk(), pct) by { p.lemma_two(pct, iri); }
}
/// what is left after the ignorable prefix
pub proof fn lemma_strip(t: Seq<u8>, pct: bool)
    requires valid_utf8(t), okp(t, pct)
    ensures ({ let u = strip_pre(t); valid_utf8(u) && okp(u, pct) && (u.len() > 0 ==> u[0] == 0x2f || !isdot(seg_name(u, 0))) })
    decreases t.len()
{
    if t.len() == 0 || t[0] == 0x2f || !isdot(seg_name(t, 0)) { }
    else {
        assert(is_char_boundary(t, 0));
        lemma_seg(t, 0);
        let e = seg_end(t, 0);
        if e + 1 > t.len() { lemma_dec_empty(Seq::empty()); }
        else {
            crate::text::lemma_ascii_at(t, e);
            assert(pfx(t, e + 1).last() == 0x2f);
            assert(t =~= pfx(t, e + 1) + sfx(t, e + 1));
            lemma_nm_cut(pfx(t, e + 1), sfx(t, e + 1), pct, true);
            lemma_strip(sfx(t, e + 1), pct);
        }
    }
}
/// what remains when there are no more dot segments
pub proof fn lemma_last(t: Seq<u8>, x: bool, auth: bool, pct: bool, iri: bool)
    requires valid_utf8(t), t.len() > 0 ==> t[0] == 0x2f, okp(t, pct), nodots(t, 0)
    ensures ({ let r = rem(fold(t, 0, Seq::empty()), ldot(t, 0, false), Some(x), auth, pct, iri);
        (t.len() == 0 ==> r.len() == 0) && (!(x && !auth) ==> r == nm(t, pct, iri))
        && (t.len() > 0 ==> is_char_boundary(t, 1) && okp(sfx(t, 1), pct) && (x && !auth ==> r == seq!['.', '/', '/'] + nm(sfx(t, 1), pct, iri))) })
{
    assert(is_char_boundary(t, 0));
    assert(sfx(t, 0) =~= t);
    lemma_whole(t, 0, Seq::empty(), pct, iri);
    let n = nm(t, pct, iri);
    assert(names(Seq::<Seg>::empty(), pct, iri) =~= Seq::<char>::empty());
    assert(Seq::<char>::empty() + n =~= n);
    if t.len() > 0 {
        lemma_nm_slash(t, pct, iri); lemma_ascii_boundary(t, 0);
        let m = nm(sfx(t, 1), pct, iri);
        assert(seq!['.', '/'] + n + Seq::<char>::empty() =~= seq!['.', '/', '/'] + m);
    } else { lemma_dec_empty(t); assert(n =~= Seq::<char>::empty()); }
    assert(Seq::<char>::empty() + n + Seq::<char>::empty() =~= n);
}
pub proof fn lemma_prog_transs<W: Write>(f0: W, tt: Seq<char>, f: W, rest: Seq<char>)
    requires prog(f0, tt, f, rest)
    ensures forall|f2: W, rest2: Seq<char>| #[trigger] prog(f, rest, f2, rest2) ==> prog(f0, tt, f2, rest2)
{
    assert forall|f2: W, rest2: Seq<char>| #[trigger] prog(f, rest, f2, rest2) implies prog(f0, tt, f2, rest2) by { lemma_prog_trans(f0, tt, f, rest, f2, rest2); }
}
pub open spec fn prest(t: Seq<u8>, o: Option<bool>, auth: bool, pct: bool, iri: bool) -> Seq<char> { rem(fold(t, 0, Seq::empty()), ldot(t, 0, false), o, auth, pct, iri) }
pub proof fn lemma_prest_empty(o: Option<bool>, auth: bool, pct: bool, iri: bool, t: Seq<u8>)
    requires t.len() == 0
    ensures prest(t, o, auth, pct, iri).len() == 0
{ }
pub open spec fn opaque_mode(m: NormalizationMode) -> bool { m is PreserveAuthoritylessRelativePath }
#fn PathToNormalize::fmt_write_normalize
#requires self.wf(), W::winv(*old(f)), okp(self.tx(), op.mode.pct())
#ensures ({ let tt = path_text(self.tx(), opaque_mode(op.mode), authority_is_present, op.mode.pct(), S::iri());
    (r is Ok ==> W::winv(*final(f)) && W::wrote(*old(f), tt, *final(f))) && (r is Err ==> W::failed(*old(f), tt, *final(f))) })
#proof start
    hide(rem); hide(fold); hide(ldot); hide(nodots); hide(prog); hide(strip_pre); hide(seg_name);
    let ghost t0 = self.tx();
    let ghost f0 = *f;
    let ghost pct = op.mode.pct();
    let ghost iri = S::iri();
    let ghost auth = authority_is_present;
    let ghost tt = path_text(t0, opaque_mode(op.mode), auth, pct, iri);
    proof { self.lemma_parts(0); lemma_prog_start(f0, tt); lemma_lits(); lemma_two_progs(f0, tt, pct, iri); W::law_empty(f0); lemma_strip(t0, pct); }
#loop 0
    invariant vx_self.wf(), W::winv(*f), okp(vx_self.tx(), pct), pct == op.mode.pct(), iri == S::iri(), auth == authority_is_present, f0 == *old(f), t0 == self.tx(), tt == path_text(t0, opaque_mode(op.mode), auth, pct, iri),
        prog(f0, tt, *f, prest(vx_self.tx(), only_a_slash_is_written, auth, pct, iri)),
        vx_self.tx().len() > 0 ==> vx_self.tx()[0] == 0x2f || (!isdot(seg_name(vx_self.tx(), 0)) && only_a_slash_is_written is None),
        !may_have_not_yet_resolved_dot_segments ==> nodots(vx_self.tx(), 0) && only_a_slash_is_written is Some && (vx_self.tx().len() > 0 ==> vx_self.tx()[0] == 0x2f),
    decreases vx_self.tx().len()
#proof loop 0 start
    proof {
        let rest = prest(vx_self.tx(), only_a_slash_is_written, auth, pct, iri);
        lemma_progs_end(f0, tt, rest);
        lemma_prog_transs(f0, tt, *f, rest);
    }
#proof after loop 0
    proof {
        vx_self.lemma_parts(0);
        let t = vx_self.tx();
        if t.len() > 0 {
            let x = only_a_slash_is_written->Some_0;
            lemma_last(t, x, auth, pct, iri);
            if x && !auth { lemma_progs(f0, tt, prest(t, Some(x), auth, pct, iri), seq!['.', '/', '/'], nm(sfx(t, 1), pct, iri)); }
        } else { lemma_prest_empty(only_a_slash_is_written, auth, pct, iri, t); lemma_prog_end(f0, tt, *f, prest(t, only_a_slash_is_written, auth, pct, iri)); }
    }
#item struct PathToNormalize::ensure_rfc3986_normalizable_with_authority_absent/PrefixRetriever
#raw
/// the first three bytes
pub open spec fn take3(b: Seq<u8>) -> Seq<u8> { if b.len() <= 3 { b } else { pfx(b, 3) } }
impl PrefixRetriever {
    /// what has been read
    pub open spec fn rd(self) -> Seq<u8> { self.buf@.subrange(0, self.cursor as int) }
}
impl fmt::Write for PrefixRetriever {
    open spec fn winv(o: Self) -> bool { o.cursor <= 3 }
    #[verifier::prophetic]
    open spec fn wrote(o: Self, s: Seq<char>, n: Self) -> bool { o.cursor <= 3 ==> n.cursor <= 3 && n.rd() == take3(o.rd() + encode_utf8(s)) }
    #[verifier::prophetic]
    open spec fn failed(o: Self, s: Seq<char>, n: Self) -> bool { o.cursor <= 3 ==> n.cursor == 3 && n.rd() == take3(o.rd() + encode_utf8(s)) }
    #[verifier::prophetic]
    open spec fn sol(o: Self, n: Self) -> bool { true }
    proof fn law_sol_refl(o: Self) {}
    proof fn law_sol_trans(a: Self, b: Self, c: Self) {}
    proof fn law_empty(o: Self) {
        encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty());
        assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
        assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
        if o.cursor <= 3 { assert(o.rd() + Seq::<u8>::empty() =~= o.rd()); }
    }
    proof fn law_trans(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {
        encode_utf8_concat(s, t);
        if a.cursor <= 3 { assert(take3(b.rd() + encode_utf8(t)) =~= take3(a.rd() + encode_utf8(s + t))); }
    }
    proof fn law_fail(a: Self, s: Seq<char>, b: Self, t: Seq<char>, c: Self) {
        encode_utf8_concat(s, t);
        if a.cursor <= 3 { assert(take3(b.rd() + encode_utf8(t)) =~= take3(a.rd() + encode_utf8(s + t))); }
    }
    proof fn law_ext(a: Self, s: Seq<char>, b: Self, t: Seq<char>) {
        encode_utf8_concat(s, t);
        if a.cursor <= 3 { assert(take3(a.rd() + encode_utf8(s)) =~= take3(a.rd() + encode_utf8(s + t))); }
    }
    fn write_str(&mut self, s: &str) -> (r: fmt::Result) { self.imp_write_str(s) }
    fn write_char(&mut self, c: char) -> (r: fmt::Result) { let mut buf = [0u8; 4]; self.write_str(char_encode_utf8(c, &mut buf)) }
}
#fn PathToNormalize::ensure_rfc3986_normalizable_with_authority_absent/PrefixRetriever::as_bytes rename=as_bytes
#requires self.cursor <= 3
#ensures r@ == self.rd()
#fn PathToNormalize::ensure_rfc3986_normalizable_with_authority_absent/PrefixRetriever::<Write>::write_str rename=imp_write_str
#requires old(self).cursor <= 3
#ensures r is Ok ==> <Self as fmt::Write>::winv(*final(self)) && <Self as fmt::Write>::wrote(*old(self), s@, *final(self)), r is Err ==> <Self as fmt::Write>::failed(*old(self), s@, *final(self))
#proof start
    let ghost b = s.spec_bytes();
    proof {
        assert(encode_utf8(s@) == b);
        let x = old(self).rd() + b;
        if old(self).cursor == 3 { assert(old(self).rd().len() == 3); assert(take3(x) =~= old(self).rd()); }
        if old(self).cursor <= 3 { assert(old(self).rd() + pfx(b, 0) =~= old(self).rd()); }
    }
#loop 0
    invariant
        vx_x0@ == b, vx_i0 <= b.len(), vx_o0 == old(self).cursor, vx_o0 + vx_i0 <= 3, self.cursor == vx_o0,
        self.buf@.subrange(0, vx_o0 + vx_i0) == old(self).rd() + pfx(b, vx_i0 as int),
    decreases b.len() - vx_i0
#proof loop 0 end
    proof {
        let (n, k) = (vx_o0 + vx_i0, vx_i0 as int);
        assert(self.buf@.subrange(0, n) =~= self.buf@.subrange(0, n - 1).push(b[k - 1]));
        assert(pfx(b, k) =~= pfx(b, k - 1).push(b[k - 1]));
        assert(old(self).rd() + pfx(b, k) =~= (old(self).rd() + pfx(b, k - 1)).push(b[k - 1]));
    }
#proof after loop 0
    let ghost i = vx_i0;
    proof {
        let x = old(self).rd() + b;
        assert(old(self).rd().len() == vx_o0);
        assert(old(self).rd() + pfx(b, i as int) =~= take3(x));
    }
#fn PathToNormalize::ensure_rfc3986_normalizable_with_authority_absent call=PrefixRetriever::default->PrefixRetriever::vx_default
#requires self.wf()
#ensures (r is Err) == dotted(self.tx())
#proof start
    let ghost tt = path_text(self.tx(), false, false, false, false);
    proof { lemma_dotted(tt); assert forall|x: Seq<u8>| #[trigger] take3(Seq::<u8>::empty() + x) == take3(x) by { assert(Seq::<u8>::empty() + x =~= x); } }
#proof tail
    proof {
        let rd = prefix.rd();
        assert(rd =~= take3(encode_utf8(tt)));
        let l = seq![0x2fu8, 0x2eu8, 0x2fu8];
        assert((rd =~= l) == (rd.len() == 3 && rd[0] == 0x2f && rd[1] == 0x2e && rd[2] == 0x2f));
        assert forall|x: &[u8]| x@.len() == 3 && x@[0] == 0x2f && x@[1] == 0x2e && x@[2] == 0x2f implies #[trigger] x@ == l by { assert(x@ =~= l); }
    }
