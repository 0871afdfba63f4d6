#module mask_password
#file mask_password.rs
#raw
// Masking the password of a userinfo: everything after its first colon goes, nothing else.
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::compose::*;
use crate::text::*;
use crate::types::*;
use crate::spec::Spec;
use crate::parser::char::*;
use crate::vfmt as fmt;
use crate::vfmt::{Write, WriteExt, DisplayExt};
use crate::components::authority::AuthorityComponents;
use core::ops::Range;
broadcast use {vstd::string::group_string_axioms, crate::vx::group_vx, crate::vx::lemma_str_dec, crate::vx::lemma_ascii_boundary};

/// the password: what follows the first colon of the userinfo, as a range of the whole text
pub open spec fn pw(b: Seq<u8>) -> Option<(int, int)> {
    match c_authority(b) { Some(a) => pw_of(a, rest_start(b) + 2), None => None }
}
/// the same for an authority that starts at `k`
pub open spec fn pw_of(a: Seq<u8>, k: int) -> Option<(int, int)> {
    match c_userinfo(a) {
        Some(u) => if first1(u, 0x3a) < u.len() { Some((k + first1(u, 0x3a) + 1, k + u.len())) } else { None },
        None => None,
    }
}
/// the text with the password removed
pub open spec fn masked(b: Seq<u8>) -> Seq<u8> { match pw(b) { Some((s, e)) => pfx(b, s) + sfx(b, e), None => b } }
/// the userinfo up to and including the first colon
pub open spec fn user_of(u: Seq<u8>) -> Seq<u8> { if first1(u, 0x3a) < u.len() { pfx(u, first1(u, 0x3a) + 1) } else { u } }
pub open spec fn rng(r: Option<Range<usize>>) -> Option<(int, int)> { match r { Some(x) => Some((x.start as int, x.end as int)), None => None } }

proof fn lemma_first_sub(b: Seq<u8>, i: int, k: int, p: Seq<u8>)
    requires 0 <= i <= k, k + 2 <= b.len(), is_ss(p), b[k] == 0x2f, b[k + 1] == 0x2f, forall|j: int| i <= j < k ==> #[trigger] b[j] != 0x2f
    ensures first_sub(b, i, p) == k
    decreases k - i
{
    assert(b.subrange(k, k + 2) =~= p);
    if i < k { assert(b.subrange(i, i + 2)[0] == b[i]); lemma_first_sub(b, i + 1, k, p); }
}
pub open spec fn is_ss(p: Seq<u8>) -> bool { p.len() == 2 && p[0] == 0x2f && p[1] == 0x2f }
/// the password lies inside the text, between two ASCII delimiters
pub proof fn lemma_pw(b: Seq<u8>)
    requires valid_utf8(b)
    ensures pw(b) matches Some((s, e)) ==> 3 <= s <= e < b.len() && b[s - 1] == 0x3a && b[e] == 0x40 && is_char_boundary(b, s) && is_char_boundary(b, e),
        c_authority(b) matches Some(a) ==> (forall|p: Seq<u8>| is_ss(p) ==> #[trigger] first_sub(b, 0, p) == rest_start(b))
            && 0 <= rest_start(b) && rest_start(b) + 2 + a.len() <= b.len() && a == b.subrange(rest_start(b) + 2, rest_start(b) + 2 + a.len()),
{
    let k = sch_end(b);
    let rs = rest_start(b);
    let r = rest(b);
    let _ = first4(b, 0x3a, 0x2f, 0x3f, 0x23);
    lemma_rest_bounds(r);
    if r_has_auth(r) {
        let a = c_authority(b).unwrap();
        assert(b[rs] == r[0] && b[rs + 1] == r[1]);
        assert forall|j: int| 0 <= j < rs implies #[trigger] b[j] != 0x2f by { if j < k { assert(!is4(b[j], 0x3a, 0x2f, 0x3f, 0x23)); } }
        assert forall|p: Seq<u8>| is_ss(p) implies #[trigger] first_sub(b, 0, p) == rs by { lemma_first_sub(b, 0, rs, p); }
        assert(a =~= b.subrange(rs + 2, rs + 2 + a.len()));
        if c_userinfo(a) is Some {
            let u = c_userinfo(a).unwrap();
            let c = first1(u, 0x3a);
            if c < u.len() {
                assert(u[c] == b[rs + 2 + c]);
                assert(a[u.len() as int] == b[rs + 2 + u.len()]);
            }
        }
    }
}
proof fn lemma_empty()
    ensures forall|x: &str| #[trigger] x.spec_bytes().len() == 0 ==> x@ == Seq::<char>::empty()
{
    assert forall|x: &str| #[trigger] x.spec_bytes().len() == 0 implies x@ == Seq::<char>::empty() by { lemma_str_dec(x); reveal_with_fuel(decode_utf8, 1); assert(x@ =~= Seq::<char>::empty()); }
}
proof fn lemma_user_auth(u: Seq<u8>, h: Seq<u8>)
    requires forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] != 0x40
    ensures ({ let a = u + seq![0x40u8] + h; first1(a, 0x40) == u.len() && host_start(a) == u.len() + 1 && sfx(a, u.len() as int + 1) == h && pfx(a, u.len() as int) == u && c_userinfo(a) == Some(u)
        && host_stop(a) == u.len() + 1 + host_end(h) && c_host(a) == pfx(h, host_end(h)) && c_port(a) == (if host_end(h) < h.len() { Some(sfx(h, host_end(h) + 1)) } else { None }) })
{
    let a = u + seq![0x40u8] + h;
    lemma_first_is(a, u.len() as int, 0x40, 0x40, 0x40, 0x40);
    assert(sfx(a, u.len() as int + 1) =~= h);
    assert(pfx(a, u.len() as int) =~= u);
    lemma_host_end(h);
    assert(c_host(a) =~= pfx(h, host_end(h)));
    if host_end(h) < h.len() { assert(sfx(a, host_stop(a) + 1) =~= sfx(h, host_end(h) + 1)); }
}
/// an authority with its userinfo cut after the first colon: same host and port, still valid
pub proof fn lemma_mask_auth(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a), c_userinfo(a) is Some
    ensures ({ let u = c_userinfo(a).unwrap(); let h = sfx(a, host_start(a)); let n = user_of(u) + seq![0x40u8] + h;
        g_authority(n, iri) && valid_utf8(n) && c_userinfo(n) == Some(user_of(u)) && c_host(n) == c_host(a) && c_port(n) == c_port(a)
        && a == u + seq![0x40u8] + h && user_of(user_of(u)) == user_of(u) && (first1(user_of(u), 0x3a) < user_of(u).len()) == (first1(u, 0x3a) < u.len()) })
{
    let u = c_userinfo(a).unwrap();
    let h = sfx(a, host_start(a));
    let v = user_of(u);
    let k = first1(u, 0x3a);
    let n = v + seq![0x40u8] + h;
    lemma_ascii_at(a, u.len() as int);
    assert(a =~= u + seq![0x40u8] + h);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != 0x40 by { assert(a[i] != 0x40); }
    lemma_user_auth(u, h);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != 0x40 by { assert(u[i] != 0x40); }
    lemma_user_auth(v, h);
    if k < u.len() {
        lemma_ascii_at(u, k);
        lemma_is_sat_split(u, Cls::Userinfo, iri, k);
        lemma_is_sat_split(v, Cls::Userinfo, iri, k);
        assert(pfx(v, k) =~= pfx(u, k));
        assert(sfx(v, k + 1) =~= Seq::<u8>::empty());
        lemma_sat_empty(sfx(v, k + 1), Cls::Userinfo, iri);
        assert forall|j: int| 0 <= j < k implies !is4(#[trigger] v[j], 0x3a, 0x3a, 0x3a, 0x3a) by { assert(v[j] == u[j]); }
        lemma_first_is(v, k, 0x3a, 0x3a, 0x3a, 0x3a);
        assert(user_of(v) =~= v);
    }
    lemma_dec1(0x40);
    lemma_dec_cat(v, seq![0x40u8]);
    lemma_dec_cat(v + seq![0x40u8], h);
}
pub open spec fn masked_auth(a: Seq<u8>) -> Seq<u8> { match c_userinfo(a) { Some(u) => user_of(u) + seq![0x40u8] + sfx(a, host_start(a)), None => a } }
proof fn lemma_masked_compose(b: Seq<u8>, iri: bool)
    requires g_reference(b, iri), valid_utf8(b), pw(b) is Some
    ensures ({ let n = masked_auth(c_authority(b).unwrap());
        masked(b) == compose(c_scheme(b), Some(n), c_path(b), c_query(b), c_fragment(b)) && ok_parts(c_scheme(b), Some(n), c_path(b), c_query(b), c_fragment(b), iri) })
{
    hide(g_reference); hide(g_uri); hide(g_absolute); hide(g_relative); hide(c_path); hide(c_query); hide(c_fragment); hide(compose); hide(is_sat); hide(g_path_abempty); hide(g_path_noauth); hide(g_scheme); hide(c_authority); hide(g_authority); hide(c_host); hide(c_port); hide(pw_of);
    lemma_ok_parts(b, iri);
    lemma_valid_parts(b);
    let a = c_authority(b).unwrap();
    assert(c_userinfo(a) is Some) by { reveal(pw_of); }
    let u = c_userinfo(a).unwrap();
    let h = sfx(a, host_start(a));
    let n = user_of(u) + seq![0x40u8] + h;
    lemma_mask_auth(a, iri);
    let (s, p, q, f) = (c_scheme(b), c_path(b), c_query(b), c_fragment(b));
    lemma_cut(s, u, user_of(u), seq![0x40u8] + h, p, q, f);
    assert(u + (seq![0x40u8] + h) =~= a);
    lemma_front(b);
    assert(masked(b) == pfx(b, (front(s).len() + user_of(u).len()) as int) + sfx(b, (front(s).len() + u.len()) as int)) by { reveal(pw_of); }
    assert(user_of(u) + (seq![0x40u8] + h) =~= n);
}
proof fn lemma_front(b: Seq<u8>)
    ensures front(c_scheme(b)).len() == rest_start(b) + 2
{ let _ = first4(b, 0x3a, 0x2f, 0x3f, 0x23); }
proof fn lemma_masked_valid(b: Seq<u8>)
    requires valid_utf8(b)
    ensures valid_utf8(masked(b))
{
    hide(c_userinfo); hide(c_authority);
    if pw(b) is Some {
        lemma_pw(b);
        let (st, e) = pw(b).unwrap();
        lemma_dec_split(b, st);
        lemma_dec_split(b, e);
        lemma_dec_cat(pfx(b, st), sfx(b, e));
    }
}
/// C10: masking keeps the kind of identifier and every component except the password, and leaves no password to mask
pub proof fn lemma_masked(b: Seq<u8>, iri: bool)
    requires g_reference(b, iri), valid_utf8(b)
    ensures ({ let m = masked(b);
        g_reference(m, iri) && g_uri(m, iri) == g_uri(b, iri) && g_absolute(m, iri) == g_absolute(b, iri) && g_relative(m, iri) == g_relative(b, iri) && valid_utf8(m)
        && c_scheme(m) == c_scheme(b) && c_path(m) == c_path(b) && c_query(m) == c_query(b) && c_fragment(m) == c_fragment(b)
        && c_authority(m) == (match c_authority(b) { Some(a) => Some(masked_auth(a)), None => None }) }),
{
    hide(g_reference); hide(g_uri); hide(g_absolute); hide(g_relative); hide(c_scheme); hide(c_path); hide(c_query); hide(c_fragment); hide(compose); hide(ok_parts); hide(c_authority);
    lemma_ok_parts(b, iri);
    lemma_valid_parts(b);
    lemma_masked_valid(b);
    let m = masked(b);
    if pw(b) is Some {
        lemma_masked_compose(b, iri);
        lemma_compose(c_scheme(b), Some(masked_auth(c_authority(b).unwrap())), c_path(b), c_query(b), c_fragment(b), iri);
        lemma_ok_parts(m, iri);
    } else {
        if c_authority(b) is Some { lemma_mask_none(c_authority(b).unwrap()); }
    }
}
proof fn lemma_mask_none(a: Seq<u8>)
    requires c_userinfo(a) matches Some(u) ==> first1(u, 0x3a) == u.len()
    ensures masked_auth(a) == a
{
    if c_userinfo(a) is Some { let u = c_userinfo(a).unwrap(); assert(u + seq![0x40u8] + sfx(a, host_start(a)) =~= a); }
}
/// C10: what masking does to the authority, and that a second masking changes nothing
pub proof fn lemma_masked_authority(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a)
    ensures ({ let n = masked_auth(a); g_authority(n, iri) && c_host(n) == c_host(a) && c_port(n) == c_port(a) && masked_auth(n) == n
        && c_userinfo(n) == (match c_userinfo(a) { Some(u) => Some(user_of(u)), None => None }) })
{
    if c_userinfo(a) is Some {
        let u = c_userinfo(a).unwrap();
        lemma_mask_auth(a, iri);
        let n = masked_auth(a);
        lemma_mask_none2(n);
    }
}
proof fn lemma_mask_none2(n: Seq<u8>)
    requires c_userinfo(n) matches Some(u) && user_of(u) == u
    ensures masked_auth(n) == n
{ let u = c_userinfo(n).unwrap(); assert(u + seq![0x40u8] + sfx(n, host_start(n)) =~= n); }
#file mask_password.rs
#fn password_range_to_hide
#ensures rng(r) == pw(iri.bytes()), r matches Some(x) ==> x.start <= x.end < iri.bytes().len() && is_char_boundary(iri.bytes(), x.start as int) && is_char_boundary(iri.bytes(), x.end as int)
#proof start
    proof { iri.valid(); lemma_pw(iri.bytes()); }
#fn password_range_to_hide/inner
#requires c_authority(iri.spec_bytes()) matches Some(a) && c_userinfo(a) == Some(userinfo.spec_bytes())
#ensures rng(r) == pw(iri.spec_bytes())
#proof start
    proof { lemma_pw(iri.spec_bytes()); axiom_str_len(iri); }
#fn write_with_masked_password call=.fmt->.vx_fmt
#requires alt.dok(), pw_range.start <= pw_range.end <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), pw_range.start as int), is_char_boundary(s.spec_bytes(), pw_range.end as int)
#ensures ({ let t = dec(pfx(s.spec_bytes(), pw_range.start as int)) + alt.text() + dec(sfx(s.spec_bytes(), pw_range.end as int)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    let ghost o = *f;
    let ghost (b, i, j) = (s.spec_bytes(), pw_range.start as int, pw_range.end as int);
    proof { assert(o.out() + dec(pfx(b, i)) + alt.text() + dec(sfx(b, j)) =~= o.out() + (dec(pfx(b, i)) + alt.text() + dec(sfx(b, j)))); lemma_dec_split(b, i); lemma_dec_split(b, j); }
#fn write_trim_password
#requires pw_range.start <= pw_range.end <= s.spec_bytes().len(), is_char_boundary(s.spec_bytes(), pw_range.start as int), is_char_boundary(s.spec_bytes(), pw_range.end as int)
#ensures ({ let t = dec(pfx(s.spec_bytes(), pw_range.start as int) + sfx(s.spec_bytes(), pw_range.end as int)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { let (b, i, j) = (s.spec_bytes(), pw_range.start as int, pw_range.end as int); lemma_dec_split(b, i); lemma_dec_split(b, j); lemma_dec_cat(pfx(b, i), sfx(b, j)); assert(dec(pfx(b, i)) + Seq::<char>::empty() =~= dec(pfx(b, i))); lemma_empty(); }
#item struct PasswordMasked
#fn PasswordMasked<'a,T>::new
#ensures r.iri_ref == iri_ref
#item struct PasswordReplaced
#raw
impl<'a, T: ?Sized, D> PasswordReplaced<'a, T, D> {
    /// holds the password range of `b` and what the closure made of the password
    pub open spec fn of<F: FnOnce(&str) -> D>(self, iri: &T, b: Seq<u8>, f: F) -> bool {
        self.iri_ref == iri && match self.password {
            Some((r, d)) => pw(b) == Some((r.start as int, r.end as int)) && (exists|p: &str, e: D| p.spec_bytes() == b.subrange(r.start as int, r.end as int) && #[trigger] call_ensures(f, (p,), e) && e == d),
            None => pw(b) is None,
        }
    }
}
#fn PasswordReplaced<'a,T,D>::with_replacer rangeidx call=.clone->.vx_clone
#requires iri_ref.arq(), forall|p: &str| call_requires(replace, (p,))
#ensures exists|q: &RiReferenceStr<S>| #[trigger] iri_ref.ar(q) && r.of(iri_ref, q.bytes(), replace)
#closure 0 |pw_range: Range<usize>| -> (z: (Range<usize>, D)) requires pw_range.start <= pw_range.end <= iri_ref_asref.bytes().len() && is_char_boundary(iri_ref_asref.bytes(), pw_range.start as int) && is_char_boundary(iri_ref_asref.bytes(), pw_range.end as int), forall|p: &str| call_requires(replace, (p,)) ensures z.0 == pw_range, exists|p: &str, d: D| p.spec_bytes() == iri_ref_asref.bytes().subrange(pw_range.start as int, pw_range.end as int) && #[trigger] call_ensures(replace, (p,), d) && d == z.1
#file mask_password.rs+mask_password.rs
#raw
impl<'a, S: Spec> fmt::Display for PasswordMasked<'a, RiReferenceStr<S>> { open spec fn text(&self) -> Seq<char> { dec(masked(self.iri_ref.bytes())) } open spec fn dok(&self) -> bool { true } }
#fn PasswordMasked<'_,RiReferenceStr<S>>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#fn PasswordMasked<'a,RiReferenceStr<S>>::replace_password_with
#requires forall|p: &str| call_requires(replace, (p,))
#ensures r.of(self.iri_ref, self.iri_ref.bytes(), replace)
#file mask_password.rs+mask_password.rs
#raw
impl<'a, S: Spec> fmt::Display for PasswordMasked<'a, RiStr<S>> { open spec fn text(&self) -> Seq<char> { dec(masked(self.iri_ref.bytes())) } open spec fn dok(&self) -> bool { true } }
#fn PasswordMasked<'_,RiStr<S>>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#fn PasswordMasked<'a,RiStr<S>>::replace_password_with
#requires forall|p: &str| call_requires(replace, (p,))
#ensures r.of(self.iri_ref, self.iri_ref.bytes(), replace)
#file mask_password.rs+mask_password.rs
#raw
impl<'a, S: Spec> fmt::Display for PasswordMasked<'a, RiAbsoluteStr<S>> { open spec fn text(&self) -> Seq<char> { dec(masked(self.iri_ref.bytes())) } open spec fn dok(&self) -> bool { true } }
#fn PasswordMasked<'_,RiAbsoluteStr<S>>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#fn PasswordMasked<'a,RiAbsoluteStr<S>>::replace_password_with
#requires forall|p: &str| call_requires(replace, (p,))
#ensures r.of(self.iri_ref, self.iri_ref.bytes(), replace)
#file mask_password.rs+mask_password.rs
#raw
impl<'a, S: Spec> fmt::Display for PasswordMasked<'a, RiRelativeStr<S>> { open spec fn text(&self) -> Seq<char> { dec(masked(self.iri_ref.bytes())) } open spec fn dok(&self) -> bool { true } }
#fn PasswordMasked<'_,RiRelativeStr<S>>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#fn PasswordMasked<'a,RiRelativeStr<S>>::replace_password_with
#requires forall|p: &str| call_requires(replace, (p,))
#ensures r.of(self.iri_ref, self.iri_ref.bytes(), replace)
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'a,RiReferenceStr<S>>::replace_password
#ensures r.iri_ref == self.iri_ref, match r.password { Some((x, d)) => pw(self.iri_ref.bytes()) == Some((x.start as int, x.end as int)) && d == alt, None => pw(self.iri_ref.bytes()) is None }
#closure 0 |_p: &str| -> (z: D) ensures z == alt
#raw
impl<'a, S: Spec, D: fmt::Display> fmt::Display for PasswordReplaced<'a, RiReferenceStr<S>, D> {
    open spec fn text(&self) -> Seq<char> { let b = self.iri_ref.bytes(); match self.password { Some((r, d)) => dec(pfx(b, r.start as int)) + d.text() + dec(sfx(b, r.end as int)), None => dec(b) } }
    /// the range is the one of the password
    open spec fn dok(&self) -> bool { match self.password { Some((r, d)) => pw(self.iri_ref.bytes()) == Some((r.start as int, r.end as int)) && d.dok(), None => true } }
}
#fn PasswordReplaced<'_,RiReferenceStr<S>,D>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt call=.clone->.vx_clone
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { self.iri_ref.valid(); lemma_pw(self.iri_ref.bytes()); }
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'a,RiStr<S>>::replace_password
#ensures r.iri_ref == self.iri_ref, match r.password { Some((x, d)) => pw(self.iri_ref.bytes()) == Some((x.start as int, x.end as int)) && d == alt, None => pw(self.iri_ref.bytes()) is None }
#closure 0 |_p: &str| -> (z: D) ensures z == alt
#raw
impl<'a, S: Spec, D: fmt::Display> fmt::Display for PasswordReplaced<'a, RiStr<S>, D> {
    open spec fn text(&self) -> Seq<char> { let b = self.iri_ref.bytes(); match self.password { Some((r, d)) => dec(pfx(b, r.start as int)) + d.text() + dec(sfx(b, r.end as int)), None => dec(b) } }
    /// the range is the one of the password
    open spec fn dok(&self) -> bool { match self.password { Some((r, d)) => pw(self.iri_ref.bytes()) == Some((r.start as int, r.end as int)) && d.dok(), None => true } }
}
#fn PasswordReplaced<'_,RiStr<S>,D>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt call=.clone->.vx_clone
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { self.iri_ref.valid(); lemma_pw(self.iri_ref.bytes()); }
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'a,RiAbsoluteStr<S>>::replace_password
#ensures r.iri_ref == self.iri_ref, match r.password { Some((x, d)) => pw(self.iri_ref.bytes()) == Some((x.start as int, x.end as int)) && d == alt, None => pw(self.iri_ref.bytes()) is None }
#closure 0 |_p: &str| -> (z: D) ensures z == alt
#raw
impl<'a, S: Spec, D: fmt::Display> fmt::Display for PasswordReplaced<'a, RiAbsoluteStr<S>, D> {
    open spec fn text(&self) -> Seq<char> { let b = self.iri_ref.bytes(); match self.password { Some((r, d)) => dec(pfx(b, r.start as int)) + d.text() + dec(sfx(b, r.end as int)), None => dec(b) } }
    /// the range is the one of the password
    open spec fn dok(&self) -> bool { match self.password { Some((r, d)) => pw(self.iri_ref.bytes()) == Some((r.start as int, r.end as int)) && d.dok(), None => true } }
}
#fn PasswordReplaced<'_,RiAbsoluteStr<S>,D>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt call=.clone->.vx_clone
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { self.iri_ref.valid(); lemma_pw(self.iri_ref.bytes()); }
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'a,RiRelativeStr<S>>::replace_password
#ensures r.iri_ref == self.iri_ref, match r.password { Some((x, d)) => pw(self.iri_ref.bytes()) == Some((x.start as int, x.end as int)) && d == alt, None => pw(self.iri_ref.bytes()) is None }
#closure 0 |_p: &str| -> (z: D) ensures z == alt
#raw
impl<'a, S: Spec, D: fmt::Display> fmt::Display for PasswordReplaced<'a, RiRelativeStr<S>, D> {
    open spec fn text(&self) -> Seq<char> { let b = self.iri_ref.bytes(); match self.password { Some((r, d)) => dec(pfx(b, r.start as int)) + d.text() + dec(sfx(b, r.end as int)), None => dec(b) } }
    /// the range is the one of the password
    open spec fn dok(&self) -> bool { match self.password { Some((r, d)) => pw(self.iri_ref.bytes()) == Some((r.start as int, r.end as int)) && d.dok(), None => true } }
}
#fn PasswordReplaced<'_,RiRelativeStr<S>,D>::<Display>::fmt rename=imp_fmt call=.fmt->.vx_fmt call=.clone->.vx_clone
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = <Self as fmt::Display>::text(self); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { self.iri_ref.valid(); lemma_pw(self.iri_ref.bytes()); }
#raw
/// the debug output: the displayed text in angle brackets
pub open spec fn angled(t: Seq<char>) -> Seq<char> { seq!['<'] + t + seq!['>'] }
proof fn lemma_angled(o: Seq<char>, t: Seq<char>)
    ensures o + seq!['<'] + t + seq!['>'] == o + angled(t)
{ assert(o + seq!['<'] + t + seq!['>'] =~= o + angled(t)); }
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'_,RiReferenceStr<S>>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
#file mask_password.rs+mask_password.rs
#fn PasswordReplaced<'_,RiReferenceStr<S>,D>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'_,RiStr<S>>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
#file mask_password.rs+mask_password.rs
#fn PasswordReplaced<'_,RiStr<S>,D>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'_,RiAbsoluteStr<S>>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
#file mask_password.rs+mask_password.rs
#fn PasswordReplaced<'_,RiAbsoluteStr<S>,D>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
#file mask_password.rs+mask_password.rs
#fn PasswordMasked<'_,RiRelativeStr<S>>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
#file mask_password.rs+mask_password.rs
#fn PasswordReplaced<'_,RiRelativeStr<S>,D>::<Debug>::fmt rename=imp_fmt_debug call=fmt::Display::fmt->crate::vfmt::display_fmt
#requires <Self as fmt::Display>::dok(self)
#ensures ({ let t = angled(<Self as fmt::Display>::text(self)); (r is Ok ==> <fmt::Formatter<'_> as fmt::Write>::wrote(*old(f), t, *final(f))) && (r is Err ==> <fmt::Formatter<'_> as fmt::Write>::failed(*old(f), t, *final(f))) })
#proof start
    proof { lemma_angled(f.out(), <Self as fmt::Display>::text(self)); }
