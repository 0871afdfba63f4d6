#module compose
#raw
// Composition: text built from valid components is a valid identifier and decomposes into them.
use crate::vx::*;
use crate::grammar::*;
use crate::comp::*;
use crate::parser::char::*;
use crate::text::*;
broadcast use {crate::vx::lemma_first, crate::vx::lemma_last, crate::vx::lemma_pfx_full, crate::vx::lemma_sfx_zero};

pub open spec fn delim(c: u8) -> bool { c == 0x2f || c == 0x3f || c == 0x23 }
/// no byte of b is one of "/?#" (`slash`: the slash is excluded too) or beyond the first
pub open spec fn no_delim(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> !delim(#[trigger] b[i]) }
pub open spec fn no_qf(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0x3f && b[i] != 0x23 }
pub open spec fn no_hash(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0x23 }

proof fn lemma_dec_octet_bytes(b: Seq<u8>)
    requires g_dec_octet(b)
    ensures forall|i: int| 0 <= i < b.len() ==> digit(#[trigger] b[i])
{
}
pub open spec fn ip_c(c: u8) -> bool { hexdig(c) || c == 0x3a || c == 0x2e }
pub open spec fn all_ip(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> ip_c(#[trigger] b[i]) }
pub proof fn lemma_ip_cat(b: Seq<u8>, k: int)
    requires 0 <= k < b.len(), all_ip(pfx(b, k)), ip_c(b[k]), all_ip(sfx(b, k + 1))
    ensures all_ip(b)
{
    assert forall|i: int| 0 <= i < b.len() implies ip_c(#[trigger] b[i]) by {
        if i < k { assert(pfx(b, k)[i] == b[i]); } else if i > k { assert(sfx(b, k + 1)[i - k - 1] == b[i]); }
    }
}
pub proof fn lemma_ipv4_bytes(b: Seq<u8>)
    requires g_ipv4(b)
    ensures all_ip(b)
{
    let d1 = first1(b, 0x2e);
    let r1 = sfx(b, d1 + 1);
    let d2 = first1(r1, 0x2e);
    let r2 = sfx(r1, d2 + 1);
    let d3 = first1(r2, 0x2e);
    lemma_dec_octet_bytes(pfx(b, d1)); lemma_dec_octet_bytes(pfx(r1, d2)); lemma_dec_octet_bytes(pfx(r2, d3)); lemma_dec_octet_bytes(sfx(r2, d3 + 1));
    lemma_ip_cat(r2, d3);
    lemma_ip_cat(r1, d2);
    lemma_ip_cat(b, d1);
}
pub proof fn lemma_pieces_bytes(b: Seq<u8>, v4: bool)
    requires g_pieces(b, v4) >= 0
    ensures all_ip(b)
    decreases b.len()
{
    let c = first1(b, 0x3a);
    if !(0 <= c < b.len()) {
        if g_h16(b) { } else { lemma_ipv4_bytes(b); }
    } else {
        lemma_pieces_bytes(sfx(b, c + 1), v4);
        lemma_ip_cat(b, c);
    }
}
pub proof fn lemma_first_dc(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len()
    ensures i <= first_dc(b, i) <= b.len(), first_dc(b, i) < b.len() ==> first_dc(b, i) + 1 < b.len() && b[first_dc(b, i)] == 0x3a && b[first_dc(b, i) + 1] == 0x3a
    decreases b.len() - i
{
    if i + 1 < b.len() && !(b[i] == 0x3a && b[i + 1] == 0x3a) { lemma_first_dc(b, i + 1); }
}
pub proof fn lemma_ipv6_bytes(b: Seq<u8>)
    requires g_ipv6(b)
    ensures all_ip(b)
{
    let p = first_dc(b, 0);
    lemma_first_dc(b, 0);
    if p < b.len() {
        let l = pfx(b, p);
        if p > 0 { lemma_pieces_bytes(l, false); }
        let t = sfx(b, p + 2);
        if p + 2 < b.len() { lemma_pieces_bytes(t, true); }
        let r = sfx(b, p + 1);
        assert(sfx(r, 1) =~= t);
        assert(r[0] == b[p + 1]);
        assert(pfx(r, 0).len() == 0);
        lemma_ip_cat(r, 0);
        lemma_ip_cat(b, p);
    } else { lemma_pieces_bytes(b, true); }
}
pub proof fn lemma_host_bytes(b: Seq<u8>, iri: bool)
    requires g_host(b, iri), valid_utf8(b)
    ensures no_delim(b), !is_bracketed(b) ==> forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0x40 && b[i] != 0x3a && b[i] != 0x5b && b[i] != 0x5d,
        forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != 0x40,
{
    if is_bracketed(b) {
        let a = b.subrange(1, b.len() - 1);
        if g_ipvfuture(a) {
            let r = sfx(a, 1);
            let d = first1(r, 0x2e);
            assert forall|i: int| 0 <= i < b.len() implies !delim(#[trigger] b[i]) && b[i] != 0x40 by {
                if 1 <= i < b.len() - 1 {
                    assert(a[i - 1] == b[i]);
                    if i >= 2 {
                        assert(r[i - 2] == b[i]);
                        if i - 2 < d { assert(pfx(r, d)[i - 2] == b[i]); }
                        else if i - 2 > d { assert(sfx(r, d + 1)[i - 3 - d] == b[i]); }
                    }
                }
            }
        } else {
            lemma_ipv6_bytes(a);
            assert forall|i: int| 0 <= i < b.len() implies !delim(#[trigger] b[i]) && b[i] != 0x40 by {
                if 1 <= i < b.len() - 1 { assert(a[i - 1] == b[i]); }
            }
        }
    } else {
        assert forall|i: int| 0 <= i < b.len() implies !delim(#[trigger] b[i]) && b[i] != 0x40 && b[i] != 0x3a && b[i] != 0x5b && b[i] != 0x5d by {
            if b[i] < 0x80u8 { lemma_is_sat_byte(b, Cls::Regname, iri, i); }
        }
    }
}
/// an authority contains none of "/?#"
pub proof fn lemma_auth_bytes(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a)
    ensures no_delim(a)
{
    let u = first1(a, 0x40);
    let hp = if u < a.len() { sfx(a, u + 1) } else { a };
    if u < a.len() { lemma_ascii_boundary(a, u); lemma_valid_split(a, u); lemma_valid_split(a, u + 1); }
    let e = host_end(hp);
    lemma_host_end(hp);
    let h = pfx(hp, e);
    if e < hp.len() { lemma_ascii_boundary(hp, e); lemma_valid_split(hp, e); } else { assert(h =~= hp); }
    lemma_host_bytes(h, iri);
    assert forall|i: int| 0 <= i < a.len() implies !delim(#[trigger] a[i]) by {
        if u < a.len() && i < u {
            let x = pfx(a, u);
            assert(x[i] == a[i]);
            if x[i] < 0x80u8 { lemma_is_sat_byte(x, Cls::Userinfo, iri, i); }
        } else if u < a.len() && i == u { }
        else {
            let j = if u < a.len() { i - u - 1 } else { i };
            assert(hp[j] == a[i]);
            if j < e { assert(h[j] == a[i]); }
            else if j > e { assert(sfx(hp, e + 1)[j - e - 1] == a[i]); }
        }
    }
}
pub proof fn lemma_sat_no_qf(b: Seq<u8>, iri: bool)
    requires is_sat(b, Cls::PcharSlash, iri), valid_utf8(b)
    ensures no_qf(b)
{
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 0x3f && b[i] != 0x23 by {
        if b[i] < 0x80u8 { lemma_is_sat_byte(b, Cls::PcharSlash, iri, i); }
    }
}
pub proof fn lemma_query_bytes(b: Seq<u8>, iri: bool)
    requires is_sat(b, Cls::Query, iri), valid_utf8(b)
    ensures no_hash(b)
{
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 0x23 by {
        if b[i] < 0x80u8 { lemma_is_sat_byte(b, Cls::Query, iri, i); }
    }
}
pub proof fn lemma_path_bytes(p: Seq<u8>, noscheme: bool, iri: bool)
    requires valid_utf8(p), g_path_abempty(p, iri) || g_path_noauth(p, noscheme, iri)
    ensures no_qf(p)
{
    if g_path_noauth(p, noscheme, iri) { lemma_sat_no_qf(p, iri); }
    else if p.len() > 0 {
        lemma_ascii_boundary(p, 0);
        lemma_valid_split(p, 1);
        let t = sfx(p, 1);
        lemma_sat_no_qf(t, iri);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] != 0x3f && p[i] != 0x23 by { if i > 0 { assert(t[i - 1] == p[i]); } }
    }
}
pub open spec fn v_opt(o: Option<Seq<u8>>) -> bool { o matches Some(x) ==> valid_utf8(x) }
/// components that form a valid reference
pub open spec fn ok_parts(s: Option<Seq<u8>>, a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, iri: bool) -> bool {
    (s matches Some(s) ==> g_scheme(s))
    && (match a { Some(a) => g_authority(a, iri) && g_path_abempty(p, iri), None => g_path_noauth(p, s is None, iri) })
    && (q matches Some(q) ==> is_sat(q, Cls::Query, iri))
    && (f matches Some(f) ==> is_sat(f, Cls::Fragment, iri))
    && v_opt(a) && valid_utf8(p) && v_opt(q) && v_opt(f)
}
pub open spec fn t_of(q: Option<Seq<u8>>, f: Option<Seq<u8>>) -> Seq<u8> {
    (match q { Some(q) => seq![0x3fu8] + q, None => seq![] }) + (match f { Some(f) => seq![0x23u8] + f, None => seq![] })
}
pub open spec fn a_of(a: Option<Seq<u8>>) -> Seq<u8> { match a { Some(a) => ss() + a, None => seq![] } }
proof fn lemma_t_of(q: Option<Seq<u8>>, f: Option<Seq<u8>>, frag_ok: bool, iri: bool)
    requires q matches Some(q) ==> no_hash(q) && is_sat(q, Cls::Query, iri), f matches Some(f) ==> frag_ok && is_sat(f, Cls::Fragment, iri)
    ensures t_query(t_of(q, f)) == q, t_fragment(t_of(q, f)) == f, g_after_path(t_of(q, f), frag_ok, iri),
        t_of(q, f).len() > 0 ==> t_of(q, f)[0] == 0x3f || t_of(q, f)[0] == 0x23,
{
    let t = t_of(q, f);
    match q {
        Some(q) => {
            let r = sfx(t, 1);
            let k = q.len() as int;
            assert(r =~= q + (match f { Some(f) => seq![0x23u8] + f, None => seq![] }));
            assert forall|j: int| 0 <= j < k implies !is4(#[trigger] r[j], 0x23, 0x23, 0x23, 0x23) by { assert(r[j] == q[j]); }
            lemma_first_is(r, k, 0x23, 0x23, 0x23, 0x23);
            assert(pfx(r, k) =~= q);
            if f is Some { assert(sfx(r, k + 1) =~= f.unwrap()); }
        }
        None => { if f is Some { assert(sfx(t, 1) =~= f.unwrap()); } }
    }
}
/// what follows the scheme
proof fn lemma_rest_auth(a: Seq<u8>, p: Seq<u8>, t: Seq<u8>)
    requires no_delim(a), no_qf(p), p.len() > 0 ==> p[0] == 0x2f, t.len() > 0 ==> t[0] == 0x3f || t[0] == 0x23
    ensures ({ let r = ss() + a + p + t; let x = sfx(r, 2); let n = a.len() as int; let m = p.len() as int; let z = pfx(x, n + m);
        has_ss(r) && r_auth_end(r) == 2 + n && r_path_end(r) == 2 + n + m && r.subrange(2, 2 + n) == a && r.subrange(2 + n, 2 + n + m) == p && sfx(r, 2 + n + m) == t
        && first2(x, 0x3f, 0x23) == n + m && first1(z, 0x2f) == n && pfx(z, n) == a && sfx(z, n) == p && sfx(x, n + m) == t })
{
    let r = ss() + a + p + t;
    let x = sfx(r, 2);
    assert(x =~= a + p + t);
    let n = a.len() as int;
    let m = p.len() as int;
    assert forall|j: int| 0 <= j < n implies !is4(#[trigger] x[j], 0x2f, 0x3f, 0x23, 0x23) by { assert(x[j] == a[j]); }
    if n < x.len() { if p.len() > 0 { assert(x[n] == p[0]); } else { assert(x[n] == t[0]); } }
    lemma_first_is(x, n, 0x2f, 0x3f, 0x23, 0x23);
    assert(r.subrange(2, 2 + n) =~= a);
    let y = sfx(r, 2 + n);
    assert(y =~= p + t);
    assert forall|j: int| 0 <= j < m implies !is4(#[trigger] y[j], 0x3f, 0x23, 0x23, 0x23) by { assert(y[j] == p[j]); }
    if m < y.len() { assert(y[m] == t[0]); }
    lemma_first_is(y, m, 0x3f, 0x23, 0x23, 0x23);
    assert(r.subrange(2 + n, 2 + n + m) =~= p);
    assert(sfx(r, 2 + n + m) =~= t);
    assert forall|j: int| 0 <= j < n + m implies !is4(#[trigger] x[j], 0x3f, 0x23, 0x23, 0x23) by { if j < n { assert(x[j] == a[j]); } else { assert(x[j] == p[j - n]); } }
    if n + m < x.len() { assert(x[n + m] == t[0]); }
    lemma_first_is(x, n + m, 0x3f, 0x23, 0x23, 0x23);
    let z = pfx(x, n + m);
    assert(z =~= a + p);
    assert forall|j: int| 0 <= j < n implies !is4(#[trigger] z[j], 0x2f, 0x2f, 0x2f, 0x2f) by { assert(z[j] == a[j]); }
    if n < z.len() { assert(z[n] == p[0]); }
    lemma_first_is(z, n, 0x2f, 0x2f, 0x2f, 0x2f);
    assert(pfx(z, n) =~= a);
    assert(sfx(z, n) =~= p);
    assert(sfx(x, n + m) =~= t);
    assert(r[0] == 0x2f && r[1] == 0x2f);
}
proof fn lemma_rest_noauth(p: Seq<u8>, t: Seq<u8>)
    requires no_qf(p), !has_ss(p), t.len() > 0 ==> t[0] == 0x3f || t[0] == 0x23
    ensures ({ let r = p + t; let m = p.len() as int;
        !has_ss(r) && r_path_end(r) == m && r.subrange(0, m) == p && pfx(r, m) == p && sfx(r, m) == t && first2(r, 0x3f, 0x23) == m })
{
    let r = p + t;
    let m = p.len() as int;
    assert(!has_ss(r)) by {
        if r.len() >= 2 && r[0] == 0x2f && r[1] == 0x2f {
            if m >= 2 { assert(p[0] == r[0] && p[1] == r[1]); }
            else if m == 1 { assert(r[1] == t[0]); }
            else { assert(r[0] == t[0]); }
        }
    }
    assert(sfx(r, 0) =~= r);
    assert forall|j: int| 0 <= j < m implies !is4(#[trigger] r[j], 0x3f, 0x23, 0x23, 0x23) by { assert(r[j] == p[j]); }
    if m < r.len() { assert(r[m] == t[0]); }
    lemma_first_is(r, m, 0x3f, 0x23, 0x23, 0x23);
    assert(r.subrange(0, m) =~= p);
    assert(sfx(r, m) =~= t);
}
proof fn lemma_rest_of(a: Option<Seq<u8>>, p: Seq<u8>, t: Seq<u8>, noscheme: bool, iri: bool)
    requires
        match a { Some(a) => g_authority(a, iri) && g_path_abempty(p, iri), None => g_path_noauth(p, noscheme, iri) },
        v_opt(a), valid_utf8(p), t.len() > 0 ==> t[0] == 0x3f || t[0] == 0x23,
    ensures ({ let r = a_of(a) + p + t;
        r_authority(r) == a && r_path(r) == p && r_tail(r) == t && (forall|frag_ok: bool| g_after_path(t, frag_ok, iri) ==> #[trigger] g_rest(r, noscheme, frag_ok, iri)) })
{
    let r = a_of(a) + p + t;
    lemma_path_bytes(p, noscheme, iri);
    match a {
        Some(a) => { lemma_auth_bytes(a, iri); lemma_rest_auth(a, p, t); }
        None => { lemma_rest_noauth(p, t); assert(r =~= p + t); }
    }
}
pub open spec fn rest_of(a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>) -> Seq<u8> { a_of(a) + p + t_of(q, f) }
proof fn lemma_rest_parts(s: Option<Seq<u8>>, a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, iri: bool)
    requires ok_parts(s, a, p, q, f, iri)
    ensures ({ let r = rest_of(a, p, q, f);
        r_authority(r) == a && r_path(r) == p && t_query(r_tail(r)) == q && t_fragment(r_tail(r)) == f
        && g_rest(r, s is None, true, iri) && (f is None ==> g_rest(r, s is None, false, iri)) }),
        t_of(q, f).len() > 0 ==> t_of(q, f)[0] == 0x3f || t_of(q, f)[0] == 0x23,
{
    let t = t_of(q, f);
    if q is Some { lemma_query_bytes(q.unwrap(), iri); }
    lemma_t_of(q, f, true, iri);
    if f is None { lemma_t_of(q, f, false, iri); }
    lemma_rest_of(a, p, t, s is None, iri);
}
proof fn lemma_scheme_front(s: Seq<u8>, r: Seq<u8>)
    requires g_scheme(s)
    ensures ({ let b = s + seq![0x3au8] + r; let k = s.len() as int;
        first4(b, 0x3a, 0x2f, 0x3f, 0x23) == k && first1(b, 0x3a) == k && k < b.len() && b[k] == 0x3a && pfx(b, k) == s && sfx(b, k + 1) == r })
{
    let b = s + seq![0x3au8] + r;
    let k = s.len() as int;
    assert forall|j: int| 0 <= j < k implies scheme_c(#[trigger] s[j]) by { if j > 0 { assert(sfx(s, 1)[j - 1] == s[j]); } }
    assert forall|j: int| 0 <= j < k implies !is4(#[trigger] b[j], 0x3a, 0x2f, 0x3f, 0x23) && !is4(b[j], 0x3a, 0x3a, 0x3a, 0x3a) by { assert(b[j] == s[j]); assert(scheme_c(s[j])); }
    assert(b[k] == 0x3a);
    lemma_first_is(b, k, 0x3a, 0x2f, 0x3f, 0x23);
    lemma_first_is(b, k, 0x3a, 0x3a, 0x3a, 0x3a);
    assert(pfx(b, k) =~= s);
    assert(sfx(b, k + 1) =~= r);
}
/// no scheme in front: the first of ":/?#" is no colon
proof fn lemma_no_scheme(a: Option<Seq<u8>>, p: Seq<u8>, t: Seq<u8>, iri: bool)
    requires a is None ==> g_path_noauth(p, true, iri), t.len() > 0 ==> t[0] == 0x3f || t[0] == 0x23
    ensures sch_end(a_of(a) + p + t) == -1
{
    let b = a_of(a) + p + t;
    let k = first4(b, 0x3a, 0x2f, 0x3f, 0x23);
    if k < b.len() && b[k] == 0x3a {
        if a is Some { assert(b[0] == 0x2f); assert(k > 0); assert(is4(b[0], 0x3a, 0x2f, 0x3f, 0x23)); }
        else {
            assert(b =~= p + t);
            let m = p.len() as int;
            if k < m {
                let j = first2(p, 0x2f, 0x3a);
                assert(p[k] == 0x3a);
                assert(j <= k) by { if j > k { assert(is4(p[k], 0x2f, 0x3a, 0x3a, 0x3a)); } }
                if j < k { assert(p[j] == b[j]); assert(is4(b[j], 0x3a, 0x2f, 0x3f, 0x23)); }
            } else {
                assert(t.len() > 0);
                assert(b[m] == t[0]);
                if k > m { assert(is4(b[m], 0x3a, 0x2f, 0x3f, 0x23)); }
            }
        }
    }
}
proof fn lemma_compose_assoc(s: Option<Seq<u8>>, a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>)
    ensures compose(s, a, p, q, f) == (match s { Some(s) => s + seq![0x3au8], None => seq![] }) + rest_of(a, p, q, f),
        s is None ==> compose(s, a, p, q, f) == rest_of(a, p, q, f) && sfx(rest_of(a, p, q, f), 0) == rest_of(a, p, q, f),
{
    let sc = (match s { Some(s) => s + seq![0x3au8], None => seq![] });
    let aa = a_of(a);
    let qq = (match q { Some(q) => seq![0x3fu8] + q, None => seq![] });
    let ff = (match f { Some(f) => seq![0x23u8] + f, None => seq![] });
    assert(sc + aa + p + qq + ff =~= sc + (aa + p + (qq + ff)));
    if s is None { assert(sc + rest_of(a, p, q, f) =~= rest_of(a, p, q, f)); assert(sfx(rest_of(a, p, q, f), 0) =~= rest_of(a, p, q, f)); }
}
/// C04/C11/C12: composing valid components gives a valid identifier with exactly these components
pub proof fn lemma_compose(s: Option<Seq<u8>>, a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, iri: bool)
    requires ok_parts(s, a, p, q, f, iri)
    ensures ({ let b = compose(s, a, p, q, f);
        c_scheme(b) == s && c_authority(b) == a && c_path(b) == p && c_query(b) == q && c_fragment(b) == f
        && g_reference(b, iri) && (s is Some ==> g_uri(b, iri)) && (s is None ==> g_relative(b, iri)) && (s is Some && f is None ==> g_absolute(b, iri)) })
{
    let b = compose(s, a, p, q, f);
    let r = rest_of(a, p, q, f);
    lemma_rest_parts(s, a, p, q, f, iri);
    lemma_compose_assoc(s, a, p, q, f);
    lemma_compose_g(s, r, b, f is None, iri);
    if s is None { lemma_no_scheme(a, p, t_of(q, f), iri); }
    assert(rest(b) == r);
}
proof fn lemma_compose_g(s: Option<Seq<u8>>, r: Seq<u8>, b: Seq<u8>, nofrag: bool, iri: bool)
    requires b == (match s { Some(s) => s + seq![0x3au8], None => seq![] }) + r, s matches Some(s) ==> g_scheme(s),
        g_rest(r, s is None, true, iri), nofrag ==> g_rest(r, s is None, false, iri), s is None ==> b == r && sfx(b, 0) == b,
    ensures s is Some ==> sch_end(b) >= 0 && c_scheme(b) == s && rest(b) == r && g_uri(b, iri) && (nofrag ==> g_absolute(b, iri)),
        s is None ==> g_relative(b, iri), g_reference(b, iri),
{
    hide(g_rest);
    if s is Some { lemma_scheme_front(s.unwrap(), r); }
}
/// and back: the components of a valid reference are valid components
pub proof fn lemma_ok_parts(b: Seq<u8>, iri: bool)
    requires g_reference(b, iri), valid_utf8(b)
    ensures ok_parts(c_scheme(b), c_authority(b), c_path(b), c_query(b), c_fragment(b), iri),
        b == compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), c_fragment(b)),
        g_uri(b, iri) == (c_scheme(b) is Some), g_absolute(b, iri) == (c_scheme(b) is Some && c_fragment(b) is None), g_relative(b, iri) == (c_scheme(b) is None),
{
    lemma_components(b, iri);
    lemma_recompose(b);
    lemma_valid_parts(b);
    lemma_compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), c_fragment(b), iri);
    if c_scheme(b) is Some { lemma_scheme_not_relative(b, iri); }
}
pub proof fn lemma_valid_parts(b: Seq<u8>)
    requires valid_utf8(b)
    ensures v_opt(c_authority(b)), valid_utf8(c_path(b)), v_opt(c_query(b)), v_opt(c_fragment(b))
{
    lemma_positions(b);
    lemma_boundary_ends(b);
    let ps = path_start(b); let pe = path_end(b);
    if c_authority(b) is Some { lemma_valid_sub(b, rest_start(b) + 2, auth_end(b)); }
    lemma_valid_sub(b, ps, pe);
    if c_query(b) is Some { lemma_valid_sub(b, query_start(b), if frag_start(b) > 0 { frag_start(b) - 1 } else { b.len() as int }); }
    if c_fragment(b) is Some { lemma_valid_split(b, frag_start(b)); }
}
pub proof fn lemma_valid_sub(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), 0 <= i <= j <= b.len(), is_char_boundary(b, i), is_char_boundary(b, j)
    ensures valid_utf8(b.subrange(i, j))
{
    lemma_valid_split(b, j);
    let p = pfx(b, j);
    if i < j {
        is_char_boundary_iff_not_is_continuation_byte(b, i);
        is_char_boundary_iff_not_is_continuation_byte(p, i);
        assert(p[i] == b[i]);
        lemma_valid_split(p, i);
    } else {
        reveal_with_fuel(valid_utf8, 1);
    }
    assert(sfx(p, i) =~= b.subrange(i, j));
}
/// C12: replacing or dropping the fragment
pub proof fn lemma_set_fragment(b: Seq<u8>, f: Option<Seq<u8>>, iri: bool)
    requires g_reference(b, iri), valid_utf8(b), f matches Some(f) ==> is_sat(f, Cls::Fragment, iri) && valid_utf8(f)
    ensures ({ let n = before_fragment(b) + (match f { Some(f) => seq![0x23u8] + f, None => seq![] });
        n == compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), f)
        && g_reference(n, iri) && g_uri(n, iri) == g_uri(b, iri) && g_relative(n, iri) == g_relative(b, iri) && (f is None && g_uri(b, iri) ==> g_absolute(n, iri))
        && c_scheme(n) == c_scheme(b) && c_authority(n) == c_authority(b) && c_path(n) == c_path(b) && c_query(n) == c_query(b) && c_fragment(n) == f })
{
    let n = before_fragment(b) + (match f { Some(f) => seq![0x23u8] + f, None => seq![] });
    lemma_ok_parts(b, iri);
    lemma_positions(b);
    lemma_first_hash(b);
    lemma_compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), f, iri);
    lemma_compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), None, iri);
    let nf = compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), None);
    assert(before_fragment(b) =~= nf) by {
        match c_fragment(b) {
            Some(fr) => { assert(b =~= nf + (seq![0x23u8] + fr)); assert(b.len() == nf.len() + 1 + fr.len()); }
            None => { }
        }
    }
    assert(n =~= compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), f));
    if f is None { assert(n =~= nf); }
    if f is None && g_uri(b, iri) { assert(g_absolute(n, iri)); }
    if g_uri(n, iri) && c_scheme(b) is None { lemma_scheme_not_relative(n, iri); }
    if g_relative(n, iri) && c_scheme(b) is Some { lemma_scheme_not_relative(n, iri); }
}
/// everything before and after the authority
pub open spec fn front(s: Option<Seq<u8>>) -> Seq<u8> { match s { Some(s) => s + seq![0x3au8] + ss(), None => ss() } }
proof fn lemma_around(s: Option<Seq<u8>>, w: Seq<u8>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>)
    ensures compose(s, Some(w), p, q, f) == front(s) + w + (p + t_of(q, f))
{
    lemma_compose_assoc(s, Some(w), p, q, f);
    let t = t_of(q, f);
    match s {
        Some(s) => { assert(s + seq![0x3au8] + (ss() + w + p + t) =~= s + seq![0x3au8] + ss() + w + (p + t)); }
        None => { assert(ss() + w + p + t =~= ss() + w + (p + t)); }
    }
}
proof fn lemma_cut_mid(x: Seq<u8>, u: Seq<u8>, v: Seq<u8>, h: Seq<u8>, t: Seq<u8>)
    requires v.len() <= u.len(), v == pfx(u, v.len() as int)
    ensures ({ let b = x + (u + h) + t; x + (v + h) + t == pfx(b, (x.len() + v.len()) as int) + sfx(b, (x.len() + u.len()) as int) })
{
    let b = x + (u + h) + t;
    assert(pfx(b, (x.len() + v.len()) as int) =~= x + v);
    assert(sfx(b, (x.len() + u.len()) as int) =~= h + t);
    assert(x + (v + h) + t =~= x + v + (h + t));
}
/// cutting the end of the first part of the authority
pub proof fn lemma_cut(s: Option<Seq<u8>>, u: Seq<u8>, v: Seq<u8>, h: Seq<u8>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>)
    requires v.len() <= u.len(), v == pfx(u, v.len() as int)
    ensures ({ let b = compose(s, Some(u + h), p, q, f); let k = front(s).len();
        compose(s, Some(v + h), p, q, f) == pfx(b, (k + v.len()) as int) + sfx(b, (k + u.len()) as int) })
{
    lemma_around(s, u + h, p, q, f);
    lemma_around(s, v + h, p, q, f);
    lemma_cut_mid(front(s), u, v, h, p + t_of(q, f));
}
