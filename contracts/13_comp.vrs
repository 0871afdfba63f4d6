#module comp
#raw
// RFC 3986 component positions of an identifier (RFC 3986 Appendix B), and lemmas tying them to the grammar.
use crate::vx::*;
use crate::grammar::*;
use crate::parser::char::*;
broadcast use {crate::vx::lemma_first, crate::vx::lemma_last, crate::vx::lemma_pfx_full, crate::vx::lemma_sfx_zero};

/// end of the scheme, or -1: the first of ":/?#" is a colon
pub open spec fn sch_end(b: Seq<u8>) -> int {
    let k = first4(b, 0x3a, 0x2f, 0x3f, 0x23);
    if k < b.len() && b[k] == 0x3a { k } else { -1 }
}
/// start of what follows the scheme and its colon
pub open spec fn rest_start(b: Seq<u8>) -> int { sch_end(b) + 1 }
/// for the text after the scheme: does it have an authority, and where does the authority end
pub open spec fn r_has_auth(r: Seq<u8>) -> bool { has_ss(r) }
pub open spec fn r_auth_end(r: Seq<u8>) -> int { 2 + first3(sfx(r, 2), 0x2f, 0x3f, 0x23) }
pub open spec fn r_path_start(r: Seq<u8>) -> int { if r_has_auth(r) { r_auth_end(r) } else { 0 } }
pub open spec fn r_path_end(r: Seq<u8>) -> int { r_path_start(r) + first2(sfx(r, r_path_start(r)), 0x3f, 0x23) }
/// for the text after the path
pub open spec fn t_query(t: Seq<u8>) -> Option<Seq<u8>> {
    if t.len() > 0 && t[0] == 0x3f { Some(pfx(sfx(t, 1), first1(sfx(t, 1), 0x23))) } else { None }
}
pub open spec fn t_fragment(t: Seq<u8>) -> Option<Seq<u8>> {
    if t.len() == 0 { None }
    else if t[0] == 0x3f {
        let q = sfx(t, 1);
        if first1(q, 0x23) < q.len() { Some(sfx(q, first1(q, 0x23) + 1)) } else { None }
    } else { Some(sfx(t, 1)) }
}
pub open spec fn rest(b: Seq<u8>) -> Seq<u8> { sfx(b, rest_start(b)) }
pub open spec fn c_scheme(b: Seq<u8>) -> Option<Seq<u8>> { if sch_end(b) >= 0 { Some(pfx(b, sch_end(b))) } else { None } }
pub open spec fn r_authority(r: Seq<u8>) -> Option<Seq<u8>> { if r_has_auth(r) { Some(r.subrange(2, r_auth_end(r))) } else { None } }
pub open spec fn r_path(r: Seq<u8>) -> Seq<u8> { r.subrange(r_path_start(r), r_path_end(r)) }
pub open spec fn r_tail(r: Seq<u8>) -> Seq<u8> { sfx(r, r_path_end(r)) }
pub open spec fn c_authority(b: Seq<u8>) -> Option<Seq<u8>> { r_authority(rest(b)) }
pub open spec fn c_path(b: Seq<u8>) -> Seq<u8> { r_path(rest(b)) }
pub open spec fn c_query(b: Seq<u8>) -> Option<Seq<u8>> { t_query(r_tail(rest(b))) }
pub open spec fn c_fragment(b: Seq<u8>) -> Option<Seq<u8>> { t_fragment(r_tail(rest(b))) }

/// absolute positions
pub open spec fn auth_end(b: Seq<u8>) -> int { rest_start(b) + r_auth_end(rest(b)) }
pub open spec fn path_start(b: Seq<u8>) -> int { rest_start(b) + r_path_start(rest(b)) }
pub open spec fn path_end(b: Seq<u8>) -> int { rest_start(b) + r_path_end(rest(b)) }

pub proof fn lemma_rest_bounds(r: Seq<u8>)
    ensures
        r_has_auth(r) ==> 2 <= r_auth_end(r) <= r.len(),
        0 <= r_path_start(r) <= r_path_end(r) <= r.len(),
        r_path_end(r) < r.len() ==> r[r_path_end(r)] == 0x3f || r[r_path_end(r)] == 0x23,
        r_tail(r).len() > 0 ==> r_tail(r)[0] == 0x3f || r_tail(r)[0] == 0x23,
{
    let p = r_path_start(r);
    let t = sfx(r, p);
    if r_has_auth(r) { let _ = first3(sfx(r, 2), 0x2f, 0x3f, 0x23); }
    let k = first2(t, 0x3f, 0x23);
    if k < t.len() { assert(r[p + k] == t[k]); }
    if r_path_end(r) < r.len() { assert(r_tail(r)[0] == r[r_path_end(r)]); }
}
pub open spec fn opt_len(o: Option<Seq<u8>>, d: int) -> int { match o { Some(s) => s.len() + d, None => 0 } }
pub open spec fn cat(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { a + b }
/// scheme ":" / "//" authority / path / "?" query / "#" fragment
pub open spec fn compose(s: Option<Seq<u8>>, a: Option<Seq<u8>>, p: Seq<u8>, q: Option<Seq<u8>>, f: Option<Seq<u8>>) -> Seq<u8> {
    (match s { Some(s) => s + seq![0x3au8], None => seq![] })
    + (match a { Some(a) => ss() + a, None => seq![] })
    + p
    + (match q { Some(q) => seq![0x3fu8] + q, None => seq![] })
    + (match f { Some(f) => seq![0x23u8] + f, None => seq![] })
}
proof fn lemma_compose_tail(t: Seq<u8>)
    requires t.len() > 0 ==> t[0] == 0x3f || t[0] == 0x23
    ensures (match t_query(t) { Some(q) => seq![0x3fu8] + q, None => seq![] }) + (match t_fragment(t) { Some(f) => seq![0x23u8] + f, None => seq![] }) == t
{
    if t.len() == 0 { }
    else if t[0] == 0x3f {
        let q = sfx(t, 1);
        let k = first1(q, 0x23);
        if k < q.len() {
            assert(seq![0x3fu8] + pfx(q, k) + (seq![0x23u8] + sfx(q, k + 1)) =~= t);
        } else {
            assert(seq![0x3fu8] + q =~= t);
        }
    } else {
        assert(seq![0x23u8] + sfx(t, 1) =~= t);
    }
    assert((match t_query(t) { Some(q) => seq![0x3fu8] + q, None => seq![] }) + (match t_fragment(t) { Some(f) => seq![0x23u8] + f, None => seq![] }) =~= t);
}
/// C02: re-joining the components with their delimiters yields the original text
pub proof fn lemma_recompose(b: Seq<u8>)
    ensures compose(c_scheme(b), c_authority(b), c_path(b), c_query(b), c_fragment(b)) == b
{
    let k = sch_end(b);
    let r = rest(b);
    let _ = first4(b, 0x3a, 0x2f, 0x3f, 0x23);
    lemma_rest_bounds(r);
    lemma_compose_tail(r_tail(r));
    let s = match c_scheme(b) { Some(s) => s + seq![0x3au8], None => seq![] };
    assert(s =~= pfx(b, rest_start(b)));
    let a = match c_authority(b) { Some(a) => ss() + a, None => seq![] };
    assert(a =~= pfx(r, r_path_start(r)));
    let q = match c_query(b) { Some(q) => seq![0x3fu8] + q, None => seq![] };
    let f = match c_fragment(b) { Some(f) => seq![0x23u8] + f, None => seq![] };
    assert(q + f == r_tail(r));
    assert(s + a + c_path(b) + q + f =~= s + (a + c_path(b) + (q + f)));
    assert(a + c_path(b) + r_tail(r) =~= r);
    assert(s + r =~= b);
}
/// the scheme found by position is the scheme of the grammar
pub proof fn lemma_scheme_pos(b: Seq<u8>)
    requires has_scheme(b)
    ensures sch_end(b) == first1(b, 0x3a), sch_end(b) > 0
{
    let c = first1(b, 0x3a);
    let s = pfx(b, c);
    assert(b[0] == s[0]);
    assert forall|i: int| 0 <= i < c implies scheme_c(#[trigger] b[i]) by { if i == 0 { assert(s[0] == b[0]); } else { assert(sfx(s, 1)[i - 1] == b[i]); } }
    lemma_first_is(b, c, 0x3a, 0x2f, 0x3f, 0x23);
}
pub proof fn lemma_relative_pos(b: Seq<u8>, iri: bool)
    requires g_relative(b, iri)
    ensures sch_end(b) == -1
{
    let k = first4(b, 0x3a, 0x2f, 0x3f, 0x23);
    if k < b.len() && b[k] == 0x3a {
        let p = first2(b, 0x3f, 0x23);
        assert(!has_ss(b));
        assert(k < p) by { if p <= k { assert(p < b.len()); assert(p != k); assert(is4(b[p], 0x3a, 0x2f, 0x3f, 0x23)); } }
        let path = pfx(b, p);
        assert(path[k] == 0x3a);
        let j = first2(path, 0x2f, 0x3a);
        assert(j <= k);
        if j < k { assert(path[j] == b[j]); assert(is4(b[j], 0x3a, 0x2f, 0x3f, 0x23)); }
        assert(j == k);
        assert(false);
    }
}
/// the authority (or path) part of the grammar ends where the positions say
proof fn lemma_rest_pos(r: Seq<u8>, noscheme: bool, frag_ok: bool, iri: bool)
    requires g_rest(r, noscheme, frag_ok, iri)
    ensures
        r_has_auth(r) ==> g_authority(r_authority(r).unwrap(), iri) && g_path_abempty(r_path(r), iri),
        !r_has_auth(r) ==> g_path_noauth(r_path(r), noscheme, iri),
        g_after_path(r_tail(r), frag_ok, iri),
{
    if has_ss(r) {
        let x = sfx(r, 2);
        let p = first2(x, 0x3f, 0x23);
        let y = pfx(x, p);
        let s = first1(y, 0x2f);
        if s < y.len() { assert(x[s] == y[s]); }
        assert forall|j: int| 0 <= j < s implies !is4(#[trigger] x[j], 0x2f, 0x3f, 0x23, 0x23) by { assert(x[j] == y[j]); }
        lemma_first_is(x, s, 0x2f, 0x3f, 0x23, 0x23);
        assert(r_auth_end(r) == 2 + s);
        assert(r_authority(r).unwrap() =~= pfx(y, s));
        let z = sfx(r, 2 + s);
        assert(z =~= sfx(x, s));
        assert forall|j: int| 0 <= j < p - s implies !is4(#[trigger] z[j], 0x3f, 0x23, 0x23, 0x23) by { assert(z[j] == x[s + j]); }
        if p < x.len() { assert(z[p - s] == x[p]); }
        lemma_first_is(z, p - s, 0x3f, 0x23, 0x23, 0x23);
        assert(r_path_end(r) == 2 + p);
        assert(r_path(r) =~= sfx(y, s));
        assert(r_tail(r) =~= sfx(x, p));
    } else {
        let p = first2(r, 0x3f, 0x23);
        assert(r_path(r) =~= pfx(r, p));
        assert(r_tail(r) =~= sfx(r, p));
    }
}
/// C02: for every valid reference the positional components are the ones of its derivation
pub proof fn lemma_components(b: Seq<u8>, iri: bool)
    requires g_reference(b, iri)
    ensures
        match c_scheme(b) { Some(s) => g_scheme(s) && sch_end(b) > 0, None => g_relative(b, iri) },
        match c_authority(b) {
            Some(a) => g_authority(a, iri) && g_path_abempty(c_path(b), iri),
            None => g_path_noauth(c_path(b), c_scheme(b) is None, iri),
        },
        c_query(b) matches Some(q) ==> is_sat(q, Cls::Query, iri),
        c_fragment(b) matches Some(f) ==> is_sat(f, Cls::Fragment, iri),
        g_absolute(b, iri) ==> c_fragment(b) is None,
        c_scheme(b) is Some == has_scheme(b),
{
    if has_scheme(b) {
        lemma_scheme_pos(b);
        lemma_scheme_not_relative(b, iri);
        lemma_rest_pos(rest(b), false, true, iri);
        if g_absolute(b, iri) { lemma_rest_pos(rest(b), false, false, iri); }
    } else {
        lemma_relative_pos(b, iri);
        lemma_rest_pos(rest(b), true, true, iri);
    }
    lemma_rest_bounds(rest(b));
}

// ---- authority -------------------------------------------------------------
pub open spec fn host_start(a: Seq<u8>) -> int { let u = first1(a, 0x40); if u < a.len() { u + 1 } else { 0 } }
/// end of the host inside the whole authority
pub open spec fn host_stop(a: Seq<u8>) -> int { host_start(a) + host_end(sfx(a, host_start(a))) }
pub open spec fn c_userinfo(a: Seq<u8>) -> Option<Seq<u8>> { if host_start(a) > 0 { Some(pfx(a, host_start(a) - 1)) } else { None } }
pub open spec fn c_host(a: Seq<u8>) -> Seq<u8> { a.subrange(host_start(a), host_stop(a)) }
pub open spec fn c_port(a: Seq<u8>) -> Option<Seq<u8>> { if host_stop(a) < a.len() { Some(sfx(a, host_stop(a) + 1)) } else { None } }
/// C03: joining the subcomponents reproduces the authority
pub proof fn lemma_authority_join(a: Seq<u8>)
    ensures (match c_userinfo(a) { Some(u) => u + seq![0x40u8], None => seq![] }) + c_host(a)
        + (match c_port(a) { Some(p) => seq![0x3au8] + p, None => seq![] }) == a,
{
    let h = host_start(a);
    let x = sfx(a, h);
    let e = host_end(x);
    lemma_host_end(x);
    if e < x.len() { assert(a[h + e] == x[e]); }
    assert((match c_userinfo(a) { Some(u) => u + seq![0x40u8], None => seq![] }) + c_host(a)
        + (match c_port(a) { Some(p) => seq![0x3au8] + p, None => seq![] }) =~= a);
}
pub proof fn lemma_host_end(x: Seq<u8>)
    ensures 0 <= host_end(x) <= x.len(), host_end(x) < x.len() ==> x[host_end(x)] == 0x3a && all_digit(sfx(x, host_end(x) + 1))
{
    let _ = last1(x, 0x3a);
}
/// in a valid authority the last of ":" and "]" is a colon exactly when there is a port
pub proof fn lemma_port_pos(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri), valid_utf8(a)
    ensures ({ let hp = sfx(a, host_start(a)); let k = last2(hp, 0x3a, 0x5d);
        host_end(hp) == (if k >= 0 && hp[k] == 0x3a { k } else { hp.len() as int }) }),
        ({ let hp = sfx(a, host_start(a)); g_host(pfx(hp, host_end(hp)), iri) }),
{
    let hp = sfx(a, host_start(a));
    assert(host_start(a) == 0 ==> hp =~= a);
    let e = host_end(hp);
    let host = pfx(hp, e);
    if host_start(a) > 0 { lemma_ascii_boundary(a, host_start(a) - 1); }
    crate::text::lemma_valid_split(a, host_start(a));
    lemma_host_end(hp);
    let k = last2(hp, 0x3a, 0x5d);
    let c = last1(hp, 0x3a);
    if e < hp.len() {
        assert(c == e);
        let port = sfx(hp, e + 1);
        assert forall|j: int| e < j < hp.len() implies #[trigger] hp[j] != 0x3a && hp[j] != 0x5d by { assert(digit(port[j - e - 1])); }
        lemma_last_is(hp, e, 0x3a, 0x5d);
    } else {
        assert(host =~= hp);
        if is_bracketed(hp) {
            assert forall|j: int| hp.len() - 1 < j < hp.len() implies #[trigger] hp[j] != 0x3a && hp[j] != 0x5d by { }
            lemma_last_is(hp, hp.len() - 1, 0x3a, 0x5d);
        } else {
            if k >= 0 && hp[k] == 0x3a { crate::text::lemma_is_sat_byte(hp, Cls::Regname, iri, k); }
        }
    }
}

/// the authority of a valid reference is a valid authority
pub proof fn lemma_authority_valid(b: Seq<u8>, iri: bool)
    requires g_reference(b, iri)
    ensures c_authority(b) matches Some(a) ==> g_authority(a, iri)
{
    lemma_components(b, iri);
}
/// the host of a valid authority is a valid host
pub proof fn lemma_host_valid(a: Seq<u8>, iri: bool)
    requires g_authority(a, iri)
    ensures g_host(c_host(a), iri), c_userinfo(a) matches Some(u) ==> is_sat(u, Cls::Userinfo, iri), c_port(a) matches Some(p) ==> all_digit(p)
{
    let h = host_start(a);
    let hp = sfx(a, h);
    assert(h == 0 ==> hp =~= a);
    lemma_host_end(hp);
    assert(c_host(a) =~= pfx(hp, host_end(hp)));
    if c_port(a) is Some { assert(sfx(a, host_stop(a) + 1) =~= sfx(hp, host_end(hp) + 1)); }
}
/// position of the fragment start, or -1
pub open spec fn frag_start(b: Seq<u8>) -> int { match c_fragment(b) { Some(f) => b.len() - f.len(), None => -1 } }
pub open spec fn query_start(b: Seq<u8>) -> int { if c_query(b) is Some { path_end(b) + 1 } else { -1 } }
pub open spec fn before_fragment(b: Seq<u8>) -> Seq<u8> { if frag_start(b) >= 0 { pfx(b, frag_start(b) - 1) } else { b } }
/// neither scheme, authority nor path contain a question mark or a hash
pub proof fn lemma_first_qf(b: Seq<u8>)
    ensures first2(b, 0x3f, 0x23) == path_end(b)
{
    let k = sch_end(b);
    let rs = rest_start(b);
    let r = rest(b);
    let _ = first4(b, 0x3a, 0x2f, 0x3f, 0x23);
    lemma_rest_bounds(r);
    let e = path_end(b);
    let x = sfx(r, 2);
    let _ = first3(x, 0x2f, 0x3f, 0x23);
    let t = sfx(r, r_path_start(r));
    let _ = first2(t, 0x3f, 0x23);
    assert forall|j: int| 0 <= j < e implies !is4(#[trigger] b[j], 0x3f, 0x23, 0x23, 0x23) by {
        if j < k { assert(!is4(b[j], 0x3a, 0x2f, 0x3f, 0x23)); }
        else if j == k { }
        else {
            assert(r[j - rs] == b[j]);
            if j - rs < r_path_start(r) {
                if j - rs >= 2 { assert(x[j - rs - 2] == b[j]); }
            } else { assert(t[j - rs - r_path_start(r)] == b[j]); }
        }
    }
    if e < b.len() { assert(r[e - rs] == b[e]); }
    lemma_first_is(b, e, 0x3f, 0x23, 0x23, 0x23);
}
pub proof fn lemma_first_hash(b: Seq<u8>)
    ensures first1(b, 0x23) == (if frag_start(b) >= 0 { frag_start(b) - 1 } else { b.len() as int }),
        frag_start(b) != 0, -1 <= frag_start(b) <= b.len(),
        frag_start(b) > 0 ==> b[frag_start(b) - 1] == 0x23 && sfx(b, frag_start(b)) == c_fragment(b).unwrap() && path_end(b) < frag_start(b),
{
    lemma_first_qf(b);
    lemma_rest_bounds(rest(b));
    let e = path_end(b);
    let _ = first2(b, 0x3f, 0x23);
    let t = r_tail(rest(b));
    assert(t =~= sfx(b, e));
    if e >= b.len() {
        lemma_first_is(b, b.len() as int, 0x23, 0x23, 0x23, 0x23);
    } else if b[e] == 0x3f {
        assert(t[0] == b[e]);
        let q = sfx(t, 1);
        let k = first1(q, 0x23);
        assert forall|j: int| 0 <= j < e + 1 + k implies !is4(#[trigger] b[j], 0x23, 0x23, 0x23, 0x23) by {
            if j < e { assert(!is4(b[j], 0x3f, 0x23, 0x23, 0x23)); } else if j > e { assert(q[j - e - 1] == b[j]); }
        }
        if k < q.len() { assert(q[k] == b[e + 1 + k]); }
        lemma_first_is(b, e + 1 + k, 0x23, 0x23, 0x23, 0x23);
        if k < q.len() { assert(sfx(q, k + 1) =~= sfx(b, e + 2 + k)); }
    } else {
        assert(t[0] == b[e]);
        assert forall|j: int| 0 <= j < e implies !is4(#[trigger] b[j], 0x23, 0x23, 0x23, 0x23) by { assert(!is4(b[j], 0x3f, 0x23, 0x23, 0x23)); }
        lemma_first_is(b, e, 0x23, 0x23, 0x23, 0x23);
        assert(sfx(t, 1) =~= sfx(b, e + 1));
    }
}
pub proof fn lemma_query_pos(b: Seq<u8>)
    ensures query_start(b) != 0, query_start(b) <= b.len(), query_start(b) > 0 ==> b[query_start(b) - 1] == 0x3f,
        c_query(b) matches Some(q) ==> q == b.subrange(query_start(b), if frag_start(b) > 0 { frag_start(b) - 1 } else { b.len() as int }),
{
    lemma_first_hash(b);
    lemma_first_qf(b);
    lemma_rest_bounds(rest(b));
    let e = path_end(b);
    let t = r_tail(rest(b));
    assert(t =~= sfx(b, e));
    if t.len() > 0 && t[0] == 0x3f {
        let q = sfx(t, 1);
        let k = first1(q, 0x23);
        assert(pfx(q, k) =~= b.subrange(e + 1, e + 1 + k));
        assert(sfx(q, k + 1).len() == q.len() - k - 1 || k == q.len());
    }
}

/// all positions are in range and next to ASCII bytes
pub proof fn lemma_positions(b: Seq<u8>)
    requires valid_utf8(b)
    ensures
        -1 <= sch_end(b) < b.len(), sch_end(b) >= 0 ==> is_char_boundary(b, sch_end(b)),
        0 <= rest_start(b) <= path_start(b) <= path_end(b) <= b.len(), is_char_boundary(b, rest_start(b)),
        r_has_auth(rest(b)) ==> rest_start(b) + 2 <= auth_end(b) == path_start(b) && is_char_boundary(b, rest_start(b) + 2) && is_char_boundary(b, auth_end(b)),
        !r_has_auth(rest(b)) ==> path_start(b) == rest_start(b),
        is_char_boundary(b, path_start(b)), is_char_boundary(b, path_end(b)),
        query_start(b) > 0 ==> query_start(b) == path_end(b) + 1 && query_start(b) <= (if frag_start(b) > 0 { frag_start(b) - 1 } else { b.len() as int })
            && is_char_boundary(b, query_start(b)) && is_char_boundary(b, query_start(b) - 1),
        frag_start(b) > 0 ==> is_char_boundary(b, frag_start(b)) && is_char_boundary(b, frag_start(b) - 1),
        path_end(b) == (if query_start(b) > 0 { query_start(b) - 1 } else if frag_start(b) > 0 { frag_start(b) - 1 } else { b.len() as int }),
        c_authority(b) matches Some(a) ==> a == b.subrange(rest_start(b) + 2, auth_end(b)),
        c_path(b) == b.subrange(path_start(b), path_end(b)),
        c_query(b) matches Some(q) ==> q == b.subrange(query_start(b), if frag_start(b) > 0 { frag_start(b) - 1 } else { b.len() as int }),
        c_fragment(b) matches Some(f) ==> f == sfx(b, frag_start(b)),
        query_start(b) != 0, frag_start(b) != 0,
{
    lemma_boundary_ends(b);
    if sch_end(b) >= 0 { lemma_ascii_boundary(b, sch_end(b)); }
    let r = rest(b);
    let rs = rest_start(b);
    let _ = first4(b, 0x3a, 0x2f, 0x3f, 0x23);
    lemma_rest_bounds(r);
    lemma_first_hash(b);
    lemma_query_pos(b);
    lemma_first_qf(b);
    let e = path_end(b);
    if e < b.len() { lemma_ascii_boundary(b, e); }
    if frag_start(b) > 0 { lemma_ascii_boundary(b, frag_start(b) - 1); }
    let _ = first2(b, 0x3f, 0x23);
    if r_has_auth(r) {
        assert(r[1] == b[rs + 1]);
        lemma_ascii_boundary(b, rs + 1);
        let x = sfx(r, 2);
        let k = first3(x, 0x2f, 0x3f, 0x23);
        if k < x.len() { assert(x[k] == b[rs + 2 + k]); lemma_ascii_boundary(b, rs + 2 + k); }
        assert(r.subrange(2, r_auth_end(r)) =~= b.subrange(rs + 2, auth_end(b)));
    }
    assert(c_path(b) =~= b.subrange(path_start(b), path_end(b)));
    let t = r_tail(r);
    assert(t =~= sfx(b, e));
}
