#module tgrammar
#raw
// RFC 6570 section 2 grammar over the byte sequence of a string.
use crate::vx::*;
use crate::grammar::*;
use crate::parser::char::*;
use crate::template::parser::char::*;
use crate::template::components::*;
broadcast use {crate::vx::group_vx};

/// op-reserve = "=" / "," / "!" / "@" / "|"
pub open spec fn op_reserved(b: u8) -> bool { b == 0x3d || b == 0x2c || b == 0x21 || b == 0x40 || b == 0x7c }
/// literals without triplets, ASCII only
pub open spec fn g_tlit(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < dec(b).len() ==> (#[trigger] dec(b)[i] as u32) < 0x80 && tlit(dec(b)[i] as u8) }
pub open spec fn no_dots(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() - 1 ==> !(#[trigger] b[i] == 0x2e && b[i + 1] == 0x2e) }
/// varname = varchar *( ["."] varchar ): varchars and dots, every dot between two varchars
pub open spec fn g_varname(b: Seq<u8>) -> bool {
    b.len() > 0 && is_sat(b, Cls::Varname, false) && b[0] != 0x2e && b[b.len() - 1] != 0x2e && no_dots(b)
}
/// max-length = %x31-39 0*3DIGIT
pub open spec fn g_maxlen(b: Seq<u8>) -> bool { 1 <= b.len() <= 4 && b[0] != 0x30 && all_digit(b) }
/// varspec = varname [ ":" max-length / "*" ]
pub open spec fn g_varspec(b: Seq<u8>) -> bool {
    let k = first2(b, 0x3a, 0x2a);
    if !(k < b.len()) { g_varname(b) }
    else if b[k] == 0x3a { g_varname(pfx(b, k)) && g_maxlen(sfx(b, k + 1)) }
    else { g_varname(pfx(b, k)) && k + 1 == b.len() }
}
/// variable-list = varspec *( "," varspec )
pub open spec fn g_varlist(b: Seq<u8>) -> bool
    decreases b.len()
{
    let k = first1(b, 0x2c);
    if !(0 <= k < b.len()) { g_varspec(b) } else { g_varspec(pfx(b, k)) && g_varlist(sfx(b, k + 1)) }
}
/// what is between the braces: [ operator ] variable-list
pub open spec fn g_expr(b: Seq<u8>) -> bool {
    b.len() > 0 && !op_reserved(b[0]) && g_varlist(if op_of(b[0]) is Some { sfx(b, 1) } else { b })
}
/// URI-Template = *( literals / expression ), literals with well-formed triplets
pub open spec fn g_template(b: Seq<u8>) -> bool
    decreases b.len()
{
    let k = first2(b, 0x25, 0x7b);
    if !(0 <= k < b.len()) { g_tlit(b) }
    else if b[k] == 0x25 { g_tlit(pfx(b, k)) && k + 2 < b.len() && hexdig(b[k + 1]) && hexdig(b[k + 2]) && g_template(sfx(b, k + 3)) }
    else {
        let r = sfx(b, k + 1);
        let j = first1(r, 0x7d);
        g_tlit(pfx(b, k)) && 0 <= j < r.len() && g_expr(pfx(r, j)) && g_template(sfx(r, j + 1))
    }
}
pub proof fn lemma_no_dots_sub(b: Seq<u8>, i: int, p: Seq<u8>)
    requires 0 <= i <= b.len(), p == seq![0x2eu8, 0x2e]
    ensures first_sub(b, i, p) < b.len() <==> exists|j: int| i <= j < b.len() - 1 && #[trigger] b[j] == 0x2e && b[j + 1] == 0x2e
    decreases b.len() - i
{
    if i + 2 <= b.len() {
        let s = b.subrange(i, i + 2);
        assert(s[0] == b[i] && s[1] == b[i + 1]);
        if s == p { assert(b[i] == 0x2e && b[i + 1] == 0x2e); }
        else {
            assert(!(b[i] == 0x2e && b[i + 1] == 0x2e)) by { if b[i] == 0x2e && b[i + 1] == 0x2e { assert(s =~= p); } }
            lemma_no_dots_sub(b, i + 1, p);
        }
    }
}

/// the first character and the first byte
pub proof fn lemma_head(b: Seq<u8>)
    requires valid_utf8(b)
    ensures b.len() == 0 <==> dec(b).len() == 0,
        b.len() > 0 ==> (b[0] < 0x80 <==> (dec(b)[0] as u32) < 0x80),
        b.len() > 0 && b[0] < 0x80 ==> dec(b)[0] == b[0] as char && valid_utf8(sfx(b, 1)) && dec(sfx(b, 1)) == dec(b).skip(1),
{
    reveal_with_fuel(decode_utf8, 1);
    reveal_with_fuel(encode_utf8, 1);
    decode_utf8_encode_utf8(b);
    if b.len() > 0 {
        if dec(b).len() == 0 { assert(dec(b) =~= Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()).len() == 0); }
        let c = dec(b)[0];
        let t = dec(b).skip(1);
        assert(dec(b) =~= seq![c] + t);
        encode_utf8_concat(seq![c], t);
        if (c as u32) < 0x80 { crate::vstring::lemma_enc1(c); assert(b[0] == c as u8); }
        if b[0] < 0x80 {
            crate::text::lemma_ascii_at(b, 0);
            assert(pfx(b, 0) =~= Seq::<u8>::empty());
            assert(dec(pfx(b, 0)) =~= Seq::<char>::empty());
            assert(dec(b).skip(1) =~= dec(sfx(b, 1)));
        }
    }
}
pub proof fn lemma_varname(b: Seq<u8>)
    requires valid_utf8(b)
    ensures ({ let n = if b.len() > 0 && varstart(b[0]) { 1int } else if b.len() >= 3 && b[0] == 0x25 && hexdig(b[1]) && hexdig(b[2]) { 3 } else { 0 };
        if n == 0 { !g_varname(b) } else { let r = sfx(b, n);
            g_varname(b) == (is_sat(r, Cls::Varname, false) && !(r.len() > 0 && r[r.len() - 1] == 0x2e) && no_dots(r)) } })
{
    let n = if b.len() > 0 && varstart(b[0]) { 1int } else if b.len() >= 3 && b[0] == 0x25 && hexdig(b[1]) && hexdig(b[2]) { 3 } else { 0 };
    lemma_head(b);
    let s = dec(b);
    if b.len() > 0 && b[0] < 0x80 {
        let b1 = sfx(b, 1);
        lemma_head(b1);
        assert(s.skip(1).len() > 0 ==> s.skip(1)[0] == s[1]);
        if b1.len() > 0 && b1[0] < 0x80 {
            let b2 = sfx(b1, 1);
            lemma_head(b2);
            assert(s.skip(1).skip(1).len() > 0 ==> s.skip(1).skip(1)[0] == s[2]);
        }
    }
    if n > 0 {
        let r = sfx(b, n);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == b[i + n] by { }
        if no_dots(b) {
            assert forall|j: int| 0 <= j < r.len() - 1 implies !(#[trigger] r[j] == 0x2e && r[j + 1] == 0x2e) by { assert(!(b[j + n] == 0x2e && b[j + n + 1] == 0x2e)); }
        }
        if forall|j: int| 0 <= j < r.len() - 1 ==> !(#[trigger] r[j] == 0x2e && r[j + 1] == 0x2e) {
            assert forall|i: int| 0 <= i < b.len() - 1 implies !(#[trigger] b[i] == 0x2e && b[i + 1] == 0x2e) by {
                if i >= n { assert(r[i - n] == b[i]); assert(r[i - n + 1] == b[i + 1]); }
            }
        }
        assert(is_sat(b, Cls::Varname, false) == is_sat(r, Cls::Varname, false));
    }
}

// ---- variables
/// name of a varspec
pub open spec fn vname(b: Seq<u8>) -> Seq<u8> { pfx(b, first2(b, 0x3a, 0x2a)) }
/// variable-list of an expression
pub open spec fn expr_list(b: Seq<u8>) -> Seq<u8> { if b.len() > 0 && op_of(b[0]) is Some { sfx(b, 1) } else { b } }
/// the varspecs of a variable-list
pub open spec fn specs(b: Seq<u8>) -> Seq<Seq<u8>>
    decreases b.len()
{
    let k = first1(b, 0x2c);
    if b.len() == 0 { Seq::empty() } else if !(0 <= k < b.len()) { seq![b] } else { seq![pfx(b, k)] + specs(sfx(b, k + 1)) }
}
/// the varspecs of a template, in order
pub open spec fn tspecs(b: Seq<u8>) -> Seq<Seq<u8>>
    decreases b.len()
{
    let k = first1(b, 0x7b);
    if !(0 <= k < b.len()) { Seq::empty() } else {
        let r = sfx(b, k + 1);
        let j = first1(r, 0x7d);
        if !(0 <= j < r.len()) { Seq::empty() } else { specs(expr_list(pfx(r, j))) + tspecs(sfx(r, j + 1)) }
    }
}
pub proof fn lemma_sub(b: Seq<u8>, k: int)
    requires valid_utf8(b), 0 <= k < b.len(), b[k] < 0x80
    ensures valid_utf8(pfx(b, k)), valid_utf8(sfx(b, k)), valid_utf8(sfx(b, k + 1))
{
    crate::text::lemma_ascii_at(b, k);
}
/// a variable-list starts with a varname
pub proof fn lemma_list_head(b: Seq<u8>)
    requires g_varlist(b), valid_utf8(b)
    ensures b.len() > 0, varstart(b[0]) || b[0] == 0x25
{
    let k = first1(b, 0x2c);
    let v = if k < b.len() { pfx(b, k) } else { b };
    assert(g_varspec(v));
    if k < b.len() { lemma_sub(b, k); }
    let m = first2(v, 0x3a, 0x2a);
    let n = if m < v.len() { pfx(v, m) } else { v };
    assert(g_varname(n));
    if m < v.len() { lemma_sub(v, m); }
    assert(n[0] == b[0]);
    lemma_varname(n);
}
pub proof fn lemma_expr_head(b: Seq<u8>)
    requires g_expr(b), valid_utf8(b)
    ensures b.len() > 0, op_of(b[0]) is None <==> (alpha(b[0]) || digit(b[0]) || b[0] == 0x5f || b[0] == 0x25), op_of(b[0]) is Some ==> b[0] < 0x80,
        g_varlist(expr_list(b))
{
    if op_of(b[0]) is None { lemma_list_head(b); }
}
pub proof fn lemma_varspec(b: Seq<u8>)
    requires g_varspec(b)
    ensures b.len() > 0, ({ let k = first2(b, 0x3a, 0x2a); let c = first1(b, 0x3a);
        (b[b.len() - 1] == 0x2a <==> k < b.len() && b[k] == 0x2a) && (b[b.len() - 1] == 0x2a ==> k == b.len() - 1)
        && (b[b.len() - 1] != 0x2a ==> c == k) && (k < b.len() && b[k] == 0x3a ==> g_maxlen(sfx(b, k + 1))) })
{
    let k = first2(b, 0x3a, 0x2a);
    let c = first1(b, 0x3a);
    let z = b[b.len() - 1];
    if k < b.len() && b[k] == 0x3a {
        let d = sfx(b, k + 1);
        assert(d[d.len() - 1] == z);
        assert(digit(d[d.len() - 1]));
    }
    if c < b.len() { assert(k <= c); if k < c { assert(b[k] == 0x2a); } }
    if z != 0x2a && c < k { assert(b[c] == 0x3a); }
}
pub proof fn lemma_list_next(b: Seq<u8>)
    requires valid_utf8(b), b.len() == 0 || g_varlist(b)
    ensures ({ let k = first1(b, 0x2c); b.len() > 0 ==> 0 < k && g_varspec(pfx(b, k)) && (k < b.len() ==> g_varlist(sfx(b, k + 1)) && valid_utf8(sfx(b, k + 1)) && specs(b) == seq![pfx(b, k)] + specs(sfx(b, k + 1)))
        && (k == b.len() ==> specs(b) == seq![b]) })
{
    if b.len() > 0 {
        let k = first1(b, 0x2c);
        if k < b.len() { lemma_sub(b, k); if k == 0 { assert(pfx(b, 0).len() == 0); lemma_varspec(pfx(b, 0)); } }
    }
}
/// the first expression of a template
pub proof fn lemma_template_brace(b: Seq<u8>)
    requires g_template(b), valid_utf8(b)
    ensures ({ let k = first1(b, 0x7b); k < b.len() ==> ({ let r = sfx(b, k + 1); let j = first1(r, 0x7d);
        j < r.len() && g_expr(pfx(r, j)) && g_template(sfx(r, j + 1)) && g_template(sfx(b, k)) && valid_utf8(pfx(r, j)) && valid_utf8(sfx(r, j + 1)) }) })
    decreases b.len()
{
    let k = first1(b, 0x7b);
    let m = first2(b, 0x25, 0x7b);
    if k < b.len() {
        assert(m <= k);
        lemma_sub(b, k);
        if b[m] == 0x7b {
            assert(m == k);
            let r = sfx(b, k + 1);
            let j = first1(r, 0x7d);
            lemma_sub(r, j);
            let c = sfx(b, k);
            assert(c[0] == 0x7b);
            assert(first2(c, 0x25, 0x7b) == 0);
            assert(sfx(c, 1) == r);
            assert(pfx(c, 0) =~= Seq::<u8>::empty());
            reveal_with_fuel(decode_utf8, 1);
            assert(g_tlit(pfx(c, 0)));
        } else {
            let t = sfx(b, m + 3);
            assert(b[m + 1] != 0x7b && b[m + 2] != 0x7b);
            assert(k >= m + 3);
            lemma_sub(b, m); lemma_sub(sfx(b, m + 1), 0); lemma_sub(sfx(b, m + 2), 0);
            assert(t[k - m - 3] == 0x7b);
            lemma_first_is(t, k - m - 3, 0x7b, 0x7b, 0x7b, 0x7b);
            lemma_template_brace(t);
            assert(sfx(t, k - m - 3) == sfx(b, k));
            assert(sfx(t, k - m - 2) == sfx(b, k + 1));
        }
    }
}
/// one step of the chunk iterator
pub proof fn lemma_chunk(b: Seq<u8>)
    requires g_template(b), valid_utf8(b), b.len() > 0
    ensures ({ let k = first1(b, 0x7b); let t = sfx(b, k + 1); let j = first1(t, 0x7d);
        if k == 0 { j < t.len() && g_expr(pfx(t, j)) && valid_utf8(pfx(t, j)) && valid_utf8(sfx(t, j + 1)) && valid_utf8(t) && g_template(sfx(t, j + 1)) && is_char_boundary(b, 1)
            && tspecs(b) == specs(expr_list(pfx(t, j))) + tspecs(sfx(t, j + 1)) && pfx(t, j).len() > 0 }
        else { g_template(sfx(b, k)) && tspecs(sfx(b, k)) == tspecs(b) && valid_utf8(sfx(b, k)) && valid_utf8(pfx(b, k)) } })
{
    let k = first1(b, 0x7b);
    lemma_template_brace(b);
    let r = sfx(b, k);
    if k < b.len() {
        lemma_sub(b, k);
        lemma_ascii_boundary(b, k);
        assert(r[0] == 0x7b);
        lemma_first_is(r, 0, 0x7b, 0x7b, 0x7b, 0x7b);
        assert(sfx(r, 1) == sfx(b, k + 1));
        let t = sfx(b, k + 1);
        let j = first1(t, 0x7d);
        lemma_sub(t, j);
        lemma_template_brace(r);
        if k > 0 { lemma_gt_brace(r); }
    } else {
        assert(r =~= Seq::<u8>::empty());
        assert(pfx(b, k) =~= b);
        reveal_with_fuel(decode_utf8, 1);
        assert(g_tlit(r));
        assert(tspecs(r) =~= Seq::<Seq<u8>>::empty());
    }
}
/// a string that begins with a well-formed expression followed by a template is a template
pub proof fn lemma_gt_brace(b: Seq<u8>)
    requires valid_utf8(b), b.len() > 0, b[0] == 0x7b, ({ let r = sfx(b, 1); let j = first1(r, 0x7d); j < r.len() && g_expr(pfx(r, j)) && g_template(sfx(r, j + 1)) })
    ensures g_template(b)
{
    lemma_first_is(b, 0, 0x25, 0x7b, 0x7b, 0x7b);
    assert(pfx(b, 0) =~= Seq::<u8>::empty());
    reveal_with_fuel(decode_utf8, 1);
    assert(g_tlit(pfx(b, 0)));
}
proof fn lemma_dec_concat(a: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(b)
    ensures dec(a + b) == dec(a) + dec(b), valid_utf8(a + b)
{
    decode_utf8_encode_utf8(a); decode_utf8_encode_utf8(b);
    encode_utf8_concat(dec(a), dec(b));
    encode_utf8_decode_utf8(dec(a) + dec(b));
    encode_utf8_valid_utf8(dec(a) + dec(b));
}
proof fn lemma_tlit_concat(a: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(b), g_tlit(a)
    ensures g_tlit(b) ==> g_tlit(a + b), valid_utf8(a + b)
{
    lemma_dec_concat(a, b);
    if g_tlit(b) {
        assert forall|i: int| 0 <= i < dec(a + b).len() implies (#[trigger] dec(a + b)[i] as u32) < 0x80 && tlit(dec(a + b)[i] as u8) by {
            if i < dec(a).len() { assert(dec(a + b)[i] == dec(a)[i]); } else { assert(dec(a + b)[i] == dec(b)[i - dec(a).len()]); }
        }
    }
}
proof fn lemma_concat_lit(a: Seq<u8>, b: Seq<u8>)
    requires g_tlit(a), first2(a, 0x25, 0x7b) == a.len(), g_template(b), valid_utf8(a), valid_utf8(b)
    ensures g_template(a + b)
{
    let c = a + b;
    let k = a.len();
    lemma_tlit_concat(a, b);
    let m = first2(b, 0x25, 0x7b);
    let z = k + m;
    assert forall|i: int| 0 <= i < z implies #[trigger] c[i] != 0x25 && c[i] != 0x7b by { if i < k { assert(c[i] == a[i]); } else { assert(c[i] == b[i - k]); } }
    if m < b.len() { assert(c[z] == b[m]); }
    lemma_first_is(c, z, 0x25, 0x7b, 0x7b, 0x7b);
    if m < b.len() {
        lemma_sub(b, m);
        lemma_tlit_concat(a, pfx(b, m));
        assert(pfx(c, z) =~= a + pfx(b, m));
        assert(sfx(c, z + 1) =~= sfx(b, m + 1));
        if b[m] == 0x25 { assert(sfx(c, z + 3) =~= sfx(b, m + 3)); assert(c[z + 1] == b[m + 1] && c[z + 2] == b[m + 2]); }
    }
}
proof fn lemma_concat_first(a: Seq<u8>, b: Seq<u8>, n1: u8, n2: u8)
    requires first2(a, n1, n2) < a.len()
    ensures ({ let k = first2(a, n1, n2); first2(a + b, n1, n2) == k && pfx(a + b, k) == pfx(a, k) && sfx(a + b, k) == sfx(a, k) + b && sfx(a + b, k + 1) == sfx(a, k + 1) + b && (a + b)[k] == a[k] })
{
    let k = first2(a, n1, n2);
    let c = a + b;
    assert forall|i: int| 0 <= i < k implies #[trigger] c[i] != n1 && c[i] != n2 by { assert(c[i] == a[i]); }
    lemma_first_is(c, k, n1, n2, n2, n2);
    assert(pfx(c, k) =~= pfx(a, k));
    assert(sfx(c, k) =~= sfx(a, k) + b);
    assert(sfx(c, k + 1) =~= sfx(a, k + 1) + b);
}
/// templates are closed under concatenation
pub proof fn lemma_template_concat(a: Seq<u8>, b: Seq<u8>)
    requires g_template(a), g_template(b), valid_utf8(a), valid_utf8(b)
    ensures g_template(a + b), valid_utf8(a + b)
    decreases a.len()
{
    let c = a + b;
    let k = first2(a, 0x25, 0x7b);
    lemma_dec_concat(a, b);
    if !(0 <= k < a.len()) {
        lemma_concat_lit(a, b);
    } else {
        lemma_concat_first(a, b, 0x25, 0x7b);
        lemma_sub(a, k);
        let r = sfx(a, k + 1);
        if a[k] == 0x25 {
            let t = sfx(a, k + 3);
            assert(c[k + 1] == a[k + 1] && c[k + 2] == a[k + 2]);
            assert(sfx(c, k + 3) =~= t + b);
            lemma_sub(r, 0); lemma_sub(sfx(a, k + 2), 0);
            assert(sfx(r, 1) =~= sfx(a, k + 2)); assert(sfx(sfx(a, k + 2), 1) =~= t);
            lemma_template_concat(t, b);
        } else {
            let j = first1(r, 0x7d);
            lemma_concat_first(r, b, 0x7d, 0x7d);
            lemma_sub(r, j);
            lemma_template_concat(sfx(r, j + 1), b);
        }
    }
}
