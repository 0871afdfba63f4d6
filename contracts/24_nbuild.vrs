#module nbuild
#raw
// What a builder writes: the composition of its components, and when that is a valid reference.
use crate::vx::*;
use crate::pct::*;
use crate::grammar::*;
use crate::comp::*;
use crate::comp::host_stop;
use crate::compose::*;
use crate::text::*;
use crate::npath::*;
use crate::ptext::*;
use crate::nstext::*;
use crate::nvalid::*;
use crate::parser::char::*;
broadcast use {vstd::string::group_string_axioms, vstd::utf8::group_utf8_lib, crate::vx::group_vx};
/// userinfo as it was given: nothing, the whole text, or a user and an optional password
pub enum Ui { No, Direct(Seq<u8>), Pass(Seq<u8>, Option<Seq<u8>>) }
/// host as it was given: text, or an IP address (as text)
pub enum Ho { Text(Seq<u8>), Ip(Seq<u8>) }
/// port as it was given: nothing, or text
pub enum Po { No, Num(Seq<u8>), Text(Seq<u8>) }
pub struct Au { pub ui: Ui, pub ho: Ho, pub po: Po }
/// the components of the authority
pub open spec fn ui_b(u: Ui) -> Option<Seq<u8>> { match u { Ui::No => None, Ui::Direct(s) => Some(s), Ui::Pass(s, None) => Some(s), Ui::Pass(s, Some(p)) => Some(s + seq![0x3au8] + p) } }
pub open spec fn ho_b(h: Ho) -> Seq<u8> { match h { Ho::Text(s) => s, Ho::Ip(s) => s } }
pub open spec fn po_b(p: Po) -> Option<Seq<u8>> { match p { Po::No => None, Po::Num(s) => Some(s), Po::Text(s) => Some(s) } }
pub open spec fn at_b(u: Option<Seq<u8>>) -> Seq<u8> { match u { Some(x) => x + seq![0x40u8], None => Seq::empty() } }
pub open spec fn co_b(p: Option<Seq<u8>>) -> Seq<u8> { match p { Some(x) => seq![0x3au8] + x, None => Seq::empty() } }
/// userinfo "@" host ":" port
pub open spec fn au_b(a: Au) -> Seq<u8> { at_b(ui_b(a.ui)) + ho_b(a.ho) + co_b(po_b(a.po)) }
/// the components are acceptable
pub open spec fn ui_ok(u: Ui, iri: bool) -> bool {
    match u {
        Ui::No => true,
        Ui::Direct(s) => is_sat(s, Cls::Userinfo, iri),
        // what follows a colon is the password
        Ui::Pass(s, p) => first1(s, 0x3a) == s.len() && is_sat(s, Cls::Userinfo, iri) && (p matches Some(x) ==> is_sat(x, Cls::Userinfo, iri)),
    }
}
pub open spec fn ho_ok(h: Ho, iri: bool) -> bool { match h { Ho::Text(s) => g_host(s, iri), Ho::Ip(_) => true } }
pub open spec fn po_ok(p: Po) -> bool { match p { Po::No => true, Po::Num(s) => true, Po::Text(s) => all_digit(s) } }
pub open spec fn au_ok(a: Au, iri: bool) -> bool { ui_ok(a.ui, iri) && ho_ok(a.ho, iri) && po_ok(a.po) }
/// what the standard library guarantees, and what is text
pub open spec fn au_wf(a: Au) -> bool {
    (match a.ui { Ui::No => true, Ui::Direct(s) => valid_utf8(s), Ui::Pass(s, p) => valid_utf8(s) && v_opt(p) })
    && (match a.ho { Ho::Text(s) => valid_utf8(s), Ho::Ip(s) => ip_ok(s) })
    && (match a.po { Po::No => true, Po::Num(s) => all_digit(s) && s.len() > 0, Po::Text(s) => valid_utf8(s) })
}
/// an IPv4 address, or an IPv6 address in brackets; no uppercase letters
pub open spec fn ip_ok(s: Seq<u8>) -> bool {
    valid_utf8(s) && (g_ipv4(s) || (is_bracketed(s) && g_ipv6(s.subrange(1, s.len() - 1)))) && forall|i: int| 0 <= i < s.len() ==> !(0x41 <= #[trigger] s[i] <= 0x5a)
}
/// the text that is written (`pct`: with normalization)
pub open spec fn ui_t(u: Ui, pct: bool, iri: bool) -> Seq<char> {
    match u {
        Ui::No => Seq::empty(),
        Ui::Direct(s) => nm(s, pct, iri) + seq!['@'],
        Ui::Pass(s, p) => nm(s, pct, iri) + opt_text(seq![':'], p, pct, iri) + seq!['@'],
    }
}
pub open spec fn ho_t(h: Ho, pct: bool, iri: bool) -> Seq<char> { match h { Ho::Text(s) => if pct { hp_text(dec(s), iri) } else { dec(s) }, Ho::Ip(s) => dec(s) } }
pub open spec fn po_t(p: Po, pct: bool) -> Seq<char> {
    match p { Po::No => Seq::empty(), Po::Num(s) => seq![':'] + dec(s), Po::Text(s) => if pct && s.len() == 0 { Seq::empty() } else { seq![':'] + dec(s) } }
}
pub open spec fn au_t(a: Au, pct: bool, iri: bool) -> Seq<char> { ui_t(a.ui, pct, iri) + ho_t(a.ho, pct, iri) + po_t(a.po, pct) }
pub open spec fn nm_auth(b: Seq<u8>, pct: bool, iri: bool) -> Seq<char> { if pct { auth_text(b, iri) } else { dec(b) } }
// ---- userinfo
/// text around an ASCII delimiter
pub proof fn lemma_around(a: Seq<u8>, c: u8, b: Seq<u8>, k: Cls, iri: bool)
    requires valid_utf8(a), valid_utf8(b), c < 0x80, c != 0x25, !hexdig(c)
    ensures ({ let s = a + seq![c] + b; valid_utf8(s) && dec(s) == dec(a) + seq![c as char] + dec(b) && wft(dec(s)) == (wft(dec(a)) && wft(dec(b))) && pfx(s, a.len() as int) == a && sfx(s, a.len() as int + 1) == b
        && (wft(dec(a)) && wft(dec(b)) ==> norm(dec(s), iri) == norm(dec(a), iri) + seq![c as char] + norm(dec(b), iri)) })
{
    let s = a + seq![c] + b;
    lemma_dec1(c);
    lemma_dec_cat(a, seq![c]);
    lemma_dec_cat(a + seq![c], b);
    assert(pfx(s, a.len() as int) =~= a);
    assert(sfx(s, a.len() as int + 1) =~= b);
    lemma_dec_at(s, a.len() as int);
    let t = seq![c as char] + dec(b);
    assert(!hexdig_c(c as char) && c as char != '%');
    assert(brk(t));
    assert(dec(s) =~= dec(a) + t);
    lemma_norm_cut(dec(a), t, iri);
    lemma_norm_lit(c as char, dec(b), iri);
    assert(norm(dec(a), iri) + (seq![c as char] + norm(dec(b), iri)) =~= norm(dec(a), iri) + seq![c as char] + norm(dec(b), iri));
}
/// text of one class without triplets
proof fn lemma_plain_sat(s: Seq<char>, k: Cls, iri: bool)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '%' && (s[i] as u32) < 0x80 && pa(k, s[i] as u8)
    ensures sat(s, k, iri)
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[0] != '%');
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '%' && (t[i] as u32) < 0x80 && pa(k, t[i] as u8) by { assert(t[i] == s[i + 1]); }
        lemma_plain_sat(t, k, iri);
    }
}
pub proof fn lemma_sat_around(a: Seq<u8>, c: u8, b: Seq<u8>, k: Cls, iri: bool)
    requires valid_utf8(a), valid_utf8(b), c < 0x80, c != 0x25, !hexdig(c), pa(k, c)
    ensures is_sat(a + seq![c] + b, k, iri) == (is_sat(a, k, iri) && is_sat(b, k, iri))
{
    lemma_around(a, c, b, k, iri);
    let t = seq![c as char] + dec(b);
    assert(!hexdig_c(c as char) && c as char != '%');
    assert(dec(a + seq![c] + b) =~= dec(a) + t);
    lemma_sat_brk(dec(a), t, k, iri);
    assert(t.skip(1) =~= dec(b));
    assert(t[0] == c as char);
}
proof fn lemma_sat_none(b: Seq<u8>, k: Cls, iri: bool, d: u8)
    requires valid_utf8(b), is_sat(b, k, iri), d < 0x80, !pa(k, d), d != 0x25, !hexdig(d)
    ensures noneb(b, d)
{ assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != d by { if b[i] == d { lemma_is_sat_byte(b, k, iri, i); } } }
pub open spec fn ui_wf(u: Ui) -> bool { match u { Ui::No => true, Ui::Direct(s) => valid_utf8(s), Ui::Pass(s, p) => valid_utf8(s) && v_opt(p) } }
pub proof fn lemma_ui(u: Ui, iri: bool)
    requires ui_ok(u, iri), ui_wf(u)
    ensures ui_b(u) matches Some(x) ==> valid_utf8(x) && is_sat(x, Cls::Userinfo, iri) && wft(dec(x)) && noneb(x, 0x40) && (forall|pct: bool| #[trigger] ui_t(u, pct, iri) == nm(x, pct, iri) + seq!['@']),
        ui_b(u) is None ==> forall|pct: bool| #[trigger] ui_t(u, pct, iri) == Seq::<char>::empty(),
{
    hide(norm); hide(sat); hide(wft); hide(valid_utf8);
    match u {
        Ui::No => {}
        Ui::Direct(x) => { lemma_sat_wft(dec(x), Cls::Userinfo, iri); lemma_sat_none(x, Cls::Userinfo, iri, 0x40); }
        Ui::Pass(s, p) => {
            lemma_sat_wft(dec(s), Cls::Userinfo, iri);
            match p {
                None => {
                    lemma_sat_none(s, Cls::Userinfo, iri, 0x40);
                    assert forall|pct: bool| #[trigger] ui_t(u, pct, iri) == nm(s, pct, iri) + seq!['@'] by { assert(nm(s, pct, iri) + Seq::<char>::empty() =~= nm(s, pct, iri)); }
                }
                Some(y) => {
                    let x = ui_b(u)->Some_0;
                    lemma_sat_wft(dec(y), Cls::Userinfo, iri);
                    lemma_around(s, 0x3a, y, Cls::Userinfo, iri);
                    lemma_sat_around(s, 0x3a, y, Cls::Userinfo, iri);
                    lemma_sat_none(x, Cls::Userinfo, iri, 0x40);
                    assert forall|pct: bool| #[trigger] ui_t(u, pct, iri) == nm(x, pct, iri) + seq!['@'] by { assert(nm(s, pct, iri) + (seq![':'] + nm(y, pct, iri)) =~= nm(s, pct, iri) + seq![':'] + nm(y, pct, iri)); }
                }
            }
        }
    }
}
// ---- host
proof fn lemma_ipv4_dots(b: Seq<u8>)
    requires g_ipv4(b)
    ensures forall|i: int| 0 <= i < b.len() ==> digit(#[trigger] b[i]) || b[i] == 0x2e
{
    let d1 = first1(b, 0x2e);
    let r1 = sfx(b, d1 + 1);
    let d2 = first1(r1, 0x2e);
    let r2 = sfx(r1, d2 + 1);
    let d3 = first1(r2, 0x2e);
    let r3 = sfx(r2, d3 + 1);
    lemma_octet(pfx(b, d1)); lemma_octet(pfx(r1, d2)); lemma_octet(pfx(r2, d3)); lemma_octet(r3);
    assert forall|i: int| 0 <= i < b.len() implies digit(#[trigger] b[i]) || b[i] == 0x2e by {
        if i < d1 { assert(pfx(b, d1)[i] == b[i]); }
        else if i > d1 {
            let j = i - d1 - 1;
            assert(r1[j] == b[i]);
            if j < d2 { assert(pfx(r1, d2)[j] == r1[j]); }
            else if j > d2 {
                let k = j - d2 - 1;
                assert(r2[k] == r1[j]);
                if k < d3 { assert(pfx(r2, d3)[k] == r2[k]); } else if k > d3 { assert(r3[k - d3 - 1] == r2[k]); }
            }
        }
    }
}
proof fn lemma_octet(b: Seq<u8>)
    requires g_dec_octet(b)
    ensures all_digit(b)
{ }
/// an IP address is a host in normal form
pub proof fn lemma_ip(s: Seq<u8>, iri: bool)
    requires ip_ok(s)
    ensures g_host(s, iri), hostn(dec(s), iri) == dec(s)
{
    if g_ipv4(s) {
        lemma_ipv4_dots(s);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 && s[i] != 0x25 && pa(Cls::Regname, s[i]) && s[i] != 0x5b by { assert(digit(s[i]) || s[i] == 0x2e); }
        lemma_ascii_both(s);
        assert forall|i: int| 0 <= i < dec(s).len() implies #[trigger] dec(s)[i] != '%' && (dec(s)[i] as u32) < 0x80 && pa(Cls::Regname, dec(s)[i] as u8) by { assert(dec(s)[i] == s[i] as char); assert(pa(Cls::Regname, s[i])); assert((s[i] as char) as u8 == s[i]); }
        lemma_plain_sat(dec(s), Cls::Regname, iri);
    } else {
        lemma_bracketed_bytes(s);
    }
    lemma_lob_lowers(s);
    assert(lob(s) =~= s);
    encode_utf8_decode_utf8(lowers(dec(s)));
}
pub open spec fn ho_wf(h: Ho) -> bool { match h { Ho::Text(s) => valid_utf8(s), Ho::Ip(s) => ip_ok(s) } }
/// the host ends before the port
pub proof fn lemma_hp_end(h: Seq<u8>, p: Option<Seq<u8>>, iri: bool)
    requires g_host(h, iri), valid_utf8(h), p matches Some(x) ==> all_digit(x)
    ensures ({ let x = h + co_b(p); host_end(x) == h.len() && pfx(x, h.len() as int) == h && (h.len() < x.len()) == (p is Some) && (p is Some ==> Some(sfx(x, h.len() as int + 1)) == p) && valid_utf8(x) && noneb(x, 0x40)
        && dec(x) == dec(h) + (match p { Some(y) => seq![':'] + dec(y), None => Seq::empty() }) })
{
    let x = h + co_b(p);
    assert(pfx(x, h.len() as int) =~= h);
    lemma_host_bytes(h, iri);
    match p {
        None => {
            assert(x =~= h);
            if is_bracketed(h) { lemma_not_digit_end(h); } else { lemma_host_name(h, iri); lemma_no_colon_end(h); }
            assert(dec(h) + Seq::<char>::empty() =~= dec(h));
        }
        Some(y) => {
            let k = h.len() as int;
            assert(x =~= h + seq![0x3au8] + y);
            assert(sfx(x, k + 1) =~= y);
            assert(x[k] == 0x3a);
            lemma_last(x, 0x3a, 0x3a);
            let l = last1(x, 0x3a);
            assert(l >= k);
            if l > k { assert(y[l - k - 1] == x[l]); assert(digit(y[l - k - 1])); }
            lemma_digits(y);
            lemma_around(h, 0x3a, y, Cls::Regname, iri);
            assert(dec(h) + (seq![':'] + dec(y)) =~= dec(h) + seq![':'] + dec(y));
            assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != 0x40 by { if i < k { assert(h[i] != 0x40); } else if i > k { assert(digit(y[i - k - 1])); } }
        }
    }
}
pub proof fn lemma_ho(h: Ho, iri: bool)
    requires ho_ok(h, iri), ho_wf(h)
    ensures ({ let b = ho_b(h); g_host(b, iri) && valid_utf8(b) && ho_t(h, true, iri) == hostn(dec(b), iri) && ho_t(h, false, iri) == dec(b) })
{
    match h {
        Ho::Text(s) => {
            lemma_hp_end(s, None, iri);
            assert(s + co_b(None) =~= s);
            lemma_hp(s, iri);
        }
        Ho::Ip(s) => { lemma_ip(s, iri); }
    }
}
// ---- authority
/// where the parts of an authority are
pub open spec fn au_parts(b: Seq<u8>, u: Option<Seq<u8>>, h: Seq<u8>, p: Option<Seq<u8>>, iri: bool) -> bool {
    let x = h + co_b(p);
    valid_utf8(b) && g_authority(b, iri) && c_userinfo(b) == u && c_host(b) == h && c_port(b) == p
    && (match u { None => last1(b, 0x40) == -1 && b == x, Some(w) => last1(b, 0x40) == w.len() && b == w + seq![0x40u8] + x && pfx(b, w.len() as int) == w && sfx(b, w.len() as int + 1) == x })
}
proof fn lemma_au_none(h: Seq<u8>, p: Option<Seq<u8>>, iri: bool)
    requires g_host(h, iri), valid_utf8(h), p matches Some(x) ==> all_digit(x)
    ensures au_parts(h + co_b(p), None, h, p, iri)
{
    hide(norm); hide(sat); hide(normhost); hide(g_host); hide(wft); hide(valid_utf8); hide(host_end); hide(all_digit); hide(first_from); hide(last_upto);
    let b = h + co_b(p);
    lemma_hp_end(h, p, iri);
    lemma_first(b, 0x40, 0x40, 0x40, 0x40);
    lemma_last(b, 0x40, 0x40);
    if first1(b, 0x40) < b.len() { assert(b[first1(b, 0x40)] != 0x40); }
    if last1(b, 0x40) >= 0 { assert(b[last1(b, 0x40)] != 0x40); }
    assert(sfx(b, 0) =~= b);
    assert(b.subrange(0, h.len() as int) =~= h);
}
proof fn lemma_au_some(w: Seq<u8>, h: Seq<u8>, p: Option<Seq<u8>>, iri: bool)
    requires valid_utf8(w), is_sat(w, Cls::Userinfo, iri), noneb(w, 0x40), g_host(h, iri), valid_utf8(h), p matches Some(x) ==> all_digit(x)
    ensures au_parts(w + seq![0x40u8] + (h + co_b(p)), Some(w), h, p, iri)
{
    hide(norm); hide(sat); hide(normhost); hide(g_host); hide(wft); hide(valid_utf8); hide(host_end); hide(all_digit); hide(first_from); hide(last_upto);
    let x = h + co_b(p);
    let b = w + seq![0x40u8] + x;
    lemma_hp_end(h, p, iri);
    let hl = h.len() as int;
    let k = w.len() as int;
    lemma_last(b, 0x40, 0x40);
    lemma_around(w, 0x40, x, Cls::Regname, iri);
    assert forall|j: int| 0 <= j < k implies !is4(#[trigger] b[j], 0x40, 0x40, 0x40, 0x40) by { assert(w[j] != 0x40); }
    assert(b[k] == 0x40);
    lemma_first_is(b, k, 0x40, 0x40, 0x40, 0x40);
    let l = last1(b, 0x40);
    assert(l == k) by { if l > k { assert(x[l - k - 1] != 0x40); } }
    assert(host_start(b) == k + 1);
    assert(host_stop(b) == k + 1 + hl);
    assert(c_host(b) =~= h);
    if p is Some { assert(sfx(b, k + 1 + hl + 1) =~= sfx(x, hl + 1)); }
}
proof fn lemma_au_b(u: Option<Seq<u8>>, h: Seq<u8>, p: Option<Seq<u8>>, iri: bool)
    requires u matches Some(x) ==> valid_utf8(x) && is_sat(x, Cls::Userinfo, iri) && noneb(x, 0x40), g_host(h, iri), valid_utf8(h), p matches Some(x) ==> all_digit(x)
    ensures au_parts(at_b(u) + h + co_b(p), u, h, p, iri)
{
    hide(norm); hide(sat); hide(normhost); hide(g_host); hide(wft); hide(valid_utf8); hide(au_parts);
    let b = at_b(u) + h + co_b(p);
    let x = h + co_b(p);
    match u { None => { assert(b =~= x); lemma_au_none(h, p, iri); } Some(w) => { assert(b =~= w + seq![0x40u8] + x); lemma_au_some(w, h, p, iri); } }
}
/// the text of host and port
proof fn lemma_hp_t(h: Ho, p: Po, iri: bool)
    requires ho_ok(h, iri), ho_wf(h), po_ok(p), p matches Po::Num(s) ==> all_digit(s) && s.len() > 0
    ensures ({ let x = ho_b(h) + co_b(po_b(p)); ho_t(h, false, iri) + po_t(p, false) == dec(x) && ho_t(h, true, iri) + po_t(p, true) == hp_text(dec(x), iri) })
{
    hide(norm); hide(sat); hide(normhost); hide(g_host); hide(wft); hide(valid_utf8); hide(asciihost);
    let b = ho_b(h);
    let q = po_b(p);
    let x = b + co_b(q);
    lemma_ho(h, iri);
    lemma_hp_end(b, q, iri);
    lemma_hp(x, iri);
    assert(hp_port(x) == (match q { Some(y) => y, None => Seq::<u8>::empty() }));
    match p {
        Po::No => { assert(ho_t(h, false, iri) + po_t(p, false) =~= dec(b)); assert(ho_t(h, true, iri) + po_t(p, true) =~= hostn(dec(b), iri)); }
        Po::Num(s) => { }
        Po::Text(s) => { if s.len() == 0 { assert(ho_t(h, true, iri) + po_t(p, true) =~= hostn(dec(b), iri)); } }
    }
}
pub proof fn lemma_au(a: Au, iri: bool)
    requires au_ok(a, iri), au_wf(a)
    ensures ({ let b = au_b(a); valid_utf8(b) && g_authority(b, iri) && au_t(a, false, iri) == dec(b) && au_t(a, true, iri) == auth_text(b, iri)
        && c_userinfo(b) == ui_b(a.ui) && c_host(b) == ho_b(a.ho) && c_port(b) == po_b(a.po) })
{
    hide(norm); hide(sat); hide(normhost); hide(g_host); hide(wft); hide(valid_utf8); hide(g_authority); hide(ho_t); hide(po_t); hide(hp_text); hide(c_userinfo); hide(c_host); hide(c_port);
    let b = au_b(a);
    let (h, p) = (ho_b(a.ho), po_b(a.po));
    let x = h + co_b(p);
    lemma_ui(a.ui, iri);
    lemma_ho(a.ho, iri);
    assert(p matches Some(y) ==> all_digit(y));
    lemma_au_b(ui_b(a.ui), h, p, iri);
    lemma_hp_t(a.ho, a.po, iri);
    lemma_au_cat(a, false, iri);
    lemma_au_cat(a, true, iri);
    match ui_b(a.ui) {
        None => {
            assert(Seq::<char>::empty() + dec(x) =~= dec(x));
            assert(Seq::<char>::empty() + hp_text(dec(x), iri) =~= hp_text(dec(x), iri));
        }
        Some(u) => { lemma_hp_end(h, p, iri); lemma_around(u, 0x40, x, Cls::Regname, iri); }
    }
}
proof fn lemma_au_cat(a: Au, pct: bool, iri: bool)
    ensures au_t(a, pct, iri) == ui_t(a.ui, pct, iri) + (ho_t(a.ho, pct, iri) + po_t(a.po, pct))
{ assert(au_t(a, pct, iri) =~= ui_t(a.ui, pct, iri) + (ho_t(a.ho, pct, iri) + po_t(a.po, pct))); }
// ---- the whole reference
/// [ scheme ":" ] [ "//" authority ] path [ "?" query ] [ "#" fragment ]
pub open spec fn ref_text(s: Option<Seq<u8>>, a: Option<Seq<char>>, path: Seq<char>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, pct: bool, iri: bool) -> Seq<char> {
    sch_text(s, pct) + auth_part(a) + path + opt_text(seq!['?'], q, pct, iri) + opt_text(seq!['#'], f, pct, iri)
}
pub open spec fn sch_text(s: Option<Seq<u8>>, pct: bool) -> Seq<char> { match s { Some(x) => (if pct { lowers(dec(x)) } else { dec(x) }) + seq![':'], None => Seq::empty() } }
pub open spec fn auth_part(a: Option<Seq<char>>) -> Seq<char> { match a { Some(t) => seq!['/', '/'] + t, None => Seq::empty() } }
pub open spec fn n_sch(s: Option<Seq<u8>>, pct: bool) -> Option<Seq<u8>> { match s { Some(x) => Some(if pct { lob(x) } else { x }), None => None } }
pub open spec fn opt_enc(a: Option<Seq<char>>) -> Option<Seq<u8>> { match a { Some(t) => Some(encode_utf8(t)), None => None } }
pub proof fn lemma_ref_text(s: Option<Seq<u8>>, a: Option<Seq<char>>, path: Seq<char>, q: Option<Seq<u8>>, f: Option<Seq<u8>>, pct: bool, iri: bool)
    requires s matches Some(x) ==> g_scheme(x), v_opt(q), v_opt(f)
    ensures encode_utf8(ref_text(s, a, path, q, f, pct, iri)) == compose(n_sch(s, pct), opt_enc(a), encode_utf8(path), enco(q, pct, iri), enco(f, pct, iri))
{
    let s0 = sch_text(s, pct);
    let a0 = auth_part(a);
    let q0 = opt_text(seq!['?'], q, pct, iri);
    let f0 = opt_text(seq!['#'], f, pct, iri);
    lemma_enc_two();
    encode_utf8_concat(s0 + a0 + path + q0, f0);
    encode_utf8_concat(s0 + a0 + path, q0);
    encode_utf8_concat(s0 + a0, path);
    encode_utf8_concat(s0, a0);
    if s is Some { let x = s->Some_0; lemma_scheme_lob(x); decode_utf8_encode_utf8(x); encode_utf8_concat(if pct { lowers(dec(x)) } else { dec(x) }, seq![':']); }
    if a is Some { encode_utf8_concat(seq!['/', '/'], a->Some_0); }
    if q is Some { encode_utf8_concat(seq!['?'], nm(q->Some_0, pct, iri)); }
    if f is Some { encode_utf8_concat(seq!['#'], nm(f->Some_0, pct, iri)); }
}
/// the components of a builder
pub struct Bu { pub s: Option<Seq<u8>>, pub a: Option<Au>, pub p: Seq<u8>, pub q: Option<Seq<u8>>, pub f: Option<Seq<u8>>, pub pct: bool }
pub open spec fn au_opt(a: Option<Au>) -> Option<Seq<u8>> { match a { Some(x) => Some(au_b(x)), None => None } }
pub open spec fn bu_wf(b: Bu) -> bool { (b.a matches Some(x) ==> au_wf(x)) && valid_utf8(b.p) && v_opt(b.q) && v_opt(b.f) }
/// no colon in the first segment
pub open spec fn noc(p: Seq<u8>) -> bool { let k = first2(p, 0x2f, 0x3a); k < p.len() ==> p[k] == 0x2f }
/// the path is acceptable beside the other components
pub open spec fn path_acc(b: Bu) -> bool {
    let abs = b.p.len() > 0 && b.p[0] == 0x2f;
    if b.a is Some { b.p.len() == 0 || abs }
    // "//" at the start of the path is kept out of the text by normalization
    else if b.pct { b.s is Some || abs || noc(b.p) }
    else { !has_ss(b.p) && (b.s is None ==> noc(b.p)) }
}
/// the builder accepts its components
pub open spec fn bu_ok(b: Bu, iri: bool) -> bool {
    (b.s matches Some(x) ==> g_scheme(x)) && (b.a matches Some(x) ==> au_ok(x, iri)) && is_sat(b.p, Cls::PcharSlash, iri) && path_acc(b)
    && (b.q matches Some(x) ==> is_sat(x, Cls::Query, iri)) && (b.f matches Some(x) ==> is_sat(x, Cls::Fragment, iri))
}
/// dot segments are removed
pub open spec fn path_whole(b: Bu) -> bool { b.s is Some || b.a is Some || (b.p.len() > 0 && b.p[0] == 0x2f) }
pub open spec fn bu_path(b: Bu, iri: bool) -> Seq<char> {
    if !b.pct { dec(b.p) } else if path_whole(b) { path_text(b.p, false, b.a is Some, true, iri) } else { norm(dec(b.p), iri) }
}
pub open spec fn bu_auth(b: Bu, iri: bool) -> Option<Seq<char>> { match b.a { Some(x) => Some(au_t(x, b.pct, iri)), None => None } }
/// what is written
pub open spec fn bu_text(b: Bu, iri: bool) -> Seq<char> { ref_text(b.s, bu_auth(b, iri), bu_path(b, iri), b.q, b.f, b.pct, iri) }
/// a relative path without a colon in its first segment stays one
proof fn lemma_rel_path(p: Seq<u8>, iri: bool)
    requires valid_utf8(p), is_sat(p, Cls::PcharSlash, iri), noc(p), p.len() == 0 || p[0] != 0x2f
    ensures ({ let e = encode_utf8(norm(dec(p), iri)); valid_utf8(e) && g_path_noauth(e, true, iri) })
{
    let t = norm(dec(p), iri);
    let e = encode_utf8(t);
    encode_utf8_valid_utf8(t); encode_utf8_decode_utf8(t);
    lemma_sat_wft(dec(p), Cls::PcharSlash, iri);
    lemma_norm_sat(dec(p), Cls::PcharSlash, iri);
    lemma_first(p, 0x2f, 0x3a, 0x3a, 0x3a);
    let k = first2(p, 0x2f, 0x3a);
    if k < p.len() {
        let a = pfx(p, k);
        let b = sfx(p, k + 1);
        assert(is_char_boundary(p, k) && valid_utf8(a) && valid_utf8(b)) by { lemma_dec_at(p, k); lemma_ascii_boundary(p, k); }
        assert(p =~= a + seq![0x2fu8] + b);
        lemma_around(a, 0x2f, b, Cls::PcharSlash, iri);
        let ea = encode_utf8(norm(dec(a), iri));
        let eb = encode_utf8(norm(dec(b), iri));
        lemma_rel_seg(p, k, iri);
        crate::vstring::lemma_enc1('/');
        encode_utf8_concat(norm(dec(a), iri) + seq!['/'], norm(dec(b), iri));
        encode_utf8_concat(norm(dec(a), iri), seq!['/']);
        assert(e =~= ea + seq![0x2fu8] + eb);
        let n = ea.len() as int;
        assert(e[n] == 0x2f);
        assert forall|j: int| 0 <= j < n implies !is4(#[trigger] e[j], 0x2f, 0x3a, 0x3a, 0x3a) by { assert(ea[j] != 0x2f && ea[j] != 0x3a); }
        lemma_first_is(e, n, 0x2f, 0x3a, 0x3a, 0x3a);
        assert(e[0] == ea[0]);
    } else {
        lemma_rel_seg(p, k, iri);
        assert(pfx(p, k) =~= p);
        lemma_first(e, 0x2f, 0x3a, 0x3a, 0x3a);
        let j = first2(e, 0x2f, 0x3a);
        if j < e.len() { assert(e[j] != 0x2f && e[j] != 0x3a); }
        if has_ss(e) { assert(e[0] != 0x2f); }
    }
}
/// the first segment
proof fn lemma_rel_seg(p: Seq<u8>, k: int, iri: bool)
    requires valid_utf8(p), wft(dec(p)), k == first2(p, 0x2f, 0x3a), k < p.len() ==> p[k] == 0x2f, p.len() == 0 || p[0] != 0x2f
    ensures ({ let a = pfx(p, k); let e = encode_utf8(norm(dec(a), iri)); noneb(e, 0x2f) && noneb(e, 0x3a) && (e.len() == 0) == (a.len() == 0) && (k < p.len() ==> e.len() > 0) && wft(dec(a)) && (k < p.len() ==> wft(dec(sfx(p, k + 1)))) })
{
    lemma_first(p, 0x2f, 0x3a, 0x3a, 0x3a);
    let a = pfx(p, k);
    if k < p.len() { lemma_dec_at(p, k); } else { assert(a =~= p); }
    let t = norm(dec(a), iri);
    let e = encode_utf8(t);
    encode_utf8_valid_utf8(t); encode_utf8_decode_utf8(t);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 0x2f && a[i] != 0x3a by { assert(!is4(p[i], 0x2f, 0x3a, 0x3a, 0x3a)); }
    lemma_none_bytes(a, 0x2f); lemma_none_bytes(a, 0x3a);
    lemma_norm_none(dec(a), '/', iri); lemma_norm_none(dec(a), ':', iri);
    lemma_none_bytes(e, 0x2f); lemma_none_bytes(e, 0x3a);
    lemma_norm_empty(dec(a), iri);
    lemma_len0(t); lemma_len0(dec(a)); decode_utf8_encode_utf8(a);
}
proof fn lemma_slash_first(e: Seq<u8>)
    requires e.len() > 0, e[0] == 0x2f
    ensures noc(e)
{ lemma_first_is(e, 0, 0x2f, 0x3a, 0x3a, 0x3a); }
/// the path that is written fits the other components
proof fn lemma_bu_path(b: Bu, iri: bool)
    requires valid_utf8(b.p), is_sat(b.p, Cls::PcharSlash, iri), path_acc(b)
    ensures ({ let e = encode_utf8(bu_path(b, iri)); valid_utf8(e) && (if b.a is Some { g_path_abempty(e, iri) } else { g_path_noauth(e, b.s is None, iri) }) })
{
    hide(sat); hide(norm); hide(path_text); hide(g_path_abempty);
    let t = bu_path(b, iri);
    let e = encode_utf8(t);
    let abs = b.p.len() > 0 && b.p[0] == 0x2f;
    encode_utf8_valid_utf8(t);
    decode_utf8_encode_utf8(b.p);
    if !b.pct {
        if b.a is Some { reveal(g_path_abempty); lemma_abempty2(b.p, iri); }
    } else if path_whole(b) {
        lemma_path_text(b.p, b.a is Some, false, true, iri);
        if abs { lemma_slash_first(e); }
    } else { lemma_rel_path(b.p, iri); }
}
/// C11: what is written is valid and has exactly the components that were given (or their normal forms)
pub open spec fn bu_good(b: Bu, iri: bool) -> bool {
    let t = bu_text(b, iri);
    let e = encode_utf8(t);
    valid_utf8(e) && dec(e) == t && g_reference(e, iri) && (b.s is Some ==> g_uri(e, iri)) && (b.s is None ==> g_relative(e, iri)) && (b.s is Some && b.f is None ==> g_absolute(e, iri))
    && c_scheme(e) == n_sch(b.s, b.pct) && c_authority(e) == n_auth(au_opt(b.a), b.pct, iri) && c_path(e) == encode_utf8(bu_path(b, iri))
    && c_query(e) == enco(b.q, b.pct, iri) && c_fragment(e) == enco(b.f, b.pct, iri)
    && (b.a matches Some(x) ==> c_userinfo(au_b(x)) == ui_b(x.ui) && c_host(au_b(x)) == ho_b(x.ho) && c_port(au_b(x)) == po_b(x.po))
    && (!b.pct ==> e == compose(b.s, au_opt(b.a), b.p, b.q, b.f))
}
pub proof fn lemma_bu(b: Bu, iri: bool)
    requires bu_ok(b, iri), bu_wf(b)
    ensures bu_good(b, iri)
{
    hide(g_uri); hide(g_absolute); hide(path_text); hide(auth_text); hide(g_authority); hide(sat); hide(norm); hide(au_t); hide(au_b); hide(ref_text); hide(g_path_abempty); hide(g_path_noauth); hide(bu_path);
    hide(g_scheme); hide(c_scheme); hide(c_authority); hide(c_path); hide(c_query); hide(c_fragment); hide(compose); hide(au_ok); hide(au_wf);
    let t = bu_text(b, iri);
    let e = encode_utf8(t);
    let pe = encode_utf8(bu_path(b, iri));
    encode_utf8_valid_utf8(t); encode_utf8_decode_utf8(t);
    if b.a is Some { lemma_au(b.a->Some_0, iri); decode_utf8_encode_utf8(au_b(b.a->Some_0)); lemma_auth_ok(au_b(b.a->Some_0), iri); }
    lemma_bu_path(b, iri);
    lemma_opt_valid(b.q, Cls::Query, b.pct, iri);
    lemma_opt_valid(b.f, Cls::Fragment, b.pct, iri);
    lemma_ref_text(b.s, bu_auth(b, iri), bu_path(b, iri), b.q, b.f, b.pct, iri);
    let a2 = n_auth(au_opt(b.a), b.pct, iri);
    assert(opt_enc(bu_auth(b, iri)) == a2);
    if b.s is Some { lemma_scheme_lob(b.s->Some_0); }
    assert(ok_parts(n_sch(b.s, b.pct), a2, pe, enco(b.q, b.pct, iri), enco(b.f, b.pct, iri), iri));
    lemma_compose(n_sch(b.s, b.pct), a2, pe, enco(b.q, b.pct, iri), enco(b.f, b.pct, iri), iri);
    if !b.pct {
        if b.q is Some { decode_utf8_encode_utf8(b.q->Some_0); }
        if b.f is Some { decode_utf8_encode_utf8(b.f->Some_0); }
        assert(bu_path(b, iri) == dec(b.p)) by { reveal(bu_path); }
        decode_utf8_encode_utf8(b.p);
    }
}
/// C11: if some valid reference has exactly the components, the builder accepts them
pub proof fn lemma_bu_complete(b: Bu, e: Seq<u8>, iri: bool)
    requires bu_wf(b), valid_utf8(e), g_reference(e, iri), c_scheme(e) == b.s, c_path(e) == b.p, c_query(e) == b.q, c_fragment(e) == b.f, (c_authority(e) is Some) == (b.a is Some),
        b.a matches Some(x) ==> ({ let y = c_authority(e)->Some_0; c_userinfo(y) == ui_b(x.ui) && c_host(y) == ho_b(x.ho) && c_port(y) == po_b(x.po) && (x.ui matches Ui::Pass(u, _) ==> first1(u, 0x3a) == u.len()) })
    ensures bu_ok(b, iri)
{
    lemma_ok_parts(e, iri);
    lemma_path_sat(b.p, b.a is Some, b.s is None, iri);
    if b.a is Some {
        let x = b.a->Some_0;
        let y = c_authority(e)->Some_0;
        lemma_au_back(x, y, iri);
    }
}
proof fn lemma_au_back(x: Au, y: Seq<u8>, iri: bool)
    requires au_wf(x), valid_utf8(y), g_authority(y, iri), c_userinfo(y) == ui_b(x.ui), c_host(y) == ho_b(x.ho), c_port(y) == po_b(x.po), x.ui matches Ui::Pass(u, _) ==> first1(u, 0x3a) == u.len()
    ensures au_ok(x, iri)
{
    hide(sat); hide(g_host);
    let u = first1(y, 0x40);
    lemma_first(y, 0x40, 0x40, 0x40, 0x40);
    let h = host_start(y);
    let z = sfx(y, h);
    if h == 0 { assert(z =~= y); }
    lemma_host_end(z);
    assert(pfx(z, host_end(z)) =~= c_host(y));
    if c_port(y) is Some { assert(c_port(y)->Some_0 =~= sfx(z, host_end(z) + 1)); }
    match x.ui {
        Ui::Pass(s, Some(p)) => { lemma_sat_around(s, 0x3a, p, Cls::Userinfo, iri); }
        _ => {}
    }
}

// ---- the pieces a builder writes, one after the other
pub proof fn lemma_au_chain<W: crate::vfmt::Write>(g0: W, a: Au, v6: Seq<char>, pct: bool, iri: bool)
    ensures ({ let tt = au_t(a, pct, iri);
        let e = Seq::<char>::empty();
        let p0 = po_t(a.po, pct);
        let h0 = ho_t(a.ho, pct, iri);
        let r2 = h0 + p0;
        let r1 = seq!['@'] + r2;
        (match a.ui {
            Ui::No => prog(g0, tt, g0, r2),
            Ui::Direct(s) => prog(g0, tt, g0, nm(s, pct, iri) + r1) && step_to(g0, tt, nm(s, pct, iri) + r1, nm(s, pct, iri), r1) && step_to(g0, tt, r1, seq!['@'], r2),
            Ui::Pass(s, None) => prog(g0, tt, g0, nm(s, pct, iri) + r1) && step_to(g0, tt, nm(s, pct, iri) + r1, nm(s, pct, iri), r1) && step_to(g0, tt, r1, seq!['@'], r2),
            Ui::Pass(s, Some(p)) => ({ let w = nm(p, pct, iri) + r1; let v = seq![':'] + w; prog(g0, tt, g0, nm(s, pct, iri) + v) && step_to(g0, tt, nm(s, pct, iri) + v, nm(s, pct, iri), v) && step_to(g0, tt, v, seq![':'], w) && step_to(g0, tt, w, nm(p, pct, iri), r1) && step_to(g0, tt, r1, seq!['@'], r2) }),
        })
        && step_to(g0, tt, r2, h0, p0)
        && (h0 == seq!['['] + v6 + seq![']'] ==> ({ let x = seq![']'] + p0; step_to(g0, tt, r2, seq!['['], v6 + x) && step_to(g0, tt, v6 + x, v6, x) && step_to(g0, tt, x, seq![']'], p0) }))
        && (match a.po { Po::No => p0 == e, Po::Num(s) => step_to(g0, tt, p0, seq![':'], dec(s)) && step_to(g0, tt, dec(s), dec(s), e), Po::Text(s) => if s.len() == 0 && pct { p0 == e } else { step_to(g0, tt, p0, seq![':'], dec(s)) && step_to(g0, tt, dec(s), dec(s), e) } }) })
{
    hide(prog); hide(nm); hide(ho_t); hide(dec);
    let tt = au_t(a, pct, iri);
    let e = Seq::<char>::empty();
    let p0 = po_t(a.po, pct);
    let h0 = ho_t(a.ho, pct, iri);
    let r2 = h0 + p0;
    let r1 = seq!['@'] + r2;
    lemma_prog_start(g0, tt);
    match a.ui {
        Ui::No => { assert(tt =~= r2); }
        Ui::Direct(s) => { assert(tt =~= nm(s, pct, iri) + r1); lemma_progs(g0, tt, nm(s, pct, iri) + r1, nm(s, pct, iri), r1); lemma_progs(g0, tt, r1, seq!['@'], r2); }
        Ui::Pass(s, None) => { assert(tt =~= nm(s, pct, iri) + r1); lemma_progs(g0, tt, nm(s, pct, iri) + r1, nm(s, pct, iri), r1); lemma_progs(g0, tt, r1, seq!['@'], r2); }
        Ui::Pass(s, Some(p)) => {
            let w = nm(p, pct, iri) + r1;
            let v = seq![':'] + w;
            assert(tt =~= nm(s, pct, iri) + v);
            lemma_progs(g0, tt, nm(s, pct, iri) + v, nm(s, pct, iri), v); lemma_progs(g0, tt, v, seq![':'], w); lemma_progs(g0, tt, w, nm(p, pct, iri), r1); lemma_progs(g0, tt, r1, seq!['@'], r2);
        }
    }
    lemma_progs(g0, tt, r2, h0, p0);
    if h0 == seq!['['] + v6 + seq![']'] {
        let x = seq![']'] + p0;
        assert(r2 =~= seq!['['] + (v6 + x));
        lemma_progs(g0, tt, r2, seq!['['], v6 + x); lemma_progs(g0, tt, v6 + x, v6, x); lemma_progs(g0, tt, x, seq![']'], p0);
    }
    match a.po {
        Po::No => {}
        Po::Num(s) => { lemma_progs(g0, tt, p0, seq![':'], dec(s)); assert(dec(s) =~= dec(s) + e); lemma_progs(g0, tt, dec(s), dec(s), e); }
        Po::Text(s) => { if !(s.len() == 0 && pct) { lemma_progs(g0, tt, p0, seq![':'], dec(s)); assert(dec(s) =~= dec(s) + e); lemma_progs(g0, tt, dec(s), dec(s), e); } }
    }
}
pub proof fn lemma_bu_chain<W: crate::vfmt::Write>(g0: W, b: Bu, iri: bool)
    ensures ({ let tt = bu_text(b, iri);
        let e = Seq::<char>::empty();
        let pct = b.pct;
        let r5 = opt_text(seq!['#'], b.f, pct, iri);
        let r4 = opt_text(seq!['?'], b.q, pct, iri) + r5;
        let path = bu_path(b, iri);
        let r3 = path + r4;
        let at = au_t(b.a->Some_0, pct, iri);
        let r2 = if b.a is Some { seq!['/', '/'] + (at + r3) } else { r3 };
        let r1 = seq![':'] + r2;
        let s0 = if pct { lowers(dec(b.s->Some_0)) } else { dec(b.s->Some_0) };
        let q0 = nm(b.q->Some_0, pct, iri);
        let f0 = nm(b.f->Some_0, pct, iri);
        (b.s is Some ==> prog(g0, tt, g0, s0 + r1) && step_to(g0, tt, s0 + r1, s0, r1) && step_to(g0, tt, r1, seq![':'], r2))
        && (b.s is None ==> prog(g0, tt, g0, r2))
        && (b.a is Some ==> step_to(g0, tt, r2, seq!['/', '/'], at + r3) && step_to(g0, tt, at + r3, at, r3))
        && step_to(g0, tt, r3, path, r4)
        && (b.q is Some ==> step_to(g0, tt, r4, seq!['?'], q0 + r5) && step_to(g0, tt, q0 + r5, q0, r5))
        && (b.q is None ==> r4 == r5)
        && (b.f is Some ==> step_to(g0, tt, r5, seq!['#'], f0) && step_to(g0, tt, f0, f0, e))
        && (b.f is None ==> r5 == e) })
{
    hide(prog); hide(nm); hide(lowers); hide(au_t); hide(bu_path); hide(dec);
    let tt = bu_text(b, iri);
    let e = Seq::<char>::empty();
    let pct = b.pct;
    let r5 = opt_text(seq!['#'], b.f, pct, iri);
    let qt = opt_text(seq!['?'], b.q, pct, iri);
    let r4 = qt + r5;
    let path = bu_path(b, iri);
    let r3 = path + r4;
    let at = au_t(b.a->Some_0, pct, iri);
    let a0 = auth_part(bu_auth(b, iri));
    let r2 = if b.a is Some { seq!['/', '/'] + (at + r3) } else { r3 };
    let r1 = seq![':'] + r2;
    let s0 = if pct { lowers(dec(b.s->Some_0)) } else { dec(b.s->Some_0) };
    let q0 = nm(b.q->Some_0, pct, iri);
    let f0 = nm(b.f->Some_0, pct, iri);
    lemma_prog_start(g0, tt);
    if b.a is Some { assert(a0 + r3 =~= seq!['/', '/'] + (at + r3)); } else { assert(a0 + r3 =~= r3); }
    if b.s is Some {
        lemma_assoc(s0, seq![':'], a0, path, qt, r5);
        lemma_progs(g0, tt, s0 + r1, s0, r1);
        lemma_progs(g0, tt, r1, seq![':'], r2);
    } else {
        assert(tt =~= a0 + r3);
    }
    if b.a is Some { lemma_progs(g0, tt, r2, seq!['/', '/'], at + r3); lemma_progs(g0, tt, at + r3, at, r3); }
    lemma_progs(g0, tt, r3, path, r4);
    if b.q is Some { assert(r4 =~= seq!['?'] + (q0 + r5)); lemma_progs(g0, tt, r4, seq!['?'], q0 + r5); lemma_progs(g0, tt, q0 + r5, q0, r5); } else { assert(r4 =~= r5); }
    if b.f is Some { lemma_progs(g0, tt, r5, seq!['#'], f0); assert(f0 =~= f0 + e); lemma_progs(g0, tt, f0, f0, e); }
}
/// what is between brackets
pub proof fn lemma_v6(t: Seq<char>)
    ensures dec(seq![0x5bu8] + encode_utf8(t) + seq![0x5du8]) == seq!['['] + t + seq![']']
{
    encode_utf8_valid_utf8(t); encode_utf8_decode_utf8(t);
    lemma_dec1(0x5b); lemma_dec1(0x5d);
    lemma_dec_cat(seq![0x5bu8], encode_utf8(t));
    lemma_dec_cat(seq![0x5bu8] + encode_utf8(t), seq![0x5du8]);
}
/// the components of an authority, as a builder holds them
pub open spec fn au_of(y: Seq<u8>) -> Au {
    Au { ui: match c_userinfo(y) { Some(u) => Ui::Direct(u), None => Ui::No }, ho: Ho::Text(c_host(y)), po: match c_port(y) { Some(p) => Po::Text(p), None => Po::No } }
}
pub open spec fn bu_of(b: Seq<u8>) -> Bu {
    Bu { s: c_scheme(b), a: match c_authority(b) { Some(y) => Some(au_of(y)), None => None }, p: c_path(b), q: c_query(b), f: c_fragment(b), pct: false }
}
proof fn lemma_of_wf(b: Seq<u8>, iri: bool)
    requires valid_utf8(b), g_reference(b, iri)
    ensures bu_wf(bu_of(b))
{
    hide(sat); hide(g_reference); hide(g_authority); hide(valid_utf8); hide(g_uri); hide(g_absolute); hide(g_relative); hide(compose); hide(wft); hide(norm); hide(auth_text); hide(crate::isnorm::auth_np); hide(all_digit); hide(g_scheme); hide(g_path_abempty); hide(g_path_noauth);
    hide(c_scheme); hide(c_authority); hide(c_path); hide(c_query); hide(c_fragment); hide(c_userinfo); hide(c_host); hide(c_port);
    lemma_wft_parts(b, iri);
    lemma_ok_parts(b, iri);
    if let Some(y) = c_authority(b) {
        crate::isnorm::lemma_auth_iff(y, iri);
        if let Some(p) = c_port(y) { lemma_port_digits(y, iri); lemma_digits(p); }
    }
}
proof fn lemma_port_digits(y: Seq<u8>, iri: bool)
    requires g_authority(y, iri)
    ensures c_port(y) matches Some(p) ==> all_digit(p)
{
    let h = host_start(y);
    let z = sfx(y, h);
    if h == 0 { assert(z =~= y); }
    lemma_host_end(z);
    if c_port(y) is Some { assert(c_port(y)->Some_0 =~= sfx(z, host_end(z) + 1)); }
}
/// C11: a builder made from a valid reference is acceptable and rebuilds exactly that reference
pub proof fn lemma_bu_of(b: Seq<u8>, iri: bool)
    requires valid_utf8(b), g_reference(b, iri)
    ensures bu_wf(bu_of(b)), bu_ok(bu_of(b), iri), encode_utf8(bu_text(bu_of(b), iri)) == b
{
    hide(sat); hide(g_host); hide(bu_ok); hide(bu_wf); hide(bu_text); hide(g_reference);
    lemma_of_wf(b, iri);
    lemma_bu_complete(bu_of(b), b, iri);
    lemma_bu(bu_of(b), iri);
    if let Some(y) = c_authority(b) { lemma_authority_join(y); assert(au_b(au_of(y)) =~= y); }
    lemma_recompose(b);
}
#end
