#module frag
#raw
// Decomposition of a text with possibly broken percent-encoding into literal characters, stray percent signs,
// percent-encoded characters and undecodable triplets.
use crate::vx::*;
use crate::pct::*;
use crate::parser::char::*;
broadcast use {crate::vx::group_vx};

pub enum Item {
    /// a literal character
    Plain(char),
    /// a percent sign that starts no triplet
    Stray,
    /// the triplets of a character
    Ch(Seq<char>, char),
    /// a triplet that is no part of an encoded character
    Inv(Seq<char>),
}
pub open spec fn items(s: Seq<char>) -> Seq<Item>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s[0] != '%' { seq![Item::Plain(s[0])] + items(s.skip(1)) }
    else if !is_t(s) { seq![Item::Stray] + items(s.skip(1)) }
    else if exists|c: char| is_head(s, c) {
        let c = choose|c: char| is_head(s, c);
        let n = enc1(c).len() as int;
        seq![Item::Ch(s.take(3 * n), c)] + items(s.skip(3 * n))
    }
    else { seq![Item::Inv(s.take(3))] + items(s.skip(3)) }
}
pub open spec fn plains(s: Seq<char>) -> Seq<Item> { Seq::new(s.len(), |i: int| Item::Plain(s[i])) }
pub open spec fn invs(s: Seq<char>) -> Seq<Item>
    decreases s.len()
{
    if s.len() < 3 { Seq::empty() } else { seq![Item::Inv(s.take(3))] + invs(s.skip(3)) }
}
pub proof fn lemma_items_nonempty(s: Seq<char>)
    requires s.len() > 0
    ensures items(s).len() > 0
{ }
pub proof fn lemma_plain(p: Seq<char>, t: Seq<char>)
    requires nopct(p)
    ensures items(p + t) == plains(p) + items(t)
    decreases p.len()
{
    if p.len() == 0 { assert(p + t =~= t); assert(plains(p) + items(t) =~= items(t)); }
    else {
        let q = p.skip(1);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '%' by { assert(p[i + 1] != '%'); }
        lemma_plain(q, t);
        assert((p + t).skip(1) =~= q + t);
        assert(p[0] != '%');
        assert(seq![Item::Plain(p[0])] + (plains(q) + items(t)) =~= plains(p) + items(t));
    }
}
pub proof fn lemma_head(s: Seq<char>, c: char)
    requires is_head(s, c)
    ensures items(s) == seq![Item::Ch(s.take(3 * enc1(c).len() as int), c)] + items(s.skip(3 * enc1(c).len() as int))
{
    let d = choose|d: char| is_head(s, d);
    lemma_head_unique(s, c, d);
}
/// triplets at the head do not change when text follows
pub proof fn lemma_trips_app(s: Seq<char>, t: Seq<char>, n: nat)
    requires trips(s, n)
    ensures trips(s + t, n), tb(s + t, n) == tb(s, n), (s + t).skip(3 * n as int) == s.skip(3 * n as int) + t, (s + t).take(3 * n as int) == s.take(3 * n as int), 3 * n <= s.len()
    decreases n
{
    lemma_trips_len(s, n);
    assert((s + t).skip(3 * n as int) =~= s.skip(3 * n as int) + t);
    assert((s + t).take(3 * n as int) =~= s.take(3 * n as int));
    if n > 0 {
        assert((s + t).skip(3) =~= s.skip(3) + t);
        lemma_trips_app(s.skip(3), t, (n - 1) as nat);
    }
}
/// bytes that cannot start a character
pub proof fn lemma_conts(s: Seq<char>, n: nat)
    requires trips(s, n), forall|i: int| 0 <= i < n ==> no_lead(#[trigger] tb(s, n)[i])
    ensures items(s) == invs(s.take(3 * n as int)) + items(s.skip(3 * n as int))
    decreases n
{
    lemma_trips_len(s, n);
    if n == 0 { assert(s.skip(0) =~= s); assert(invs(s.take(0)) + items(s) =~= items(s)); }
    else {
        let t = s.skip(3);
        lemma_tb(s, n);
        if exists|c: char| is_head(s, c) {
            let c = choose|c: char| is_head(s, c);
            lemma_no_lead(c);
            lemma_tb(s, enc1(c).len());
            assert(false);
        }
        let u = tb(t, (n - 1) as nat);
        lemma_tb(t, (n - 1) as nat);
        assert forall|i: int| 0 <= i < n - 1 implies no_lead(#[trigger] u[i]) by { assert(tb(s, n)[i + 1] == u[i]); }
        lemma_conts(t, (n - 1) as nat);
        assert(t.skip(3 * (n - 1)) =~= s.skip(3 * n as int));
        assert(s.take(3 * n as int).skip(3) =~= t.take(3 * (n - 1)));
        assert(s.take(3 * n as int).take(3) =~= s.take(3));
        assert(seq![Item::Inv(s.take(3))] + (invs(t.take(3 * (n - 1))) + items(s.skip(3 * n as int))) =~= invs(s.take(3 * n as int)) + items(s.skip(3 * n as int)));
    }
}
/// a byte, then bytes that cannot start a character, where no character starts
pub proof fn lemma_not_head(s: Seq<char>, n: nat)
    requires trips(s, n), n >= 1, forall|c: char| !is_head(s, c), forall|i: int| 1 <= i < n ==> no_lead(#[trigger] tb(s, n)[i])
    ensures items(s) == invs(s.take(3 * n as int)) + items(s.skip(3 * n as int))
{
    let t = s.skip(3);
    let u = tb(t, (n - 1) as nat);
    lemma_tb(s, n);
    lemma_tb(t, (n - 1) as nat);
    lemma_trips_len(s, n);
    assert forall|i: int| 0 <= i < n - 1 implies no_lead(#[trigger] u[i]) by { assert(tb(s, n)[i + 1] == u[i]); }
    lemma_conts(t, (n - 1) as nat);
    assert(t.skip(3 * (n - 1)) =~= s.skip(3 * n as int));
    assert(s.take(3 * n as int).skip(3) =~= t.take(3 * (n - 1)));
    assert(s.take(3 * n as int).take(3) =~= s.take(3));
    assert(seq![Item::Inv(s.take(3))] + (invs(t.take(3 * (n - 1))) + items(s.skip(3 * n as int))) =~= invs(s.take(3 * n as int)) + items(s.skip(3 * n as int)));
}
/// no character is encoded by a prefix of `d`
pub open spec fn no_char(d: Seq<u8>) -> bool { forall|c: char| !(enc1(c).len() <= d.len() && d.take(enc1(c).len() as int) == #[trigger] enc1(c)) }
/// no character has an encoding that starts with `d`
pub open spec fn no_ext(d: Seq<u8>) -> bool { forall|c: char| !(d.len() <= enc1(c).len() && #[trigger] enc1(c).take(d.len() as int) == d) }
/// undecodable triplets `d` at the head, whatever follows
pub proof fn lemma_bad(s: Seq<char>, m: nat, n: nat)
    requires trips(s, m), 1 <= n <= m, no_char(tb(s, m)), no_ext(tb(s, m)), forall|i: int| 1 <= i < n ==> 0x80 <= #[trigger] tb(s, m)[i] <= 0xbf
    ensures items(s) == invs(s.take(3 * n as int)) + items(s.skip(3 * n as int))
{
    lemma_trips_pre(s, m, n);
    lemma_tb(s, m);
    assert forall|c: char| !is_head(s, c) by {
        if is_head(s, c) {
            let k = enc1(c).len();
            if k <= m { lemma_trips_pre(s, m, k); }
            else { lemma_trips_pre(s, k, m); }
        }
    }
    assert forall|i: int| 1 <= i < n implies no_lead(#[trigger] tb(s, n)[i]) by { assert(tb(s, n)[i] == tb(s, m)[i]); }
    lemma_not_head(s, n);
}
/// an incomplete character at the head that is not continued
pub proof fn lemma_cut(s: Seq<char>, m: nat)
    requires trips(s, m), !is_t(s.skip(3 * m as int)), no_char(tb(s, m)), forall|i: int| 1 <= i < m ==> 0x80 <= #[trigger] tb(s, m)[i] <= 0xbf
    ensures items(s) == invs(s.take(3 * m as int)) + items(s.skip(3 * m as int))
{
    lemma_tb(s, m);
    lemma_trips_len(s, m);
    if m == 0 { assert(s.skip(0) =~= s); assert(invs(s.take(0)) + items(s) =~= items(s)); return; }
    assert forall|c: char| !is_head(s, c) by {
        if is_head(s, c) {
            let k = enc1(c).len();
            if k <= m { lemma_trips_pre(s, m, k); }
            else { lemma_trips_at(s, k, m); }
        }
    }
    assert forall|i: int| 1 <= i < m implies no_lead(#[trigger] tb(s, m)[i]) by { }
    lemma_not_head(s, m);
}
pub proof fn lemma_trips_at(s: Seq<char>, n: nat, m: nat)
    requires trips(s, n), m < n
    ensures is_t(s.skip(3 * m as int))
    decreases m
{
    lemma_trips_len(s, n);
    if m == 0 { assert(s.skip(0) =~= s); }
    else { lemma_trips_at(s.skip(3), (n - 1) as nat, (m - 1) as nat); assert(s.skip(3).skip(3 * (m - 1)) =~= s.skip(3 * m as int)); }
}
/// a cut triplet: `%` or `%` and a digit
pub open spec fn cut(q: Seq<char>) -> bool { q.len() == 0 || (q.len() == 1 && q[0] == '%') || (q.len() == 2 && q[0] == '%' && hexdig_c(q[1])) }
pub open spec fn cut_items(q: Seq<char>) -> Seq<Item> {
    if q.len() == 0 { Seq::empty() } else if q.len() == 1 { seq![Item::Stray] } else { seq![Item::Stray, Item::Plain(q[1])] }
}
pub proof fn lemma_cut_items(q: Seq<char>, t: Seq<char>)
    requires cut(q), !is_t(q + t)
    ensures items(q + t) == cut_items(q) + items(t)
{
    if q.len() == 0 { assert(q + t =~= t); assert(cut_items(q) + items(t) =~= items(t)); }
    else if q.len() == 1 { assert((q + t).skip(1) =~= t); assert((q + t)[0] == '%'); }
    else {
        let u = (q + t).skip(1);
        assert(u.skip(1) =~= t);
        assert(u[0] == q[1] && u.len() > 0);
        assert(items(u) == seq![Item::Plain(q[1])] + items(t));
        assert(items(q + t) == seq![Item::Stray] + items(u));
        assert(seq![Item::Stray] + (seq![Item::Plain(q[1])] + items(t)) =~= cut_items(q) + items(t));
    }
}
