#module vx
#raw
// Trusted prelude: assumed contracts for std (TCB), plus proved lemmas.

broadcast use {vstd::string::group_string_axioms, vstd::utf8::group_utf8_lib};

// ---- spec vocabulary -------------------------------------------------------
pub open spec fn dec(b: Seq<u8>) -> Seq<char> { decode_utf8(b) }
/// suffix from i
pub open spec fn sfx(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(i, b.len() as int) }
/// prefix up to i
pub open spec fn pfx(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(0, i) }

pub open spec fn is4(x: u8, n1: u8, n2: u8, n3: u8, n4: u8) -> bool {
    x == n1 || x == n2 || x == n3 || x == n4
}
/// first index >= i whose byte is one of the needles; len when none
pub open spec fn first_from(b: Seq<u8>, i: int, n1: u8, n2: u8, n3: u8, n4: u8) -> int
    decreases b.len() - i
{
    if i >= b.len() { b.len() as int }
    else if is4(b[i], n1, n2, n3, n4) { i }
    else { first_from(b, i + 1, n1, n2, n3, n4) }
}
pub open spec fn first4(b: Seq<u8>, n1: u8, n2: u8, n3: u8, n4: u8) -> int { first_from(b, 0, n1, n2, n3, n4) }
pub open spec fn first3(b: Seq<u8>, n1: u8, n2: u8, n3: u8) -> int { first_from(b, 0, n1, n2, n3, n3) }
pub open spec fn first2(b: Seq<u8>, n1: u8, n2: u8) -> int { first_from(b, 0, n1, n2, n2, n2) }
pub open spec fn first1(b: Seq<u8>, n1: u8) -> int { first_from(b, 0, n1, n1, n1, n1) }

/// last index < i whose byte is one of the needles; -1 when none
pub open spec fn last_upto(b: Seq<u8>, i: int, n1: u8, n2: u8) -> int
    decreases i
{
    if i <= 0 { -1 }
    else if b[i - 1] == n1 || b[i - 1] == n2 { i - 1 }
    else { last_upto(b, i - 1, n1, n2) }
}
pub open spec fn last2(b: Seq<u8>, n1: u8, n2: u8) -> int { last_upto(b, b.len() as int, n1, n2) }
pub open spec fn last1(b: Seq<u8>, n1: u8) -> int { last_upto(b, b.len() as int, n1, n1) }

pub proof fn lemma_first_from(b: Seq<u8>, i: int, n1: u8, n2: u8, n3: u8, n4: u8)
    requires 0 <= i <= b.len()
    ensures
        i <= first_from(b, i, n1, n2, n3, n4) <= b.len(),
        forall|j: int| i <= j < first_from(b, i, n1, n2, n3, n4) ==> !is4(#[trigger] b[j], n1, n2, n3, n4),
        first_from(b, i, n1, n2, n3, n4) < b.len() ==> is4(b[first_from(b, i, n1, n2, n3, n4)], n1, n2, n3, n4),
    decreases b.len() - i
{
    if i < b.len() && !is4(b[i], n1, n2, n3, n4) { lemma_first_from(b, i + 1, n1, n2, n3, n4); }
}
pub broadcast proof fn lemma_first(b: Seq<u8>, n1: u8, n2: u8, n3: u8, n4: u8)
    ensures
        0 <= #[trigger] first_from(b, 0, n1, n2, n3, n4) <= b.len(),
        forall|j: int| 0 <= j < first_from(b, 0, n1, n2, n3, n4) ==> !is4(#[trigger] b[j], n1, n2, n3, n4),
        first_from(b, 0, n1, n2, n3, n4) < b.len() ==> is4(b[first_from(b, 0, n1, n2, n3, n4)], n1, n2, n3, n4),
{
    lemma_first_from(b, 0, n1, n2, n3, n4);
}
/// uniqueness: an index with the characteristic property is the first one
pub proof fn lemma_first_is(b: Seq<u8>, k: int, n1: u8, n2: u8, n3: u8, n4: u8)
    requires 0 <= k <= b.len(),
        forall|j: int| 0 <= j < k ==> !is4(#[trigger] b[j], n1, n2, n3, n4),
        k < b.len() ==> is4(b[k], n1, n2, n3, n4),
    ensures first_from(b, 0, n1, n2, n3, n4) == k
{
    lemma_first_from(b, 0, n1, n2, n3, n4);
}
pub proof fn lemma_last_upto(b: Seq<u8>, i: int, n1: u8, n2: u8)
    requires 0 <= i <= b.len()
    ensures
        -1 <= last_upto(b, i, n1, n2) < i,
        forall|j: int| last_upto(b, i, n1, n2) < j < i ==> #[trigger] b[j] != n1 && b[j] != n2,
        last_upto(b, i, n1, n2) >= 0 ==> (b[last_upto(b, i, n1, n2)] == n1 || b[last_upto(b, i, n1, n2)] == n2),
    decreases i
{
    if i > 0 && b[i - 1] != n1 && b[i - 1] != n2 { lemma_last_upto(b, i - 1, n1, n2); }
}
pub broadcast proof fn lemma_last(b: Seq<u8>, n1: u8, n2: u8)
    ensures
        -1 <= #[trigger] last_upto(b, b.len() as int, n1, n2) < b.len(),
        forall|j: int| last_upto(b, b.len() as int, n1, n2) < j < b.len() ==> #[trigger] b[j] != n1 && b[j] != n2,
        last_upto(b, b.len() as int, n1, n2) >= 0 ==> (b[last_upto(b, b.len() as int, n1, n2)] == n1 || b[last_upto(b, b.len() as int, n1, n2)] == n2),
{
    lemma_last_upto(b, b.len() as int, n1, n2);
}
pub proof fn lemma_last_is(b: Seq<u8>, k: int, n1: u8, n2: u8)
    requires -1 <= k < b.len(),
        forall|j: int| k < j < b.len() ==> #[trigger] b[j] != n1 && b[j] != n2,
        k >= 0 ==> (b[k] == n1 || b[k] == n2),
    ensures last_upto(b, b.len() as int, n1, n2) == k
{
    lemma_last_upto(b, b.len() as int, n1, n2);
}

/// the chars of a str are the decoding of its bytes
pub broadcast proof fn lemma_str_dec(s: &str)
    ensures #[trigger] s.spec_bytes() == encode_utf8(s@), s@ == decode_utf8(s.spec_bytes()), valid_utf8(s.spec_bytes()),
{
    encode_utf8_decode_utf8(s@);
}
/// equal bytes => equal str views
pub proof fn lemma_bytes_inj(a: &str, b: &str)
    requires a.spec_bytes() == b.spec_bytes()
    ensures a@ == b@
{
    lemma_str_dec(a); lemma_str_dec(b);
}
/// an ASCII byte is a character of its own: both of its sides are boundaries
proof fn lemma_ascii_next(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 0x80u8, is_char_boundary(b, i),
    ensures is_char_boundary(b, i + 1),
    decreases b.len()
{
    reveal_with_fuel(is_char_boundary, 3);
    reveal_with_fuel(valid_utf8, 2);
    if i == 0 {
        assert(length_of_first_scalar(b) == 1);
        assert(is_char_boundary(pop_first_scalar(b), 0));
    } else {
        let n = length_of_first_scalar(b);
        assert(valid_utf8(pop_first_scalar(b)));
        assert(is_char_boundary(pop_first_scalar(b), i - n));
        lemma_ascii_next(pop_first_scalar(b), i - n);
    }
}
pub broadcast proof fn lemma_ascii_boundary(b: Seq<u8>, i: int)
    requires #[trigger] valid_utf8(b), 0 <= i < b.len(), #[trigger] b[i] < 0x80u8,
    ensures is_char_boundary(b, i), is_char_boundary(b, i + 1),
{
    is_char_boundary_iff_not_is_continuation_byte(b, i);
    lemma_ascii_next(b, i);
}

// ---- exec helpers used by the desugaring --------------------------------
pub fn dbg_assert(c: bool) requires c { }
#[verifier::external_body]
pub fn unreachable() -> ! requires false { panic!() }
pub fn subslice<'a, T>(s: &'a [T], lo: usize, hi: usize) -> (r: &'a [T])
    requires lo <= hi <= s@.len()
    ensures r@ == s@.subrange(lo as int, hi as int)
{
    vstd::slice::slice_subrange(s, lo, hi)
}
// ---- assumed contracts of std functions (TCB) ------------------------------
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool) ensures r == crate::parser::char::hexdig_c(*c);
pub assume_specification[ u8::is_ascii_hexdigit ](c: &u8) -> (r: bool) ensures r == crate::parser::char::hexdig(*c);
pub assume_specification[ u8::is_ascii_digit ](c: &u8) -> (r: bool) ensures r == crate::parser::char::digit(*c);
pub assume_specification[ u8::is_ascii_alphabetic ](c: &u8) -> (r: bool) ensures r == crate::parser::char::alpha(*c);
pub assume_specification[ u8::is_ascii_alphanumeric ](c: &u8) -> (r: bool) ensures r == (crate::parser::char::alpha(*c) || crate::parser::char::digit(*c));
pub assume_specification[ u8::is_ascii_uppercase ](c: &u8) -> (r: bool) ensures r == (0x41 <= *c <= 0x5a);
pub assume_specification[ u8::is_ascii_lowercase ](c: &u8) -> (r: bool) ensures r == (0x61 <= *c <= 0x7a);
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == (0x41 <= *c as u32 <= 0x5a);
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == (0x61 <= *c as u32 <= 0x7a);
pub fn u8_as_i8(b: u8) -> (r: i8) ensures r == (b as i8) { #[verifier::truncate] (b as i8) }
// ---- iterator adaptors over bytes: R3 replaces `x.bytes().position(f)` etc. by these loops
pub fn bytes_position<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|b: u8| call_requires(f, (b,))
    ensures match r {
        Some(i) => i < s@.len() && i < usize::MAX && call_ensures(f, (s@[i as int],), true)
            && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
    }
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|b: u8| call_requires(f, (b,)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s@[j],), false),
        decreases s@.len() - i
    {
        if f(s[i]) { return Some(i); }
        i += 1;
    }
    None
}
pub fn bytes_find<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: Option<u8>)
    requires forall|b: u8| call_requires(f, (b,))
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < s@.len() && x == #[trigger] s@[i] && call_ensures(f, (s@[i],), true)
            && forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
    }
{
    match bytes_position(s, f) { Some(i) => Some(s[i]), None => None }
}
pub fn bytes_rposition<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: Option<usize>)
    requires forall|b: u8| call_requires(f, (b,))
    ensures match r {
        Some(i) => i < s@.len() && i < usize::MAX && call_ensures(f, (s@[i as int],), true)
            && forall|j: int| i < j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
        None => forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
    }
{
    let mut i: usize = s.len();
    while i > 0
        invariant i <= s@.len(), forall|b: u8| call_requires(f, (b,)),
            forall|j: int| i <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
        decreases i
    {
        i -= 1;
        if f(s[i]) { return Some(i); }
    }
    None
}
pub fn bytes_all<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] s@[i],))
    ensures
        r ==> forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), true),
        !r ==> exists|j: int| 0 <= j < s@.len() && call_ensures(f, (#[trigger] s@[j],), false),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s@[j],), true),
        decreases s@.len() - i
    {
        if !f(s[i]) { return false; }
        i += 1;
    }
    true
}
pub fn bytes_any<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] s@[i],))
    ensures
        !r ==> forall|j: int| 0 <= j < s@.len() ==> call_ensures(f, (#[trigger] s@[j],), false),
        r ==> exists|j: int| 0 <= j < s@.len() && call_ensures(f, (#[trigger] s@[j],), true),
{
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s@[j],), false),
        decreases s@.len() - i
    {
        if f(s[i]) { return true; }
        i += 1;
    }
    false
}
pub fn opt_copied<T: Copy>(o: Option<&T>) -> (r: Option<T>)
    ensures match o { Some(x) => r == Some(*x), None => r is None }
{
    match o { Some(x) => Some(*x), None => None }
}
/// ASCII string literals (R8)
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] < 0x80u8 }
#[verifier::external_body]
pub fn lit_str<const N: usize>(b: &'static [u8; N]) -> (r: &'static str)
    requires ascii(b@)
    ensures r.spec_bytes() == b@
{ core::str::from_utf8(b).unwrap() }
/// comparison with a string literal of a pattern (R29)
#[verifier::external_body]
pub fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a.spec_bytes() == b.spec_bytes()) { a == b }
pub fn opt_str_is(o: Option<&str>, b: &str) -> (r: bool) ensures r == (o is Some && o->Some_0.spec_bytes() == b.spec_bytes()) { match o { Some(a) => str_is(a, b), None => false } }
/// `&str` methods with literal arguments (R4)
pub open spec fn has_pfx(b: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= b.len() && b.subrange(0, p.len() as int) == p }
#[verifier::external_body]
pub fn str_strip_prefix_str<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r {
        Some(t) => has_pfx(s.spec_bytes(), p.spec_bytes()) && t.spec_bytes() == sfx(s.spec_bytes(), p.spec_bytes().len() as int),
        None => !has_pfx(s.spec_bytes(), p.spec_bytes()),
    }
{ s.strip_prefix(p) }
#[verifier::external_body]
pub fn str_strip_prefix_char<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    requires (c as u32) < 0x80
    ensures match r {
        Some(t) => s.spec_bytes().len() > 0 && s.spec_bytes()[0] == c as u8 && t.spec_bytes() == sfx(s.spec_bytes(), 1),
        None => s.spec_bytes().len() == 0 || s.spec_bytes()[0] != c as u8,
    }
{ s.strip_prefix(c) }
#[verifier::external_body]
pub fn str_strip_suffix_char<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    requires (c as u32) < 0x80
    ensures ({ let b = s.spec_bytes(); match r {
        Some(t) => b.len() > 0 && b[b.len() - 1] == c as u8 && t.spec_bytes() == pfx(b, b.len() - 1),
        None => b.len() == 0 || b[b.len() - 1] != c as u8,
    } })
{ s.strip_suffix(c) }
#[verifier::external_body]
pub fn str_starts_with_str(s: &str, p: &str) -> (r: bool)
    ensures r == has_pfx(s.spec_bytes(), p.spec_bytes())
{ s.starts_with(p) }
#[verifier::external_body]
pub fn str_starts_with_char(s: &str, c: char) -> (r: bool)
    requires (c as u32) < 0x80
    ensures r == (s.spec_bytes().len() > 0 && s.spec_bytes()[0] == c as u8)
{ s.starts_with(c) }
#[verifier::external_body]
pub fn str_ends_with_char(s: &str, c: char) -> (r: bool)
    requires (c as u32) < 0x80
    ensures r == (s.spec_bytes().len() > 0 && s.spec_bytes()[s.spec_bytes().len() - 1] == c as u8)
{ s.ends_with(c) }
pub open spec fn has_sfx(b: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= b.len() && b.subrange(b.len() - p.len(), b.len() as int) == p }
#[verifier::external_body]
pub fn str_ends_with_str(s: &str, p: &str) -> (r: bool)
    ensures r == has_sfx(s.spec_bytes(), p.spec_bytes())
{ s.ends_with(p) }
#[verifier::external_body]
pub fn str_find_char(s: &str, c: char) -> (r: Option<usize>)
    requires (c as u32) < 0x80
    ensures match r { Some(i) => i < s.spec_bytes().len() && i == first1(s.spec_bytes(), c as u8), None => first1(s.spec_bytes(), c as u8) == s.spec_bytes().len() }
{ s.find(c) }
/// first position of the needle; the length of `b` when there is none
pub open spec fn first_sub(b: Seq<u8>, i: int, p: Seq<u8>) -> int
    decreases b.len() - i
{
    if i + p.len() > b.len() { b.len() as int } else if b.subrange(i, i + p.len()) == p { i } else if i >= b.len() { b.len() as int } else { first_sub(b, i + 1, p) }
}
#[verifier::external_body]
pub fn str_find_str(s: &str, p: &str) -> (r: Option<usize>)
    requires p.spec_bytes().len() > 0
    ensures match r { Some(i) => i + p.spec_bytes().len() <= s.spec_bytes().len() && i == first_sub(s.spec_bytes(), 0, p.spec_bytes()), None => first_sub(s.spec_bytes(), 0, p.spec_bytes()) == s.spec_bytes().len() }
{ s.find(p) }
/// the last position of `p`
pub open spec fn last_sub(b: Seq<u8>, i: int, p: Seq<u8>) -> int
    decreases i + 1
{ if i < 0 { -1 } else if i + p.len() <= b.len() && b.subrange(i, i + p.len()) == p { i } else { last_sub(b, i - 1, p) } }
#[verifier::external_body]
pub fn str_rfind_str(s: &str, p: &str) -> (r: Option<usize>)
    requires p.spec_bytes().len() > 0
    ensures match r { Some(i) => i + p.spec_bytes().len() <= s.spec_bytes().len() && i == last_sub(s.spec_bytes(), s.spec_bytes().len() as int, p.spec_bytes()), None => last_sub(s.spec_bytes(), s.spec_bytes().len() as int, p.spec_bytes()) == -1 }
{ s.rfind(p) }
#[verifier::external_body]
pub fn str_contains_str(s: &str, p: &str) -> (r: bool)
    requires p.spec_bytes().len() > 0
    ensures r == (first_sub(s.spec_bytes(), 0, p.spec_bytes()) < s.spec_bytes().len())
{ s.contains(p) }
/// `str::split(char)` (R26): the remaining input, `None` after the last piece
#[verifier::external_body]
pub struct VSplit<'a> { it: core::str::Split<'a, char> }
impl<'a> VSplit<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn sep(&self) -> u8;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures final(self).sep() == old(self).sep(),
            match old(self).rest() {
                None => r is None && final(self).rest() is None,
                Some(b) => ({ let k = first1(b, old(self).sep()); r is Some && r->0.spec_bytes() == pfx(b, k)
                    && final(self).rest() == (if k < b.len() { Some(sfx(b, k + 1)) } else { None }) }),
            }
    { self.it.next() }
}
#[verifier::external_body]
pub fn str_split_char<'a>(s: &'a str, c: char) -> (r: VSplit<'a>)
    requires (c as u32) < 0x80
    ensures r.rest() == Some(s.spec_bytes()), r.sep() == c as u8
{ VSplit { it: s.split(c) } }
/// some piece between separators satisfies `p`
pub open spec fn any_piece(b: Seq<u8>, c: u8, p: spec_fn(Seq<u8>) -> bool) -> bool
    decreases b.len()
{
    let k = first1(b, c);
    p(pfx(b, k)) || (0 <= k < b.len() && any_piece(sfx(b, k + 1), c, p))
}
/// `X.split('c').any(f)`
pub fn split_any<F: Fn(&str) -> bool>(s: &str, c: char, f: F) -> (r: bool)
    requires (c as u32) < 0x80, forall|x: &str| call_requires(f, (x,))
    ensures forall|p: spec_fn(Seq<u8>) -> bool| #![trigger any_piece(s.spec_bytes(), c as u8, p)]
        (forall|x: &str, y: bool| #[trigger] call_ensures(f, (x,), y) ==> y == p(x.spec_bytes())) ==> r == any_piece(s.spec_bytes(), c as u8, p)
{
    let mut it = str_split_char(s, c);
    loop
        invariant (c as u32) < 0x80, forall|x: &str| call_requires(f, (x,)), it.sep() == c as u8,
            forall|p: spec_fn(Seq<u8>) -> bool| #![trigger any_piece(s.spec_bytes(), c as u8, p)]
                (forall|x: &str, y: bool| #[trigger] call_ensures(f, (x,), y) ==> y == p(x.spec_bytes()))
                ==> any_piece(s.spec_bytes(), c as u8, p) == (it.rest() is Some && any_piece(it.rest()->0, c as u8, p)),
        ensures it.rest() is None,
        decreases (if it.rest() is Some { it.rest()->0.len() + 1 } else { 0 })
    {
        proof { if it.rest() is Some { lemma_first(it.rest()->0, c as u8, c as u8, c as u8, c as u8); } }
        match it.next() {
            None => { break; }
            Some(x) => { if f(x) { return true; } }
        }
    }
    false
}
#[verifier::external_body]
pub fn chars_position<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| call_requires(f, (c,))
    ensures match r {
        Some(i) => i < s@.len() && i < s.spec_bytes().len() && call_ensures(f, (s@[i as int],), true),
        None => forall|k: int| 0 <= k < s@.len() ==> call_ensures(f, (#[trigger] s@[k],), false),
    }
{ s.chars().position(|c: char| f(c)) }
#[verifier::external_body]
pub fn str_rfind_char(s: &str, c: char) -> (r: Option<usize>)
    requires (c as u32) < 0x80
    ensures match r { Some(i) => i as int == last1(s.spec_bytes(), c as u8), None => last1(s.spec_bytes(), c as u8) == -1 }
{ s.rfind(c) }
#[verifier::external_body]
pub fn str_contains_char(s: &str, c: char) -> (r: bool)
    requires (c as u32) < 0x80
    ensures r == (first1(s.spec_bytes(), c as u8) < s.spec_bytes().len())
{ s.contains(c) }
/// `str::chars` (R5): an owned cursor instead of `core::str::Chars`
#[verifier::external_body]
pub struct VChars<'a> { it: core::str::Chars<'a> }
impl<'a> View for VChars<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn str_chars<'a>(s: &'a str) -> (r: VChars<'a>) ensures r@ == s@ { VChars { it: s.chars() } }
impl<'a> VChars<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { self.it.next() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { self.it.as_str() }
    /// `by_ref().take(n).count()`
    #[verifier::external_body]
    pub fn take_count(&mut self, n: usize) -> (r: usize)
        ensures r as int == (if n <= old(self)@.len() { n as int } else { old(self)@.len() as int }), final(self)@ == old(self)@.skip(r as int)
    { self.it.by_ref().take(n).count() }
}
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o matches Some(x) ==> call_requires(f, (&x,))
    ensures match o {
        Some(x) => (r == Some(x) && call_ensures(f, (&x,), true)) || (r is None && call_ensures(f, (&x,), false)),
        None => r is None,
    };
/// Rust: no allocation exceeds isize::MAX bytes
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= isize::MAX;
pub broadcast proof fn lemma_skip3<A>(s: Seq<A>)
    requires s.len() >= 3
    ensures #[trigger] s.skip(1).skip(1).skip(1) == s.skip(3)
{
    assert(s.skip(1).skip(1).skip(1) =~= s.skip(3));
}
pub broadcast proof fn lemma_str_valid(s: &str)
    ensures valid_utf8(#[trigger] s.spec_bytes())
{
    lemma_str_dec(s);
}
pub broadcast proof fn lemma_boundary_ends(b: Seq<u8>)
    requires #[trigger] valid_utf8(b)
    ensures is_char_boundary(b, 0), is_char_boundary(b, b.len() as int)
{
    is_char_boundary_start_end_of_seq(b);
}
pub broadcast proof fn lemma_pfx_full(b: Seq<u8>, i: int)
    requires i == b.len()
    ensures #[trigger] pfx(b, i) == b
{ assert(pfx(b, i) =~= b); }
pub broadcast proof fn lemma_sfx_zero(b: Seq<u8>, i: int)
    requires i == 0
    ensures #[trigger] sfx(b, i) == b
{ assert(sfx(b, i) =~= b); }
pub broadcast proof fn lemma_sfx_sfx(b: Seq<u8>, i: int, j: int)
    requires 0 <= i <= b.len(), 0 <= j <= b.len() - i
    ensures #[trigger] sfx(sfx(b, i), j) == sfx(b, i + j)
{ assert(sfx(sfx(b, i), j) =~= sfx(b, i + j)); }
pub broadcast proof fn lemma_pfx_pfx(b: Seq<u8>, i: int, j: int)
    requires 0 <= j <= i <= b.len()
    ensures #[trigger] pfx(pfx(b, i), j) == pfx(b, j)
{ assert(pfx(pfx(b, i), j) =~= pfx(b, j)); }
pub broadcast proof fn lemma_has_pfx(b: Seq<u8>, p: Seq<u8>)
    ensures #[trigger] has_pfx(b, p) == (p.len() <= b.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == p[i])
{
    if p.len() <= b.len() {
        assert forall|i: int| has_pfx(b, p) && 0 <= i < p.len() implies #[trigger] b[i] == p[i] by { assert(b.subrange(0, p.len() as int)[i] == b[i]); }
        if forall|i: int| 0 <= i < p.len() ==> #[trigger] b[i] == p[i] { assert(b.subrange(0, p.len() as int) =~= p); }
    }
}
pub broadcast group group_vx {
    lemma_pfx_full, lemma_sfx_zero, lemma_sfx_sfx, lemma_pfx_pfx, lemma_has_pfx, lemma_first, lemma_last, lemma_str_valid, lemma_boundary_ends, lemma_ascii_boundary, axiom_range_is_empty, axiom_str_len, lemma_skip3 }
/// range indexing `&x[a..b]` (R12), one trait for `str` and `[u8]`
pub trait VSlice {
    spec fn vb(&self) -> Seq<u8>;
    spec fn vok(&self, i: int) -> bool;
    fn vx_range(&self, a: usize, b: usize) -> (r: &Self)
        requires a <= b <= self.vb().len(), self.vok(a as int), self.vok(b as int),
        ensures r.vb() == self.vb().subrange(a as int, b as int);
    fn vx_from(&self, a: usize) -> (r: &Self)
        requires a <= self.vb().len(), self.vok(a as int),
        ensures r.vb() == sfx(self.vb(), a as int);
    fn vx_to(&self, b: usize) -> (r: &Self)
        requires b <= self.vb().len(), self.vok(b as int),
        ensures r.vb() == pfx(self.vb(), b as int);
}
impl VSlice for str {
    open spec fn vb(&self) -> Seq<u8> { self.spec_bytes() }
    open spec fn vok(&self, i: int) -> bool { is_char_boundary(self.spec_bytes(), i) }
    #[verifier::external_body]
    fn vx_range(&self, a: usize, b: usize) -> (r: &Self) { &self[a..b] }
    #[verifier::external_body]
    fn vx_from(&self, a: usize) -> (r: &Self) { &self[a..] }
    #[verifier::external_body]
    fn vx_to(&self, b: usize) -> (r: &Self) { &self[..b] }
}
impl VSlice for [u8] {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    open spec fn vok(&self, i: int) -> bool { 0 <= i <= self@.len() }
    fn vx_range(&self, a: usize, b: usize) -> (r: &Self) { vstd::slice::slice_subrange(self, a, b) }
    fn vx_from(&self, a: usize) -> (r: &Self) { vstd::slice::slice_subrange(self, a, self.len()) }
    fn vx_to(&self, b: usize) -> (r: &Self) { vstd::slice::slice_subrange(self, 0, b) }
}
/// `&s[range]` with a range value
pub trait VIdx: Sized {
    spec fn vlo(&self) -> int;
    spec fn vhi(&self, len: int) -> int;
    fn vx_idx(self, s: &str) -> (r: &str)
        requires 0 <= self.vlo() <= self.vhi(s.spec_bytes().len() as int) <= s.spec_bytes().len(),
            is_char_boundary(s.spec_bytes(), self.vlo()), is_char_boundary(s.spec_bytes(), self.vhi(s.spec_bytes().len() as int)),
        ensures r.spec_bytes() == s.spec_bytes().subrange(self.vlo(), self.vhi(s.spec_bytes().len() as int));
}
impl VIdx for core::ops::Range<usize> {
    open spec fn vlo(&self) -> int { self.start as int }
    open spec fn vhi(&self, len: int) -> int { self.end as int }
    fn vx_idx(self, s: &str) -> (r: &str) { s.vx_range(self.start, self.end) }
}
impl VIdx for core::ops::RangeTo<usize> {
    open spec fn vlo(&self) -> int { 0 }
    open spec fn vhi(&self, len: int) -> int { self.end as int }
    fn vx_idx(self, s: &str) -> (r: &str) { s.vx_to(self.end) }
}
impl VIdx for core::ops::RangeFrom<usize> {
    open spec fn vlo(&self) -> int { self.start as int }
    open spec fn vhi(&self, len: int) -> int { len }
    fn vx_idx(self, s: &str) -> (r: &str) { s.vx_from(self.start) }
}
pub assume_specification<Idx: PartialOrd<Idx>>[ core::ops::Range::<Idx>::is_empty ](x: &core::ops::Range<Idx>) -> (r: bool) where Idx: PartialOrd<Idx>
    ensures r == range_is_empty(*x);
pub uninterp spec fn range_is_empty<Idx>(x: core::ops::Range<Idx>) -> bool;
pub broadcast axiom fn axiom_range_is_empty(x: core::ops::Range<usize>)
    ensures #[trigger] range_is_empty(x) == !(x.start < x.end);
pub assume_specification<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> call_requires(f, ())
    ensures match o { Some(x) => r == o, None => call_ensures(f, (), r) };
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> call_requires(f, (x,))
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => r == d };
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, d: Option<T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => o, None => d });
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o matches Some(x) ==> call_requires(f, (x,)), o is None ==> call_requires(d, ()),
    ensures match o { Some(x) => call_ensures(f, (x,), r), None => call_ensures(d, (), r) };
/// `core::num::NonZeroUsize` (same operations; Verus has no contract for the std type)
pub struct NonZeroUsize { v: usize }
impl Copy for NonZeroUsize {}
impl Clone for NonZeroUsize { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl NonZeroUsize {
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool { self.v != 0 }
    pub closed spec fn sv(self) -> usize { self.v }
    pub fn new(n: usize) -> (r: Option<NonZeroUsize>)
        ensures match r { Some(x) => n != 0 && x.sv() == n, None => n == 0 }
    { if n == 0 { None } else { Some(NonZeroUsize { v: n }) } }
    pub fn get(self) -> (r: usize) ensures r == self.sv(), r != 0 { proof { use_type_invariant(self); } self.v }
}
/// `core::num::NonZeroU8`, likewise
pub struct NonZeroU8 { v: u8 }
impl Copy for NonZeroU8 {}
impl Clone for NonZeroU8 { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl NonZeroU8 {
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool { self.v != 0 }
    pub closed spec fn sv(self) -> u8 { self.v }
    pub fn new(n: u8) -> (r: Option<NonZeroU8>)
        ensures match r { Some(x) => n != 0 && x.sv() == n, None => n == 0 }
    { if n == 0 { None } else { Some(NonZeroU8 { v: n }) } }
    pub fn get(self) -> (r: u8) ensures r == self.sv(), r != 0 { proof { use_type_invariant(self); } self.v }
}
/// `x[..n].copy_from_slice(s)`
#[verifier::external_body]
pub fn copy_to_prefix(x: &mut [u8], n: usize, s: &[u8])
    requires n <= old(x)@.len(), s@.len() == n
    ensures final(x)@ == s@ + old(x)@.skip(n as int)
{ x[..n].copy_from_slice(s) }
/// `array.copy_within(r, d)`
#[verifier::external_body]
pub fn array_copy_within<const N: usize>(x: &mut [u8; N], r: core::ops::Range<usize>, d: usize)
    requires r.start <= r.end <= N, d + (r.end - r.start) <= N
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(x)@[i] == (if d <= i < d + (r.end - r.start) { old(x)@[r.start + i - d] } else { old(x)@[i] })
{ x.copy_within(r, d) }
#[verifier::external_body]
pub fn array_to<const N: usize>(x: &[u8; N], n: usize) -> (r: &[u8])
    requires n <= N
    ensures r@ == x@.take(n as int)
{ &x[..n] }
pub assume_specification<B, C>[ core::ops::ControlFlow::<B, C>::is_break ](x: &core::ops::ControlFlow<B, C>) -> (r: bool)
    ensures r == (x is Break);
pub assume_specification<B, C>[ core::ops::ControlFlow::<B, C>::is_continue ](x: &core::ops::ControlFlow<B, C>) -> (r: bool)
    ensures r == (x is Continue);
/// `is_ascii` on `str`, `u8` and `char`
pub trait VAscii {
    spec fn va(&self) -> bool;
    fn vx_is_ascii(&self) -> (r: bool) ensures r == self.va();
}
impl VAscii for str {
    open spec fn va(&self) -> bool { ascii(self.spec_bytes()) }
    #[verifier::external_body]
    fn vx_is_ascii(&self) -> (r: bool) { self.is_ascii() }
}
impl VAscii for u8 {
    open spec fn va(&self) -> bool { *self < 0x80 }
    fn vx_is_ascii(&self) -> (r: bool) { *self < 0x80 }
}
impl VAscii for char {
    open spec fn va(&self) -> bool { (*self as u32) < 0x80 }
    fn vx_is_ascii(&self) -> (r: bool) { (*self as u32) < 0x80 }
}
/// `Default::default()` at the types it is used for
pub trait VDefault: Sized {
    spec fn vd(x: Self) -> bool;
    fn vx_default() -> (r: Self) ensures Self::vd(r);
}
impl<'a> VDefault for [&'a str; 4] {
    open spec fn vd(x: Self) -> bool { true }
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { Default::default() }
}
/// the crate's `From` impls, with a contract per impl
pub trait VInto<T>: Sized { spec fn vto(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.vto(r); }
/// `Option::get_or_insert_with`
#[verifier::external_body]
pub fn vx_goi<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> (r: &mut T)
    requires f.requires(())
    ensures *old(o) is Some ==> *r == (*old(o))->Some_0, *old(o) is None ==> f.ensures((), *r), *final(o) == Some(*final(r))
{ o.get_or_insert_with(f) }
/// `array.into_iter().all(f)`
pub fn into_all<T: Copy, const N: usize, F: Fn(T) -> bool>(s: [T; N], f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < N ==> call_requires(f, (#[trigger] s@[i],))
    ensures r ==> forall|i: int| 0 <= i < N ==> call_ensures(f, (#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < N && call_ensures(f, (#[trigger] s@[i],), false),
{
    let mut i: usize = 0;
    while i < N
        invariant 0 <= i <= N, s@.len() == N,
            forall|j: int| 0 <= j < N ==> call_requires(f, (#[trigger] s@[j],)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] s@[j],), true),
        decreases N - i
    {
        if !f(s[i]) { return false; }
        i = i + 1;
    }
    true
}
/// the crate's `AsRef` impls, with a contract per impl
pub trait VAsRef<T: ?Sized> {
    /// the invariant of the implementing type, where the verifier does not supply it
    spec fn arq(&self) -> bool;
    spec fn ar(&self, r: &T) -> bool;
    fn as_ref(&self) -> (r: &T) requires self.arq() ensures self.ar(r);
}
/// `char::encode_utf8`
#[verifier::external_body]
pub fn char_encode_utf8<'a, const N: usize>(c: char, buf: &'a mut [u8; N]) -> (r: &'a str)
    requires N >= 4
    ensures r@ == seq![c], r.spec_bytes() == encode_utf8(seq![c])
{ c.encode_utf8(buf) }
/// `alloc::borrow::Cow`
pub trait VOwn { type Owned; }
impl VOwn for [u8] { type Owned = Vec<u8>; }
pub enum Cow<'a, B: VOwn + ?Sized> { Borrowed(&'a B), Owned(B::Owned) }
impl<'a> Cow<'a, [u8]> {
    pub open spec fn bytes(&self) -> Seq<u8> { match self { Cow::Borrowed(x) => x@, Cow::Owned(v) => v@ } }
}
/// `Vec::from(&[u8])`
#[verifier::external_body]
pub fn vec_from_slice(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { Vec::from(s) }
/// `core::mem::take` on `&[u8]`
#[verifier::external_body]
pub fn mem_take_str<'a>(s: &mut &'a str) -> (r: &'a str) ensures r.spec_bytes() == old(s).spec_bytes(), final(s).spec_bytes() == Seq::<u8>::empty() { core::mem::take(s) }
pub fn mem_take_bytes<'a>(s: &mut &'a [u8]) -> (r: &'a [u8])
    ensures r@ == old(s)@, final(s)@ == Seq::<u8>::empty()
{
    let r = *s;
    let e: &'a [u8] = subslice(r, 0, 0);
    proof { assert(e@ =~= Seq::<u8>::empty()); }
    *s = e;
    r
}
pub trait VExtend { spec fn vv(&self) -> Seq<u8>; fn vx_extend(&mut self, s: &[u8]) ensures final(self).vv() == old(self).vv() + s@; }
impl VExtend for Vec<u8> {
    open spec fn vv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_extend(&mut self, s: &[u8]) { self.extend(s) }
}
// ---- mutable slices, allocation
#[verifier::external_body]
pub fn mem_take_mut<'a, T>(s: &mut &'a mut [T]) -> (r: &'a mut [T])
    ensures r@ == old(s)@, final(r)@ == final(*old(s))@, final(s)@.len() == 0
    no_unwind
{ core::mem::take(s) }
/// `a == b".."`
pub fn slice_is(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j]
        decreases a.len() - i
    {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    assert(a@ =~= b@);
    true
}
pub trait VSliceMut {
    spec fn mv(&self) -> Seq<u8>;
    fn vx_split_at_mut<'a>(&'a mut self, k: usize) -> (r: (&'a mut Self, &'a mut Self))
        requires k <= old(self).mv().len()
        ensures r.0.mv() == pfx(old(self).mv(), k as int), r.1.mv() == sfx(old(self).mv(), k as int), final(self).mv() == final(r.0).mv() + final(r.1).mv();
    fn vx_copy_from_slice(&mut self, s: &[u8])
        requires old(self).mv().len() == s@.len() ensures final(self).mv() == s@;
}
impl VSliceMut for [u8] {
    open spec fn mv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_split_at_mut<'a>(&'a mut self, k: usize) -> (r: (&'a mut [u8], &'a mut [u8])) { self.split_at_mut(k) }
    #[verifier::external_body]
    fn vx_copy_from_slice(&mut self, s: &[u8]) { self.copy_from_slice(s) }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct Utf8Error { e: u8 }
impl Utf8Error {
    pub uninterp spec fn vu(&self) -> usize;
    pub uninterp spec fn el(&self) -> Option<usize>;
    #[verifier::external_body] pub fn valid_up_to(&self) -> (r: usize) ensures r == self.vu() { unimplemented!() }
    #[verifier::external_body] pub fn error_len(&self) -> (r: Option<usize>) ensures r == self.el() { unimplemented!() }
}
/// what the error of `core::str::from_utf8` tells: the bytes before `valid_up_to` are valid, and after them there is either
/// the start of a character cut by the end of the input, or `error_len` bytes (a byte and continuation bytes) that start no character
pub open spec fn utf8_error(b: Seq<u8>, e: Utf8Error) -> bool {
    &&& e.vu() < b.len()
    &&& valid_utf8(b.take(e.vu() as int))
    &&& ({ let d = b.skip(e.vu() as int);
        crate::frag::no_char(d) && match e.el() {
            None => 1 <= d.len() <= 3 && forall|i: int| 1 <= i < d.len() ==> 0x80 <= #[trigger] d[i] <= 0xbf,
            Some(n) => 1 <= n <= 3 && n <= d.len() && crate::frag::no_ext(d) && forall|i: int| 1 <= i < n ==> 0x80 <= #[trigger] d[i] <= 0xbf,
        } })
}
/// `core::str::from_utf8`
#[verifier::external_body]
pub fn str_from_utf8(b: &[u8]) -> (r: core::result::Result<&str, Utf8Error>)
    ensures match r { Ok(s) => s.spec_bytes() == b@, Err(e) => !valid_utf8(b@) && utf8_error(b@, e) }
{ unimplemented!() }
#[verifier::external_body]
#[derive(Debug)]
pub struct TryReserveError { e: u8 }
pub trait VReserve: Sized {
    fn vx_try_reserve(&mut self, n: usize) -> (r: core::result::Result<(), TryReserveError>) ensures *final(self) == *old(self);
}
impl VReserve for String {
    #[verifier::external_body]
    fn vx_try_reserve(&mut self, n: usize) -> (r: core::result::Result<(), TryReserveError>) { unimplemented!() }
}
pub trait VStr {
    spec fn vc(&self) -> Seq<char>;
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&Self>)
        ensures match r { Some(t) => self.vc() == p@ + t.vc(), None => !(p@.len() <= self.vc().len() && self.vc().take(p@.len() as int) == p@) };
}
impl VStr for str {
    open spec fn vc(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_strip_prefix(&self, p: &str) -> (r: Option<&Self>) { self.strip_prefix(p) }
}
/// `&mut array[..n]`
#[verifier::external_body]
pub fn array_prefix_mut<const N: usize>(a: &mut [u8; N], n: usize) -> (r: &mut [u8])
    requires n <= N
    ensures r@ == old(a)@.take(n as int)
{ &mut a[..n] }
#[verifier::external_body]
pub fn char_from_u32(v: u32) -> (r: Option<char>)
    ensures match r { Some(c) => c as u32 == v && (v <= 0xd7ff || 0xe000 <= v <= 0x10ffff), None => !(v <= 0xd7ff || 0xe000 <= v <= 0x10ffff) }
{ char::from_u32(v) }
/// `to_ascii_lowercase` of `char` and `u8`
pub open spec fn lower(c: char) -> char { if 'A' <= c <= 'Z' { (c as u8 + 32) as u8 as char } else { c } }
pub trait VLower: Sized { spec fn lo(self) -> Self; fn vx_lower(&self) -> (r: Self) ensures r == self.lo(); }
impl VLower for char {
    open spec fn lo(self) -> char { lower(self) }
    #[verifier::external_body]
    fn vx_lower(&self) -> (r: Self) { self.to_ascii_lowercase() }
}
impl VLower for u8 {
    open spec fn lo(self) -> u8 { if 0x41 <= self <= 0x5a { (self + 32) as u8 } else { self } }
    #[verifier::external_body]
    fn vx_lower(&self) -> (r: Self) { self.to_ascii_lowercase() }
}
/// `str::find` with a closure over characters
#[verifier::external_body]
pub fn str_find_fn<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| call_requires(f, (c,))
    ensures match r {
        Some(i) => exists|j: int| 0 <= j < s@.len() && i == encode_utf8(#[trigger] s@.take(j)).len() && call_ensures(f, (s@[j],), true)
            && forall|k: int| 0 <= k < j ==> call_ensures(f, (#[trigger] s@[k],), false),
        None => forall|k: int| 0 <= k < s@.len() ==> call_ensures(f, (#[trigger] s@[k],), false),
    }
{ s.find(|c: char| f(c)) }
/// the value of a sequence of decimal digits
pub open spec fn decval(b: Seq<u8>) -> int
    decreases b.len()
{
    if b.len() == 0 { 0 } else { 10 * decval(b.drop_last()) + (b.last() - 0x30) }
}
#[derive(Debug)]
pub struct ParseIntError;
/// `str::parse::<u16>` on at most four digits
#[verifier::external_body]
pub fn parse_u16(s: &str) -> (r: core::result::Result<u16, ParseIntError>)
    ensures 1 <= s.spec_bytes().len() <= 4 && (forall|i: int| 0 <= i < s.spec_bytes().len() ==> 0x30 <= #[trigger] s.spec_bytes()[i] <= 0x39) ==> r is Ok && r->Ok_0 == decval(s.spec_bytes())
{ match s.parse::<u16>() { Ok(v) => Ok(v), Err(_) => Err(ParseIntError) } }
/// `Clone` of plain values
pub trait VClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for core::ops::Range<usize> { fn vx_clone(&self) -> (r: Self) { self.start..self.end } }
/// `core::str::Bytes`
#[verifier::external_body]
pub struct VBytes<'a> { it: core::str::Bytes<'a> }
impl<'a> View for VBytes<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl<'a> VBytes<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { self.it.next() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.it.len() }
}
#[verifier::external_body]
pub fn str_bytes<'a>(s: &'a str) -> (r: VBytes<'a>) ensures r@ == s.spec_bytes() { VBytes { it: s.bytes() } }
/// number of bytes that satisfy the predicate
pub open spec fn count_by(s: Seq<u8>, f: spec_fn(u8) -> bool) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count_by(s.drop_last(), f) + (if f(s.last()) { 1nat } else { 0 }) }
}
/// `p` is the predicate computed by the closure
pub open spec fn decides<F: Fn(u8) -> bool>(f: F, p: spec_fn(u8) -> bool) -> bool { forall|b: u8, r: bool| #[trigger] call_ensures(f, (b,), r) ==> r == p(b) }
pub proof fn lemma_count_step(s: Seq<u8>, i: int, p: spec_fn(u8) -> bool)
    requires 0 <= i < s.len()
    ensures count_by(s.take(i + 1), p) == count_by(s.take(i), p) + (if p(s[i]) { 1nat } else { 0 })
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
pub fn bytes_filter_count<F: Fn(u8) -> bool>(s: &[u8], f: F) -> (r: usize)
    requires forall|b: u8| call_requires(f, (b,))
    ensures forall|p: spec_fn(u8) -> bool| decides(f, p) ==> r == #[trigger] count_by(s@, p), r <= s@.len()
{
    let mut i: usize = 0;
    let mut n: usize = 0;
    while i < s.len()
        invariant i <= s.len(), n <= i, forall|b: u8| call_requires(f, (b,)),
            forall|p: spec_fn(u8) -> bool| decides(f, p) ==> n == #[trigger] count_by(s@.take(i as int), p),
        decreases s.len() - i
    {
        let t = f(s[i]);
        let ghost n0 = n;
        if t { n = n + 1; }
        proof {
            assert forall|p: spec_fn(u8) -> bool| decides(f, p) implies n == #[trigger] count_by(s@.take(i as int + 1), p) by {
                lemma_count_step(s@, i as int, p);
                assert(n0 == count_by(s@.take(i as int), p));
                assert(call_ensures(f, (s@[i as int],), t));
            }
        }
        i = i + 1;
    }
    proof { assert(s@.take(s@.len() as int) =~= s@); }
    n
}
/// `from_utf8_unchecked`
#[verifier::external_body]
pub fn str_from_utf8_unchecked(b: &[u8]) -> (r: &str)
    requires valid_utf8(b@)
    ensures r.spec_bytes() == b@
{ unsafe { core::str::from_utf8_unchecked(b) } }
pub trait VFill { spec fn fv(&self) -> Seq<u8>; fn vx_fill(&mut self, b: u8) ensures final(self).fv().len() == old(self).fv().len(), forall|i: int| 0 <= i < final(self).fv().len() ==> #[trigger] final(self).fv()[i] == b; }
impl VFill for [u8] {
    open spec fn fv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_fill(&mut self, b: u8) { self.fill(b) }
}
#[verifier::external_body]
pub fn array_mut<const N: usize>(a: &mut [u8; N]) -> (r: &mut [u8]) ensures r@ == old(a)@, r@.len() == N { a }
#[verifier::external_body]
pub fn slice_to_mut(a: &mut [u8], n: usize) -> (r: &mut [u8])
    requires n <= old(a)@.len()
    ensures r@ == old(a)@.take(n as int)
{ &mut a[..n] }
/// `str::get` with a range
#[verifier::external_body]
pub fn str_get_from(s: &str, a: usize) -> (r: Option<&str>)
    ensures match r { Some(t) => a <= s.spec_bytes().len() && is_char_boundary(s.spec_bytes(), a as int) && t.spec_bytes() == sfx(s.spec_bytes(), a as int),
        None => a > s.spec_bytes().len() || !is_char_boundary(s.spec_bytes(), a as int) }
{ s.get(a..) }
#[verifier::external_body]
pub fn str_get_range(s: &str, x: core::ops::Range<usize>) -> (r: Option<&str>)
    ensures ({ let b = s.spec_bytes(); let ok = x.start <= x.end <= b.len() && is_char_boundary(b, x.start as int) && is_char_boundary(b, x.end as int);
        match r { Some(t) => ok && t.spec_bytes() == b.subrange(x.start as int, x.end as int), None => !ok } })
{ s.get(x) }
impl<'a> VDefault for &'a str {
    open spec fn vd(x: Self) -> bool { x.spec_bytes() == Seq::<u8>::empty() }
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { "" }
}
impl<T> VDefault for Option<T> {
    open spec fn vd(x: Self) -> bool { x is None }
    fn vx_default() -> (r: Self) { None }
}
/// `array.get_mut(i)`
#[verifier::external_body]
pub fn array_get_mut<T, const N: usize>(a: &mut [T; N], i: usize) -> (r: Option<&mut T>)
    ensures match r { Some(x) => i < N && *x == old(a)@[i as int] && final(a)@ == old(a)@.update(i as int, *final(x)), None => i >= N && final(a)@ == old(a)@ }
{ a.get_mut(i) }
