//! Independent executable reference: RFC 3986/3987/6570 written down directly,
//! sharing no code with the crate under test.

pub fn ucschar(c: char) -> bool {
    matches!(c as u32,
        0xA0..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFEF
        | 0x1_0000..=0x1_FFFD | 0x2_0000..=0x2_FFFD | 0x3_0000..=0x3_FFFD
        | 0x4_0000..=0x4_FFFD | 0x5_0000..=0x5_FFFD | 0x6_0000..=0x6_FFFD
        | 0x7_0000..=0x7_FFFD | 0x8_0000..=0x8_FFFD | 0x9_0000..=0x9_FFFD
        | 0xA_0000..=0xA_FFFD | 0xB_0000..=0xB_FFFD | 0xC_0000..=0xC_FFFD
        | 0xD_0000..=0xD_FFFD | 0xE_1000..=0xE_FFFD)
}
pub fn iprivate(c: char) -> bool {
    matches!(c as u32, 0xE000..=0xF8FF | 0xF_0000..=0xF_FFFD | 0x10_0000..=0x10_FFFD)
}
pub fn unreserved(iri: bool, c: char) -> bool {
    c.is_ascii_alphanumeric() || "-._~".contains(c) || (iri && ucschar(c))
}
pub fn subdelim(c: char) -> bool {
    "!$&'()*+,;=".contains(c)
}
pub fn gendelim(c: char) -> bool {
    ":/?#[]@".contains(c)
}
pub fn pchar(iri: bool, c: char) -> bool {
    unreserved(iri, c) || subdelim(c) || c == ':' || c == '@'
}
/// `*( pct-encoded / ok )`
pub fn pct_or(s: &str, ok: impl Fn(char) -> bool) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '%' {
            if i + 2 < cs.len() && cs[i + 1].is_ascii_hexdigit() && cs[i + 2].is_ascii_hexdigit() {
                i += 3;
            } else {
                return false;
            }
        } else if ok(cs[i]) {
            i += 1;
        } else {
            return false;
        }
    }
    true
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Parts<'a> {
    pub scheme: Option<&'a str>,
    pub authority: Option<&'a str>,
    pub path: &'a str,
    pub query: Option<&'a str>,
    pub fragment: Option<&'a str>,
}

/// RFC 3986 appendix B.
pub fn split(s: &str) -> Parts<'_> {
    let mut p = Parts::default();
    let mut r = s;
    if let Some(i) = r.find(|c| ":/?#".contains(c)) {
        if i > 0 && r[i..].starts_with(':') {
            p.scheme = Some(&r[..i]);
            r = &r[i + 1..];
        }
    }
    if let Some(x) = r.strip_prefix("//") {
        let e = x.find(|c| "/?#".contains(c)).unwrap_or(x.len());
        p.authority = Some(&x[..e]);
        r = &x[e..];
    }
    if let Some(i) = r.find('#') {
        p.fragment = Some(&r[i + 1..]);
        r = &r[..i];
    }
    if let Some(i) = r.find('?') {
        p.query = Some(&r[i + 1..]);
        r = &r[..i];
    }
    p.path = r;
    p
}
/// RFC 3986 section 5.3.
pub fn join(p: &Parts<'_>) -> String {
    let mut o = String::new();
    if let Some(s) = p.scheme {
        o += s;
        o += ":";
    }
    if let Some(a) = p.authority {
        o += "//";
        o += a;
    }
    o += p.path;
    if let Some(q) = p.query {
        o += "?";
        o += q;
    }
    if let Some(f) = p.fragment {
        o += "#";
        o += f;
    }
    o
}

pub fn valid_scheme(s: &str) -> bool {
    let mut c = s.chars();
    matches!(c.next(), Some(x) if x.is_ascii_alphabetic())
        && c.all(|x| x.is_ascii_alphanumeric() || "+-.".contains(x))
}
pub fn valid_userinfo(iri: bool, s: &str) -> bool {
    pct_or(s, |c| unreserved(iri, c) || subdelim(c) || c == ':')
}
pub fn valid_reg_name(iri: bool, s: &str) -> bool {
    pct_or(s, |c| unreserved(iri, c) || subdelim(c))
}
fn dec_octet(s: &str) -> bool {
    !s.is_empty()
        && s.len() <= 3
        && s.bytes().all(|b| b.is_ascii_digit())
        && (s.len() == 1 || !s.starts_with('0'))
        && s.parse::<u32>().unwrap() < 256
}
pub fn host_is_ipv4(s: &str) -> bool {
    ipv4(s)
}
fn ipv4(s: &str) -> bool {
    let v: Vec<&str> = s.split('.').collect();
    v.len() == 4 && v.iter().all(|o| dec_octet(o))
}
fn h16(s: &str) -> bool {
    !s.is_empty() && s.len() <= 4 && s.bytes().all(|b| b.is_ascii_hexdigit())
}
/// Number of 16-bit groups, `None` if malformed.
fn groups(s: &str, v4_tail: bool) -> Option<usize> {
    if s.is_empty() {
        return Some(0);
    }
    let v: Vec<&str> = s.split(':').collect();
    let mut n = 0;
    for (i, g) in v.iter().enumerate() {
        if h16(g) {
            n += 1;
        } else if v4_tail && i + 1 == v.len() && ipv4(g) {
            n += 2;
        } else {
            return None;
        }
    }
    Some(n)
}
fn ipv6(s: &str) -> bool {
    match s.find("::") {
        Some(i) => match (groups(&s[..i], false), groups(&s[i + 2..], true)) {
            (Some(a), Some(b)) => a + b <= 7,
            _ => false,
        },
        None => groups(s, true) == Some(8),
    }
}
fn ipvfuture(s: &str) -> bool {
    if !(s.starts_with('v') || s.starts_with('V')) {
        return false;
    }
    match s[1..].split_once('.') {
        Some((ver, addr)) => {
            !ver.is_empty()
                && ver.bytes().all(|b| b.is_ascii_hexdigit())
                && !addr.is_empty()
                && addr.chars().all(|c| unreserved(false, c) || subdelim(c) || c == ':')
        }
        None => false,
    }
}
pub fn valid_host(iri: bool, s: &str) -> bool {
    if let Some(x) = s.strip_prefix('[') {
        match x.strip_suffix(']') {
            Some(x) => ipv6(x) || ipvfuture(x),
            None => false,
        }
    } else {
        valid_reg_name(iri, s)
    }
}
pub fn valid_port(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit())
}
/// (userinfo, host, port); `None` if the brackets are hopeless.
pub fn split_authority(a: &str) -> Option<(Option<&str>, &str, Option<&str>)> {
    let (u, hp) = match a.find('@') {
        Some(i) => (Some(&a[..i]), &a[i + 1..]),
        None => (None, a),
    };
    let host_end = if hp.starts_with('[') {
        hp.find(']')? + 1
    } else {
        hp.find(':').unwrap_or(hp.len())
    };
    let (h, rest) = hp.split_at(host_end);
    let p = if rest.is_empty() {
        None
    } else {
        Some(rest.strip_prefix(':')?)
    };
    Some((u, h, p))
}
pub fn valid_authority(iri: bool, a: &str) -> bool {
    match split_authority(a) {
        None => false,
        Some((u, h, p)) => {
            u.map_or(true, |u| valid_userinfo(iri, u))
                && valid_host(iri, h)
                && p.map_or(true, valid_port)
        }
    }
}
pub fn valid_path(iri: bool, s: &str) -> bool {
    pct_or(s, |c| pchar(iri, c) || c == '/')
}
pub fn valid_segment(iri: bool, s: &str) -> bool {
    pct_or(s, |c| pchar(iri, c))
}
pub fn valid_query(iri: bool, s: &str) -> bool {
    pct_or(s, |c| pchar(iri, c) || c == '/' || c == '?' || (iri && iprivate(c)))
}
pub fn valid_fragment(iri: bool, s: &str) -> bool {
    pct_or(s, |c| pchar(iri, c) || c == '/' || c == '?')
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Reference,
    Normal,
    Absolute,
    Relative,
}
pub const KINDS: [Kind; 4] = [Kind::Reference, Kind::Normal, Kind::Absolute, Kind::Relative];
pub fn valid(iri: bool, k: Kind, s: &str) -> bool {
    let p = split(s);
    let kind_ok = match k {
        Kind::Reference => true,
        Kind::Normal => p.scheme.is_some(),
        Kind::Absolute => p.scheme.is_some() && p.fragment.is_none(),
        Kind::Relative => p.scheme.is_none(),
    };
    kind_ok
        && p.scheme.map_or(true, valid_scheme)
        && p.authority.map_or(true, |a| valid_authority(iri, a))
        && valid_path(iri, p.path)
        // `path-noscheme`
        && (p.scheme.is_some()
            || p.authority.is_some()
            || !p.path.split('/').next().unwrap().contains(':'))
        && p.query.map_or(true, |q| valid_query(iri, q))
        && p.fragment.map_or(true, |f| valid_fragment(iri, f))
}

fn is_dot(s: &str) -> bool {
    s.to_ascii_lowercase().replace("%2e", ".") == "."
}
fn is_dotdot(s: &str) -> bool {
    s.to_ascii_lowercase().replace("%2e", ".") == ".."
}
/// RFC 3986 section 5.2.4, `%2E` counting as a dot.
pub fn remove_dots(path: &str) -> String {
    let mut input = path.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        if !input.starts_with('/') {
            let e = input.find('/').unwrap_or(input.len());
            if is_dot(&input[..e]) || is_dotdot(&input[..e]) {
                input = input[(e + 1).min(input.len())..].to_string(); // A, D
            } else {
                out += &input[..e]; // E
                input = input[e..].to_string();
            }
        } else {
            let e = input[1..].find('/').map_or(input.len(), |i| i + 1);
            let (seg, rest) = (input[1..e].to_string(), input[e..].to_string());
            if is_dot(&seg) {
                input = if rest.is_empty() { "/".into() } else { rest }; // B
            } else if is_dotdot(&seg) {
                let cut = out.rfind('/').unwrap_or(0);
                out.truncate(cut); // C
                input = if rest.is_empty() { "/".into() } else { rest };
            } else {
                out += "/";
                out += &seg;
                input = rest;
            }
        }
    }
    out
}
pub fn protect(path: String, has_authority: bool) -> String {
    if !has_authority && path.starts_with("//") {
        format!("/.{path}")
    } else {
        path
    }
}
/// (target, dot removal result was representable without `/.`)
pub fn resolve(base: &str, reference: &str) -> (String, bool) {
    let (b, r) = (split(base), split(reference));
    let path: String;
    let mut needs = false;
    let mut rm = |p: &str, auth: bool| {
        let x = remove_dots(p);
        needs = !auth && x.starts_with("//");
        protect(x, auth)
    };
    let mut t = Parts::default();
    if r.scheme.is_some() {
        t = r;
        path = rm(r.path, t.authority.is_some());
    } else {
        t.scheme = b.scheme;
        t.fragment = r.fragment;
        if r.authority.is_some() {
            t.authority = r.authority;
            t.query = r.query;
            path = rm(r.path, true);
        } else {
            t.authority = b.authority;
            if r.path.is_empty() {
                path = b.path.to_string();
                t.query = r.query.or(b.query);
            } else {
                t.query = r.query;
                if r.path.starts_with('/') {
                    path = rm(r.path, t.authority.is_some());
                } else {
                    let merged = if b.authority.is_some() && b.path.is_empty() {
                        format!("/{}", r.path)
                    } else {
                        let i = b.path.rfind('/').map_or(0, |i| i + 1);
                        format!("{}{}", &b.path[..i], r.path)
                    };
                    path = rm(&merged, t.authority.is_some());
                }
            }
        }
    }
    t.path = &path;
    (join(&t), !needs)
}

fn hexval(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}
/// Decodes one triplet at the start.
pub fn triplet(b: &[u8]) -> Option<u8> {
    match b {
        [b'%', a, c, ..] => Some(hexval(*a)? * 16 + hexval(*c)?),
        _ => None,
    }
}
/// The character that the triplets at the start of `b` encode, with its number of triplets.
pub fn triplet_char(b: &[u8]) -> Option<(char, usize)> {
    let mut v = Vec::new();
    for n in 1..=4 {
        v.push(triplet(b.get(3 * (n - 1)..)?)?);
        if let Ok(s) = std::str::from_utf8(&v) {
            return Some((s.chars().next().unwrap(), n));
        }
    }
    None
}
/// Percent/case normalization. `lower`: also lowercase ASCII letters outside triplets.
pub fn pct_norm(iri: bool, s: &str, lower: bool) -> String {
    let b = s.as_bytes();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if triplet(&b[i..]).is_some() {
            match triplet_char(&b[i..]) {
                Some((c, n)) if unreserved(iri, c) => {
                    o.push(if lower { c.to_ascii_lowercase() } else { c });
                    i += 3 * n;
                }
                Some((_, n)) => {
                    o += &s[i..i + 3 * n].to_ascii_uppercase();
                    i += 3 * n;
                }
                None => {
                    o += &s[i..i + 3].to_ascii_uppercase();
                    i += 3;
                }
            }
        } else {
            let c = s[i..].chars().next().unwrap();
            o.push(if lower { c.to_ascii_lowercase() } else { c });
            i += c.len_utf8();
        }
    }
    o
}
pub fn ascii_only_host(h: &str) -> bool {
    h.is_ascii() && whatwg_decode(h.as_bytes()).is_ascii()
}
pub fn norm_host(iri: bool, h: &str) -> String {
    pct_norm(iri, h, ascii_only_host(h))
}
pub fn norm_authority(iri: bool, a: &str) -> String {
    let (u, h, p) = split_authority(a).unwrap();
    let mut o = String::new();
    if let Some(u) = u {
        o += &pct_norm(iri, u, false);
        o += "@";
    }
    o += &norm_host(iri, h);
    if let Some(p) = p {
        if !p.is_empty() {
            o += ":";
            o += p;
        }
    }
    o
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum PathMode {
    Default,
    Preserve,
}
/// RFC 3986 section 6.2.2 plus the `/.` protection. Second: representable without it.
pub fn normalize(iri: bool, s: &str, mode: PathMode) -> (String, bool) {
    let p = split(s);
    let scheme = p.scheme.map(|s| s.to_ascii_lowercase());
    let auth = p.authority.map(|a| norm_authority(iri, a));
    let removed = remove_dots(p.path);
    let representable = auth.is_some() || !removed.starts_with("//");
    let path = if mode == PathMode::Preserve && auth.is_none() && !p.path.starts_with('/') {
        pct_norm(iri, p.path, false)
    } else {
        pct_norm(iri, &protect(removed, auth.is_some()), false)
    };
    let q = p.query.map(|x| pct_norm(iri, x, false));
    let f = p.fragment.map(|x| pct_norm(iri, x, false));
    let r = join(&Parts {
        scheme: scheme.as_deref(),
        authority: auth.as_deref(),
        path: &path,
        query: q.as_deref(),
        fragment: f.as_deref(),
    });
    (r, representable)
}

pub fn whatwg_decode(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if let Some(x) = triplet(&b[i..]) {
            o.push(x);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
pub fn pct_encode(s: &str, ok: impl Fn(char) -> bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if ok(c) {
            o.push(c);
        } else {
            let mut b = [0; 4];
            for x in c.encode_utf8(&mut b).bytes() {
                o += &format!("%{x:02X}");
            }
        }
    }
    o
}
/// The text with the password cut out and the (start, end) range of the password.
pub fn password_range(s: &str) -> Option<(usize, usize)> {
    let a = split(s).authority?;
    let off = a.as_ptr() as usize - s.as_ptr() as usize;
    let (u, _, _) = split_authority(a)?;
    let u = u?;
    let i = u.find(':')?;
    Some((off + i + 1, off + u.len()))
}
