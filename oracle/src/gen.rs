//! Deterministic case generation: exhaustive short strings, products of
//! component pools, and seeded random mixtures.

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
}

pub const SCHEMES: &[&str] = &["a:", "http:", "Ht+1-.:", "x:", "URN:", "z9:"];
pub const USERINFOS: &[&str] = &["", "@", "u@", "u:@", ":@", ":p@", "u:p@", "u:p:q@", "u%3Ap@", "u:p%40%3a%2f@", "%7e%c3%a9@", "é:ü@", "::@", "u:secretpw@", "user:%e3%81%82%41@"];
pub const HOSTS: &[&str] = &["", "h", "H", "example.com", "EX%41m.%63", "1.2.3.4", "255.255.255.255", "256.1.1.1", "01.2.3.4", "1.2.3", "1.2.3.4.5", "0.0.0.00", "[::1]", "[::]", "[1:2:3:4:5:6:7:8]", "[A::b]", "[::ffff:1.2.3.4]", "[v1.a:b]", "[VF.x!]", "[vAb.::]", "é", "Éa", "a%C3%A9B", "A%e3%81%82", "%ff%41", "%2e", "a!$&'()*+,;=b", "%7E-_~.", "%c3%28", "xn--mxa"];
pub const PORTS: &[&str] = &["", ":", ":8", ":08", ":65536", ":123456789012345678901"];
pub const PATHS: &[&str] = &[
    "", "/", "//", "///", "/a", "/a/", "/a//", "/a//b", "a", "a/", "a/b", "a//b", "a:b", "./a:b", "a/b:c", "/:", "/a:b", ":", "@", "/@:",
    "/.", "/./", "/./a", "/./.", "/..", "/../", "/../a", "/../../a", "/a/.", "/a/./", "/a/./b", "/a/..", "/a/../", "/a/../b", "/a/b/..", "/a/b/../c",
    ".", "./", "./a", "./.", "./..", "..", "../", "../a", "../..", "../../", "../../a/b", "../.", "a/.", "a/./", "a/..", "a/../", "a/../b", "a/../..", "a/../../b", "a/b/../../..", "a/b/../../../c",
    "/a/b/../../../../c", "/.//", "/.//a", "/..//a", "/a/..//b", "/a/..//", "/a/../..//b", "a/..//b", "a/../..//b", ".//a", ".//", "..//a", "a//..", "/a//..", "/a//../b", "//..", "//../a", "///../..", "//.",
    "/%2e", "/%2E/", "/%2e%2E/a", "/a/.%2e", "/a/%2e./b", "%2e", "%2e/a", "%2E%2e/b", "/a/%2e", "/%2e//a", "/a/%2e%2e//b", "%2e%2e", "a/%2e%2e", "/a/%2f../b",
    "/...", "/a/.../..", "/.../../.", "/.a/..b/.", "/a./b../..", "...", "..a", "/a/..b", "/a%2f..",
    "/%41%7e%2f%c3%a9", "/é%C3%A9/Ü", "/%3a", "a%3Ab", "%3a", "é:x", "x/é:%c3", "/%e3%81%82%e3%81", "/a/b/c/d/e/f/g/h/../../../../i", "a/b/c/d/e/../../../../../../f", "/a/../b/../c/../d/..", "/1/2/3/./4/.././../5//6/..",
    "//a/../..", "//a//../../..", "/a/b/c/../../../..//d", "foo/bar/../../../baz:qux", "a/..//..//b",
];
pub const QUERIES: &[&str] = &["", "?", "?q", "?a=%3d&b", "?%41%7e%2F", "?\u{E000}é", "?%ee%80%80%c3%a9", "??/:@", "?/../a/.", "?%e3%81%4a"];
pub const FRAGMENTS: &[&str] = &["", "#", "#f", "#%7E%2f", "#é?/", "#%c3%a9", "#/../."];
pub const ODD: &[&str] = &[
    "%", "%4", "%41", "%4g", "%zz", "%2F", "%2f", "%2e", "%2E", "%61", "%5A", "%C3", "%A9", "%c3%a9", "%e3%81%82", "%e3%81", "%ED%A0%80", "%F0%9F%98%80", "%F4%90%80%80", "%c0%ae", "%EE%80%80", "%ef%b7%90", "%c2%80", "%C2%A0", "%00", "%7f", "%25",
    "%30", "%2D", "%5f", "%3a", "%40", "%3F", "%23", "%f3%a0%80%81", "%F3%A1%80%80", "%f0%9f%bf%be", "%80", "%FF",
    "a", "B", "z", "Z", "f", "F", "g", "G", "0", "9", "1", "v", "V", ".", "..", "...", "/", "//", "/./", "/../", ":", "::", "@", "?", "#", "[", "]", "-", "_", "~", "!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "=", " ", "\"", "<", ">", "\\", "^", "`", "{", "|", "}", "\0", "\n", "\x7f", "\u{80}", "\u{9f}", "\u{a0}", "é", "あ", "\u{d7ff}", "\u{e000}", "\u{f8ff}", "\u{f900}", "\u{fdcf}", "\u{fdd0}", "\u{fdef}", "\u{fdf0}", "\u{ffef}", "\u{fff0}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{1fffd}", "\u{1fffe}", "\u{20000}", "\u{2fffe}", "\u{dffff}", "\u{e0000}", "\u{e0fff}", "\u{e1000}", "\u{efffd}", "\u{efffe}", "\u{f0000}", "\u{ffffd}", "\u{ffffe}", "\u{100000}", "\u{10fffd}", "\u{10fffe}", "\u{10ffff}",
    "http:", "//h", "u:p@", "[::1]", ":80", "255", "256", "1.2.3.4",
];

type Emit<'a> = dyn FnMut(&str, &[&str]) -> bool + 'a;

/// All strings of at most `n` tokens of `alphabet`.
fn exhaustive(alphabet: &[&str], n: usize, f: &mut dyn FnMut(&str) -> bool) -> bool {
    fn go(al: &[&str], n: usize, s: &mut String, f: &mut dyn FnMut(&str) -> bool) -> bool {
        if !f(s) {
            return false;
        }
        if n == 0 {
            return true;
        }
        for a in al {
            let l = s.len();
            s.push_str(a);
            if !go(al, n - 1, s, f) {
                return false;
            }
            s.truncate(l);
        }
        true
    }
    go(alphabet, n, &mut String::new(), f)
}

fn compose(scheme: &str, auth: Option<(&str, &str, &str)>, path: &str, q: &str, fr: &str) -> String {
    match auth {
        Some((u, h, p)) => format!("{scheme}//{u}{h}{p}{path}{q}{fr}"),
        None => format!("{scheme}{path}{q}{fr}"),
    }
}

fn rand_path(r: &mut Rng) -> String {
    if r.below(3) == 0 {
        return r.pick(PATHS).to_string();
    }
    const SEG: &[&str] = &["", "", "a", "b", ".", ".", "..", "..", "..", "%2e", "%2E%2e", ".%2e", "...", "a:b", "%41%7e", "é", "%c3%a9", "%2f", "c;d=1", ".a", "..b", "%ff"];
    let n = if r.below(40) == 0 { 20 + r.below(60) } else { r.below(9) };
    let mut s = String::new();
    if r.below(2) == 0 {
        s.push('/');
    }
    for i in 0..n {
        if i > 0 {
            s.push('/');
        }
        if n >= 20 && r.below(2) == 0 {
            s += if r.below(3) == 0 { ".." } else { "x" };
        } else {
            s += r.pick(SEG);
        }
    }
    s
}
fn rand_text(r: &mut Rng, n: usize) -> String {
    let k = r.below(n + 1);
    (0..k).map(|_| r.pick(ODD)).collect()
}
/// Text that is likely to be made of well-formed triplets.
fn rand_pct(r: &mut Rng, n: usize) -> String {
    let k = r.below(n + 1);
    let mut s = String::new();
    for _ in 0..k {
        match r.below(8) {
            0..=1 => s += &format!("%{:02x}", r.below(256)),
            2 => s += &format!("%{:02X}", r.below(128)),
            3 => {
                // A random character, possibly with a byte missing.
                let c = char::from_u32(match r.below(4) { 0 => r.below(0x100), 1 => r.below(0x800), 2 => r.below(0x10000), _ => r.below(0x110000) } as u32).unwrap_or('x');
                let mut b = [0; 4];
                let e: Vec<u8> = c.encode_utf8(&mut b).bytes().collect();
                let drop = if r.below(4) == 0 { r.below(e.len()) + 1 } else { 9 };
                for (i, x) in e.iter().enumerate() {
                    if i + 1 != drop {
                        s += &if r.below(2) == 0 { format!("%{x:02x}") } else { format!("%{x:02X}") };
                    }
                }
            }
            4 => s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('é')),
            5 => s += r.pick(ODD),
            _ => s += r.pick(&["a", "Z", "0", "-", "~", "é", "あ", "%41", "%7e", "%C3%A9", "!", "="]),
        }
    }
    s
}
fn rand_host(r: &mut Rng) -> String {
    match r.below(12) {
        0 | 1 => {
            let mut s = String::new();
            for i in 0..[4, 4, 4, 3, 5][r.below(5)] {
                if i > 0 {
                    s.push('.');
                }
                s += &match r.below(9) { 0 => format!("{:02}", r.below(20)), 1 => format!("{:03}", r.below(300)), 2 | 3 => r.below(300).to_string(), _ => r.below(256).to_string() };
            }
            s
        }
        2 => {
            let mut s = String::from("[");
            for _ in 0..r.below(9) {
                s += r.pick(&["0", "1", "ab", "FFFF"]);
                s += r.pick(&[":", ":", ":", "::"]);
            }
            s += r.pick(&["::", "1", "1.2.3.4", "0.0.0.255", "a"]);
            s + "]"
        }
        3 => rand_pct(r, 4),
        _ => r.pick(HOSTS).to_string(),
    }
}
/// Every octet value at every place of a dotted quad.
fn quads(f: &mut dyn FnMut(&str) -> bool) -> bool {
    for o in (0..=260).map(|x| x.to_string()).chain(["00", "01", "001", "1a", "", "299", "999", "1000", "0255"].map(String::from)) {
        for h in [format!("{o}.1.22.133"), format!("9.{o}.0.255"), format!("10.99.{o}.1"), format!("192.0.2.{o}")] {
            if !f(&h) {
                return false;
            }
        }
    }
    true
}
fn rand_id(r: &mut Rng) -> String {
    let scheme = if r.below(4) > 0 { r.pick(SCHEMES) } else { "" };
    let (host, user);
    let auth = if r.below(2) == 0 {
        host = rand_host(r);
        user = if r.below(5) == 0 { format!("{}@", rand_pct(r, 4)) } else { r.pick(USERINFOS).to_string() };
        Some((&user[..], &host[..], r.pick(PORTS)))
    } else {
        None
    };
    let mut path = rand_path(r);
    if auth.is_some() && !path.is_empty() && !path.starts_with('/') {
        path.insert(0, '/');
    }
    let q = if r.below(2) == 0 { "".to_string() } else if r.below(3) == 0 { format!("?{}", rand_pct(r, 6)) } else { r.pick(QUERIES).to_string() };
    let f = if r.below(2) == 0 { "".to_string() } else if r.below(3) == 0 { format!("#{}", rand_pct(r, 6)) } else { r.pick(FRAGMENTS).to_string() };
    let mut s = compose(scheme, auth, &path, &q, &f);
    // A few random edits.
    if r.below(4) == 0 {
        for _ in 0..=r.below(2) {
            let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            let i = idx[r.below(idx.len())];
            if r.below(3) == 0 && i < s.len() {
                s.remove(i);
            } else {
                s.insert_str(i, r.pick(ODD));
            }
        }
    }
    s
}

/// Products of the component pools.
fn product(full: bool, f: &mut dyn FnMut(&str) -> bool) -> bool {
    for (si, s) in [""].iter().chain(SCHEMES).enumerate() {
        let mut auths: Vec<Option<(&str, &str, &str)>> = vec![None];
        for (i, u) in USERINFOS.iter().enumerate() {
            for (j, h) in HOSTS.iter().enumerate() {
                for (k, p) in PORTS.iter().enumerate() {
                    if full || (i + j + k + si) % 11 == 0 || (i < 1 && k < 2) {
                        auths.push(Some((u, h, p)));
                    }
                }
            }
        }
        for (ai, a) in auths.iter().enumerate() {
            for (pi, p) in PATHS.iter().enumerate() {
                if a.is_some() && !full && (ai + pi) % 7 != 0 {
                    continue;
                }
                for (qi, q) in QUERIES.iter().enumerate() {
                    for (fi, fr) in FRAGMENTS.iter().enumerate() {
                        if (if full { qi + fi + ai + pi } else { qi + 3 * fi + ai + pi }) % (if full { 3 } else { 13 }) != 0 && (qi > 0 || fi > 0) {
                            continue;
                        }
                        if !f(&compose(s, *a, p, q, fr)) {
                            return false;
                        }
                    }
                }
            }
        }
    }
    true
}

/// Lengths around the limits that small counters, buffers and tables have.
const LENS: &[usize] = &[5, 6, 7, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097];
const UNITS: &[&str] = &["a", "%41", "%c3%a9", "é", "%2e", ".", "/", "/a", "../", "/..", "x/../", "./", "%", "A", "%ff", "あ", "%e3%81%82", "%e3%81", ":", "%2F", "0", "%20", "-"];
/// Identifiers with one component repeated to a boundary length.
fn long_ids(full: bool, f: &mut dyn FnMut(&str) -> bool) -> bool {
    const TMPL: &[&str] = &[
        "a<>:b", "a://<>@h:1/p", "a://u:<>@h:1/p?q#f", "//<>", "//<>:80/p", "a://u@h:<>/p", "//h:<>?q", "a:<>", "<>", "/<>", "<>?q#f", "a:/<>?q", "a://h/<>/../c", "a://h/b/<>c#f", "a://h?<>", "?<>#f", "a:?q#<>", "#<>", "//[v1.<>]:8/p",
        "//[v<>.a]", "a:x?<>#<>", "//u:<>@", "a://<>:<>@<>:0/<>?<>#<>", "x:/a/<>", "x:b/<>/c",
    ];
    for &l in LENS.iter().chain(if full { &[65534usize, 65535, 65536, 65537][..] } else { &[65536usize][..] }) {
        for u in UNITS {
            if l > 5000 && *u != "a" && *u != "0" && *u != "%41" {
                continue;
            }
            for (i, t) in TMPL.iter().enumerate() {
                if !full && l > 300 && (i + l) % 3 != 0 || l > 5000 && t.matches("<>").count() > 1 {
                    continue;
                }
                let part: String = u.repeat((l + u.len() - 1) / u.len());
                if !f(&t.replace("<>", &part)) {
                    return false;
                }
                // exactly l bytes
                if part.len() != l && u.is_ascii() && !u.contains('%') && !f(&t.replace("<>", &part[..l])) {
                    return false;
                }
            }
        }
    }
    true
}
/// Repeated units, alone and between other text.
fn long_texts(full: bool, f: &mut dyn FnMut(&str) -> bool) -> bool {
    for &l in LENS {
        for u in UNITS {
            let part: String = u.repeat((l + u.len() - 1) / u.len());
            for s in [format!("{part}"), format!("x{part}%41é"), format!("%7e{part}z")] {
                if !f(&s) {
                    return false;
                }
            }
        }
    }
    !full || f(&"%41".repeat(30_000)) && f(&"é".repeat(40_000))
}

const ID_AL: &[&str] = &["a", ":", "/", "?", "#", "@", ".", "%2E", "%C3", "é", "1", "["];
const AUTH_AL: &[&str] = &["a", ":", "@", ".", "1", "[", "]", "v", "%41", "é"];
const V6_AL: &[&str] = &["0", "1:", ":", "::", "abcd", ".", "1.2.3.4", "g", "v1."];
const PATH_AL: &[&str] = &["/", ".", "a", "%2e", ":", ".."];
const PCT_AL: &[&str] = &["%", "2", "e", "4", "C3", "a9", "E", "%e3", "%81", "%82", "x", "é"];
const TMPL_AL: &[&str] = &["{", "}", "a", "%41", ".", ",", ":", "1", "*", "+", "?", "%", "{a", "_", "0"];

pub fn generate(id: &str, tier: &str, seed: u64, emit: &mut Emit<'_>) {
    let full = tier == "thorough";
    let depth = |q: usize, t: usize| if full { t } else { q };
    let n = |q: usize, t: usize| if full { t } else { q };
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ id.bytes().fold(7, |a, b| a * 31 + b as u64));
    macro_rules! go { ($e:expr) => { if !$e { return; } }; }
    macro_rules! one { ($s:expr) => { emit("", &[$s]) }; }
    macro_rules! ids {
        ($q:expr, $t:expr) => {{
            go!(product(full, &mut |s| one!(s)));
            go!(long_ids(full, &mut |s| one!(s)));
            go!(exhaustive(ID_AL, depth(4, 6), &mut |s| one!(s)));
            go!(exhaustive(ID_AL, depth(3, 5), &mut |s| one!(&format!("a://{s}"))));
            go!(exhaustive(AUTH_AL, depth(4, 6), &mut |s| one!(&format!("//{s}"))));
            go!(exhaustive(PATH_AL, depth(5, 8), &mut |s| one!(&format!("a:{s}"))));
            for _ in 0..n($q, $t) {
                go!(one!(&rand_id(&mut r)));
            }
        }};
    }
    match id {
        "C01" => {
            for c in 0..0x11_0000u32 {
                if let Some(c) = char::from_u32(c) {
                    let mut b = [0; 4];
                    go!(one!(c.encode_utf8(&mut b)));
                }
            }
            ids!(300_000, 8_000_000);
            go!(quads(&mut |h| one!(&format!("[::{h}]")) && one!(&format!("[0:1:2:3:4:5:{h}]")) && one!(&format!("//{h}"))));
            go!(exhaustive(V6_AL, depth(6, 7), &mut |s| one!(&format!("[{s}]"))));
            go!(exhaustive(PCT_AL, depth(4, 5), &mut |s| one!(s)));
            for _ in 0..n(200_000, 5_000_000) {
                go!(one!(&rand_text(&mut r, 10)));
                // Random groups of an IPv6 address.
                let mut s = String::from("[");
                for _ in 0..r.below(10) {
                    s += r.pick(&["0", "1", "ab", "FFFF", "12345", "g"]);
                    s += r.pick(&[":", ":", ":", ":", "::", "."]);
                }
                s += r.pick(&["", "1", "1.2.3.4", "1.2.3", "256.1.1.1", "0.0.0.255"]);
                s += r.pick(&["]", "]", "]", "", "]:80"]);
                go!(one!(&s));
                let l = s.len();
                s.truncate(l);
            }
        }
        "C02" | "C03" | "C05" | "C09" => {
            go!(quads(&mut |h| one!(&format!("//u@{h}:8/p")) && one!(&format!("a://{h}"))));
            ids!(500_000, 12_000_000)
        }
        "C04" => {
            const BASES: &[&str] = &[
                "a:", "a:b", "a:b/c", "a:b/c/", "a:/", "a:/b", "a:/b/c/d", "a:/b/c/d/", "a:/..", "a:/b/../c", "a://h", "a://h/", "a://h/b", "a://h/b/c/d;p?q", "a://h?q", "a:?q", "a:b?q",
                "a:/.//b", "a:..", "a:../b", "a:b/..", "a://u:p@h:8/b//c", "a://", "a:///", "a:///b", "a:/b//c", "a:.", "a:b//", "a:/%2e%2e/b/", "urn:x:y", "A://H/é/%c3",
            ];
            for b in ["a:b/c", "a://h", "a://h/b/c/d?q", "a:/x/y/z"] {
                go!(long_ids(false, &mut |s| s.len() > 2500 || emit("", &[b, s])));
            }
            go!(long_ids(false, &mut |s| s.len() > 2500 || s.contains('#') || emit("", &[s, "../x?y"]) && emit("", &[s, "g:h"])));
            for b in BASES {
                go!(product(false, &mut |s| !s.is_empty() && s.len() > 40 || emit("", &[b, s])));
                go!(exhaustive(PATH_AL, depth(4, 6), &mut |s| emit("", &[b, s])));
            }
            go!(exhaustive(&["/", ".", "a", ".."], depth(4, 6), &mut |b| {
                let b = format!("a:{b}");
                for r in PATHS {
                    if !emit("", &[&b, r]) { return false; }
                }
                true
            }));
            for _ in 0..n(500_000, 12_000_000) {
                let b = rand_id(&mut r);
                let b = &b[..b.find('#').unwrap_or(b.len())];
                go!(emit("", &[b, &rand_id(&mut r)]));
            }
        }
        "C06" => {
            for c in 0..0x11_0000u32 {
                if let Some(c) = char::from_u32(c) {
                    let mut b = [0; 4];
                    let e: String = c.encode_utf8(&mut b).bytes().map(|x| format!("%{x:02x}")).collect();
                    go!(one!(&e));
                }
            }
            go!(long_texts(full, &mut |s| one!(s)));
            go!(exhaustive(PCT_AL, depth(5, 6), &mut |s| one!(s)));
            let bytes = ["%00", "%41", "%7f", "%80", "%8f", "%90", "%9f", "%a0", "%bf", "%c0", "%c1", "%c2", "%df", "%e0", "%e1", "%ed", "%ee", "%ef", "%f0", "%f1", "%f3", "%f4", "%f5", "%ff", "a", "B"];
            go!(exhaustive(&bytes, depth(3, 5), &mut |s| one!(s)));
            for _ in 0..n(400_000, 10_000_000) {
                go!(one!(&rand_pct(&mut r, 10)));
            }
        }
        "C07" => {
            for c in 0..0x11_0000u32 {
                if let Some(c) = char::from_u32(c) {
                    let mut b = [0; 4];
                    go!(emit("", &[c.encode_utf8(&mut b), "0"]));
                }
            }
            go!(long_texts(full, &mut |s| emit("", &[s, "0"]) && emit("", &[s, "1"])));
            go!(exhaustive(&["%", "4", "a", "é", "あ", " ", "/", "\u{10ffff}"], depth(5, 6), &mut |s| emit("", &[s, "0"]) && emit("", &[s, "1"])));
            for _ in 0..n(200_000, 5_000_000) {
                let t = if r.below(2) == 0 { rand_text(&mut r, 10) } else { rand_pct(&mut r, 10) };
                go!(emit("", &[&t, r.pick(&["0", "1", "2", "3"])]));
            }
        }
        "C08" => {
            for a in 0..256u32 {
                for b in 0..256u32 {
                    let s: String = ['%', char::from_u32(a).unwrap(), char::from_u32(b).unwrap()].iter().collect();
                    go!(one!(&s));
                }
            }
            go!(long_texts(full, &mut |s| one!(&s.chars().filter(|c| (*c as u32) < 256).collect::<String>())));
            go!(exhaustive(&["%", "2", "5", "f", "G", "x", "\u{ff}", "%41"], depth(6, 7), &mut |s| one!(s)));
            for _ in 0..n(400_000, 10_000_000) {
                let k = r.below(24);
                let s: String = (0..k)
                    .map(|_| match r.below(4) {
                        0 => '%',
                        1 => b"0123456789abcdefABCDEFg/:@`G"[r.below(28)] as char,
                        2 => char::from_u32(r.below(256) as u32).unwrap(),
                        _ => '5',
                    })
                    .collect();
                go!(one!(&s));
            }
        }
        "C10" => {
            let mut k = 0;
            let alts = ["", "xxx", "{censored}", "@/", "p"];
            go!(product(full, &mut |s| { k += 1; !s.contains('@') && k % 5 != 0 || emit("", &[s, alts[k % 5]]) }));
            go!(long_ids(full, &mut |s| !s.contains('@') || emit("", &[s, "alt"])));
            go!(exhaustive(AUTH_AL, depth(5, 6), &mut |s| emit("", &[&format!("//{s}"), "alt"])));
            go!(exhaustive(ID_AL, depth(4, 5), &mut |s| emit("", &[s, "alt"])));
            go!(exhaustive(&["@", ":", "/", "a", "?", "#", "//"], depth(6, 7), &mut |s| emit("", &[s, "alt"]) && emit("", &[&format!("x:{s}"), "alt"])));
            for _ in 0..n(400_000, 8_000_000) {
                go!(emit("", &[&rand_id(&mut r), "alt"]));
            }
        }
        "C11" => {
            const O: &[&str] = &["-", "+"];
            let sch = ["-", "+", "+a", "+Http", "+1a", "+a:", "+é", "+x-.+"];
            let users = ["-", "d", "du", "du:p", "d:", "d%41:é", "du@", "d/", "pu", "pu:v", "p", "p%", "uu", "uu:v", "u", "ué", "u%7e", "u@"];
            let passes = ["-", "+", "+p", "+p:q", "+p@", "+%41", "+/", "+é"];
            let hosts = ["-", "+", "+h", "+EX.com", "+[::1]", "+[", "+a:b", "+h/x", "+é", "+%c3%a9A", "+%", "+1.2.3.4", "+[v1.a]", "+a@b"];
            let ports = ["-", "x", "i0", "i80", "i65535", "s", "s80", "s08", "sx", "s-1", "s8/"];
            let qs = ["-", "+", "+q", "+%41", "+#", "+é\u{e000}", "+<", "+?/"];
            let fs = ["-", "+", "+f", "+%7e", "+#", "+é", "+%"];
            let extra_paths = ["a b", "/a?b", "/a#b", "/%", "/a/%4", "//a/b", "/ ", "a/\u{e000}", "/<"];
            let _ = O;
            for s in ["-", "+a"] {
                for h in ["-", "+h"] {
                    for nm in ["", "n", "u"] {
                        for p in PATHS.iter().chain(&extra_paths) {
                            for q in ["-", "+q"] {
                                go!(emit("", &[s, "-", "-", h, "-", p, q, "-", nm]));
                            }
                        }
                        let mut ok = true;
                        exhaustive(PATH_AL, depth(4, 6), &mut |p| {
                            ok = emit("", &[s, "-", "-", h, "-", p, "-", "-", nm]);
                            ok
                        });
                        go!(ok);
                    }
                }
            }
            for _ in 0..n(500_000, 10_000_000) {
                let p = if r.below(3) == 0 { r.pick(&extra_paths).to_string() } else { rand_path(&mut r) };
                let bad = r.below(3) == 0;
                let u = if bad { r.pick(&users) } else { r.pick(&["-", "du", "du:p", "pu", "uu", "d", "d%41:é"]) };
                let h = if bad { r.pick(&hosts) } else { r.pick(&["-", "-", "+h", "+EX.com", "+[::1]", "+"]) };
                let po = if bad { r.pick(&ports) } else { r.pick(&["-", "-", "-", "i80", "s", "x", "s08"]) };
                let a = [if bad { r.pick(&sch) } else { r.pick(&["-", "+a", "+Http"]) }, u, r.pick(&passes), h, po, &p, if bad { r.pick(&qs) } else { r.pick(&["-", "-", "+q", "+%41"]) }, if bad { r.pick(&fs) } else { r.pick(&["-", "-", "+f"]) }, r.pick(&["", "n", "n", "u"])];
                go!(emit("", &a));
            }
        }
        "C12" => {
            go!(quads(&mut |h| emit("host", &[&format!("//u@{h}:8/p"), "x"]) && emit("host", &[&format!("a://{h}"), "longer.example.com"]) && emit("host", &["a://h/", h])));
            let frs = ["-", "+", "+f", "+é", "+%41?/", "+longer-fragment"];
            let hs = ["", "x", "longer.example.com", "[::1]", "1.2.3.4", "é", "%41", "a:b", "a@b", "[", "a/b", "[v1.x]", "%", "256.0.0.1", "a?b", "a#", "A B"];
            let mut k = 0usize;
            go!(long_ids(full, &mut |s| { k += 1; s.len() > 2500 || emit("frag", &[s, frs[k % frs.len()]]) && emit("host", &[s, hs[k % hs.len()]]) }));
            go!(product(full, &mut |s| {
                k += 1;
                emit("frag", &[s, frs[k % frs.len()]]) && emit("host", &[s, hs[k % hs.len()]])
            }));
            go!(exhaustive(AUTH_AL, depth(4, 5), &mut |s| { k += 1; emit("host", &[&format!("//{s}"), hs[k % hs.len()]]) && emit("host", &[&format!("a://{s}/p@q:r?s#t"), hs[k / 3 % hs.len()]]) }));
            go!(exhaustive(ID_AL, depth(4, 5), &mut |s| { k += 1; emit("frag", &[s, frs[k % frs.len()]]) && emit("host", &[s, hs[k % hs.len()]]) }));
            for _ in 0..n(400_000, 8_000_000) {
                let s = rand_id(&mut r);
                go!(emit("frag", &[&s, r.pick(&frs)]));
                let h = if r.below(4) == 0 { rand_text(&mut r, 3) } else { r.pick(&hs).to_string() };
                go!(emit("host", &[&s, &h]));
            }
        }
        "C13" => {
            go!(product(false, &mut |s| one!(s)));
            go!(long_ids(full, &mut |s| one!(s)));
            go!(exhaustive(ID_AL, depth(4, 5), &mut |s| one!(s)));
            let short = ["", "a", "a:", "A:", "a:b", "a:?", "a:#", "/", "/a", "/A", "?", "#", "?a", "é", "a:é", "//", "a://h", "a://H", "a:b#", "a:b#f", "%41", "%61"];
            for a in short {
                for b in short {
                    go!(emit("pair", &[a, b]));
                }
            }
            go!(exhaustive(&["a", "B", ":", "/", "é", "?"], 3, &mut |s| {
                let mut ok = true;
                for t in short { ok = ok && emit("pair", &[s, t]) && emit("pair", &[t, s]) && emit("pair", &[s, s]); }
                ok
            }));
            for _ in 0..n(200_000, 5_000_000) {
                let s = rand_id(&mut r);
                go!(one!(&s));
                let t = if r.below(3) == 0 { s.clone() } else { rand_id(&mut r) };
                go!(emit("pair", &[&s, &t]));
            }
        }
        "C14" => {
            for c in 0..256u32 {
                let c = char::from_u32(c).unwrap();
                for p in ["", "a", "{", "{a", "{+", "{a:", "%", "%4", "{%", "{%4", "{a:1", "{a.", "{a*", "{a,"] {
                    for s in ["", "}", "1}", "a}", "41}"] {
                        go!(one!(&format!("{p}{c}{s}")));
                    }
                }
            }
            go!(long_texts(full, &mut |s| one!(s) && one!(&format!("{{{s}}}")) && one!(&format!("{{+a{s}:3,b}}x{s}"))));
            go!(exhaustive(TMPL_AL, depth(5, 6), &mut |s| one!(s)));
            go!(exhaustive(TMPL_AL, depth(4, 6), &mut |s| one!(&format!("{{{s}}}"))));
            for _ in 0..n(400_000, 8_000_000) {
                go!(one!(&rand_template(&mut r, true)));
            }
        }
        "C15" => {
            let vals = ["u", "s", "sv", "sHello World!", "s50%", "s%41%e3%81%82x", "sé%c3%a9あ", "s%c3", "s%%41%4", "s/?#[]@!$", "s%C3%A9%", "s\u{e000}%", "s%e3%81é%82", "sab%", "l", "l|a", "l|a|b", "l|", "l|é|%41|", "a", "a|k|v", "a|k|", "a||", "a|k/%41|v%é|x|y"];
            for op in ["", "+", "#", ".", "/", ";", "?", "&"] {
                for m in ["", "*", ":1", ":2", ":3", ":5", ":9999"] {
                    for x in vals {
                        let ax = format!("a={x}");
                        go!(emit("", &[&format!("{{{op}a{m}}}"), &ax]));
                        for y in vals {
                            let by = format!("b.c={y}");
                            go!(emit("", &[&format!("p{{{op}a{m},b.c,z}}s"), &ax, &by]));
                        }
                    }
                }
            }
            go!(long_texts(full, &mut |s| s.len() > 2500 || s.contains('|') || ["{a}", "{+a}", "{a:255}", "{+a:256}", "{#a:1000}", "{?a*}x{a:9999}"].iter().all(|t| emit("", &[t, &format!("a=s{s}")]))));
            for s in [0usize, 1] {
                let al = ["%", "4", "1", "é", "%c3", "%a9", "x", "/"];
                let op = ["+", ""][s];
                go!(exhaustive(&al, depth(4, 5), &mut |t| {
                    let v = format!("a=s{t}");
                    emit("", &[&format!("{{{op}a}}{{#a:3}}"), &v])
                }));
            }
            for _ in 0..n(200_000, 5_000_000) {
                let t = rand_template(&mut r, false);
                let mut args = vec![t];
                for nme in ["a", "b.c", "%41", "a_1", "z"] {
                    if r.below(5) > 0 {
                        let x = if r.below(2) == 0 { r.pick(&vals).to_string() } else { format!("s{}", rand_pct(&mut r, 6).replace('|', "")) };
                        args.push(format!("{nme}={x}"));
                    }
                }
                let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                go!(emit("", &a));
            }
        }
        "C16" => {
            let texts = ["", "a", "ab", "é", "aé", "あい", "abcdefgh", "%41", "%c3%a9", "\u{10ffff}x", "%e3%81%82%41"];
            for t in texts {
                for c in ["0", "1", "2", "3"] {
                    for s in 0..40 {
                        go!(emit("", &[&s.to_string(), c, t]));
                    }
                }
            }
            go!(long_texts(full, &mut |t| [0usize, 1, 2, 5].iter().all(|d| emit("", &[&(t.len() + 1).saturating_sub(*d).to_string(), ["0", "1", "2", "5"][t.len() % 4], t]))));
            go!(exhaustive(&["a", "%", "4", "1", "é", "%c3", "%a9"], depth(4, 6), &mut |t| emit("", &["5", "1", t]) && emit("", &["3", "0", t])));
            for _ in 0..n(150_000, 4_000_000) {
                let t = if r.below(2) == 0 { rand_text(&mut r, 8) } else { rand_pct(&mut r, 8) };
                let sz = if r.below(2) == 0 { (t.len() + r.below(3)).saturating_sub(1) } else { r.below(40) };
                go!(emit("", &[&sz.to_string(), r.pick(&["0", "1", "2", "5"]), &t]));
            }
        }
        _ => panic!("no property {id}"),
    }
}

fn rand_template(r: &mut Rng, bad: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.below(5) {
        if r.below(3) == 0 {
            s += r.pick(&["a", "/x", "%41", "?", "#", "'", "p=", "~"]);
            continue;
        }
        s.push('{');
        s += r.pick(&["", "", "+", "#", ".", "/", ";", "?", "&"]);
        for i in 0..=r.below(3) {
            if i > 0 {
                s.push(',');
            }
            s += r.pick(&["a", "b.c", "%41", "a_1", "z"]);
            s += r.pick(&["", "", "*", ":1", ":3", ":10", ":9999"]);
        }
        s.push('}');
    }
    if bad && r.below(2) == 0 {
        let i = r.below(s.len() + 1);
        if s.is_char_boundary(i) {
            if r.below(2) == 0 && i < s.len() {
                s.remove(i);
            } else {
                s.insert_str(i, r.pick(&["{", "}", "%", ":", "*", ".", ",", "0", "=", "|", "!", "@", "é", "{}", " ", "\"", "\\", "^", "%4g", "00", "12345"]));
            }
        }
    }
    s
}
