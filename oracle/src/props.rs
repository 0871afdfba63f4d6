//! The properties, judged through the public API against `spec` and `tmpl`.
use crate::spec::{self, *};
use crate::tmpl::{self, Val};
use iri_string::build::{Builder, PortBuilder, UserinfoBuilder};
use iri_string::components::AuthorityComponents;
use iri_string::convert::MappedToUri;
use iri_string::format::{try_append_to_string, write_to_slice, ToDedicatedString, ToStringFallible};
use iri_string::percent_encode::decode::{decode_whatwg_bytes, DecodedFragment};
use iri_string::percent_encode::PercentEncoded;
use iri_string::resolve::FixedBaseResolver;
use iri_string::spec::{IriSpec, Spec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, DynamicContext, ListVisitor, Visitor};
use iri_string::template::{UriTemplateStr, VarName};
use iri_string::types::*;
use iri_string::validate as v;
use std::fmt::{self, Write as _};
use std::hash::{Hash, Hasher};

pub type R = Result<bool, String>;

macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}
macro_rules! eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
        }
    }};
}

/// A value that writes itself in pieces of `n` characters (0: all at once).
pub struct Chunked<'a>(pub &'a str, pub usize);
impl fmt::Display for Chunked<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.1 == 0 {
            return f.write_str(self.0);
        }
        let mut r = self.0;
        while !r.is_empty() {
            let e = r.char_indices().nth(self.1).map_or(r.len(), |x| x.0);
            f.write_str(&r[..e])?;
            // Empty pieces must not matter either.
            f.write_str("")?;
            r = &r[e..];
        }
        Ok(())
    }
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Runs `f` for both flavours.
fn flavours(f: [&dyn Fn() -> R; 2]) -> R {
    let a = f[0]().map_err(|e| format!("[IRI] {e}"))?;
    let b = f[1]().map_err(|e| format!("[URI] {e}"))?;
    Ok(a || b)
}
trait Fl: Spec {
    const IRI: bool;
}
impl Fl for IriSpec {
    const IRI: bool = true;
}
impl Fl for UriSpec {
    const IRI: bool = false;
}
macro_rules! both {
    ($f:ident($($a:expr),*)) => { flavours([&|| $f::<IriSpec>($($a),*), &|| $f::<UriSpec>($($a),*)]) };
}

/// Does `$body` with `$t` and `$o` being the borrowed and owned types of a kind.
macro_rules! for_kinds {
    ($s:expr, $iri:expr, |$k:ident, $t:ident, $o:ident| $body:block) => {{
        let mut any = false;
        { let $k = Kind::Reference; type $t<S> = RiReferenceStr<S>; type $o<S> = RiReferenceString<S>; if spec::valid($iri, $k, $s) { any = true; $body } }
        { let $k = Kind::Normal; type $t<S> = RiStr<S>; type $o<S> = RiString<S>; if spec::valid($iri, $k, $s) { any = true; $body } }
        { let $k = Kind::Absolute; type $t<S> = RiAbsoluteStr<S>; type $o<S> = RiAbsoluteString<S>; if spec::valid($iri, $k, $s) { any = true; $body } }
        { let $k = Kind::Relative; type $t<S> = RiRelativeStr<S>; type $o<S> = RiRelativeString<S>; if spec::valid($iri, $k, $s) { any = true; $body } }
        any
    }};
}
macro_rules! mk {
    ($t:ty, $s:expr) => {
        <$t>::new($s).map_err(|_| format!("{:?} is valid but was rejected by {}", $s, stringify!($t)))?
    };
}

pub fn check(id: &str, sub: &str, a: &[&str]) -> R {
    match id {
        "C01" => both!(c01(a[0])),
        "C02" => both!(c02(a[0])),
        "C03" => both!(c03(a[0])),
        "C04" => both!(c04(a[0], a[1])),
        "C05" => both!(c05(a[0])),
        "C06" => both!(c06(a[0])),
        "C07" => both!(c07(a[0], a[1].parse().unwrap_or(0))),
        "C08" => c08(a[0]),
        "C09" => c09(a[0]),
        "C10" => both!(c10(a[0], a[1])),
        "C11" => both!(c11(a)),
        "C12" => both!(c12(sub, a[0], a[1])),
        "C13" => match sub {
            "pair" => both!(c13_pair(a[0], a[1])),
            _ => c13(a[0]),
        },
        "C14" => c14(a[0]),
        "C15" => both!(c15(a)),
        "C16" => c16(a),
        _ => Err(format!("no property {id}")),
    }
}

fn c01<S: Fl>(s: &str) -> R {
    let iri = S::IRI;
    let mut any = false;
    macro_rules! ty {
        ($b:ident, $o:ident, $want:expr, $f:ident) => {{
            let want: bool = $want;
            any |= want;
            let b = $b::<S>::new(s);
            eq!(b.is_ok(), want, "{}::new({s:?})", stringify!($b));
            if let Ok(b) = b {
                eq!(b.as_str(), s, "text of {}", stringify!($b));
            }
            eq!(<&$b<S>>::try_from(s).is_ok(), want, "{}::try_from(&str {s:?})", stringify!($b));
            eq!(<&$b<S>>::try_from(s.as_bytes()).is_ok(), want, "{}::try_from(&[u8] {s:?})", stringify!($b));
            eq!($o::<S>::try_from(s).is_ok(), want, "{}::try_from(&str {s:?})", stringify!($o));
            match $o::<S>::try_from(s.to_string()) {
                Ok(o) => { ensure!(want, "{}::try_from(String {s:?}) accepted", stringify!($o)); eq!(o.as_str(), s, "text of {}", stringify!($o)); }
                Err(e) => { ensure!(!want, "{}::try_from(String {s:?}) rejected", stringify!($o)); eq!(e.into_source(), s, "returned source"); }
            }
            eq!(s.parse::<$o<S>>().is_ok(), want, "{}::from_str({s:?})", stringify!($o));
            eq!(v::$f::<S>(s).is_ok(), want, "validate::{}({s:?})", stringify!($f));
        }};
    }
    ty!(RiReferenceStr, RiReferenceString, spec::valid(iri, Kind::Reference, s), iri_reference);
    ty!(RiStr, RiString, spec::valid(iri, Kind::Normal, s), iri);
    ty!(RiAbsoluteStr, RiAbsoluteString, spec::valid(iri, Kind::Absolute, s), absolute_iri);
    ty!(RiRelativeStr, RiRelativeString, spec::valid(iri, Kind::Relative, s), relative_ref);
    ty!(RiQueryStr, RiQueryString, valid_query(iri, s), query);
    ty!(RiFragmentStr, RiFragmentString, valid_fragment(iri, s), fragment);
    eq!(RiQueryStr::<S>::from_prefixed(s).ok().map(|x| x.as_str()),
        s.strip_prefix('?').filter(|x| valid_query(iri, x)), "QueryStr::from_prefixed({s:?})");
    eq!(RiFragmentStr::<S>::from_prefixed(s).ok().map(|x| x.as_str()),
        s.strip_prefix('#').filter(|x| valid_fragment(iri, x)), "FragmentStr::from_prefixed({s:?})");
    macro_rules! f {
        ($n:literal, $got:expr, $want:expr) => {{
            let w: bool = $want;
            any |= w;
            eq!($got.is_ok(), w, "validate::{}({s:?})", $n);
        }};
    }
    f!("scheme", v::scheme(s), valid_scheme(s));
    f!("authority", v::authority::<S>(s), valid_authority(iri, s));
    f!("host", v::host::<S>(s), valid_host(iri, s));
    f!("reg_name", v::reg_name::<S>(s), valid_reg_name(iri, s) && !host_is_ipv4(s));
    f!("port", v::port(s), valid_port(s));
    f!("userinfo", v::userinfo::<S>(s), valid_userinfo(iri, s));
    f!("path", v::path::<S>(s), valid_path(iri, s));
    f!("path_segment", v::path_segment::<S>(s), valid_segment(iri, s));
    Ok(any)
}

fn c02<S: Fl>(s: &str) -> R {
    let p = split(s);
    if !spec::valid(S::IRI, Kind::Reference, s) {
        return Ok(false);
    }
    eq!(join(&p), s, "oracle split of {s:?}");
    macro_rules! common {
        ($x:expr, $n:literal) => {
            eq!($x.authority_str(), p.authority, "{} authority_str of {s:?}", $n);
            eq!($x.path_str(), p.path, "{} path_str of {s:?}", $n);
            eq!($x.query_str(), p.query, "{} query_str of {s:?}", $n);
            eq!($x.query().map(|x| x.as_str()), p.query, "{} query of {s:?}", $n);
        };
    }
    macro_rules! frag {
        ($x:expr, $n:literal) => {
            eq!($x.fragment_str(), p.fragment, "{} fragment_str of {s:?}", $n);
            eq!($x.fragment().map(|x| x.as_str()), p.fragment, "{} fragment of {s:?}", $n);
        };
    }
    let r = mk!(RiReferenceStr<S>, s);
    common!(r, "reference");
    frag!(r, "reference");
    eq!(r.scheme_str(), p.scheme, "reference scheme_str of {s:?}");
    if let Some(sch) = p.scheme {
        let x = mk!(RiStr<S>, s);
        common!(x, "full");
        frag!(x, "full");
        eq!(x.scheme_str(), sch, "scheme_str of {s:?}");
        let abs = &s[..s.find('#').unwrap_or(s.len())];
        let (ab, f) = x.to_absolute_and_fragment();
        eq!((ab.as_str(), f.map(|f| f.as_str())), (abs, p.fragment), "to_absolute_and_fragment of {s:?}");
        eq!(x.to_absolute().as_str(), abs, "to_absolute of {s:?}");
        let o: RiString<S> = x.to_owned();
        let (ab, f) = o.clone().into_absolute_and_fragment();
        eq!((ab.as_str(), f.as_ref().map(|f| f.as_str())), (abs, p.fragment), "into_absolute_and_fragment of {s:?}");
        eq!(o.into_absolute().as_str(), abs, "into_absolute of {s:?}");
        if p.fragment.is_none() {
            let x = mk!(RiAbsoluteStr<S>, s);
            common!(x, "absolute");
            eq!(x.scheme_str(), sch, "absolute scheme_str of {s:?}");
            let b = FixedBaseResolver::new(x);
            common!(b, "base");
            eq!(b.scheme_str(), sch, "base scheme_str of {s:?}");
        }
    } else {
        let x = mk!(RiRelativeStr<S>, s);
        common!(x, "relative");
        frag!(x, "relative");
    }
    Ok(true)
}

fn c03<S: Fl>(s: &str) -> R {
    let want = split(s).authority.map(|a| (a, split_authority(a)));
    let any = for_kinds!(s, S::IRI, |k, T, O| {
        let x = mk!(T<S>, s);
        let _o: Option<O<S>> = None;
        let got = x.authority_components();
        match (&got, &want) {
            (None, None) => {}
            (Some(g), Some((a, Some(w)))) => {
                eq!((g.userinfo(), g.host(), g.port()), *w, "authority components of {s:?} as {k:?}");
                let j = format!("{}{}{}", g.userinfo().map_or(String::new(), |u| format!("{u}@")), g.host(),
                    g.port().map_or(String::new(), |u| format!(":{u}")));
                eq!(j, *a, "rejoined authority of {s:?}");
                let h = w.1;
                eq!(g.reg_name(), if h.starts_with('[') || host_is_ipv4(h) { None } else { Some(h) }, "reg_name of {s:?}");
            }
            _ => return Err(format!("authority_components of {s:?} as {k:?}: {got:?} vs {want:?}")),
        }
        let f = AuthorityComponents::from_iri(AsRef::<RiReferenceStr<S>>::as_ref(x));
        eq!(f, got, "AuthorityComponents::from_iri of {s:?}");
    });
    Ok(any && want.is_some())
}

fn c04<S: Fl>(b: &str, r: &str) -> R {
    if !spec::valid(S::IRI, Kind::Absolute, b) || !spec::valid(S::IRI, Kind::Reference, r) {
        return Ok(false);
    }
    let base = mk!(RiAbsoluteStr<S>, b);
    let rf = mk!(RiReferenceStr<S>, r);
    let (want, repr) = spec::resolve(b, r);
    let n = rf.resolve_against(base);
    eq!(n.to_string(), want, "resolve {r:?} against {b:?}");
    ensure!(spec::valid(S::IRI, Kind::Normal, &want), "oracle: {want:?} is not valid");
    eq!(n.to_dedicated_string().as_str(), want, "to_dedicated_string: {r:?} against {b:?}");
    eq!(RiString::<S>::from(rf.resolve_against(base)).as_str(), want, "From<Normalized>: {r:?} against {b:?}");
    eq!(n.try_to_string().unwrap(), want, "try_to_string");
    let f = FixedBaseResolver::new(base);
    eq!(f.resolve(rf).to_string(), want, "FixedBaseResolver: {r:?} against {b:?}");
    eq!(f.resolve(rf).ensure_rfc3986_normalizable().is_ok(), repr, "ensure_rfc3986_normalizable: {r:?} against {b:?}");
    eq!(n.ensure_rfc3986_normalizable().is_ok(), repr, "ensure_rfc3986_normalizable: {r:?} against {b:?}");
    eq!(f.base().as_str(), b, "base");
    if split(r).scheme.is_none() {
        let rel = mk!(RiRelativeStr<S>, r);
        eq!(rel.resolve_against(base).to_string(), want, "relative resolve {r:?} against {b:?}");
    }
    // Resolution followed by normalization.
    let (wn, _) = spec::normalize(S::IRI, &want, PathMode::Default);
    // `and_normalize` works on the same unresolved parts.
    let an = rf.resolve_against(base).and_normalize().to_string();
    ensure!(spec::valid(S::IRI, Kind::Normal, &an), "and_normalize gives an invalid {an:?}: {r:?} against {b:?}");
    let (again, _) = spec::normalize(S::IRI, &an, PathMode::Default);
    eq!(again, an, "and_normalize is not a fixed point: {r:?} against {b:?}");
    eq!(an, wn, "and_normalize: {r:?} against {b:?}");
    Ok(true)
}

fn c05<S: Fl>(s: &str) -> R {
    let iri = S::IRI;
    if !spec::valid(iri, Kind::Normal, s) {
        return Ok(false);
    }
    macro_rules! go {
        ($t:ty, $o:ty, $k:expr) => {{
            let x = mk!($t, s);
            let (want, repr) = spec::normalize(iri, s, PathMode::Default);
            let got = x.normalize();
            eq!(got.to_string(), want, "normalize {s:?}");
            eq!(got.to_dedicated_string().as_str(), want, "normalize {s:?}");
            ensure!(spec::valid(iri, $k, &want), "oracle: {want:?} not valid");
            eq!(x.ensure_rfc3986_normalizable().is_ok(), repr, "ensure_rfc3986_normalizable {s:?}");
            eq!(got.ensure_rfc3986_normalizable().is_ok(), repr, "Normalized::ensure_rfc3986_normalizable {s:?}");
            eq!(x.is_normalized(), want == s, "is_normalized {s:?} (normalized: {want:?})");
            eq!(x.is_normalized_rfc3986(), want == s && repr, "is_normalized_rfc3986 {s:?}");
            let (wp, _) = spec::normalize(iri, s, PathMode::Preserve);
            let gp = x.normalize_but_preserve_authorityless_relative_path();
            eq!(gp.to_string(), wp, "normalize_but_preserve {s:?}");
            eq!(x.is_normalized_but_authorityless_relative_path_preserved(), wp == s, "is_normalized_but_preserved {s:?} (normalized: {wp:?})");
            let w = mk!($t, &want);
            eq!(w.normalize().to_string(), want, "normalizing the normalized form of {s:?}");
            ensure!(w.is_normalized(), "the normalized form {want:?} of {s:?} is not is_normalized");
            let w = mk!($t, &wp);
            eq!(w.normalize_but_preserve_authorityless_relative_path().to_string(), wp, "preserving normalization of the preserved form of {s:?}");
            let mut y = x.normalize();
            y.enable_normalization_preserving_authorityless_relative_path();
            eq!(y.to_string(), wp, "switched mode of {s:?}");
            y.enable_normalization();
            eq!(y.to_string(), want, "switched mode of {s:?}");
        }};
    }
    go!(RiStr<S>, RiString<S>, Kind::Normal);
    if spec::valid(iri, Kind::Absolute, s) {
        go!(RiAbsoluteStr<S>, RiAbsoluteString<S>, Kind::Absolute);
    }
    Ok(true)
}

fn c06<S: Fl>(t: &str) -> R {
    let iri = S::IRI;
    let mut any = false;
    let want = pct_norm(iri, t, false);
    let dec = |s: &str| whatwg_decode(s.as_bytes());
    let norm = |s: &str| -> Result<String, String> { Ok(mk!(RiStr<S>, s).normalize().to_string()) };
    macro_rules! at {
        ($ok:expr, $pre:expr, $post:expr, $want:expr) => {
            if $ok {
                any = true;
                let s = format!("{}{t}{}", $pre, $post);
                if spec::valid(iri, Kind::Normal, &s) {
                    let got = norm(&s)?;
                    eq!(got, format!("{}{}{}", $pre, $want, $post), "normalize {s:?}");
                    ensure!(dec(&got) == dec(&s) || $pre == "x://", "decoded bytes differ for {s:?} -> {got:?}");
                    eq!(mk!(RiStr<S>, &s).is_normalized(), got == s, "is_normalized {s:?}");
                }
            }
        };
    }
    at!(valid_query(iri, t), "x:?", "", want);
    at!(valid_fragment(iri, t), "x:#", "", want);
    at!(valid_userinfo(iri, t), "x://", "@h/", want);
    let dotty = t.to_ascii_lowercase().replace("%2e", ".");
    at!(valid_segment(iri, t) && !t.contains('/') && dotty != "." && dotty != "..", "x:/", "", want);
    if valid_reg_name(iri, t) {
        any = true;
        let s = format!("x://{t}");
        let w = norm_host(iri, t);
        let got = norm(&s)?;
        eq!(got, format!("x://{w}"), "normalize {s:?}");
        ensure!(dec(&got).to_ascii_lowercase() == dec(&s).to_ascii_lowercase(), "decoded bytes differ for {s:?} -> {got:?}");
        if !ascii_only_host(t) {
            ensure!(dec(&got) == dec(&s), "decoded bytes differ for {s:?} -> {got:?}");
        }
        eq!(mk!(RiStr<S>, &s).is_normalized(), got == s, "is_normalized {s:?}");
    }
    Ok(any)
}

fn c07<S: Fl>(raw: &str, chunk: usize) -> R {
    let iri = S::IRI;
    let un = |c| unreserved(iri, c);
    let reg = |c| un(c) || subdelim(c);
    let seg = |c| pchar(iri, c);
    let path = |c| pchar(iri, c) || c == '/';
    let query = |c| path(c) || c == '?' || (iri && iprivate(c));
    let frag = |c| path(c) || c == '?';
    let chars = |c| un(c) || subdelim(c) || gendelim(c) || (iri && iprivate(c));
    type Ok<'a> = &'a dyn Fn(char) -> bool;
    let w = Chunked(raw, chunk);
    let list: [(&str, String, Ok); 9] = [
        ("from_reg_name", PercentEncoded::<_, S>::from_reg_name(&w).to_string(), &reg),
        ("from_user", PercentEncoded::<_, S>::from_user(&w).to_string(), &reg),
        ("from_password", PercentEncoded::<_, S>::from_password(&w).to_string(), &reg),
        ("from_path_segment", PercentEncoded::<_, S>::from_path_segment(&w).to_string(), &seg),
        ("from_path", PercentEncoded::<_, S>::from_path(&w).to_string(), &path),
        ("from_query", PercentEncoded::<_, S>::from_query(&w).to_string(), &query),
        ("from_fragment", PercentEncoded::<_, S>::from_fragment(&w).to_string(), &frag),
        ("unreserve", PercentEncoded::<_, S>::unreserve(&w).to_string(), &un),
        ("characters", PercentEncoded::<_, S>::characters(&w).to_string(), &chars),
    ];
    for (n, got, ok) in &list {
        eq!(*got, pct_encode(raw, ok), "{n}({raw:?})");
        ensure!(whatwg_decode(got.as_bytes()) == raw.as_bytes(), "{n}({raw:?}) does not decode back");
    }
    ensure!(v::query::<S>(&list[5].1).is_ok() && v::fragment::<S>(&list[6].1).is_ok() && v::path::<S>(&list[4].1).is_ok()
        && v::path_segment::<S>(&list[3].1).is_ok() && v::userinfo::<S>(&list[2].1).is_ok() && v::userinfo::<S>(&list[1].1).is_ok(),
        "output for {raw:?} is not valid in its context");
    Ok(!raw.is_empty())
}

/// `s`: bytes as Latin-1.
fn c08(s: &str) -> R {
    let b: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
    let b = &b[..];
    let want = whatwg_decode(b);
    let d = decode_whatwg_bytes(b);
    let nothing = (0..b.len()).all(|i| triplet(&b[i..]).is_none());
    eq!(d.to_bytes(), if nothing { Some(b) } else { None }, "to_bytes of {b:?}");
    let cow = d.into_bytes();
    eq!(&*cow, &want[..], "into_bytes of {b:?}");
    eq!(d.into_string().ok(), String::from_utf8(want.clone()).ok(), "into_string of {b:?}");
    eq!(d.not_yet_decoded(), b, "not_yet_decoded");
    let mut it = d.bytes_fragments();
    let mut got = Vec::new();
    let mut pos = 0;
    loop {
        eq!(it.not_yet_decoded(), &b[pos..], "iterator rest of {b:?}");
        match it.next() {
            None => break,
            Some(DecodedFragment::Direct(x)) => {
                ensure!(!x.is_empty() && !x.contains(&b'%'), "fragment {x:?} of {b:?}");
                got.extend_from_slice(x);
                pos += x.len();
            }
            Some(DecodedFragment::DecodedByte(x)) => {
                got.push(x);
                pos += 3;
            }
            Some(DecodedFragment::StrayPercent) => {
                got.push(b'%');
                pos += 1;
            }
        }
    }
    eq!(pos, b.len(), "iterator end of {b:?}");
    eq!(got, want, "bytes_fragments of {b:?}");
    Ok(b.contains(&b'%'))
}

fn c09(s: &str) -> R {
    let want = pct_encode(s, |c| c.is_ascii());
    let mut any = false;
    macro_rules! go {
        ($ok:expr, $uok:expr, $ib:ty, $io:ty, $ub:ty, $uo:ty) => {
            if $ok {
                any = true;
                let x = mk!($ib, s);
                let n = stringify!($ib);
                eq!(x.encode_to_uri().to_string(), want, "{n}::encode_to_uri {s:?}");
                eq!(x.encode_to_uri().to_dedicated_string().as_str(), want, "{n}::encode_to_uri().to_dedicated_string {s:?}");
                eq!(MappedToUri::from(x).to_string(), want, "MappedToUri {s:?}");
                ensure!($uok, "oracle: {want:?} is not valid");
                let mut o: $io = x.to_owned();
                o.encode_to_uri_inline();
                eq!(o.as_str(), want, "{n} encode_to_uri_inline {s:?}");
                let mut o: $io = x.to_owned();
                ensure!(o.try_encode_to_uri_inline().is_ok(), "try_encode_to_uri_inline");
                eq!(o.as_str(), want, "{n} try_encode_to_uri_inline {s:?}");
                let o: $io = x.to_owned();
                eq!(o.clone().encode_into_uri().as_str(), want, "{n} encode_into_uri {s:?}");
                eq!(o.clone().try_encode_into_uri().unwrap().as_str(), want, "{n} try_encode_into_uri {s:?}");
                eq!(x.as_uri().map(|u: &$ub| u.as_str()), if s.is_ascii() { Some(s) } else { None }, "{n}::as_uri {s:?}");
                match o.try_into_uri() {
                    Ok(u) => { let u: $uo = u; ensure!(s.is_ascii(), "try_into_uri accepted {s:?}"); eq!(u.as_str(), s, "try_into_uri"); }
                    Err(o) => { ensure!(!s.is_ascii(), "try_into_uri rejected {s:?}"); eq!(o.as_str(), s, "try_into_uri source"); }
                }
                if s.is_ascii() {
                    let u = mk!($ub, s);
                    let i: &$ib = u.as_ref();
                    eq!(i.as_str(), s, "URI as IRI");
                    let oi: $io = <$uo>::from(u.to_owned()).into();
                    eq!(oi.as_str(), s, "owned URI as IRI");
                }
                mk!($ub, &want);
            }
        };
    }
    let k = |i: bool, k, s: &str| spec::valid(i, k, s);
    go!(k(true, Kind::Reference, s), k(false, Kind::Reference, &want), IriReferenceStr, IriReferenceString, UriReferenceStr, UriReferenceString);
    go!(k(true, Kind::Normal, s), k(false, Kind::Normal, &want), IriStr, IriString, UriStr, UriString);
    go!(k(true, Kind::Absolute, s), k(false, Kind::Absolute, &want), IriAbsoluteStr, IriAbsoluteString, UriAbsoluteStr, UriAbsoluteString);
    go!(k(true, Kind::Relative, s), k(false, Kind::Relative, &want), IriRelativeStr, IriRelativeString, UriRelativeStr, UriRelativeString);
    go!(valid_query(true, s), valid_query(false, &want), IriQueryStr, IriQueryString, UriQueryStr, UriQueryString);
    go!(valid_fragment(true, s), valid_fragment(false, &want), IriFragmentStr, IriFragmentString, UriFragmentStr, UriFragmentString);
    Ok(any)
}

fn c10<S: Fl>(s: &str, alt: &str) -> R {
    let iri = S::IRI;
    let range = password_range(s);
    let cut = |a: usize, b: usize, x: &str| format!("{}{x}{}", &s[..a], &s[b..]);
    let any = for_kinds!(s, iri, |k, T, O| {
        let x = mk!(T<S>, s);
        let masked = range.map_or(s.to_string(), |(a, b)| cut(a, b, ""));
        let removed = range.map_or(s.to_string(), |(a, b)| cut(a - 1, b, ""));
        let m = x.mask_password();
        eq!(m.to_string(), masked, "mask_password of {s:?} as {k:?}");
        eq!(m.to_dedicated_string().as_str(), masked, "mask_password().to_dedicated_string of {s:?}");
        eq!(format!("{m:?}"), format!("<{masked}>"), "Debug of mask_password of {s:?}");
        ensure!(spec::valid(iri, k, &masked) && spec::valid(iri, k, &removed), "oracle: {masked:?} or {removed:?} not valid");
        let rep = range.map_or(s.to_string(), |(a, b)| cut(a, b, alt));
        eq!(m.replace_password(alt).to_string(), rep, "replace_password of {s:?}");
        eq!(m.replace_password(Chunked(alt, 1)).to_string(), rep, "replace_password of {s:?}");
        let mut seen = None;
        let r = m.replace_password_with(|p| { seen = Some(p.to_string()); alt.to_string() }).to_string();
        eq!(r, rep, "replace_password_with of {s:?}");
        eq!(seen.as_deref(), range.map(|(a, b)| &s[a..b]), "password given to the replacer for {s:?}");
        eq!(format!("{:?}", m.replace_password(alt)), format!("<{rep}>"), "Debug of replace_password of {s:?}");
        let mut o: O<S> = x.to_owned();
        o.remove_password_inline();
        eq!(o.as_str(), removed, "remove_password_inline of {s:?} as {k:?}");
        let mut o: O<S> = x.to_owned();
        o.remove_nonempty_password_inline();
        eq!(o.as_str(), masked, "remove_nonempty_password_inline of {s:?} as {k:?}");
    });
    // A builder's debug output censors non-empty passwords.
    if let (Some((a, b)), true) = (range, any) {
        let pw = &s[a..b];
        if pw.len() >= 4 && s.matches(pw).count() == 1 {
            let x = mk!(RiReferenceStr<S>, s);
            let d = format!("{:?}", Builder::from(x));
            ensure!(!d.contains(pw), "Debug of the builder of {s:?} shows the password: {d}");
        }
    }
    Ok(any && range.is_some())
}

fn opt(s: &str) -> Option<&str> {
    s.strip_prefix('+')
}
/// scheme, userinfo mode+user, password, host, port, path, query, fragment, normalize
fn c11<S: Fl>(a: &[&str]) -> R {
    let iri = S::IRI;
    let (scheme, user, pass, host, port, path, query, frag, norm) =
        (opt(a[0]), a[1], opt(a[2]), opt(a[3]), a[4], a[5], opt(a[6]), opt(a[7]), a[8] == "n");
    let mut b = Builder::new();
    if a[8] == "u" {
        b.normalize();
        b.unset_normalize();
    }
    if norm {
        b.normalize();
    }
    if let Some(x) = scheme {
        b.scheme(x);
    }
    // User information: "-" none, "d..." direct, "p..." user with `pass`, "u..." pair with an optional password.
    let mut ui: Option<String> = None;
    let mut ui_ok = true;
    let mut has_auth = false;
    if let Some(d) = user.strip_prefix('d') {
        b.userinfo(d);
        // the debug form tells apart user and password like the pair does
        let pair = match d.split_once(':') {
            Some((u, p)) => (u, Some(p)),
            None => (d, None),
        };
        let (x, y) = (format!("{:?}", UserinfoBuilder::from(d)), format!("{:?}", UserinfoBuilder::from(pair)));
        if x != y {
            return Err(format!("debug form of userinfo {d:?}: {x}, of the pair: {y}"));
        }
        ui = Some(d.to_string());
        has_auth = true;
    } else if let Some(u) = user.strip_prefix('p') {
        let p = pass.unwrap_or("");
        b.userinfo((u, p));
        ui = Some(format!("{u}:{p}"));
        ui_ok = !u.contains(':');
        has_auth = true;
    } else if let Some(u) = user.strip_prefix('u') {
        b.userinfo(UserinfoBuilder::from((u, pass)));
        ui = Some(pass.map_or(u.to_string(), |p| format!("{u}:{p}")));
        ui_ok = !u.contains(':');
        has_auth = true;
    }
    if let Some(h) = host {
        b.host(h);
        has_auth = true;
    }
    let mut pt: Option<String> = None;
    if let Some(n) = port.strip_prefix('i') {
        let n: u16 = n.parse().unwrap_or(0);
        b.port(n);
        pt = Some(n.to_string());
        has_auth = true;
    } else if let Some(n) = port.strip_prefix('s') {
        b.port(n);
        pt = Some(n.to_string());
        has_auth = true;
    } else if port == "x" {
        b.port(PortBuilder::default());
        has_auth = true;
    }
    b.path(path);
    if let Some(q) = query {
        b.query(q);
    }
    if let Some(f) = frag {
        b.fragment(f);
    }
    let h = host.unwrap_or("");
    let auth = has_auth.then(|| {
        format!("{}{h}{}", ui.as_ref().map_or(String::new(), |u| format!("{u}@")), pt.as_ref().map_or(String::new(), |p| format!(":{p}")))
    });
    let parts = Parts { scheme, authority: auth.as_deref(), path, query, fragment: frag };
    let plain = join(&parts);
    let comp_ok = ui_ok
        && ui.as_deref().map_or(true, |u| valid_userinfo(iri, u))
        && valid_host(iri, h)
        && pt.as_deref().map_or(true, valid_port)
        && scheme.map_or(true, valid_scheme)
        && valid_path(iri, path)
        && query.map_or(true, |q| valid_query(iri, q))
        && frag.map_or(true, |q| valid_fragment(iri, q));
    // What is to be displayed, `None` if the components cannot be represented.
    let want: Option<String> = if !comp_ok {
        None
    } else if !norm {
        Some(plain.clone())
    } else if has_auth && !path.is_empty() && !path.starts_with('/') {
        None
    } else {
        let ns = scheme.map(|s| s.to_ascii_lowercase());
        let na = auth.as_deref().map(|x| norm_authority(iri, x));
        let np = if scheme.is_some() || has_auth || path.starts_with('/') {
            let r = remove_dots(path);
            pct_norm(iri, &protect(r, has_auth), false)
        } else {
            pct_norm(iri, path, false)
        };
        let (nq, nf) = (query.map(|q| pct_norm(iri, q, false)), frag.map(|q| pct_norm(iri, q, false)));
        Some(join(&Parts { scheme: ns.as_deref(), authority: na.as_deref(), path: &np, query: nq.as_deref(), fragment: nf.as_deref() }))
    };
    let want_parts = |s: &str| {
        let p = split(s);
        // The same presence and the same text as the components given (or their normal form).
        p.scheme.is_some() == scheme.is_some() && p.authority.is_some() == has_auth
            && p.query.is_some() == query.is_some() && p.fragment.is_some() == frag.is_some()
            && (norm || (p == parts && p.authority.map_or(true, |x| split_authority(x) == Some((ui.as_deref(), h, pt.as_deref())))))
    };
    let mut any = false;
    macro_rules! go {
        ($t:ty, $o:ty, $k:expr) => {{
            let r = b.clone().build::<$t>();
            let ok = want.as_deref().map_or(false, |w| want_parts(w) && spec::valid(iri, $k, w)
                && (!norm || want_parts(w)));
            // Without normalization the plain text decides; with it, the raw components must be usable too.
            match r {
                Ok(x) => {
                    any = true;
                    let s = x.to_string();
                    ensure!(spec::valid(iri, $k, &s), "built an invalid {s:?} from {a:?} as {}", stringify!($t));
                    ensure!(ok, "built {s:?} from {a:?} as {}", stringify!($t));
                    eq!(s, want.clone().unwrap(), "built from {a:?}");
                    eq!(x.to_dedicated_string().as_str(), s, "to_dedicated_string");
                    eq!(<$o>::from(&x).as_str(), s, "From<&Built>");
                    eq!(<$o>::from(x).as_str(), s, "From<Built>");
                }
                Err(_) => ensure!(!ok, "failed to build {want:?} from {a:?} as {}", stringify!($t)),
            }
        }};
    }
    go!(RiReferenceStr<S>, RiReferenceString<S>, Kind::Reference);
    go!(RiStr<S>, RiString<S>, Kind::Normal);
    go!(RiAbsoluteStr<S>, RiAbsoluteString<S>, Kind::Absolute);
    go!(RiRelativeStr<S>, RiRelativeString<S>, Kind::Relative);
    // Taking a valid identifier apart and building it again.
    if !norm && spec::valid(iri, Kind::Reference, &plain) {
        let x = mk!(RiReferenceStr<S>, &plain);
        match Builder::from(x).build::<RiReferenceStr<S>>() {
            Ok(y) => eq!(y.to_string(), plain, "rebuilt {plain:?}"),
            // `//` at the start of a path without authority cannot be expressed by validity rules anyway.
            Err(_) => return Err(format!("cannot rebuild {plain:?}")),
        }
    }
    Ok(any)
}

fn c12<S: Fl>(sub: &str, s: &str, arg: &str) -> R {
    let iri = S::IRI;
    let p = split(s);
    if sub == "frag" {
        let new = opt(arg);
        if !new.map_or(true, |f| valid_fragment(iri, f)) {
            return Ok(false);
        }
        let f = match new {
            Some(f) => Some(mk!(RiFragmentStr<S>, f)),
            None => None,
        };
        let want = join(&Parts { fragment: new, ..p });
        let mut any = false;
        macro_rules! go {
            ($t:ty, $o:ty, $k:expr) => {
                if spec::valid(iri, $k, s) {
                    any = true;
                    let mut o: $o = mk!($t, s).to_owned();
                    o.set_fragment(f);
                    eq!(o.as_str(), want, "set_fragment({new:?}) of {s:?}");
                    ensure!(spec::valid(iri, $k, o.as_str()), "set_fragment({new:?}) of {s:?} is invalid");
                }
            };
        }
        go!(RiReferenceStr<S>, RiReferenceString<S>, Kind::Reference);
        go!(RiStr<S>, RiString<S>, Kind::Normal);
        go!(RiRelativeStr<S>, RiRelativeString<S>, Kind::Relative);
        if spec::valid(iri, Kind::Normal, s) {
            let o: RiString<S> = mk!(RiStr<S>, s).to_owned();
            let (ab, fr) = o.into_absolute_and_fragment();
            eq!(ab.as_str(), join(&Parts { fragment: None, ..p }), "into_absolute_and_fragment of {s:?}");
            eq!(fr.as_ref().map(|x| x.as_str()), p.fragment, "into_absolute_and_fragment of {s:?}");
        }
        return Ok(any);
    }
    let a = p.authority.and_then(split_authority);
    let with = |h: &str| {
        let (u, _, pt) = a.unwrap();
        let x = format!("{}{h}{}", u.map_or(String::new(), |u| format!("{u}@")), pt.map_or(String::new(), |u| format!(":{u}")));
        join(&Parts { authority: Some(&x), ..p })
    };
    let is_reg = |h: &str| !h.starts_with('[') && !host_is_ipv4(h);
    let any = for_kinds!(s, iri, |k, T, O| {
        let ok = a.is_some() && valid_host(iri, arg);
        for reg in [false, true] {
            let ok = ok && (!reg || is_reg(a.unwrap().1));
            let want = if ok { with(arg) } else { s.to_string() };
            let mut o: O<S> = mk!(T<S>, s).to_owned();
            let mut o2 = o.clone();
            let (got, got2) = if reg {
                (o.replace_host_reg_name(arg).map(str::to_string), o2.try_replace_host_reg_name(arg).unwrap().map(str::to_string))
            } else {
                (o.replace_host(arg).map(str::to_string), o2.try_replace_host(arg).unwrap().map(str::to_string))
            };
            eq!(got.as_deref(), if ok { Some(arg) } else { None }, "replace_host(reg_name={reg}) of {s:?} by {arg:?}");
            eq!(got2, got, "try_replace_host of {s:?} by {arg:?}");
            eq!(o.as_str(), want, "replace_host(reg_name={reg}) of {s:?} by {arg:?}");
            eq!(o2.as_str(), want, "try_replace_host(reg_name={reg}) of {s:?} by {arg:?}");
            ensure!(spec::valid(iri, k, &want), "oracle: {want:?} not valid");
        }
    });
    Ok(any && a.is_some())
}

fn serde_ok<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Option<T> {
    use serde::de::{value::BorrowedStrDeserializer, value::Error};
    T::deserialize(BorrowedStrDeserializer::<Error>::new(s)).ok()
}
fn serde_owned<T: serde::de::DeserializeOwned>(s: &str) -> [Option<T>; 2] {
    use serde::de::{value::{Error, StrDeserializer, StringDeserializer}, IntoDeserializer};
    let a: StrDeserializer<'_, Error> = s.into_deserializer();
    let b: StringDeserializer<Error> = s.to_string().into_deserializer();
    [T::deserialize(a).ok(), T::deserialize(b).ok()]
}
struct GetStr<'a>(&'a mut String);
macro_rules! no_ser { ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) })* } }
impl serde::Serializer for GetStr<'_> {
    type Ok = ();
    type Error = serde::de::value::Error;
    type SerializeSeq = serde::ser::Impossible<(), serde::de::value::Error>;
    type SerializeTuple = serde::ser::Impossible<(), serde::de::value::Error>;
    type SerializeTupleStruct = serde::ser::Impossible<(), serde::de::value::Error>;
    type SerializeTupleVariant = serde::ser::Impossible<(), serde::de::value::Error>;
    type SerializeMap = serde::ser::Impossible<(), serde::de::value::Error>;
    type SerializeStruct = serde::ser::Impossible<(), serde::de::value::Error>;
    type SerializeStructVariant = serde::ser::Impossible<(), serde::de::value::Error>;
    fn serialize_str(self, v: &str) -> Result<(), serde::de::value::Error> {
        self.0.push_str(v);
        Ok(())
    }
    no_ser!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
        serialize_f64: f64, serialize_char: char, serialize_bytes: &[u8], serialize_unit_struct: &'static str);
    fn serialize_none(self) -> Result<(), serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_unit(self) -> Result<(), serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<(), serde::de::value::Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, serde::de::value::Error> { Err(serde::ser::Error::custom("not a string")) }
}

fn c13(s: &str) -> R {
    let mut any = false;
    macro_rules! from_owned {
        ($o:ty, $valid:expr) => {
            eq!(serde_owned::<$o>(s).map(|x| x.map(|x| x.as_str().to_string())), { let w = if $valid { Some(s.to_string()) } else { None }; [w.clone(), w] }, "deserializing {} from {s:?}", stringify!($o));
        };
    }
    // Checked conversions: the target type and whether the text is valid for it.
    macro_rules! try_conv {
        ($fb:ty, $fo:ty => $($tb:ty, $to:ty, $ok:expr);* $(;)?) => {{
            let x = mk!($fb, s);
            $(
                match <&$tb>::try_from(x) {
                    Ok(y) => { ensure!($ok, "{} accepted {s:?} from {}", stringify!($tb), stringify!($fb)); eq!(y.as_str(), s, "text"); }
                    Err(_) => ensure!(!$ok, "{} rejected {s:?} from {}", stringify!($tb), stringify!($fb)),
                }
                match <$to>::try_from(<$fo>::from(x.to_owned())) {
                    Ok(y) => { ensure!($ok, "{} accepted {s:?} from {}", stringify!($to), stringify!($fo)); eq!(y.as_str(), s, "text"); }
                    Err(e) => { ensure!(!$ok, "{} rejected {s:?} from {}", stringify!($to), stringify!($fo)); eq!(e.into_source().as_str(), s, "source handed back"); }
                }
            )*
        }};
    }
    macro_rules! up_conv {
        ($fb:ty, $fo:ty => $($tb:ty, $to:ty);* $(;)?) => {{
            let x = mk!($fb, s);
            $(
                let y: &$tb = AsRef::<$tb>::as_ref(x);
                eq!(y.as_str(), s, "AsRef to {}", stringify!($tb));
                let o: $to = <$fo>::from(x.to_owned()).into();
                eq!(o.as_str(), s, "Into {}", stringify!($to));
            )*
        }};
    }
    macro_rules! flavour {
        ($iri:expr, $S:ty) => {{
            let iri: bool = $iri;
            let ok = |k| spec::valid(iri, k, s);
            let (r, n, a, l) = (ok(Kind::Reference), ok(Kind::Normal), ok(Kind::Absolute), ok(Kind::Relative));
            any |= r;
            from_owned!(RiReferenceString<$S>, r);
            from_owned!(RiString<$S>, n);
            from_owned!(RiAbsoluteString<$S>, a);
            from_owned!(RiRelativeString<$S>, l);
            from_owned!(RiQueryString<$S>, valid_query(iri, s));
            from_owned!(RiFragmentString<$S>, valid_fragment(iri, s));
            eq!(serde_ok::<&RiReferenceStr<$S>>(s).is_some(), r, "deserializing &RiReferenceStr from {s:?}");
            eq!(serde_ok::<&RiStr<$S>>(s).is_some(), n, "deserializing &RiStr from {s:?}");
            eq!(serde_ok::<&RiAbsoluteStr<$S>>(s).is_some(), a, "deserializing &RiAbsoluteStr from {s:?}");
            eq!(serde_ok::<&RiRelativeStr<$S>>(s).is_some(), l, "deserializing &RiRelativeStr from {s:?}");
            if r {
                let x = mk!(RiReferenceStr<$S>, s);
                let mut t = String::new();
                ensure!(serde::Serialize::serialize(x, GetStr(&mut t)).is_ok(), "serialize");
                eq!(t, s, "serialized text");
                let o = x.to_owned();
                let mut t = String::new();
                ensure!(serde::Serialize::serialize(&o, GetStr(&mut t)).is_ok(), "serialize");
                eq!(t, s, "serialized text");
                eq!(x.to_string(), s, "Display");
                eq!(String::from(o.clone()), s, "String::from");
                eq!(x.len(), s.len(), "len");
                eq!(x.is_empty(), s.is_empty(), "is_empty");
                match x.to_iri() {
                    Ok(y) => { ensure!(n, "to_iri accepted {s:?}"); eq!(y.as_str(), s, "to_iri"); }
                    Err(y) => { ensure!(!n, "to_iri rejected {s:?}"); eq!(y.as_str(), s, "to_iri"); }
                }
                match x.to_relative_iri() {
                    Ok(y) => { ensure!(l, "to_relative_iri accepted {s:?}"); eq!(y.as_str(), s, "to_relative_iri"); }
                    Err(y) => { ensure!(!l, "to_relative_iri rejected {s:?}"); eq!(y.as_str(), s, "to_relative_iri"); }
                }
                match o.clone().into_iri() {
                    Ok(y) => { ensure!(n, "into_iri accepted {s:?}"); eq!(y.as_str(), s, "into_iri"); }
                    Err(y) => { ensure!(!n, "into_iri rejected {s:?}"); eq!(y.as_str(), s, "into_iri"); }
                }
                match o.into_relative_iri() {
                    Ok(y) => { ensure!(l, "into_relative_iri accepted {s:?}"); eq!(y.as_str(), s, "into_relative_iri"); }
                    Err(y) => { ensure!(!l, "into_relative_iri rejected {s:?}"); eq!(y.as_str(), s, "into_relative_iri"); }
                }
                try_conv!(RiReferenceStr<$S>, RiReferenceString<$S> =>
                    RiStr<$S>, RiString<$S>, n; RiAbsoluteStr<$S>, RiAbsoluteString<$S>, a; RiRelativeStr<$S>, RiRelativeString<$S>, l);
            }
            if n {
                try_conv!(RiStr<$S>, RiString<$S> => RiAbsoluteStr<$S>, RiAbsoluteString<$S>, a);
                up_conv!(RiStr<$S>, RiString<$S> => RiReferenceStr<$S>, RiReferenceString<$S>);
                // `try_into_absolute`-like getters are covered by `TryFrom`.
            }
            if a {
                up_conv!(RiAbsoluteStr<$S>, RiAbsoluteString<$S> => RiStr<$S>, RiString<$S>; RiReferenceStr<$S>, RiReferenceString<$S>);
            }
            if l {
                up_conv!(RiRelativeStr<$S>, RiRelativeString<$S> => RiReferenceStr<$S>, RiReferenceString<$S>);
            }
        }};
    }
    flavour!(true, IriSpec);
    flavour!(false, UriSpec);
    let u = |k| spec::valid(false, k, s);
    let i = |k| spec::valid(true, k, s);
    macro_rules! iri_uri {
        ($k:expr, $ib:ty, $io:ty, $ub:ty, $uo:ty) => {
            let _ = &i;
            if u($k) { up_conv!($ub, $uo => $ib, $io); }
        };
    }
    iri_uri!(Kind::Reference, IriReferenceStr, IriReferenceString, UriReferenceStr, UriReferenceString);
    iri_uri!(Kind::Normal, IriStr, IriString, UriStr, UriString);
    iri_uri!(Kind::Absolute, IriAbsoluteStr, IriAbsoluteString, UriAbsoluteStr, UriAbsoluteString);
    iri_uri!(Kind::Relative, IriRelativeStr, IriRelativeString, UriRelativeStr, UriRelativeString);
    Ok(any)
}

fn c13_pair<S: Fl>(s: &str, t: &str) -> R {
    let mut any = false;
    macro_rules! go {
        ($b:ident, $o:ident, $ok:expr) => {{
            let ok: &dyn Fn(&str) -> bool = &$ok;
            if ok(s) && ok(t) {
                any = true;
                let (x, y) = (mk!($b<S>, s), mk!($b<S>, t));
                let (xo, yo): ($o<S>, $o<S>) = (x.to_owned(), y.to_owned());
                eq!(x == y, s == t, "{} == for {s:?}, {t:?}", stringify!($b));
                eq!(xo == yo, s == t, "{} == for {s:?}, {t:?}", stringify!($o));
                eq!(*x == yo, s == t, "{} == owned", stringify!($b));
                eq!(xo == *y, s == t, "owned == {}", stringify!($b));
                eq!(*x == *t, s == t, "{} == str for {s:?}, {t:?}", stringify!($b));
                eq!(*t == *x, s == t, "str == {}", stringify!($b));
                eq!(xo == *t, s == t, "{} == str", stringify!($o));
                eq!(x.cmp(y), s.cmp(t), "{} cmp for {s:?}, {t:?}", stringify!($b));
                eq!(x.partial_cmp(y), s.partial_cmp(t), "{} partial_cmp for {s:?}, {t:?}", stringify!($b));
                eq!(xo.cmp(&yo), s.cmp(t), "{} cmp for {s:?}, {t:?}", stringify!($o));
                eq!(x.partial_cmp(&yo), s.partial_cmp(t), "{} partial_cmp owned", stringify!($b));
                eq!(xo.partial_cmp(y), s.partial_cmp(t), "{} partial_cmp borrowed", stringify!($o));
                eq!(x.partial_cmp(t), s.partial_cmp(t), "{} partial_cmp str", stringify!($b));
                eq!(xo.partial_cmp(t), s.partial_cmp(t), "{} partial_cmp str", stringify!($o));
                if s == t { eq!(hash_of(x), hash_of(y), "{} hash", stringify!($b)); }
                eq!(hash_of(&xo), hash_of(x), "{} borrow hash", stringify!($o));
            }
        }};
    }
    go!(RiReferenceStr, RiReferenceString, |s| spec::valid(S::IRI, Kind::Reference, s));
    go!(RiStr, RiString, |s| spec::valid(S::IRI, Kind::Normal, s));
    go!(RiAbsoluteStr, RiAbsoluteString, |s| spec::valid(S::IRI, Kind::Absolute, s));
    go!(RiRelativeStr, RiRelativeString, |s| spec::valid(S::IRI, Kind::Relative, s));
    go!(RiQueryStr, RiQueryString, |s| valid_query(S::IRI, s));
    go!(RiFragmentStr, RiFragmentString, |s| valid_fragment(S::IRI, s));
    // Across types and flavours.
    macro_rules! cross {
        ($a:ident, $b:ident, $ka:expr, $kb:expr) => {
            if spec::valid(S::IRI, $ka, s) && spec::valid(S::IRI, $kb, t) {
                let (x, y) = (mk!($a<S>, s), mk!($b<S>, t));
                eq!(*x == *y, s == t, "{} == {} for {s:?}, {t:?}", stringify!($a), stringify!($b));
                eq!(*y == *x, s == t, "{} == {} for {s:?}, {t:?}", stringify!($b), stringify!($a));
                eq!(x.partial_cmp(y), s.partial_cmp(t), "{} partial_cmp {} for {s:?}, {t:?}", stringify!($a), stringify!($b));
                eq!(y.partial_cmp(x), t.partial_cmp(s), "{} partial_cmp {} for {s:?}, {t:?}", stringify!($b), stringify!($a));
            }
        };
    }
    cross!(RiReferenceStr, RiStr, Kind::Reference, Kind::Normal);
    cross!(RiReferenceStr, RiAbsoluteStr, Kind::Reference, Kind::Absolute);
    cross!(RiReferenceStr, RiRelativeStr, Kind::Reference, Kind::Relative);
    cross!(RiStr, RiAbsoluteStr, Kind::Normal, Kind::Absolute);
    Ok(any)
}

fn c14(s: &str) -> R {
    let got = UriTemplateStr::new(s);
    let vn = VarName::new(s);
    if !s.is_ascii() {
        // Nothing is promised but the absence of panics.
        if let Ok(t) = got {
            let _ = t.variables().count();
        }
        return Ok(false);
    }
    let want = tmpl::parse(s);
    eq!(got.is_ok(), want.is_some(), "UriTemplateStr::new({s:?})");
    eq!(iri_string::template::UriTemplateString::try_from(s.to_string()).is_ok(), want.is_some(), "UriTemplateString::try_from({s:?})");
    eq!(vn.is_ok(), tmpl::varname_ok(s), "VarName::new({s:?})");
    if let Ok(vn) = vn {
        eq!(vn.as_str(), s, "VarName::as_str");
    }
    if let (Ok(t), Some(w)) = (got, want) {
        eq!(t.as_str(), s, "as_str");
        let names: Vec<&str> = w.iter().flat_map(|t| match t { tmpl::Tok::Expr(_, v) => v.clone(), _ => vec![] }).map(|x| x.0).collect();
        let g: Vec<&str> = t.variables().map(|n| n.as_str()).collect();
        eq!(g, names, "variables of {s:?}");
        return Ok(true);
    }
    Ok(tmpl::varname_ok(s))
}

struct Ctx<'a> {
    vals: &'a [(String, Val)],
    chunk: usize,
}
impl Ctx<'_> {
    fn get(&self, n: &str) -> Val {
        self.vals.iter().find(|x| x.0 == n).map_or(Val::Undef, |x| x.1.clone())
    }
}
impl Context for Ctx<'_> {
    fn visit<V: Visitor>(&self, visitor: V) -> V::Result {
        use std::ops::ControlFlow::Break;
        let c = self.chunk;
        match self.get(visitor.var_name().as_str()) {
            Val::Undef => visitor.visit_undefined(),
            Val::Str(s) => visitor.visit_string(Chunked(&s, c)),
            Val::List(l) => {
                if c == 1 {
                    return visitor.visit_list_direct(l.iter().map(|x| Chunked(x, c)));
                }
                let mut w = visitor.visit_list();
                for x in &l {
                    if let Break(r) = w.visit_item(Chunked(x, c)) {
                        return r;
                    }
                }
                w.finish()
            }
            Val::Assoc(l) => {
                if c == 1 {
                    return visitor.visit_assoc_direct(l.iter().map(|(k, x)| (Chunked(k, c), Chunked(x, c))));
                }
                let mut w = visitor.visit_assoc();
                for (k, x) in &l {
                    if let Break(r) = w.visit_entry(Chunked(k, c), Chunked(x, c)) {
                        return r;
                    }
                }
                w.finish()
            }
        }
    }
}
struct Dyn<'a, 'b>(&'a Ctx<'b>, u32);
impl DynamicContext for Dyn<'_, '_> {
    fn visit_dynamic<V: Visitor>(&mut self, visitor: V) -> V::Result {
        self.0.visit(visitor)
    }
    fn on_expansion_start(&mut self) {
        self.1 += 1;
    }
    fn on_expansion_end(&mut self) {
        self.1 += 100;
    }
}

/// template, then assignments `name=u`, `name=sTEXT`, `name=lA|B`, `name=aK|V|K|V` (`l` and `a` alone: empty).
fn c15<S: Fl>(a: &[&str]) -> R {
    let t = a[0];
    if !t.is_ascii() || tmpl::parse(t).is_none() {
        return Ok(false);
    }
    let tpl = UriTemplateStr::new(t).map_err(|e| format!("{t:?} rejected: {e}"))?;
    let vals: Vec<(String, Val)> = a[1..].iter().filter_map(|x| x.split_once('=')).map(|(n, x)| {
        let v = if let Some(s) = x.strip_prefix('s') {
            Val::Str(s.to_string())
        } else if let Some(l) = x.strip_prefix('l') {
            Val::List(l.strip_prefix('|').map_or(vec![], |l| l.split('|').map(str::to_string).collect()))
        } else if let Some(l) = x.strip_prefix('a') {
            let v: Vec<&str> = l.strip_prefix('|').map_or(vec![], |l| l.split('|').collect());
            Val::Assoc(v.chunks_exact(2).map(|c| (c[0].to_string(), c[1].to_string())).collect())
        } else {
            Val::Undef
        };
        (n.to_string(), v)
    }).collect();
    let base = Ctx { vals: &vals, chunk: 0 };
    let want = tmpl::expand(S::IRI, t, &|n| base.get(n));
    for chunk in [0, 1, 2] {
        let c = Ctx { vals: &vals, chunk };
        match tpl.expand::<S, _>(&c) {
            Ok(e) => {
                eq!(Some(e.to_string()), want, "expand {t:?} with {:?} (chunks of {chunk})", &a[1..]);
                let mut buf = [0u8; 8];
                let w = want.clone().unwrap();
                eq!(write_to_slice(&mut buf, &e).ok(), Some(w.as_str()).filter(|w| w.len() <= 8), "write_to_slice of the expansion of {t:?}");
                eq!(RiReferenceString::<S>::try_from(e).ok().map(|x| x.as_str().to_string()),
                    want.clone().filter(|w| spec::valid(S::IRI, Kind::Reference, w)), "reference from the expansion of {t:?}");
            }
            Err(_) => ensure!(want.is_none(), "expand {t:?} with {:?} failed", &a[1..]),
        }
        let mut d = Dyn(&c, 0);
        let got = tpl.expand_dynamic_to_string::<S, _>(&mut d).ok();
        eq!(d.1, 101, "expansion callbacks");
        eq!(got, want, "expand_dynamic_to_string {t:?} with {:?} (chunks of {chunk})", &a[1..]);
        let mut o = String::from(">");
        let r = tpl.expand_dynamic::<S, _, _>(&mut o, &mut Dyn(&c, 0));
        eq!(r.is_ok(), want.is_some(), "expand_dynamic {t:?}");
        if let Some(w) = &want {
            eq!(o, format!(">{w}"), "expand_dynamic {t:?}");
        }
    }
    Ok(true)
}

/// size, chunk, text
fn c16(a: &[&str]) -> R {
    let (size, chunk, text): (usize, usize, &str) = (a[0].parse().unwrap_or(0), a[1].parse().unwrap_or(0), a[2]);
    let val = Chunked(text, chunk);
    let mut buf = vec![0xFFu8; size + 8];
    {
        let r = write_to_slice(&mut buf[..size], &val).ok().map(str::to_string);
        eq!(r.as_deref(), if text.len() <= size { Some(text) } else { None }, "write_to_slice of {text:?} into {size} bytes");
    }
    ensure!(buf[size..].iter().all(|b| *b == 0xFF), "write past the buffer");
    if text.len() <= size {
        ensure!(buf[text.len()..].iter().all(|b| *b == 0xFF), "write past the text's end");
    }
    let mut s = String::from("pre");
    ensure!(try_append_to_string(&mut s, &val).is_ok(), "try_append_to_string");
    eq!(s, format!("pre{text}"), "try_append_to_string");
    eq!(val.try_to_string().unwrap(), text, "try_to_string");
    // The comparison helper, observed through the normalization test: the normal form of a
    // query is displayed in several pieces.
    let q = pct_encode(text, |c| pchar(true, c));
    let s = format!("x:?{q}");
    if spec::valid(true, Kind::Normal, &s) {
        eq!(mk!(IriStr, &s).is_normalized(), pct_norm(true, &s, false) == s, "is_normalized {s:?}");
        let t = format!("x://{q}");
        if spec::valid(true, Kind::Normal, &t) {
            eq!(mk!(IriStr, &t).is_normalized(), spec::normalize(true, &t, PathMode::Default).0 == t, "is_normalized {t:?}");
        }
    }
    // Real displayable values of the crate.
    for x in ["http://u:p@h:8/a/../b?q#f", "x:/..//y"] {
        let x = mk!(IriStr, x);
        let n = x.normalize();
        let m = x.mask_password();
        let mut b = vec![0u8; size];
        let (nt, mt) = (n.to_string(), m.to_string());
        eq!(write_to_slice(&mut b, &n).ok(), Some(nt.as_str()).filter(|t| t.len() <= size), "write_to_slice of a normalized IRI into {size}");
        eq!(write_to_slice(&mut b, &m).ok(), Some(mt.as_str()).filter(|t| t.len() <= size), "write_to_slice of a masked IRI into {size}");
    }
    let mut w = String::new();
    let _ = write!(w, "{val}");
    eq!(w, text, "Display");
    Ok(true)
}
