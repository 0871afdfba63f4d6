//! Independent RFC 6570 reference.
use crate::spec::*;

pub fn literal_ok(s: &str) -> bool {
    // Any character except CTL, SP, DQUOTE, stray "%", "<", ">", "\", "^", "`", "{", "|", "}".
    // The single quote is allowed by the erratum 6937 of RFC 6570.
    pct_or(s, |c| {
        if c.is_ascii() {
            c > ' ' && c != '\x7f' && !"\"%<>\\^`{|}".contains(c)
        } else {
            ucschar(c) || iprivate(c)
        }
    })
}
pub fn varname_ok(s: &str) -> bool {
    !s.is_empty()
        && s.split('.').all(|p| {
            !p.is_empty() && pct_or(p, |c| c.is_ascii_alphanumeric() || c == '_')
        })
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mod {
    None,
    Explode,
    Prefix(usize),
}
pub enum Tok<'a> {
    Lit(&'a str),
    Expr(Option<char>, Vec<(&'a str, Mod)>),
}
/// Operators of RFC 6570, the reserved-for-future ones left out.
pub fn parse(s: &str) -> Option<Vec<Tok<'_>>> {
    let mut v = Vec::new();
    let mut r = s;
    while !r.is_empty() {
        if let Some(x) = r.strip_prefix('{') {
            let e = x.find('}')?;
            let mut body = &x[..e];
            r = &x[e + 1..];
            let op = body.chars().next()?;
            let op = if "+#./;?&".contains(op) {
                body = &body[1..];
                Some(op)
            } else {
                None
            };
            let mut vars = Vec::new();
            for spec in body.split(',') {
                let (name, m) = if let Some(n) = spec.strip_suffix('*') {
                    (n, Mod::Explode)
                } else if let Some((n, l)) = spec.split_once(':') {
                    if l.is_empty()
                        || l.len() > 4
                        || l.starts_with('0')
                        || !l.bytes().all(|b| b.is_ascii_digit())
                    {
                        return None;
                    }
                    (n, Mod::Prefix(l.parse().unwrap()))
                } else {
                    (spec, Mod::None)
                };
                if !varname_ok(name) {
                    return None;
                }
                vars.push((name, m));
            }
            v.push(Tok::Expr(op, vars));
        } else {
            let e = r.find('{').unwrap_or(r.len());
            if !literal_ok(&r[..e]) {
                return None;
            }
            v.push(Tok::Lit(&r[..e]));
            r = &r[e..];
        }
    }
    Some(v)
}

#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Str(String),
    List(Vec<String>),
    Assoc(Vec<(String, String)>),
}

fn enc(iri: bool, s: &str, reserved: bool) -> String {
    units(iri, s, reserved).concat()
}
/// The encoded text cut into the units that the prefix modifier counts.
fn units(iri: bool, s: &str, reserved: bool) -> Vec<String> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let b = &s.as_bytes()[i..];
        let c = s[i..].chars().next().unwrap();
        if reserved && triplet(b).is_some() {
            let n = match triplet_char(b) {
                Some((_, n)) => 3 * n,
                None => 3,
            };
            v.push(s[i..i + n].to_string());
            i += n;
        } else {
            let mut buf = [0; 4];
            v.push(pct_encode(c.encode_utf8(&mut buf), |c| {
                unreserved(iri, c)
                    || (reserved && (gendelim(c) || subdelim(c) || (iri && iprivate(c))))
            }));
            i += c.len_utf8();
        }
    }
    v
}

/// `None`: a prefix modifier meets a composite value.
pub fn expand(iri: bool, t: &str, get: &dyn Fn(&str) -> Val) -> Option<String> {
    let mut o = String::new();
    for tok in parse(t).unwrap() {
        let (op, vars) = match tok {
            Tok::Lit(l) => {
                o += l;
                continue;
            }
            Tok::Expr(op, vars) => (op, vars),
        };
        let (first, sep, named, ifemp, res) = match op {
            None => ("", ",", false, "", false),
            Some('+') => ("", ",", false, "", true),
            Some('#') => ("#", ",", false, "", true),
            Some('.') => (".", ".", false, "", false),
            Some('/') => ("/", "/", false, "", false),
            Some(';') => (";", ";", true, "", false),
            Some('?') => ("?", "&", true, "=", false),
            _ => ("&", "&", true, "=", false),
        };
        let named_val = |n: &str, v: &str| {
            if v.is_empty() {
                format!("{n}{ifemp}")
            } else {
                format!("{n}={v}")
            }
        };
        let mut parts: Vec<String> = Vec::new();
        for (name, m) in vars {
            match (get(name), m) {
                (Val::Undef, _) => {}
                (Val::List(l), _) if l.is_empty() => {}
                (Val::Assoc(l), _) if l.is_empty() => {}
                (Val::List(_) | Val::Assoc(_), Mod::Prefix(_)) => return None,
                (Val::Str(s), m) => {
                    let mut u = units(iri, &s, res);
                    if let Mod::Prefix(n) = m {
                        u.truncate(n);
                    }
                    let s = u.concat();
                    parts.push(if named { named_val(name, &s) } else { s });
                }
                (Val::List(l), Mod::None) => {
                    let x = l.iter().map(|s| enc(iri, s, res)).collect::<Vec<_>>().join(",");
                    parts.push(if named { format!("{name}={x}") } else { x });
                }
                (Val::List(l), Mod::Explode) => {
                    for s in l {
                        let s = enc(iri, &s, res);
                        parts.push(if named { named_val(name, &s) } else { s });
                    }
                }
                (Val::Assoc(l), Mod::None) => {
                    let x = l
                        .iter()
                        .map(|(k, s)| format!("{},{}", enc(iri, k, res), enc(iri, s, res)))
                        .collect::<Vec<_>>()
                        .join(",");
                    parts.push(if named { format!("{name}={x}") } else { x });
                }
                (Val::Assoc(l), Mod::Explode) => {
                    for (k, s) in l {
                        let (k, s) = (enc(iri, &k, res), enc(iri, &s, res));
                        parts.push(if named { named_val(&k, &s) } else { format!("{k}={s}") });
                    }
                }
            }
        }
        if !parts.is_empty() {
            o += first;
            o += &parts.join(sep);
        }
    }
    Some(o)
}
