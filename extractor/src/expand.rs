//! Expansion of the repository's own `macro_rules!` macros used in item position
//! (single-fragment matchers; `$x:ident`, `$x:expr`, `$x:ty`, `$x:tt`, `$(#[$m:meta])*`).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rule {
    pat: Vec<TokenTree>,
    body: TokenStream,
}
pub type Macros = BTreeMap<String, Vec<Rule>>;

pub fn collect(items: &[syn::Item], out: &mut Macros) {
    for it in items {
        if let syn::Item::Macro(m) = it {
            if m.mac.path.is_ident("macro_rules") {
                if let Some(id) = &m.ident {
                    let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let mut rules = vec![];
                    let mut i = 0;
                    while i + 3 < toks.len() + 0 {
                        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&toks[i], &toks[i + 3]) {
                            rules.push(Rule { pat: p.stream().into_iter().collect(), body: b.stream() });
                        }
                        i += 4;
                        if i < toks.len() {
                            if let TokenTree::Punct(p) = &toks[i] {
                                if p.as_char() == ';' {
                                    i += 1;
                                }
                            }
                        }
                    }
                    out.insert(id.to_string(), rules);
                }
            }
        }
    }
}

type Binds = BTreeMap<String, TokenStream>;

fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

fn matches(pat: &[TokenTree], inp: &[TokenTree], b: &mut Binds) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < pat.len() {
        if is_punct(pat.get(i), '$') {
            match pat.get(i + 1) {
                Some(TokenTree::Group(_)) => {
                    // `$( ... )*`: only attribute repetitions are supported; skip attributes in the input
                    i += 3;
                    while is_punct(inp.get(j), '#') && matches!(inp.get(j + 1), Some(TokenTree::Group(_))) {
                        j += 2;
                    }
                    continue;
                }
                Some(TokenTree::Ident(n)) => {
                    let kind = match pat.get(i + 3) {
                        Some(TokenTree::Ident(k)) => k.to_string(),
                        _ => return false,
                    };
                    i += 4;
                    let mut ts: Vec<TokenTree> = vec![];
                    if kind == "ident" || kind == "tt" || kind == "literal" {
                        match inp.get(j) {
                            Some(t) => ts.push(t.clone()),
                            None => return false,
                        }
                        j += 1;
                    } else {
                        // up to the next pattern token (a comma) at angle depth zero
                        let mut depth = 0;
                        while j < inp.len() {
                            if depth == 0 && is_punct(inp.get(j), ',') {
                                break;
                            }
                            if is_punct(inp.get(j), '<') {
                                depth += 1;
                            }
                            if is_punct(inp.get(j), '>') {
                                depth -= 1;
                            }
                            ts.push(inp[j].clone());
                            j += 1;
                        }
                    }
                    b.insert(n.to_string(), ts.into_iter().collect());
                    continue;
                }
                _ => return false,
            }
        }
        match (&pat[i], inp.get(j)) {
            (TokenTree::Group(p), Some(TokenTree::Group(q))) if p.delimiter() == q.delimiter() => {
                let ps: Vec<TokenTree> = p.stream().into_iter().collect();
                let qs: Vec<TokenTree> = q.stream().into_iter().collect();
                if !matches(&ps, &qs, b) {
                    return false;
                }
            }
            (TokenTree::Ident(p), Some(TokenTree::Ident(q))) if p == q => {}
            (TokenTree::Punct(p), Some(TokenTree::Punct(q))) if p.as_char() == q.as_char() => {}
            (TokenTree::Literal(p), Some(TokenTree::Literal(q))) if p.to_string() == q.to_string() => {}
            (TokenTree::Punct(p), None) if p.as_char() == ',' => {
                i += 1;
                continue;
            }
            _ => return false,
        }
        i += 1;
        j += 1;
    }
    while is_punct(inp.get(j), ',') {
        j += 1;
    }
    j == inp.len()
}

fn subst(body: TokenStream, b: &Binds) -> TokenStream {
    let toks: Vec<TokenTree> = body.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        if is_punct(toks.get(i), '$') {
            match toks.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    if n == "crate" {
                        i += 1;
                        continue;
                    }
                    if let Some(t) = b.get(&n.to_string()) {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    // attribute repetition: dropped
                    i += 3;
                    continue;
                }
                _ => {}
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), b));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

/// appends the expansion of every known item macro
pub fn expand(items: &[syn::Item], macros: &Macros, depth: usize) -> Vec<syn::Item> {
    let mut out = vec![];
    for it in items {
        if let syn::Item::Macro(m) = it {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if let (Some(rules), true) = (macros.get(&name), depth < 4) {
                let inp: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                for r in rules {
                    let mut b = Binds::new();
                    if matches(&r.pat, &inp, &mut b) {
                        if let Ok(f) = syn::parse2::<syn::File>(subst(r.body.clone(), &b)) {
                            out.extend(expand(&f.items, macros, depth + 1));
                        }
                        break;
                    }
                }
                continue;
            }
        }
        out.push(it.clone());
    }
    out
}
