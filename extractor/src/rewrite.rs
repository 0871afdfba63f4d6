//! The desugaring rules and the emission of functions and items.
use crate::contract::FnContract;
use crate::print::Printer;
use crate::{cfg_active, Found};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

#[derive(Default)]
pub struct CallCollector {
    pub calls: BTreeSet<String>,
}
impl VisitMut for CallCollector {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        let n = p.path.segments.len();
        let names: Vec<String> = p.path.segments.iter().skip(n.saturating_sub(2)).map(|s| s.ident.to_string()).collect();
        self.calls.insert(names.join("::"));
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        self.calls.insert(format!(".{}", m.method));
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // look into macro arguments that parse as expressions
        if let Ok(args) = m.parse_body_with(
            syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
        ) {
            for mut a in args {
                self.visit_expr_mut(&mut a);
            }
        }
    }
}

pub fn fn_hash(f: &Found) -> String {
    let s = format!("{}{}", f.sig.to_token_stream(), f.block.to_token_stream());
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

/// `Some(LITERAL)`
fn some_lit(e: &Expr) -> Option<syn::Lit> {
    if let Expr::Call(c) = e {
        if let (Expr::Path(p), Some(Expr::Lit(l))) = (&*c.func, c.args.first()) {
            if p.path.is_ident("Some") && c.args.len() == 1 {
                return Some(l.lit.clone());
            }
        }
    }
    None
}

pub fn emit_item(mut it: syn::Item, extra: &str, feats: &[String]) -> String {
    // variants and fields that are not compiled
    fn live(f: &mut syn::Fields, feats: &[String]) {
        match f {
            syn::Fields::Named(n) => n.named = std::mem::take(&mut n.named).into_iter().filter(|f| cfg_active(&f.attrs, feats)).collect(),
            syn::Fields::Unnamed(n) => n.unnamed = std::mem::take(&mut n.unnamed).into_iter().filter(|f| cfg_active(&f.attrs, feats)).collect(),
            _ => {}
        }
    }
    match &mut it {
        syn::Item::Struct(s) => live(&mut s.fields, feats),
        syn::Item::Enum(s) => {
            s.variants = std::mem::take(&mut s.variants).into_iter().filter(|v| cfg_active(&v.attrs, feats)).collect();
            for v in s.variants.iter_mut() { live(&mut v.fields, feats); }
        }
        _ => {}
    }
    BareFn.visit_item_mut(&mut it);
    fn derives(attrs: &[syn::Attribute], structural: bool) -> String {
        let mut have = BTreeSet::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    if let Some(i) = m.path.get_ident() {
                        have.insert(i.to_string());
                    }
                    Ok(())
                });
            }
        }
        let mut out = vec![];
        if have.contains("Clone") {
            out.push("Clone");
        }
        if have.contains("Copy") {
            out.push("Copy");
        }
        if structural && have.contains("PartialEq") && have.contains("Eq") {
            out.push("PartialEq");
            out.push("Eq");
            out.push("Structural");
        }
        if out.is_empty() {
            String::new()
        } else {
            format!("#[derive({})]\n", out.join(", "))
        }
    }
    fn has_derive(attrs: &[syn::Attribute], n: &str) -> bool {
        let mut have = false;
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    have |= m.path.is_ident(n);
                    Ok(())
                });
            }
        }
        have
    }
    let mut tail = String::new();
    let mut head = extra.to_string();
    match &mut it {
        syn::Item::Struct(s) => {
            if !extra.contains("derive") {
                head.push_str(&derives(&s.attrs, false));
            }
            // derived `Default`
            if has_derive(&s.attrs, "Default") && s.generics.type_params().next().is_none() {
                let mut init = String::new();
                let mut ens = String::new();
                let mut known = true;
                for f in &s.fields {
                    let (Some(id), ty) = (&f.ident, f.ty.to_token_stream().to_string().replace(' ', "")) else { known = false; break };
                    match ty.as_str() {
                        "usize" | "u8" | "u16" | "u32" | "u64" => { init += &format!("{id}: 0, "); ens += &format!("r.{id} == 0, "); }
                        "bool" => { init += &format!("{id}: false, "); ens += &format!("!r.{id}, "); }
                        t if t.starts_with("Option<") => { init += &format!("{id}: None, "); ens += &format!("r.{id} is None, "); }
                        t if t.starts_with("[u8;") => { let k = &t[4..t.len() - 1]; init += &format!("{id}: [0u8; {k}], "); }
                        t if t.starts_with('&') && t.ends_with("str") => { init += &format!("{id}: crate::vx::lit_str(&[]), "); ens += &format!("r.{id}.spec_bytes() == Seq::<u8>::empty(), "); }
                        // a type of the crate with its own `Default`, extracted as an inherent function
                        t if t.ends_with("<'a>") && t[..t.len() - 4].chars().all(|c| c.is_ascii_alphanumeric()) => {
                            let t = &t[..t.len() - 4];
                            init += &format!("{id}: {t}::default(), ");
                            ens += &format!("call_ensures({t}::default, (), r.{id}), ");
                        }
                        _ => known = false,
                    }
                }
                if known {
                    let id = &s.ident;
                    let (g1, g2) = if s.generics.params.is_empty() { (String::new(), String::new()) } else { (s.generics.to_token_stream().to_string(), s.generics.split_for_impl().1.to_token_stream().to_string()) };
                    let lits = "";
                    tail = format!("impl{g1} {id}{g2} {{\npub fn vx_default() -> (r: Self) ensures {ens} {{ {lits}{id} {{ {init}}} }}\n}}\n");
                }
            }
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = if extra.contains("//priv") { syn::Visibility::Inherited } else { parse_quote!(pub) };
            }
        }
        syn::Item::Enum(s) => {
            let unit = s.variants.iter().all(|v| v.fields.is_empty());
            if !extra.contains("derive") {
                head.push_str(&derives(&s.attrs, unit));
            }
            if unit && s.variants.iter().all(|v| v.discriminant.is_none()) && derives(&s.attrs, false).contains("Copy") && has_derive(&s.attrs, "PartialOrd") && has_derive(&s.attrs, "Ord") {
                let id = &s.ident;
                let arms: String = s.variants.iter().enumerate().map(|(i, v)| format!("{id}::{} => {i}u8, ", v.ident)).collect();
                tail = format!("impl {id} {{\npub open spec fn rank(self) -> u8 {{ match self {{ {arms}}} }}\npub fn vx_rank(self) -> (r: u8) ensures r == self.rank() {{ match self {{ {arms}}} }}\n}}\n");
            }
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        syn::Item::Const(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        syn::Item::Static(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        syn::Item::Type(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
        }
        _ => {}
    }
    let mut p = Printer::new(&[]);
    p.stream(it.to_token_stream());
    format!("{head}{}\n{tail}", p.out)
}

/// an associated constant as an `exec const`; `extra`: `ensures ..`, a line `---`, proof text
pub fn emit_assoc_const(im: &syn::ItemImpl, c: &syn::ImplItemConst, extra: &str) -> String {
    let (ens, pf) = extra.split_once("---").unwrap_or((extra, ""));
    let mut h = Printer::new(&[]);
    let (ig, _, wc) = im.generics.split_for_impl();
    let st = &im.self_ty;
    h.stream(quote!(impl #ig #st #wc));
    let mut t = Printer::new(&[]);
    t.stream(c.ty.to_token_stream());
    let mut e = Printer::new(&[]);
    e.stream(c.expr.to_token_stream());
    format!("{} {{\npub exec const {}: {}\n{}{{\n{}\n{}\n}}\n}}\n", h.out, c.ident, t.out, ens, pf, e.out)
}

pub struct Emitted {
    pub text: String,
    pub gen_name: String,
    pub loops: usize,
    pub closures: usize,
    pub mismatch: Option<String>,
}

fn is_lit_str(e: &Expr) -> bool {
    matches!(e, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. }))
}
fn is_lit_char(e: &Expr) -> bool {
    matches!(e, Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }))
}
fn vx(name: &str) -> TokenStream {
    let id = Ident::new(name, Span::call_site());
    quote!(crate::vx::#id)
}

struct Rw<'a> {
    fc: &'a FnContract,
    raws: Vec<String>,
    loop_n: usize,
    clo_n: usize,
    dbg_n: usize,
    outer: String,
    nested: BTreeSet<String>,
    feats: &'a [String],
    tmp: usize,
    consts: Vec<(String, Expr)>,
    in_amut: bool,
}

/// Does the pattern contain a slice pattern?
fn has_slice_pat(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Or(o) => o.cases.iter().any(has_slice_pat),
        Pat::Paren(p) => has_slice_pat(&p.pat),
        Pat::Tuple(t) => t.elems.iter().any(has_slice_pat),
        Pat::TupleStruct(t) => t.elems.iter().any(has_slice_pat),
        Pat::Reference(r) => has_slice_pat(&r.pat),
        _ => false,
    }
}

/// Condition and bindings of one element pattern applied to the place `e` (a u8 lvalue).
fn elem_pat(p: &Pat, e: &Expr, conds: &mut Vec<Expr>, binds: &mut Vec<(Pat, Expr)>) -> Result<(), String> {
    match p {
        Pat::Wild(_) => Ok(()),
        Pat::Lit(l) => {
            let l = l.clone();
            conds.push(parse_quote!(#e == #l));
            Ok(())
        }
        Pat::Range(r) => {
            if let Some(lo) = &r.start {
                conds.push(parse_quote!(#lo <= #e));
            }
            if let Some(hi) = &r.end {
                match r.limits {
                    syn::RangeLimits::Closed(_) => conds.push(parse_quote!(#e <= #hi)),
                    syn::RangeLimits::HalfOpen(_) => conds.push(parse_quote!(#e < #hi)),
                }
            }
            Ok(())
        }
        Pat::Ident(i) if i.subpat.is_none() => {
            let id = &i.ident;
            binds.push((parse_quote!(#id), parse_quote!(&#e)));
            Ok(())
        }
        Pat::Or(o) => {
            let mut alts: Vec<Expr> = vec![];
            for c in &o.cases {
                let mut cs = vec![];
                let mut bs = vec![];
                elem_pat(c, e, &mut cs, &mut bs)?;
                if !bs.is_empty() {
                    return Err("binding in or-pattern element".into());
                }
                alts.push(conj(&cs));
            }
            let mut it = alts.into_iter();
            let first = it.next().unwrap();
            conds.push(it.fold(first, |a, b| parse_quote!((#a) || (#b))));
            Ok(())
        }
        Pat::Paren(p) => elem_pat(&p.pat, e, conds, binds),
        _ => Err("unsupported element pattern in slice pattern".into()),
    }
}
/// R29: replace the string literals of a pattern by bindings; the comparisons go to `conds`
fn str_pats(p: &mut Pat, conds: &mut Vec<Expr>) {
    match p {
        Pat::Lit(l) => {
            if let syn::Lit::Str(s) = &l.lit {
                let id = Ident::new(&format!("vx_l{}", conds.len()), Span::call_site());
                let lit = Expr::Lit(syn::ExprLit { attrs: vec![], lit: syn::Lit::Str(s.clone()) });
                conds.push(parse_quote!(crate::vx::str_is(#id, #lit)));
                *p = parse_quote!(#id);
            }
        }
        Pat::Paren(q) => str_pats(&mut q.pat, conds),
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|q| str_pats(q, conds)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|q| str_pats(q, conds)),
        _ => {}
    }
}
fn conj(cs: &[Expr]) -> Expr {
    if cs.is_empty() {
        return parse_quote!(true);
    }
    let mut it = cs.iter().cloned();
    let first = it.next().unwrap();
    it.fold(first, |a, b| parse_quote!(#a && #b))
}

/// slice pattern against the slice variable `s` -> (condition, bindings)
fn slice_pat(p: &Pat, s: &Ident) -> Result<(Vec<Expr>, Vec<(Pat, Expr)>), String> {
    match p {
        Pat::Paren(p) => slice_pat(&p.pat, s),
        Pat::Wild(_) => Ok((vec![], vec![])),
        Pat::Ident(i) if i.subpat.is_none() => {
            let id = &i.ident;
            Ok((vec![], vec![(parse_quote!(#id), parse_quote!(#s))]))
        }
        Pat::Slice(sl) => {
            let mut conds = vec![];
            let mut binds = vec![];
            let n = sl.elems.len();
            let mut rest_at = None;
            for (i, e) in sl.elems.iter().enumerate() {
                let is_rest = match e {
                    Pat::Rest(_) => true,
                    Pat::Ident(id) => id.subpat.as_ref().map_or(false, |(_, p)| matches!(**p, Pat::Rest(_))),
                    _ => false,
                };
                if is_rest {
                    rest_at = Some(i);
                }
            }
            match rest_at {
                None => {
                    let nn = syn::Index::from(n);
                    conds.push(parse_quote!(#s.len() == #nn));
                }
                Some(_) => {
                    let nn = syn::Index::from(n - 1);
                    conds.push(parse_quote!(#s.len() >= #nn));
                }
            }
            for (i, e) in sl.elems.iter().enumerate() {
                match rest_at {
                    Some(r) if i == r => {
                        if let Pat::Ident(id) = e {
                            let name = &id.ident;
                            let lo = syn::Index::from(r);
                            let tail = syn::Index::from(n - 1 - r);
                            let f = vx("subslice");
                            binds.push((parse_quote!(#name), parse_quote!(#f(#s, #lo, #s.len() - #tail))));
                        }
                    }
                    Some(r) if i > r => {
                        let back = syn::Index::from(n - i);
                        let place: Expr = parse_quote!(#s[#s.len() - #back]);
                        elem_pat(e, &place, &mut conds, &mut binds)?;
                    }
                    _ => {
                        let ix = syn::Index::from(i);
                        let place: Expr = parse_quote!(#s[#ix]);
                        elem_pat(e, &place, &mut conds, &mut binds)?;
                    }
                }
            }
            Ok((conds, binds))
        }
        _ => Err("unsupported pattern next to slice patterns".into()),
    }
}

fn flatten_or(p: &Pat) -> Vec<Pat> {
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(flatten_or).collect(),
        Pat::Paren(p) => flatten_or(&p.pat),
        p => vec![p.clone()],
    }
}

impl<'a> Rw<'a> {
    fn fresh(&mut self) -> Ident {
        self.tmp += 1;
        Ident::new(&format!("vx_s{}", self.tmp), Span::call_site())
    }
    fn raw(&mut self, s: String) -> usize {
        self.raws.push(s);
        self.raws.len() - 1
    }
    fn raw_stmt(&mut self, s: String) -> Stmt {
        let n = syn::Index::from(self.raw(s));
        parse_quote!(__vx_raw!(#n);)
    }

    /// R2: `match` with slice patterns -> if/else chain over lengths and elements.
    fn lower_slice_match(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| has_slice_pat(&a.pat)) {
            return None;
        }
        let s = self.fresh();
        let scrut = &m.expr;
        let mut chain: Vec<(Option<Expr>, Block)> = vec![];
        for a in &m.arms {
            for p in flatten_or(&a.pat) {
                let (conds, binds) = match slice_pat(&p, &s) {
                    Ok(x) => x,
                    Err(_) => return None,
                };
                if a.guard.is_some() && !binds.is_empty() {
                    return None;
                }
                let mut conds = conds;
                if let Some((_, g)) = &a.guard {
                    let g = &**g;
                    conds.push(parse_quote!((#g)));
                }
                let body = &a.body;
                let lets: Vec<Stmt> = binds
                    .iter()
                    .map(|(p, e)| -> Stmt { parse_quote!(let #p = #e;) })
                    .collect();
                let blk: Block = parse_quote!({ #(#lets)* #body });
                if conds.is_empty() {
                    chain.push((None, blk));
                } else {
                    chain.push((Some(conj(&conds)), blk));
                }
            }
        }
        let mut acc: Option<Expr> = None;
        for (c, b) in chain.into_iter().rev() {
            acc = Some(match (c, acc) {
                (None, _) => parse_quote!(#b),
                (Some(c), Some(e)) => {
                    let eb: Expr = match &e {
                        Expr::Block(_) | Expr::If(_) => e,
                        e => parse_quote!({ #e }),
                    };
                    parse_quote!(if #c #b else #eb)
                }
                (Some(c), None) => {
                    let u = vx("unreachable");
                    parse_quote!(if #c #b else { #u() })
                }
            });
        }
        let acc = acc?;
        Some(parse_quote!({ let #s = #scrut; #acc }))
    }

    fn lower_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || {
            m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect::<Vec<_>>())
        };
        match name.as_str() {
            "debug_assert" | "assert" | "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let n = self.dbg_n;
                self.dbg_n += 1;
                if self.fc.drop_dbg.contains(&n) || self.fc.drop_dbg.contains(&usize::MAX) {
                    return Some(parse_quote!({}));
                }
                let a = args()?;
                let cond: Expr = if name.ends_with("_eq") && a[1].to_token_stream().to_string().replace(' ', "") == "Ok(())" {
                    let x = &a[0];
                    parse_quote!((#x).is_ok())
                } else if let (true, Some(lit)) = (name.ends_with("_eq"), a.get(1).and_then(some_lit)) {
                    let x = &a[0];
                    parse_quote!(match #x { Some(vx_l) => vx_l == #lit, None => false })
                } else if name.ends_with("_eq") {
                    let (x, y) = (&a[0], &a[1]);
                    parse_quote!(#x == #y)
                } else if name.ends_with("_ne") {
                    let (x, y) = (&a[0], &a[1]);
                    parse_quote!(#x != #y)
                } else {
                    a[0].clone()
                };
                let f = vx("dbg_assert");
                Some(parse_quote!(#f(#cond)))
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => {
                let f = vx("unreachable");
                Some(parse_quote!(#f()))
            }
            "matches" => {
                // matches!(e, pat [if guard])
                let body: (Expr, Pat, Option<Expr>) = m
                    .parse_body_with(|input: syn::parse::ParseStream| {
                        let e: Expr = input.parse()?;
                        input.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(input)?;
                        let g = if input.peek(syn::Token![if]) {
                            input.parse::<syn::Token![if]>()?;
                            Some(input.parse::<Expr>()?)
                        } else {
                            None
                        };
                        let _ = input.parse::<Option<syn::Token![,]>>()?;
                        Ok((e, p, g))
                    })
                    .ok()?;
                let (e, p, g) = body;
                let mm: syn::ExprMatch = match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                };
                Some(Expr::Match(mm))
            }
            "write" => {
                // R16: `write!` -> the calls the format machinery makes, in order
                let (w, f, mut rest): (Expr, syn::LitStr, std::collections::VecDeque<Expr>) = m
                    .parse_body_with(|input: syn::parse::ParseStream| {
                        let w: Expr = input.parse()?;
                        input.parse::<syn::Token![,]>()?;
                        let f: syn::LitStr = input.parse()?;
                        let mut rest = std::collections::VecDeque::new();
                        while input.peek(syn::Token![,]) {
                            input.parse::<syn::Token![,]>()?;
                            if input.is_empty() {
                                break;
                            }
                            rest.push_back(input.parse::<Expr>()?);
                        }
                        Ok((w, f, rest))
                    })
                    .ok()?;
                let mut w = &w;
                while let Expr::Reference(r) = w {
                    w = &r.expr;
                }
                let mut calls: Vec<Expr> = vec![];
                let text = f.value();
                if text.contains("{{") || text.contains("}}") {
                    return None;
                }
                let mut t = text.as_str();
                while !t.is_empty() {
                    let n = t.find('{').unwrap_or(t.len());
                    if n == 1 && t.starts_with("%{:02X}") {
                        let x = rest.pop_front()?;
                        calls.push(parse_quote!(#w.vx_write_pct_upper(#x)));
                        t = &t[7..];
                        continue;
                    }
                    if n > 0 {
                        let lit = syn::LitStr::new(&t[..n], Span::call_site());
                        calls.push(parse_quote!(#w.write_str(#lit)));
                        t = &t[n..];
                        continue;
                    }
                    let e = t.find('}')?;
                    let name = &t[1..e];
                    t = &t[e + 1..];
                    if name.is_empty() {
                        let x = rest.pop_front()?;
                        calls.push(parse_quote!(#w.vx_write_display(&#x)));
                    } else {
                        let id: Ident = syn::parse_str(name).ok()?;
                        calls.push(parse_quote!(#w.vx_write_display(&#id)));
                    }
                }
                if !rest.is_empty() || calls.is_empty() {
                    return None;
                }
                let mut it = calls.into_iter().rev();
                let last = it.next().unwrap();
                Some(it.fold(last, |acc, c| parse_quote!(match #c { Ok(_) => #acc, Err(vx_e) => Err(vx_e) })))
            }
            _ => None,
        }
    }

    /// R17: `ITER.try_for_each(|x| BODY)` -> a loop that stops at the first `Err`
    fn lower_try_for_each(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let c = match (m.method == "try_for_each", m.args.first()) {
            (true, Some(Expr::Closure(c))) if c.inputs.len() == 1 => c,
            _ => return None,
        };
        let Expr::MethodCall(r) = &*m.receiver else { return None };
        if !r.args.is_empty() {
            return None;
        }
        let mut pat = c.inputs[0].clone();
        while let Pat::Reference(p) = pat {
            pat = (*p.pat).clone();
        }
        let rr = &r.receiver;
        let n = self.loop_n;
        let id = |s: &str| Ident::new(&format!("vx_{s}{n}"), Span::call_site());
        let (vs, vi, vr) = (id("x"), id("i"), id("r"));
        let body = &c.body;
        Some(match r.method.to_string().as_str() {
            "bytes" | "iter" => {
                let src = match &**rr {
                    _ if r.method == "bytes" => quote!(#rr.as_bytes()),
                    Expr::Index(_) => quote!(&#rr),
                    _ => quote!(#rr),
                };
                parse_quote!(({
                    let #vs = #src;
                    let mut #vi: usize = 0;
                    let mut #vr: core::result::Result<(), _> = Ok(());
                    while #vi < #vs.len() && #vr.is_ok() {
                        let #pat = #vs[#vi];
                        #vi = #vi + 1;
                        #vr = #body;
                    }
                    #vr
                }))
            }
            "chars" => {
                let f = vx("str_chars");
                parse_quote!(({
                    let mut #vs = #f(#rr);
                    let mut #vr: core::result::Result<(), _> = Ok(());
                    let mut #vi: Option<char> = #vs.next();
                    while #vi.is_some() && #vr.is_ok() {
                        let #pat = #vi.unwrap();
                        #vr = #body;
                        #vi = #vs.next();
                    }
                    #vr
                }))
            }
            _ => return None,
        })
    }

    /// R35: `X[a..].iter_mut().zip(S.bytes()).for_each(|(d, s)| *d = E)` -> a loop over the index
    fn lower_zip_fill(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let (true, Some(Expr::Closure(c))) = (m.method == "for_each" && m.args.len() == 1, m.args.first()) else { return None };
        let Expr::MethodCall(z) = &*m.receiver else { return None };
        let (true, Some(Expr::MethodCall(b))) = (z.method == "zip" && z.args.len() == 1, z.args.first()) else { return None };
        let Expr::MethodCall(im) = &*z.receiver else { return None };
        if im.method != "iter_mut" || !im.args.is_empty() || b.method != "bytes" || !b.args.is_empty() || c.inputs.len() != 1 {
            return None;
        }
        let Expr::Index(ix) = &*im.receiver else { return None };
        let Expr::Range(syn::ExprRange { start: Some(a), end: None, .. }) = &*ix.index else { return None };
        let Pat::Tuple(t) = &c.inputs[0] else { return None };
        let (Some(Pat::Ident(d)), Some(sp), 2) = (t.elems.first(), t.elems.last(), t.elems.len()) else { return None };
        let Expr::Assign(asn) = &*c.body else { return None };
        match &*asn.left {
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(q) if q.path.is_ident(&d.ident)) => {}
            _ => return None,
        }
        let n = self.loop_n;
        let id = |s: &str| Ident::new(&format!("vx_{s}{n}"), Span::call_site());
        let (vs, vi, vo) = (id("x"), id("i"), id("o"));
        let (x, sb, val) = (&ix.expr, &b.receiver, &asn.right);
        Some(parse_quote!({
            let #vo: usize = #a;
            let #vs = #sb.as_bytes();
            let mut #vi: usize = 0;
            while #vi < #x.len() - #vo && #vi < #vs.len() {
                let #sp = #vs[#vi];
                #x[#vo + #vi] = #val;
                #vi = #vi + 1;
            }
        }))
    }

    fn coarg(&self, p: &syn::ExprPath) -> bool {
        self.fc.opts.iter().any(|o| o.strip_prefix("coarg=").map_or(false, |l| l.split(',').any(|v| p.path.is_ident(v))))
    }

    fn lower_method(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        // R28: `PLACE.find_map(|p| E)` -> a loop that stops at the first `Some`
        if let (true, 1, Expr::Field(x), Some(Expr::Closure(c))) = (name == "find_map", m.args.len(), &*m.receiver, m.args.first()) {
            if c.inputs.len() == 1 {
                let vr = Ident::new(&format!("vx_r{}", self.loop_n), Span::call_site());
                let (p, body) = (&c.inputs[0], &c.body);
                let ty: syn::Type = self.fc.opts.iter().find_map(|o| o.strip_prefix("findty=")).map_or(parse_quote!(_), |t| syn::parse_str(t).unwrap());
                return Some(parse_quote!(({
                    let mut #vr: Option<#ty> = None;
                    loop {
                        let #p = match #x.next() { Some(vx_p) => vx_p, None => break };
                        #vr = #body;
                        if #vr.is_some() { break; }
                    }
                    #vr
                })));
            }
        }
        if let Some(e) = self.lower_zip_fill(m) {
            return Some(e);
        }
        if let Some(e) = self.lower_try_for_each(m) {
            return Some(e);
        }
        // R31: `X.map_while(|p| E).last()` -> a loop that stops at the first `None`
        if let (true, true, Expr::MethodCall(mw)) = (name == "last", m.args.is_empty(), &*m.receiver) {
            if let (true, 1, Some(Expr::Closure(c))) = (mw.method == "map_while", mw.args.len(), mw.args.first()) {
                if c.inputs.len() == 1 {
                    let id = |s: &str| Ident::new(&format!("vx_{s}{}", self.loop_n), Span::call_site());
                    let (vi, vr, vm) = (id("it"), id("r"), id("m"));
                    let (x, p, body) = (&mw.receiver, &c.inputs[0], &c.body);
                    let ty: syn::Type = self.fc.opts.iter().find_map(|o| o.strip_prefix("findty=")).map_or(parse_quote!(_), |t| syn::parse_str(t).unwrap());
                    return Some(parse_quote!(({
                        let mut #vi = #x;
                        let mut #vr: Option<#ty> = None;
                        loop {
                            let #p = match #vi.next() { Some(vx_p) => vx_p, None => break };
                            let #vm: Option<#ty> = #body;
                            match #vm { Some(vx_v) => { #vr = Some(vx_v); } None => break }
                        }
                        #vr
                    })));
                }
            }
        }
        // R21: `X[..n].copy_from_slice(S)`
        if name == "copy_from_slice" && m.args.len() == 1 {
            if let Expr::Index(ix) = &*m.receiver {
                if let Expr::Range(syn::ExprRange { start: None, end: Some(n), limits: syn::RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                    let (x, a) = (&ix.expr, &m.args[0]);
                    return Some(parse_quote!(crate::vx::copy_to_prefix(#x, #n, #a)));
                }
            }
        }
        // R21: `ARRAY.copy_within(r, d)`
        if name == "copy_within" && m.args.len() == 2 {
            let (x, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
            return Some(parse_quote!(crate::vx::array_copy_within(&mut #x, #a, #b)));
        }
        // `X.by_ref().take(n).count()` on a cursor over characters
        if name == "count" && m.args.is_empty() {
            if let Expr::MethodCall(t) = &*m.receiver {
                if let Expr::MethodCall(r) = &*t.receiver {
                    if t.method == "take" && t.args.len() == 1 && r.method == "by_ref" {
                        let (x, n) = (&r.receiver, &t.args[0]);
                        return Some(parse_quote!(#x.take_count(#n)));
                    }
                }
            }
        }
        if let Some((_, b)) = self.fc.mcalls.iter().find(|(a, _)| *a == format!(".{name}")) {
            if let Some(b) = b.strip_prefix('.') {
                let mut m = m.clone();
                m.method = Ident::new(b, Span::call_site());
                return Some(Expr::MethodCall(m));
            }
            if let Some(b) = b.strip_prefix("&mut:") {
                let f: Expr = syn::parse_str(b).unwrap_or_else(|_| panic!("bad call= target {b}"));
                let (r, a) = (&m.receiver, &m.args);
                return Some(parse_quote!(#f(&mut #r, #a)));
            }
            // a method of a trait with an impl-specific contract -> that impl
            let f: Expr = syn::parse_str(b).unwrap_or_else(|_| panic!("bad call= target {b}"));
            let (r, a) = (&m.receiver, &m.args);
            return Some(parse_quote!(#f(#r, #a)));
        }
        // R25: (option optmap) `X.map(path)` on an Option
        if name == "map" && self.fc.opts.iter().any(|o| o == "optmap") {
            if let Some(Expr::Path(p)) = m.args.first() {
                let r = &m.receiver;
                return Some(parse_quote!(match #r { Some(vx_v) => Some(#p(vx_v)), None => None }));
            }
        }
        if name == "map" && self.fc.opts.iter().any(|o| o == "resmap") {
            if let Some(Expr::Path(p)) = m.args.first() {
                let r = &m.receiver;
                return Some(parse_quote!(match #r { Ok(vx_v) => Ok(#p(vx_v)), Err(vx_e) => Err(vx_e) }));
            }
        }
        let recv = &m.receiver;
        let args: Vec<&Expr> = m.args.iter().collect();
        // R4: `str::get` with a range
        if name == "get" && args.len() == 1 {
            match args[0] {
                Expr::Range(syn::ExprRange { start: Some(a), end: None, .. }) => return Some(parse_quote!(crate::vx::str_get_from(#recv, #a))),
                Expr::MethodCall(c) if c.method == "clone" => {
                    let a = &c.receiver;
                    return Some(parse_quote!(crate::vx::str_get_range(#recv, crate::vx::VClone::vx_clone(&#a))));
                }
                _ => {}
            }
        }
        // R36: `X.get_or_insert_with(f)`
        if name == "get_or_insert_with" && args.len() == 1 {
            let a = args[0];
            return Some(parse_quote!(crate::vx::vx_goi(&mut #recv, #a)));
        }
        // R25: `X.map_or_else(Default::default, Into::into)` on an Option
        if name == "map_or_else" && args.len() == 2 && args[0].to_token_stream().to_string().replace(' ', "") == "Default::default" && args[1].to_token_stream().to_string().replace(' ', "") == "Into::into" {
            return Some(parse_quote!(match #recv { Some(vx_v) => crate::vx::VInto::vx_into(vx_v), None => crate::vx::VDefault::vx_default() }));
        }
        // R25: `X.unwrap_or_default()` on an Option
        if name == "unwrap_or_default" && args.is_empty() {
            return Some(parse_quote!(match #recv { Some(vx_v) => vx_v, None => crate::vx::VDefault::vx_default() }));
        }
        let ixrecv: Expr;
        let recv = match &**recv {
            // `X[a..].find('c')`: autoref of the receiver
            Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) && matches!(name.as_str(), "strip_prefix" | "strip_suffix" | "starts_with" | "ends_with" | "find" | "rfind" | "contains") => {
                ixrecv = parse_quote!(&#recv);
                &ixrecv
            }
            r => r,
        };
        let call = |f: &str, extra: Vec<Expr>| -> Option<Expr> {
            let f = vx(f);
            Some(parse_quote!(#f(#recv #(, #extra)*)))
        };
        match (name.as_str(), args.len()) {
            ("strip_prefix" | "strip_suffix" | "starts_with" | "ends_with" | "find" | "rfind" | "contains" | "split_once", 1) => {
                if is_lit_str(args[0]) {
                    return call(&format!("str_{name}_str"), vec![args[0].clone()]);
                }
                if is_lit_char(args[0]) {
                    return call(&format!("str_{name}_char"), vec![args[0].clone()]);
                }
                if name == "find" {
                    if let Expr::Closure(_) = args[0] {
                        // str::find(closure over chars)
                        if let Expr::MethodCall(_) = recv {
                        } else {
                            return call("str_find_fn", vec![args[0].clone()]);
                        }
                    }
                }
            }
            _ => {}
        }
        match (name.as_str(), args.len()) {
            ("copied", 0) => {
                if let Expr::MethodCall(r) = recv {
                    if r.method == "first" || r.method == "last" || r.method == "get" {
                        return call("opt_copied", vec![]);
                    }
                }
            }
            ("all" | "any" | "position" | "rposition" | "find" | "filter", 1) => {
                // X.bytes().all(C) / X.iter().all(|&b| ..) / X.iter().copied().find(|&b| ..)
                if let Expr::MethodCall(r) = recv {
                    let rr = &r.receiver;
                    let kind = match r.method.to_string().as_str() {
                        "bytes" if r.args.is_empty() => Some(quote!(#rr.as_bytes())),
                        "iter" if r.args.is_empty() => match &**rr {
                            Expr::Index(_) => Some(quote!(&#rr)),
                            _ => Some(quote!(#rr)),
                        },
                        "chars" if r.args.is_empty() => {
                            let f = vx(&format!("chars_{name}"));
                            let a = args[0];
                            return Some(parse_quote!(#f(#rr, #a)));
                        }
                        "into_iter" if r.args.is_empty() => {
                            let f = vx(&format!("into_{name}"));
                            let a = args[0];
                            return Some(parse_quote!(#f(#rr, #a)));
                        }
                        "split" if r.args.len() == 1 && is_lit_char(&r.args[0]) => {
                            let f = vx(&format!("split_{name}"));
                            let a = args[0];
                            let ch = &r.args[0];
                            return Some(parse_quote!(#f(#rr, #ch, #a)));
                        }
                        "copied" if r.args.is_empty() => {
                            if let Expr::MethodCall(q) = &*r.receiver {
                                if q.method == "iter" {
                                    let qq = &q.receiver;
                                    Some(quote!(#qq))
                                } else {
                                    None
                                }
                            } else {
                                None
                            }
                        }
                        _ => None,
                    };
                    if let Some(k) = kind {
                        let f = vx(&format!("bytes_{name}"));
                        let a = args[0];
                        return Some(parse_quote!(#f(#k, #a)));
                    }
                }
            }
            ("chars", 0) => return call("str_chars", vec![]),
            ("bytes", 0) => return call("str_bytes", vec![]),
            ("count", 0) => {
                // X.bytes().filter(C).count()
                if let Expr::MethodCall(fl) = recv {
                    if let (true, Expr::MethodCall(b)) = (fl.method == "filter" && fl.args.len() == 1, &*fl.receiver) {
                        if b.method == "bytes" && b.args.is_empty() {
                            let (x, c) = (&b.receiver, &fl.args[0]);
                            return Some(parse_quote!(crate::vx::bytes_filter_count(#x.as_bytes(), #c)));
                        }
                    }
                }
            }
            ("extend", 1) => {
                // R23: X.extend(core::iter::repeat(E).take(N))
                if let Expr::MethodCall(tk) = args[0] {
                    if let (true, Expr::Call(rp)) = (tk.method == "take" && tk.args.len() == 1, &*tk.receiver) {
                        if rp.func.to_token_stream().to_string().replace(' ', "").ends_with("iter::repeat") && rp.args.len() == 1 {
                            let (x, k) = (&rp.args[0], &tk.args[0]);
                            return Some(parse_quote!(#recv.vx_extend_repeat(#x, #k)));
                        }
                    }
                }
            }
            ("encode_utf8", 1) => return call("char_encode_utf8", vec![args[0].clone()]),
            ("is_ascii", 0) => return Some(parse_quote!(#recv.vx_is_ascii())),
            ("contains", 1) => {}
            _ => {}
        }
        if name == "contains" && args.len() == 1 {
            let mut r = recv;
            while let Expr::Paren(p) = r {
                r = &p.expr;
            }
            if let Expr::Range(rg) = r {
                if let (Some(lo), Some(hi), Expr::Reference(x)) = (&rg.start, &rg.end, args[0]) {
                    let x = &x.expr;
                    return Some(match rg.limits {
                        syn::RangeLimits::Closed(_) => parse_quote!((#lo <= #x && #x <= #hi)),
                        syn::RangeLimits::HalfOpen(_) => parse_quote!((#lo <= #x && #x < #hi)),
                    });
                }
            }
        }
        None
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_generic_argument_mut(&mut self, g: &mut syn::GenericArgument) {
        // R9: a local constant as a const generic argument
        if let syn::GenericArgument::Type(syn::Type::Path(p)) = g {
            if let Some((_, e)) = self.consts.iter().find(|(a, _)| p.path.is_ident(a)) {
                *g = syn::GenericArgument::Const(e.clone());
                return;
            }
        }
        visit_mut::visit_generic_argument_mut(self, g);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(syn::Item::Fn(f)) => {
                    self.nested.insert(f.sig.ident.to_string());
                }
                Stmt::Item(syn::Item::Const(c)) => {
                    // R9: local constants become immutable lets (integer literals: put in place)
                    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                    if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(_), .. }) = &**e {
                        self.consts.push((i.to_string(), (**e).clone()));
                        continue;
                    }
                    out.push(parse_quote!(let #i: #t = #e;));
                }
                // nested types and impls are put under contract on their own
                Stmt::Item(syn::Item::Use(_) | syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Impl(_)) => {}
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("__vx") {
                        out.push(Stmt::Macro(m));
                        continue;
                    }
                    match self.lower_macro(&m.mac) {
                        Some(e) => {
                            let semi = m.semi_token;
                            out.push(Stmt::Expr(e, semi));
                        }
                        None => out.push(Stmt::Macro(m)),
                    }
                }
                Stmt::Local(mut l) => {
                    if !cfg_active(&l.attrs, self.feats) {
                        continue;
                    }
                    l.attrs.clear();
                    // R21: `&mut [a, b, ..][..n]` -> a named array and its prefix
                    if let Some((a, n)) = l.init.as_ref().and_then(|i| array_prefix(&i.expr)) {
                        let id = self.fresh();
                        out.push(parse_quote!(let mut #id = #a;));
                        l.init.as_mut().unwrap().expr = Box::new(parse_quote!(crate::vx::array_prefix_mut(&mut #id, #n)));
                    }
                    out.push(Stmt::Local(l));
                }
                // R15: destructuring assignment `(a, b) = e;` -> fresh bindings, then plain assignments
                Stmt::Expr(Expr::Assign(a), _) if matches!(&*a.left, Expr::Tuple(_)) => {
                    if let Expr::Tuple(t) = &*a.left {
                        let rhs = &a.right;
                        let ids: Vec<Ident> = t.elems.iter().map(|_| self.fresh()).collect();
                        out.push(parse_quote!(let (#(#ids),*) = #rhs;));
                        for (i, x) in ids.iter().zip(t.elems.iter()) {
                            if matches!(x, Expr::Infer(_)) { continue; }
                            out.push(parse_quote!(#x = #i;));
                        }
                    }
                }
                Stmt::Expr(e, semi) => {
                    let attrs: &[syn::Attribute] = match &e {
                        Expr::Assign(a) => &a.attrs,
                        Expr::Block(a) => &a.attrs,
                        Expr::Call(a) => &a.attrs,
                        Expr::If(a) => &a.attrs,
                        Expr::MethodCall(a) => &a.attrs,
                        Expr::Match(a) => &a.attrs,
                        Expr::Return(a) => &a.attrs,
                        Expr::Macro(a) => &a.attrs,
                        _ => &[],
                    };
                    if !cfg_active(attrs, self.feats) {
                        continue;
                    }
                    out.push(Stmt::Expr(e, semi));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // arms and fields that are not compiled
        if let Expr::Match(m) = e {
            m.arms.retain(|a| cfg_active(&a.attrs, self.feats));
            for a in &mut m.arms { a.attrs.clear(); }
        }
        if let Expr::Struct(x) = e {
            if x.fields.iter().any(|f| !f.attrs.is_empty()) {
                x.fields = std::mem::take(&mut x.fields).into_iter().filter(|f| cfg_active(&f.attrs, self.feats)).map(|mut f| { f.attrs.clear(); f }).collect();
            }
        }
        // pre-order lowering
        loop {
            let n = match e {
                Expr::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("__vx") {
                        None
                    } else {
                        self.lower_macro(&m.mac)
                    }
                }
                Expr::Match(m) => self.lower_slice_match(m),
                Expr::MethodCall(m) => self.lower_method(m),
                // R34: (option rankcmp) derived ordering of field-less enums: by position of the variant
                Expr::Binary(b) if matches!(b.op, syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_)) && self.fc.opts.iter().any(|o| o == "rankcmp") => {
                    let done = |e: &Expr| matches!(e, Expr::MethodCall(m) if m.method == "vx_rank");
                    if done(&b.left) {
                        None
                    } else {
                        let (l, op, r) = (&b.left, &b.op, &b.right);
                        Some(parse_quote!(#l.vx_rank() #op #r.vx_rank()))
                    }
                }
                // R29: comparison with a byte string literal
                Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && matches!(&*b.right, Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(_), .. })) => {
                    let Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(l), .. }) = &*b.right else { unreachable!() };
                    let els: Vec<syn::LitInt> = l.value().iter().map(|b| syn::LitInt::new(&format!("{b}u8"), Span::call_site())).collect();
                    let x = &b.left;
                    if matches!(b.op, syn::BinOp::Eq(_)) { Some(parse_quote!(crate::vx::slice_is(#x, &[#(#els),*]))) } else { Some(parse_quote!(!crate::vx::slice_is(#x, &[#(#els),*]))) }
                }
                // R29: comparison of an optional string with `Some("literal")`
                Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && some_str_lit(&b.right).is_some() => {
                    let l = some_str_lit(&b.right).unwrap();
                    let x = &b.left;
                    if matches!(b.op, syn::BinOp::Eq(_)) { Some(parse_quote!(crate::vx::opt_str_is(#x, #l))) } else { Some(parse_quote!(!crate::vx::opt_str_is(#x, #l))) }
                }
                // R12: `&x[a..b]` -> the range methods of `vx::VSlice`
                Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
                    // R19: (option co=) `&v` of a `String` where the callee takes `&str`
                    p @ (Expr::Path(_) | Expr::Field(_)) if self.fc.opts.iter().any(|o| {
                        o.strip_prefix("co=").map_or(false, |l| l.split(',').any(|v| p.to_token_stream().to_string().replace(' ', "") == v))
                    }) => Some(parse_quote!(#p.vx_as_str())),
                    Expr::Index(ix) => match &*ix.index {
                        Expr::Range(rg) => {
                            let x = &ix.expr;
                            match (&rg.start, &rg.end, &rg.limits) {
                                (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(#x.vx_range(#a, #b))),
                                (Some(a), Some(b), _) => Some(parse_quote!(#x.vx_range(#a, (#b) + 1))),
                                (Some(a), None, _) => Some(parse_quote!(#x.vx_from(#a))),
                                (None, Some(b), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(#x.vx_to(#b))),
                                (None, Some(b), _) => Some(parse_quote!(#x.vx_to((#b) + 1))),
                                (None, None, _) => Some(parse_quote!(#x.vx_from(0))),
                            }
                        }
                        // (with option `rangeidx`) the index is a range value
                        e if self.fc.opts.iter().any(|o| o == "rangeidx") => {
                            let x = &ix.expr;
                            Some(parse_quote!(crate::vx::VIdx::vx_idx(#e, #x)))
                        }
                        _ => None,
                    },
                    _ => None,
                },
                Expr::Path(p) if self.consts.iter().any(|(a, _)| p.path.is_ident(a)) => {
                    let v = &self.consts.iter().find(|(a, _)| p.path.is_ident(a)).unwrap().1;
                    Some(parse_quote!((#v)))
                }
                // R21: mutable borrows of arrays and prefixes
                Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                    Expr::Repeat(a) => {
                        // the borrow itself is left to rustc; only the unsizing is named
                        let a = Expr::Repeat(a.clone());
                        let f = vx("array_mut");
                        if self.in_amut { self.in_amut = false; None } else {
                            self.in_amut = true;
                            Some(parse_quote!(#f(&mut #a)))
                        }
                    }
                    Expr::Index(ix) => match &*ix.index {
                        Expr::Range(syn::ExprRange { start: None, end: Some(n), limits: syn::RangeLimits::HalfOpen(_), .. }) => {
                            let x = &ix.expr;
                            Some(parse_quote!(crate::vx::slice_to_mut(#x, #n)))
                        }
                        _ => None,
                    },
                    _ => None,
                },
                Expr::Path(p) if self.fc.mcalls.iter().any(|(a, _)| *a == p.to_token_stream().to_string().replace(' ', "")) => {
                    let n = p.to_token_stream().to_string().replace(' ', "");
                    let b = &self.fc.mcalls.iter().find(|(a, _)| *a == n).unwrap().1;
                    Some(syn::parse_str(b).unwrap())
                }
                // (option coarg=) a `String` variable passed where the callee takes `&str`
                Expr::Call(c) if !c.func.to_token_stream().to_string().contains("mem") && c.args.iter().any(|a| matches!(a, Expr::Path(p) if self.coarg(p))) => {
                    let mut c = c.clone();
                    for a in c.args.iter_mut() {
                        let is = matches!(a, Expr::Path(p) if self.coarg(p));
                        if is {
                            *a = parse_quote!(#a.vx_as_str());
                        }
                    }
                    Some(Expr::Call(c))
                }
                Expr::Call(c) if c.args.is_empty() && c.func.to_token_stream().to_string().replace(' ', "") == "Default::default" => {
                    Some(parse_quote!(crate::vx::VDefault::vx_default()))
                }
                // R11: lossless `u32::from(x)` -> cast; truncating `as i8` marked as such
                Expr::Call(c) if c.args.len() == 1 => {
                    let f = c.func.to_token_stream().to_string().replace(' ', "");
                    let a = &c.args[0];
                    match f.as_str() {
                        "u32::from" => Some(parse_quote!(((#a) as u32))),
                        "usize::from" => Some(parse_quote!(((#a) as usize))),
                        "char::from" => Some(parse_quote!(((#a) as char))),
                        "u16::from" => Some(parse_quote!(((#a) as u16))),
                        _ => None,
                    }
                }
                Expr::Cast(c) if c.ty.to_token_stream().to_string() == "i8" => {
                    let x = &c.expr;
                    Some(parse_quote!(crate::vx::u8_as_i8(#x)))
                }
                Expr::Unsafe(u) => {
                    let b = &u.block;
                    Some(parse_quote!(#b))
                }
                // R8: ASCII string literals outside patterns
                Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => {
                    let bytes = s.value().into_bytes();
                    if bytes.iter().all(|b| *b < 128) {
                        let f = vx("lit_str");
                        let els: Vec<syn::LitInt> = bytes
                            .iter()
                            .map(|b| syn::LitInt::new(&format!("{b}u8"), Span::call_site()))
                            .collect();
                        *e = parse_quote!(#f(&[#(#els),*]));
                    }
                    return;
                }
                _ => None,
            };
            match n {
                Some(x) => *e = x,
                None => break,
            }
        }
        // R29: string literals inside patterns -> a guard that compares bytes
        if let Expr::Match(m) = e {
            for a in &mut m.arms {
                let mut conds: Vec<Expr> = vec![];
                match &a.pat {
                    Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))) => {
                        let ds: Vec<Expr> = o.cases.iter().map(|c| -> Expr { parse_quote!(crate::vx::str_is(vx_l0, #c)) }).collect();
                        conds.push(parse_quote!((#(#ds)||*)));
                        a.pat = parse_quote!(vx_l0);
                    }
                    _ => str_pats(&mut a.pat, &mut conds),
                }
                if !conds.is_empty() {
                    if let Some((_, g)) = &a.guard {
                        conds.push((**g).clone());
                    }
                    a.guard = Some((parse_quote!(if), Box::new(conj(&conds))));
                }
            }
        }
        // closures: number in pre-order
        if let Expr::Closure(c) = e {
            let n = self.clo_n;
            self.clo_n += 1;
            if let Some((_, x)) = self.fc.lifts.iter().find(|(k, _)| *k == n) {
                // R30: the closure as a value of a struct of its captured variables
                if let Ok(x) = syn::parse_str::<Expr>(x) {
                    *e = x;
                    return;
                }
            }
            self.visit_expr_mut(&mut c.body);
            if let Some(t) = self.fc.closures.get(&n) {
                let names = closure_param_names(t);
                let id = syn::Index::from(self.raw(t.clone()));
                let body = &c.body;
                // the contract fixes parameter names; bind the source's own patterns to them
                let mut lets: Vec<Stmt> = vec![];
                if names.len() == c.inputs.len() {
                    for (nm, p) in names.iter().zip(c.inputs.iter()) {
                        let mut p = p.clone();
                        while let Pat::Reference(r) = p {
                            p = (*r.pat).clone();
                        }
                        if let Pat::Type(t) = p {
                            p = (*t.pat).clone();
                        }
                        match &p {
                            Pat::Ident(i) if i.ident == *nm => {}
                            Pat::Wild(_) => {}
                            p => {
                                let id = Ident::new(nm, Span::call_site());
                                lets.push(parse_quote!(let #p = #id;));
                            }
                        }
                    }
                }
                *e = parse_quote!(__vx_clo!(#id, { #(#lets)* #body }));
            } else {
                // strip `&x` parameter patterns of the adaptors handled by R3
                for (k, p) in c.inputs.iter_mut().enumerate() {
                    if let Pat::Reference(r) = p {
                        *p = (*r.pat).clone();
                    }
                    if let Pat::Wild(_) = p {
                        let id = Ident::new(&format!("_vx_w{k}"), Span::call_site());
                        *p = parse_quote!(#id);
                    }
                }
            }
            return;
        }
        if let Expr::ForLoop(f) = e {
            if let Some(x) = lower_flatten(f, self.loop_n).or_else(|| lower_iter_mut(f, self.loop_n)).or_else(|| lower_chunks_zip(f, self.loop_n)).or_else(|| lower_split(f, self.loop_n)) {
                *e = x;
            } else if self.fc.opts.iter().any(|o| o == "foriter") {
                // R27: `for p in E` -> the loop over `into_iter` and `next` it stands for
                let it = Ident::new(&format!("vx_it{}", self.loop_n), Span::call_site());
                let (p, x, lab, stmts) = (&f.pat, &f.expr, &f.label, &f.body.stmts);
                // `&mut X`: `into_iter` is the identity
                let by_ref = match &**x {
                    Expr::Reference(r) if r.mutability.is_some() && matches!(&*r.expr, Expr::Path(_)) => Some((*r.expr).clone()),
                    _ => None,
                };
                *e = if let Some(x) = by_ref { parse_quote!({
                    #lab loop {
                        let #p = match #x.next() { Some(vx_p) => vx_p, None => break };
                        #(#stmts)*
                    }
                }) } else { parse_quote!({
                    let mut #it = (#x).vx_into_iter();
                    #lab loop {
                        let #p = match #it.next() { Some(vx_p) => vx_p, None => break };
                        #(#stmts)*
                    }
                }) };
            }
        }
        // loops
        let mut this_loop = None;
        match e {
            Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => {
                this_loop = Some(self.loop_n);
                self.loop_n += 1;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = this_loop {
            let body = match e {
                Expr::While(w) => &mut w.body,
                Expr::Loop(w) => &mut w.body,
                Expr::ForLoop(w) => &mut w.body,
                _ => unreachable!(),
            };
            let starts: Vec<String> = self
                .fc
                .proofs
                .iter()
                .filter(|(a, _)| *a == format!("loop {n} start"))
                .map(|(_, t)| t.clone())
                .collect();
            let ends: Vec<String> = self
                .fc
                .proofs
                .iter()
                .filter(|(a, _)| *a == format!("loop {n} end"))
                .map(|(_, t)| t.clone())
                .collect();
            let mut pre: Vec<Stmt> = vec![];
            if let Some(t) = self.fc.loops.get(&n) {
                let id = syn::Index::from(self.raw(t.clone()));
                pre.push(parse_quote!(__vx_inv!(#id);));
            }
            for t in starts {
                pre.push(self.raw_stmt(t));
            }
            pre.extend(std::mem::take(&mut body.stmts));
            for t in ends {
                pre.push(self.raw_stmt(t));
            }
            body.stmts = pre;
        }
        // calls to hoisted nested functions
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                if p.path.segments.len() == 1 {
                    let s = p.path.segments[0].ident.to_string();
                    if self.nested.contains(&s) {
                        p.path.segments[0].ident =
                            Ident::new(&format!("{}__{}", self.outer, s), Span::call_site());
                    }
                }
            }
        }
    }
}

/// R21: `&mut [..][..n]`
fn array_prefix(e: &Expr) -> Option<(Expr, Expr)> {
    if let Expr::Reference(r) = e {
        if let (true, Expr::Index(ix)) = (r.mutability.is_some(), &*r.expr) {
            if let (Expr::Array(_), Expr::Range(rg)) = (&*ix.expr, &*ix.index) {
                if let (None, Some(n), syn::RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                    return Some(((*ix.expr).clone(), (**n).clone()));
                }
            }
        }
    }
    None
}

/// R32: `for p in X.iter().flatten()` over an array of options -> a loop over the index
fn lower_flatten(f: &syn::ExprForLoop, n: usize) -> Option<Expr> {
    let Expr::MethodCall(m) = &*f.expr else { return None };
    let Expr::MethodCall(it) = &*m.receiver else { return None };
    if m.method != "flatten" || it.method != "iter" || !m.args.is_empty() || !it.args.is_empty() {
        return None;
    }
    let (x, p, lab, stmts) = (&it.receiver, &f.pat, &f.label, &f.body.stmts);
    let vi = Ident::new(&format!("vx_i{n}"), Span::call_site());
    Some(parse_quote!({
        let mut #vi: usize = 0;
        #lab while #vi < #x.len() {
            let vx_o = &#x[#vi];
            #vi = #vi + 1;
            if let Some(#p) = vx_o {
                #(#stmts)*
            }
        }
    }))
}

/// R26: `for p in X.split('c')` and `for (i, p) in X.split('c').enumerate()` -> a loop over the split cursor
fn lower_split(f: &syn::ExprForLoop, n: usize) -> Option<Expr> {
    let Expr::MethodCall(m) = &*f.expr else { return None };
    let (sp, en) = if m.method == "enumerate" && m.args.is_empty() {
        let Expr::MethodCall(sp) = &*m.receiver else { return None };
        (sp, true)
    } else {
        (m, false)
    };
    if sp.method != "split" || sp.args.len() != 1 || !is_lit_char(&sp.args[0]) {
        return None;
    }
    let (i, p): (Option<&Pat>, &Pat) = match (&*f.pat, en) {
        (Pat::Tuple(t), true) if t.elems.len() == 2 => (Some(&t.elems[0]), &t.elems[1]),
        (p, false) => (None, p),
        _ => return None,
    };
    let (x, c) = (&sp.receiver, &sp.args[0]);
    let id = |s: &str| Ident::new(&format!("vx_{s}{n}"), Span::call_site());
    let (it, vi) = (id("it"), id("i"));
    let stmts = &f.body.stmts;
    let lab = &f.label;
    Some(match i {
        Some(i) => parse_quote!({
            let mut #it = crate::vx::str_split_char(#x, #c);
            let mut #vi: usize = 0;
            #lab loop {
                let #p = match #it.next() { Some(vx_p) => vx_p, None => break };
                let #i = #vi;
                #vi = #vi + 1;
                #(#stmts)*
            }
        }),
        None => parse_quote!({
            let mut #it = crate::vx::str_split_char(#x, #c);
            #lab loop {
                let #p = match #it.next() { Some(vx_p) => vx_p, None => break };
                #(#stmts)*
            }
        }),
    })
}

/// R20: `for (i, d) in x[a..].iter_mut().enumerate() { .. *d .. }` -> a loop over the index
fn lower_iter_mut(f: &syn::ExprForLoop, n: usize) -> Option<Expr> {
    let Pat::Tuple(t) = &*f.pat else { return None };
    let (Pat::Ident(i), Pat::Ident(d)) = (t.elems.first()?, t.elems.last()?) else { return None };
    let Expr::MethodCall(en) = &*f.expr else { return None };
    let Expr::MethodCall(im) = &*en.receiver else { return None };
    if t.elems.len() != 2 || en.method != "enumerate" || im.method != "iter_mut" {
        return None;
    }
    let Expr::Index(ix) = &*im.receiver else { return None };
    let Expr::Range(rg) = &*ix.index else { return None };
    let (Some(a), None) = (&rg.start, &rg.end) else { return None };
    let x = &ix.expr;
    struct Place<'a>(&'a Ident, Expr);
    impl VisitMut for Place<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Unary(u) = e {
                if let (syn::UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                    if p.path.is_ident(self.0) {
                        *e = self.1.clone();
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let i = &i.ident;
    let vi = Ident::new(&format!("vx_i{n}"), Span::call_site());
    let mut body = f.body.clone();
    Place(&d.ident, parse_quote!(#x[(#a) + #i])).visit_block_mut(&mut body);
    let stmts = &body.stmts;
    Some(parse_quote!({
        crate::vx::dbg_assert(#a <= #x.len());
        let mut #vi: usize = 0;
        while #vi < #x.len() - (#a) {
            let #i = #vi;
            #vi = #vi + 1;
            #(#stmts)*
        }
    }))
}

/// R22: `for (d, b) in X.chunks_exact_mut(N).zip(Y.by_ref()) { .. d[k] .. }` -> a loop over the chunk number
fn lower_chunks_zip(f: &syn::ExprForLoop, n: usize) -> Option<Expr> {
    let Pat::Tuple(t) = &*f.pat else { return None };
    let (Pat::Ident(d), b) = (t.elems.first()?, t.elems.last()?) else { return None };
    let Expr::MethodCall(z) = &*f.expr else { return None };
    let Expr::MethodCall(ch) = &*z.receiver else { return None };
    if t.elems.len() != 2 || z.method != "zip" || ch.method != "chunks_exact_mut" || z.args.len() != 1 || ch.args.len() != 1 {
        return None;
    }
    let Expr::MethodCall(by) = &z.args[0] else { return None };
    if by.method != "by_ref" {
        return None;
    }
    let (x, size, y) = (&ch.receiver, &ch.args[0], &by.receiver);
    let id = |s: &str| Ident::new(&format!("vx_{s}{n}"), Span::call_site());
    let (vi, vn, vb) = (id("i"), id("n"), id("b"));
    struct Place<'a>(&'a Ident, &'a Expr, Ident, &'a Expr);
    impl VisitMut for Place<'_> {
        fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
            if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                for e in a.iter_mut() {
                    self.visit_expr_mut(e);
                }
                m.tokens = a.to_token_stream();
            }
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            match e {
                Expr::Index(ix) if matches!(&*ix.expr, Expr::Path(p) if p.path.is_ident(self.0)) => {
                    let (x, b, k) = (self.1, &self.2, &ix.index);
                    *e = parse_quote!(#x[#b + (#k)]);
                }
                Expr::MethodCall(m) if m.method == "len" && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(self.0)) => {
                    let n = self.3;
                    *e = parse_quote!((#n));
                }
                _ => {}
            }
        }
    }
    let mut body = f.body.clone();
    Place(&d.ident, x, vb.clone(), size).visit_block_mut(&mut body);
    let stmts = &body.stmts;
    Some(parse_quote!({
        let mut #vi: usize = 0;
        let #vn: usize = #x.len() / (#size);
        while #vi < #vn {
            let #b = match #y.next() { Some(vx_v) => vx_v, None => break };
            let #vb: usize = #vi * (#size);
            #vi = #vi + 1;
            #(#stmts)*
        }
    }))
}

/// `Self::X` -> the associated type; with `whole`, `Self` -> the self type
struct SelfSubst<'a> {
    assoc: &'a [(String, syn::Type)],
    whole: Option<syn::Type>,
}
impl<'a> VisitMut for SelfSubst<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                let n = p.path.segments[1].ident.to_string();
                if let Some((_, ty)) = self.assoc.iter().find(|(a, _)| *a == n) {
                    *t = ty.clone();
                    return;
                }
            }
            if let (Some(w), true) = (&self.whole, p.path.is_ident("Self")) {
                *t = w.clone();
            }
        }
    }
    fn visit_expr_struct_mut(&mut self, e: &mut syn::ExprStruct) {
        if let (Some(syn::Type::Path(w)), true) = (&self.whole, e.path.is_ident("Self")) {
            let mut q = w.path.clone();
            q.segments.iter_mut().for_each(|s| s.arguments = syn::PathArguments::None);
            e.path = q;
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if let (Some(w), true) = (&self.whole, p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self") {
            let n = &p.path.segments[1];
            *p = parse_quote!(<#w>::#n);
        }
        // a function of an associated type: `Self::A::f` -> `<Ty>::f`
        if p.qself.is_none() && p.path.segments.len() == 3 && p.path.segments[0].ident == "Self" {
            let a = p.path.segments[1].ident.to_string();
            if let Some((_, ty)) = self.assoc.iter().find(|(x, _)| *x == a) {
                let n = &p.path.segments[2];
                *p = parse_quote!(<#ty>::#n);
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
}

/// R18: `fn() -> S` (only inside `PhantomData`) -> `S`
struct BareFn;
impl VisitMut for BareFn {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::BareFn(b) = t {
            if b.inputs.is_empty() {
                if let syn::ReturnType::Type(_, r) = &b.output {
                    let r = (**r).clone();
                    *t = r;
                }
            }
        }
        // R24: core/alloc types with a model in `vx`
        if let syn::Type::Path(p) = t {
            let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if n.len() == 3 && n[0] == "core" && n[1] == "fmt" {
                let last = p.path.segments.last().unwrap().clone();
                p.path = parse_quote!(crate::vfmt::#last);
                return;
            }
            if n.join("::") == "alloc::string::String" {
                p.path = parse_quote!(String);
                return;
            }
            let to = match n.join("::").as_str() {
                "core::str::Bytes" => "VBytes",
                "alloc::collections::TryReserveError" => "TryReserveError",
                _ => return,
            };
            let mut last = p.path.segments.last().unwrap().clone();
            last.ident = Ident::new(to, Span::call_site());
            p.path = parse_quote!(crate::vx::#last);
        }
    }
    // R24: `AsRef` -> the crate's `AsRef` impls with a contract per impl
    fn visit_trait_bound_mut(&mut self, t: &mut syn::TraitBound) {
        visit_mut::visit_trait_bound_mut(self, t);
        if t.path.segments.len() == 1 && t.path.segments[0].ident == "AsRef" {
            let mut last = t.path.segments[0].clone();
            last.ident = Ident::new("VAsRef", Span::call_site());
            t.path = parse_quote!(crate::vx::#last);
        }
    }
    // R24: `*b".."` -> the array
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let (syn::UnOp::Deref(_), Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. })) = (&u.op, &*u.expr) {
                let els: Vec<syn::LitInt> = b.value().iter().map(|b| syn::LitInt::new(&format!("{b}u8"), Span::call_site())).collect();
                *e = parse_quote!([#(#els),*]);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Subst<'a>(&'a [(String, String)]);
impl<'a> VisitMut for Subst<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if let Some(id) = p.path.get_ident() {
                for (a, b) in self.0 {
                    if id == a {
                        *t = syn::parse_str(b).unwrap();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "as_ref" && m.args.is_empty() && self.0.iter().any(|(a, _)| a == "T") {
                let r = &m.receiver;
                if self.0.iter().any(|(_, b)| b == "str") {
                    *e = parse_quote!(#r.as_bytes());
                } else {
                    *e = (**r).clone();
                }
            }
        }
    }
}

/// Anchored proof text: after the first `let` that binds NAME, before the tail
/// expression, before loop K, before the first `return`.
fn splice_block(rw: &mut Rw, b: &mut Block, fc: &FnContract) -> Vec<String> {
    let mut missing = vec![];
    for (anchor, text) in &fc.proofs {
        let w: Vec<&str> = anchor.split_whitespace().collect();
        match w.as_slice() {
            ["start"] => {
                let s = rw.raw_stmt(text.clone());
                b.stmts.insert(0, s);
            }
            ["end"] => {
                let s = rw.raw_stmt(text.clone());
                b.stmts.push(s);
            }
            ["tail"] => {
                // before the tail expression, whose value is named vx_ret
                if let Some(Stmt::Expr(_, None)) = b.stmts.last() {
                    let s = rw.raw_stmt(text.clone());
                    let n = b.stmts.len() - 1;
                    b.stmts.insert(n, s);
                } else {
                    let s = rw.raw_stmt(text.clone());
                    b.stmts.push(s);
                }
            }
            ["bindtail"] => {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                    b.stmts.pop();
                    b.stmts.push(parse_quote!(let vx_ret = #e;));
                    let s = rw.raw_stmt(text.clone());
                    b.stmts.push(s);
                    b.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                } else {
                    missing.push(anchor.clone());
                }
            }
            ["let", name] => {
                if !insert_after_let(rw, b, name, text) {
                    missing.push(anchor.clone());
                }
            }
            ["before", "loop", k] => {
                let k: usize = k.parse().unwrap();
                let mut n = 0;
                if !insert_before_loop(rw, b, k, &mut n, text) {
                    missing.push(anchor.clone());
                }
            }
            ["after", "loop", k] => {
                let k: usize = k.parse().unwrap();
                let mut n = 0;
                if !insert_after_loop(rw, b, k, &mut n, text) {
                    missing.push(anchor.clone());
                }
            }
            ["loop", _, "start"] | ["loop", _, "end"] => {}
            _ => missing.push(anchor.clone()),
        }
    }
    missing
}
fn insert_after_let(rw: &mut Rw, b: &mut Block, name: &str, text: &str) -> bool {
    struct V<'x, 'y> {
        rw: &'x mut Rw<'y>,
        name: &'x str,
        text: &'x str,
        done: bool,
    }
    fn binds(p: &Pat, n: &str) -> bool {
        match p {
            Pat::Ident(i) => i.ident == n,
            Pat::Tuple(t) => t.elems.iter().any(|p| binds(p, n)),
            Pat::Type(t) => binds(&t.pat, n),
            _ => false,
        }
    }
    impl<'x, 'y> VisitMut for V<'x, 'y> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            if self.done {
                return;
            }
            for i in 0..b.stmts.len() {
                let hit = matches!(&b.stmts[i], Stmt::Local(l) if binds(&l.pat, self.name));
                if hit {
                    let s = self.rw.raw_stmt(self.text.to_string());
                    b.stmts.insert(i + 1, s);
                    self.done = true;
                    return;
                }
                self.visit_stmt_mut(&mut b.stmts[i]);
                if self.done {
                    return;
                }
            }
        }
    }
    let mut v = V { rw, name, text, done: false };
    v.visit_block_mut(b);
    v.done
}
fn loop_stmt(s: &Stmt) -> bool {
    matches!(s, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _))
}
fn insert_before_loop(rw: &mut Rw, b: &mut Block, k: usize, n: &mut usize, text: &str) -> bool {
    insert_at_loop(rw, b, k, n, text, 0)
}
fn insert_after_loop(rw: &mut Rw, b: &mut Block, k: usize, n: &mut usize, text: &str) -> bool {
    insert_at_loop(rw, b, k, n, text, 1)
}
fn insert_at_loop(rw: &mut Rw, b: &mut Block, k: usize, n: &mut usize, text: &str, off: usize) -> bool {
    struct V<'x, 'y> {
        rw: &'x mut Rw<'y>,
        k: usize,
        n: usize,
        text: &'x str,
        off: usize,
        done: bool,
    }
    impl<'x, 'y> VisitMut for V<'x, 'y> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut i = 0;
            while i < b.stmts.len() && !self.done {
                if loop_stmt(&b.stmts[i]) {
                    if self.n == self.k {
                        let s = self.rw.raw_stmt(self.text.to_string());
                        b.stmts.insert(i + self.off, s);
                        self.done = true;
                        return;
                    }
                    self.n += 1;
                }
                self.visit_stmt_mut(&mut b.stmts[i]);
                i += 1;
            }
        }
    }
    let mut v = V { rw, k, n: *n, text, off, done: false };
    v.visit_block_mut(b);
    *n = v.n;
    v.done
}

/// R30: the body of the N-th closure of a function as a method of a struct of its captured variables
pub fn closure_as_fn(f: Found, n: &str, fc: &FnContract) -> Result<Found, String> {
    struct V {
        left: usize,
        out: Option<syn::ExprClosure>,
    }
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
            if self.out.is_none() {
                if self.left == 0 {
                    self.out = Some(c.clone());
                    return;
                }
                self.left -= 1;
            }
            syn::visit::visit_expr_closure(self, c);
        }
        fn visit_item(&mut self, _: &'ast syn::Item) {}
    }
    let mut v = V { left: n.parse().map_err(|_| format!("bad closure number {n}"))?, out: None };
    syn::visit::Visit::visit_block(&mut v, &f.block);
    let c = v.out.ok_or_else(|| format!("no closure {n}"))?;
    let sig: syn::Signature = syn::parse_str(&fc.sig).map_err(|e| format!("sig: {e}"))?;
    let im: syn::ItemImpl = syn::parse_str(&format!("{} {{}}", fc.inimpl)).map_err(|e| format!("inimpl: {e}"))?;
    // parameters: bind the closure's own patterns to the names of the signature
    let names: Vec<Ident> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            syn::FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some(i.ident.clone()),
                _ => None,
            },
            _ => None,
        })
        .collect();
    if names.len() != c.inputs.len() {
        return Err("closure arity".into());
    }
    let mut stmts: Vec<Stmt> = vec![];
    for (id, p) in names.iter().zip(c.inputs.iter()) {
        let p = match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        match &p {
            Pat::Ident(i) if i.ident == *id => {}
            p => stmts.push(parse_quote!(let #p = #id;)),
        }
    }
    match &*c.body {
        Expr::Block(b) if b.label.is_none() => stmts.extend(b.block.stmts.clone()),
        e => stmts.push(Stmt::Expr(e.clone(), None)),
    }
    let block: Block = parse_quote!({ #(#stmts)* });
    Ok(Found { sig, block, imp: Some((im.generics.clone(), (*im.self_ty).clone())), assoc: vec![], line: f.line, vis_const: false })
}
/// R30: `f(x)`, `(self.f)(x)` -> `f.call(x)`
struct FnCall<'a>(&'a [String]);
impl VisitMut for FnCall<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let mut f = &*c.func;
            while let Expr::Paren(p) = f {
                f = &p.expr;
            }
            let hit = match f {
                Expr::Path(p) => self.0.iter().any(|n| p.path.is_ident(n.as_str())),
                Expr::Field(x) => matches!(&x.member, syn::Member::Named(m) if self.0.iter().any(|n| m == n.as_str())),
                _ => false,
            };
            if hit {
                let a = &c.args;
                *e = parse_quote!((#f).call(#a));
            }
        }
    }
}
/// R30: `FnMut(..) -> ..` bounds
struct FnBound<'a>(&'a syn::Path);
impl VisitMut for FnBound<'_> {
    fn visit_trait_bound_mut(&mut self, t: &mut syn::TraitBound) {
        if t.path.segments.last().map_or(false, |s| s.ident == "FnMut") {
            t.path = self.0.clone();
        }
    }
}
/// R30: captured variables -> fields
struct Caps(Vec<(String, Expr)>);
impl VisitMut for Caps {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some((_, x)) = self.0.iter().find(|(a, _)| p.path.is_ident(a.as_str())) {
                *e = x.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn emit_fn(
    mut fd: Found,
    fc: &FnContract,
    stub: bool,
    probe: bool,
    feats: &[String],
) -> Result<Emitted, String> {
    BareFn.visit_signature_mut(&mut fd.sig);
    BareFn.visit_block_mut(&mut fd.block);
    let outer = fd.sig.ident.to_string();
    let base = match fc.path.split_once('/') {
        Some((o, n)) => format!("{}__{}", o.rsplit("::").next().unwrap(), n),
        None => outer.clone(),
    };
    let gen_name = fc.rename.clone().unwrap_or(base);
    {
        let whole = match (&fd.imp, fc.free) {
            (Some((_, st)), true) => Some(st.clone()),
            _ => None,
        };
        let mut s = SelfSubst { assoc: &fd.assoc, whole };
        s.visit_signature_mut(&mut fd.sig);
        s.visit_block_mut(&mut fd.block);
        BareFn.visit_signature_mut(&mut fd.sig);
        BareFn.visit_block_mut(&mut fd.block);
        if let (Some((g, _)), true) = (&fd.imp, fc.free) {
            let mut ps = g.params.clone();
            for p in fd.sig.generics.params.iter() {
                ps.push(p.clone());
            }
            let (l, r): (Vec<_>, Vec<_>) = ps.into_iter().partition(|p| matches!(p, syn::GenericParam::Lifetime(_)));
            fd.sig.generics.params = l.into_iter().chain(r).collect();
            if fd.sig.generics.lt_token.is_none() {
                fd.sig.generics.lt_token = Some(Default::default());
                fd.sig.generics.gt_token = Some(Default::default());
            }
        }
    }
    // R30: a callback parameter `F: FnMut(..)` as an implementor of the trait of its contract
    let fncall: Vec<String> = fc.opts.iter().filter_map(|o| o.strip_prefix("fncall=").map(|x| x.to_string())).collect();
    if !fncall.is_empty() {
        FnCall(&fncall).visit_block_mut(&mut fd.block);
    }
    if let Some(b) = fc.opts.iter().find_map(|o| o.strip_prefix("fnbound=")) {
        let b: syn::Path = syn::parse_str(b).map_err(|e| format!("fnbound: {e}"))?;
        FnBound(&b).visit_signature_mut(&mut fd.sig);
        if let Some((g, _)) = &mut fd.imp {
            FnBound(&b).visit_generics_mut(g);
        }
    }
    if !fc.subst.is_empty() {
        let mut s = Subst(&fc.subst);
        s.visit_signature_mut(&mut fd.sig);
        s.visit_block_mut(&mut fd.block);
        let names: Vec<&String> = fc.subst.iter().map(|(a, _)| a).collect();
        let kept: syn::punctuated::Punctuated<syn::GenericParam, syn::Token![,]> = fd
            .sig
            .generics
            .params
            .iter()
            .filter(|p| match p {
                syn::GenericParam::Type(t) => !names.contains(&&t.ident.to_string()),
                _ => true,
            })
            .cloned()
            .collect();
        fd.sig.generics.params = kept;
        fd.sig.generics.where_clause = None;
    }
    let mut rw = Rw {
        fc,
        raws: vec![],
        loop_n: 0,
        clo_n: 0,
        dbg_n: 0,
        outer: fc.path.split('/').next().unwrap().rsplit("::").next().unwrap().to_string(),
        nested: BTreeSet::new(),
        feats,
        tmp: 0,
        consts: vec![],
        in_amut: false,
    };
    let mut block = fd.block.clone();
    // R33: a receiver `mut self` -> `self`, and a mutable variable that starts with its value
    let mut mut_self = false;
    if let Some(syn::FnArg::Receiver(r)) = fd.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            mut_self = true;
            fn ren(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
                ts.into_iter()
                    .map(|t| match t {
                        proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(Ident::new("vx_self", i.span())),
                        proc_macro2::TokenTree::Group(g) => {
                            let mut n = proc_macro2::Group::new(g.delimiter(), ren(g.stream()));
                            n.set_span(g.span());
                            proc_macro2::TokenTree::Group(n)
                        }
                        t => t,
                    })
                    .collect()
            }
            block = syn::parse2(ren(block.to_token_stream())).map_err(|e| format!("mut self: {e}"))?;
        }
    }
    // parameter patterns that are arrays/tuples: bind in the body (R10)
    let mut k = 0;
    let mut lets: Vec<Stmt> = vec![];
    for a in fd.sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            t.attrs.clear();
            match &*t.pat {
                Pat::Ident(_) => {}
                Pat::Wild(_) => {
                    let id = Ident::new(&format!("vx_a{k}"), Span::call_site());
                    *t.pat = parse_quote!(#id);
                }
                Pat::Slice(s) => {
                    let id = Ident::new(&format!("vx_a{k}"), Span::call_site());
                    for (i, e) in s.elems.iter().enumerate() {
                        let ix = syn::Index::from(i);
                        lets.push(parse_quote!(let #e = #id[#ix];));
                    }
                    *t.pat = parse_quote!(#id);
                }
                p => {
                    let id = Ident::new(&format!("vx_a{k}"), Span::call_site());
                    lets.push(parse_quote!(let #p = #id;));
                    *t.pat = parse_quote!(#id);
                }
            }
        }
        k += 1;
    }
    if mut_self {
        lets.insert(0, parse_quote!(let mut vx_self = self;));
    }
    lets.extend(std::mem::take(&mut block.stmts));
    block.stmts = lets;
    rw.visit_block_mut(&mut block);
    if !fc.caps.is_empty() {
        let mut cs = vec![];
        for (a, x) in &fc.caps {
            cs.push((a.clone(), syn::parse_str(x).map_err(|e| format!("cap {a}: {e}"))?));
        }
        Caps(cs).visit_block_mut(&mut block);
    }
    let mut missing = splice_block(&mut rw, &mut block, fc);
    for k in fc.loops.keys() {
        if *k >= rw.loop_n {
            missing.push(format!("loop {k}"));
        }
    }
    for k in fc.closures.keys() {
        if *k >= rw.clo_n {
            missing.push(format!("closure {k}"));
        }
    }
    if rw.loop_n > fc.loops.len() {
        missing.push(format!("{} loops, {} invariants", rw.loop_n, fc.loops.len()));
    }
    let mismatch = if missing.is_empty() { None } else { Some(missing.join("; ")) };
    let stub = stub || mismatch.is_some();

    // print
    let mut text = String::new();
    let impl_open = if let (Some((g, st)), false) = (&fd.imp, fc.free) {
        let (ig, _, wc) = g.split_for_impl();
        let mut p = Printer::new(&[]);
        match &fc.as_trait {
            Some(t) => {
                let t: syn::Path = syn::parse_str(t).map_err(|e| format!("trait {t}: {e}"))?;
                p.stream(quote!(impl #ig #t for #st #wc))
            }
            None => p.stream(quote!(impl #ig #st #wc)),
        }
        let mut h = p.out.replace("'_", "'_");
        h.push_str(" {\n");
        text.push_str(&h);
        text.push_str(&fc.implspec);
        true
    } else {
        false
    };
    if stub {
        text.push_str("#[verifier::external_body]\n");
    }
    text.push_str(&fc.attrs);
    let mut sig = fd.sig.clone();
    sig.ident = Ident::new(&gen_name, Span::call_site());
    sig.constness = None;
    sig.unsafety = None;
    let out = sig.output.clone();
    let wh = sig.generics.where_clause.take();
    sig.output = syn::ReturnType::Default;
    let mut p = Printer::new(&[]);
    p.stream(sig.to_token_stream());
    if fc.as_trait.is_none() {
        text.push_str("pub ");
    }
    text.push_str(p.out.trim_end());
    if let syn::ReturnType::Type(_, t) = &out {
        let mut p = Printer::new(&[]);
        p.stream(t.to_token_stream());
        text.push_str(&format!(" -> ({}: {})\n", fc.ret, p.out.trim()));
    }
    if let Some(w) = wh {
        let mut p = Printer::new(&[]);
        p.stream(w.to_token_stream());
        text.push_str(&p.out);
        text.push('\n');
    }
    if !fc.requires.trim().is_empty() {
        text.push_str(&format!("requires {}\n", fc.requires.trim()));
    }
    if !fc.ensures.trim().is_empty() {
        text.push_str(&format!("ensures {}\n", fc.ensures.trim()));
    }
    if !fc.decreases.trim().is_empty() {
        text.push_str(&format!("decreases {}\n", fc.decreases.trim()));
    }
    if probe {
        // vacuity probe: this assertion must FAIL
        let s = rw.raw_stmt("proof { assert(false); }\n".into());
        block.stmts.insert(0, s);
    }
    if stub {
        text.push_str("{ unimplemented!() }\n");
    } else {
        let mut p = Printer::new(&rw.raws);
        p.stream(block.to_token_stream());
        text.push_str(&p.out);
    }
    if impl_open {
        text.push_str("}\n");
    }
    text.push('\n');
    let text = format!(
        "// ---- BEGIN {} ({}:{})\n{}// ---- END {}\n",
        fc.path, fc.file, fd.line, text, fc.path
    );
    Ok(Emitted { text, gen_name, loops: rw.loop_n, closures: rw.clo_n, mismatch })
}

/// names of the parameters in a closure header `|a: T, b: U| -> ...`
fn closure_param_names(h: &str) -> Vec<String> {
    let inner = match h.find('|').and_then(|i| h[i + 1..].find('|').map(|j| &h[i + 1..i + 1 + j])) {
        Some(x) => x,
        None => return vec![],
    };
    let mut depth = 0i32;
    let mut parts = vec![String::new()];
    for c in inner.chars() {
        match c {
            '(' | '[' | '<' => depth += 1,
            ')' | ']' | '>' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            parts.push(String::new());
        } else {
            parts.last_mut().unwrap().push(c);
        }
    }
    parts
        .iter()
        .map(|p| p.split(':').next().unwrap().trim().to_string())
        .filter(|p| !p.is_empty())
        .collect()
}

/// `Some("literal")`
fn some_str_lit(e: &Expr) -> Option<syn::ExprLit> {
    let Expr::Call(c) = e else { return None };
    let Expr::Path(p) = &*c.func else { return None };
    if !p.path.is_ident("Some") || c.args.len() != 1 { return None; }
    match &c.args[0] { Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)) => Some(l.clone()), _ => None }
}
