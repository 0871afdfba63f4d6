//! Mechanical extractor: takes the functions named in contract files from the
//! current source tree, applies fixed local desugarings (R1..R14, see DESIGN.md),
//! splices contracts in and prints one Verus crate.
//!
//! usage: extractor REPO_SRC CONTRACT_DIR OUT.rs OUT.json [--feature F]... [--stub PATH]...
mod contract;
mod expand;
mod print;
mod rewrite;

use contract::*;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fs;
use std::path::PathBuf;
use syn::visit_mut::VisitMut;

pub struct Lost {
    pub path: String,
    pub reason: String,
}

fn cfg_active(attrs: &[syn::Attribute], feats: &[String]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let ok = match a.parse_args::<syn::Meta>() {
                Ok(m) => eval_cfg(&m, feats),
                Err(_) => true,
            };
            if !ok {
                return false;
            }
        }
        if a.path().is_ident("test") {
            return false;
        }
    }
    true
}
fn eval_cfg(m: &syn::Meta, feats: &[String]) -> bool {
    match m {
        syn::Meta::Path(p) => p.is_ident("debug_assertions"),
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                    return feats.iter().any(|f| *f == s.value());
                }
            }
            false
        }
        syn::Meta::List(l) => {
            let inner = l
                .parse_args_with(
                    syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated,
                )
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(|m| eval_cfg(m, feats))
            } else if l.path.is_ident("all") {
                inner.iter().all(|m| eval_cfg(m, feats))
            } else if l.path.is_ident("any") {
                inner.iter().any(|m| eval_cfg(m, feats))
            } else {
                false
            }
        }
    }
}

fn type_head(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_head(&r.elem),
        _ => String::new(),
    }
}

/// A located function.
pub struct Found {
    pub sig: syn::Signature,
    pub block: syn::Block,
    /// impl header (generics, self type) when the function is a method
    pub imp: Option<(syn::Generics, syn::Type)>,
    /// associated types of the enclosing trait impl
    pub assoc: Vec<(String, syn::Type)>,
    /// all fns of the enclosing file (for call graph)
    pub line: usize,
    pub vis_const: bool,
}

fn find_nested(block: &syn::Block, name: &str, feats: &[String]) -> Option<(syn::Signature, syn::Block)> {
    struct V<'a> {
        name: &'a str,
        feats: &'a [String],
        out: Option<(syn::Signature, syn::Block)>,
    }
    impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> {
        fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
            if i.sig.ident == self.name && cfg_active(&i.attrs, self.feats) && self.out.is_none() {
                self.out = Some((i.sig.clone(), (*i.block).clone()));
            }
            syn::visit::visit_item_fn(self, i);
        }
    }
    let mut v = V { name, feats, out: None };
    syn::visit::Visit::visit_block(&mut v, block);
    v.out
}

/// items declared directly in a block
fn block_items(b: &syn::Block) -> Vec<syn::Item> {
    b.stmts
        .iter()
        .filter_map(|s| match s {
            syn::Stmt::Item(i) => Some(i.clone()),
            _ => None,
        })
        .collect()
}

/// split at `::` outside angle brackets
fn split_path(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut out = vec![];
    let (mut d, mut st, mut i) = (0, 0, 0);
    while i < b.len() {
        match b[i] {
            b'<' => d += 1,
            b'>' => d -= 1,
            b':' if d == 0 && i + 1 < b.len() && b[i + 1] == b':' => {
                out.push(&s[st..i]);
                i += 1;
                st = i + 1;
            }
            _ => {}
        }
        i += 1;
    }
    out.push(&s[st..]);
    out
}

/// Path forms: `f`, `Type::f`, `Type::<Trait>::f`, each optionally followed by `/nested`.
pub fn find_fn(items: &[syn::Item], path: &str, feats: &[String]) -> Result<Found, String> {
    let (head, nested) = match path.split_once('/') {
        Some((h, n)) => (h, Some(n)),
        None => (path, None),
    };
    let parts: Vec<&str> = split_path(head);
    let (ty, tr, name) = match parts.len() {
        1 => (None, None, parts[0]),
        2 => (Some(parts[0]), None, parts[1]),
        3 => (Some(parts[0]), Some(parts[1].strip_prefix('<').and_then(|x| x.strip_suffix('>')).unwrap_or(parts[1])), parts[2]),
        _ => return Err(format!("bad path {path}")),
    };
    let mut hits = vec![];
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() => {
                if f.sig.ident == name && cfg_active(&f.attrs, feats) {
                    hits.push(Found {
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        imp: None,
                        assoc: vec![],
                        line: f.sig.ident.span().start().line,
                        vis_const: false,
                    });
                }
            }
            syn::Item::Impl(im) => {
                if let Some(ty) = ty {
                    let whole = im.self_ty.to_token_stream().to_string().replace(' ', "");
                    if !cfg_active(&im.attrs, feats) || (type_head(&im.self_ty) != ty && whole != ty) {
                        continue;
                    }
                    let trname = im
                        .trait_
                        .as_ref()
                        .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    let trfull = im
                        .trait_
                        .as_ref()
                        .map(|(_, p, _)| p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""));
                    match (tr, &trname) {
                        (Some(a), Some(b)) if a.contains('<') => {
                            let _ = b;
                            if a != trfull.as_deref().unwrap_or("") {
                                continue;
                            }
                        }
                        (Some(a), Some(b)) if a != b => continue,
                        (Some(_), None) => continue,
                        (None, Some(_)) => continue,
                        _ => {}
                    }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == name && cfg_active(&f.attrs, feats) {
                                hits.push(Found {
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    imp: Some((im.generics.clone(), (*im.self_ty).clone())),
                                    assoc: im
                                        .items
                                        .iter()
                                        .filter_map(|i| match i {
                                            syn::ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                                            _ => None,
                                        })
                                        .collect(),
                                    line: f.sig.ident.span().start().line,
                                    vis_const: false,
                                });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if hits.is_empty() {
        return Err(format!("no function {path}"));
    }
    if hits.len() > 1 {
        return Err(format!("{} functions match {path}", hits.len()));
    }
    let f = hits.pop().unwrap();
    if let Some(n) = nested {
        if n.contains("::") {
            return find_fn(&block_items(&f.block), n, feats);
        }
        let (sig, block) =
            find_nested(&f.block, n, feats).ok_or_else(|| format!("no nested function {path}"))?;
        let line = sig.ident.span().start().line;
        return Ok(Found { sig, block, imp: None, assoc: vec![], line, vis_const: false });
    }
    Ok(f)
}

/// `Type::NAME`: a constant of an inherent impl
fn find_assoc_const<'a>(items: &'a [syn::Item], name: &str, feats: &[String]) -> Option<(&'a syn::ItemImpl, &'a syn::ImplItemConst)> {
    let (ty, n) = name.split_once("::")?;
    items.iter().find_map(|it| match it {
        syn::Item::Impl(im) if im.trait_.is_none() && type_head(&im.self_ty) == ty && cfg_active(&im.attrs, feats) => im.items.iter().find_map(|ii| match ii {
            syn::ImplItem::Const(c) if c.ident == n && cfg_active(&c.attrs, feats) => Some((im, c)),
            _ => None,
        }),
        _ => None,
    })
}

fn find_item(items: &[syn::Item], kind: &str, name: &str, feats: &[String]) -> Option<syn::Item> {
    // `FN/NAME`: declared inside the body of FN
    if let Some((f, n)) = name.rsplit_once('/') {
        return match find_fn(items, f, feats) {
            Ok(fd) => find_item(&block_items(&fd.block), kind, n, feats),
            Err(_) => None,
        };
    }
    for it in items {
        let (k, id, attrs): (&str, String, &[syn::Attribute]) = match it {
            syn::Item::Struct(s) => ("struct", s.ident.to_string(), &s.attrs),
            syn::Item::Enum(s) => ("enum", s.ident.to_string(), &s.attrs),
            syn::Item::Const(s) => ("const", s.ident.to_string(), &s.attrs),
            syn::Item::Static(s) => ("static", s.ident.to_string(), &s.attrs),
            syn::Item::Type(s) => ("type", s.ident.to_string(), &s.attrs),
            _ => continue,
        };
        if k == kind && id == name && cfg_active(attrs, feats) {
            return Some(it.clone());
        }
    }
    None
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = PathBuf::from(&args[1]);
    let cdir = PathBuf::from(&args[2]);
    let out = PathBuf::from(&args[3]);
    let outj = PathBuf::from(&args[4]);
    let mut feats: Vec<String> = vec!["std".into(), "alloc".into()];
    let mut stubs: Vec<String> = vec![];
    let mut probe: Vec<String> = vec![];
    let mut drops: Vec<String> = vec![];
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--feature" => feats.push(args[i + 1].clone()),
            "--stub" => stubs.push(args[i + 1].clone()),
            "--probe" => probe.push(args[i + 1].clone()),
            "--drop" => drops.push(args[i + 1].clone()),
            x => panic!("unknown argument {x}"),
        }
        i += 2;
    }
    let mut names: Vec<PathBuf> = fs::read_dir(&cdir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vrs"))
        .collect();
    names.sort();

    let mut files: BTreeMap<String, Result<syn::File, String>> = BTreeMap::new();
    let mut tree = ModTree::default();
    let mut report: Vec<serde_like::FnReport> = vec![];

    for n in &names {
        let text = fs::read_to_string(n).unwrap();
        let c = parse_contract(&text, n.file_stem().unwrap().to_str().unwrap());
        if let Some(f) = &c.only_feature {
            if !feats.contains(f) {
                continue;
            }
        }
        let mut body = String::new();
        for e in &c.entries {
            match e {
                Entry::Raw(t) => {
                    body.push_str(t);
                    body.push('\n');
                }
                Entry::Item { kind, name, file, extra } => {
                    let fobj = files
                        .entry(file.clone())
                        .or_insert_with(|| load(&src, file));
                    match fobj {
                        Ok(fo) if kind == "const" && name.contains("::") && find_assoc_const(&fo.items, name, &feats).is_some() => {
                            let (im, c) = find_assoc_const(&fo.items, name, &feats).unwrap();
                            body.push_str(&rewrite::emit_assoc_const(im, c, extra));
                        }
                        Ok(fo) => match find_item(&fo.items, kind, name, &feats) {
                            Some(it) => body.push_str(&rewrite::emit_item(it, extra, &feats)),
                            None => report.push(serde_like::FnReport {
                                module: c.module.clone(),
                                path: format!("{kind} {name}"),
                                file: file.clone(),
                                line: 0,
                                hash: String::new(),
                                calls: vec![],
                                status: "lost".into(),
                                reason: format!("no {kind} {name} in {file}"),
                                gen: String::new(),
                                loops: 0,
                                closures: 0,
                            }),
                        },
                        Err(er) => report.push(serde_like::FnReport {
                            module: c.module.clone(),
                            path: format!("{kind} {name}"),
                            file: file.clone(),
                            line: 0,
                            hash: String::new(),
                            calls: vec![],
                            status: "lost".into(),
                            reason: er.clone(),
                            gen: String::new(),
                            loops: 0,
                            closures: 0,
                        }),
                    }
                }
                Entry::Fn(fc) => {
                    let full = format!("{}::{}", c.module, fc.path);
                    let stub = stubs.contains(&full);
                    let fobj = files
                        .entry(fc.file.clone())
                        .or_insert_with(|| load(&src, &fc.file));
                    let mut rep = serde_like::FnReport {
                        module: c.module.clone(),
                        path: fc.path.clone(),
                        file: fc.file.clone(),
                        line: 0,
                        hash: String::new(),
                        calls: vec![],
                        status: "ok".into(),
                        reason: String::new(),
                        gen: String::new(),
                        loops: 0,
                        closures: 0,
                    };
                    let found = match fobj {
                        Ok(fo) => match fc.path.split_once("/{closure#") {
                            Some((outer, n)) => find_fn(&fo.items, outer, &feats)
                                .and_then(|f| rewrite::closure_as_fn(f, n.trim_end_matches('}'), fc)),
                            None => find_fn(&fo.items, &fc.path, &feats),
                        },
                        Err(e) => Err(e.clone()),
                    };
                    match found {
                        Err(e) => {
                            rep.status = "lost".into();
                            rep.reason = e;
                        }
                        Ok(fd) => {
                            rep.line = fd.line;
                            rep.hash = rewrite::fn_hash(&fd);
                            let mut cc = rewrite::CallCollector::default();
                            cc.visit_block_mut(&mut fd.block.clone());
                            rep.calls = cc.calls.into_iter().collect();
                            if drops.contains(&full) {
                                rep.status = "dropped".into();
                                report.push(rep);
                                continue;
                            }
                            match rewrite::emit_fn(fd, fc, stub, probe.contains(&full), &feats) {
                                Ok(em) => {
                                    body.push_str(&format!("// @FN {full}\n"));
                                    body.push_str(&em.text);
                                    body.push_str(&format!("// @END {full}\n"));
                                    rep.gen = em.gen_name;
                                    rep.loops = em.loops;
                                    rep.closures = em.closures;
                                    if stub {
                                        rep.status = "stubbed".into();
                                    } else if let Some(r) = em.mismatch {
                                        rep.status = "mismatch".into();
                                        rep.reason = r;
                                    }
                                }
                                Err(e) => {
                                    rep.status = "lost".into();
                                    rep.reason = e;
                                }
                            }
                        }
                    }
                    report.push(rep);
                }
            }
        }
        tree.insert(&c.module, body);
    }

    let mut text = String::from(
        "// GENERATED by /verif/extractor from the current /repo/src. Do not edit.\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_labels, non_snake_case, unreachable_patterns, unused_parens, unused_braces, unreachable_code)]\n#![verifier::exec_allows_no_decreases_clause_off]\n",
    );
    text = text.replace("#![verifier::exec_allows_no_decreases_clause_off]\n", "");
    text.push_str("use vstd::prelude::*;\n");
    tree.emit(&mut text, 0);
    text.push_str("fn main() {}\n");
    fs::write(&out, &text).unwrap();
    fs::write(&outj, serde_like::to_json(&report)).unwrap();
    // also: list all functions defined in the source (for uncontracted-callee detection)
}

/// `A+B`: file A with the item macros defined in A and B expanded
fn load(src: &PathBuf, file: &str) -> Result<syn::File, String> {
    if let Some((a, b)) = file.split_once('+') {
        let mut fa = load(src, a)?;
        let fb = load(src, b)?;
        let mut m = expand::Macros::new();
        expand::collect(&fb.items, &mut m);
        expand::collect(&fa.items, &mut m);
        fa.items = expand::expand(&fa.items, &m, 0);
        return Ok(fa);
    }
    let p = src.join(file);
    let t = fs::read_to_string(&p).map_err(|e| format!("{file}: {e}"))?;
    syn::parse_file(&t).map_err(|e| format!("{file}: {e}"))
}

#[derive(Default)]
struct ModTree {
    body: String,
    kids: BTreeMap<String, ModTree>,
}
impl ModTree {
    fn insert(&mut self, path: &str, body: String) {
        let mut t = self;
        if !path.is_empty() {
            for p in path.split("::") {
                t = t.kids.entry(p.to_string()).or_default();
            }
        }
        t.body.push_str(&body);
    }
    fn emit(&self, out: &mut String, depth: usize) {
        if !self.body.trim().is_empty() {
            if depth > 0 {
                out.push_str("use vstd::prelude::*;\nuse vstd::string::*;\nuse vstd::utf8::*;\nuse crate::vx::{VSlice as _, VAscii as _, VExtend as _, VSliceMut as _, VReserve as _, VStr as _};\n");
            }
            out.push_str("verus! {\n");
            out.push_str(&self.body);
            out.push_str("\n} // verus!\n");
        }
        for (n, k) in &self.kids {
            out.push_str(&format!("pub mod {n} {{\n"));
            k.emit(out, depth + 1);
            out.push_str(&format!("}} // mod {n}\n"));
        }
    }
}

mod serde_like {
    pub struct FnReport {
        pub module: String,
        pub path: String,
        pub file: String,
        pub line: usize,
        pub hash: String,
        pub calls: Vec<String>,
        pub status: String,
        pub reason: String,
        pub gen: String,
        pub loops: usize,
        pub closures: usize,
    }
    fn esc(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    pub fn to_json(v: &[FnReport]) -> String {
        let mut o = String::from("[\n");
        for (i, r) in v.iter().enumerate() {
            if i > 0 {
                o.push_str(",\n");
            }
            o.push_str(&format!(
                "{{\"module\":{},\"path\":{},\"file\":{},\"line\":{},\"hash\":{},\"status\":{},\"reason\":{},\"gen\":{},\"loops\":{},\"closures\":{},\"calls\":[{}]}}",
                esc(&r.module), esc(&r.path), esc(&r.file), r.line, esc(&r.hash), esc(&r.status), esc(&r.reason), esc(&r.gen), r.loops, r.closures,
                r.calls.iter().map(|c| esc(c)).collect::<Vec<_>>().join(",")
            ));
        }
        o.push_str("\n]\n");
        o
    }
}
