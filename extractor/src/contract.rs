//! Parser of the contract files (`contracts/*.vrs`).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub file: String,
    pub path: String,
    pub ret: String,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub attrs: String,
    pub rename: Option<String>,
    pub subst: Vec<(String, String)>,
    pub keep_generics: bool,
    pub free: bool,
    pub sig_extra: Option<String>,
    pub keep_dbg: bool,
    pub drop_dbg: Vec<usize>,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    /// (anchor, text)
    pub proofs: Vec<(String, String)>,
    pub trusted: bool,
    pub opts: Vec<String>,
    /// emit as a method of this (prelude) trait, with the given spec items in the impl
    pub as_trait: Option<String>,
    pub implspec: String,
    /// method calls renamed inside the body
    pub mcalls: Vec<(String, String)>,
    /// R30: closures replaced by a value of a struct (closure number, expression)
    pub lifts: Vec<(usize, String)>,
    /// R30: signature, impl header and captured variables of a closure body emitted as a method
    pub sig: String,
    pub inimpl: String,
    pub caps: Vec<(String, String)>,
}
#[derive(Debug)]
pub enum Entry {
    Raw(String),
    Item { kind: String, name: String, file: String, extra: String },
    Fn(FnContract),
}
pub struct Contract {
    pub module: String,
    pub only_feature: Option<String>,
    pub entries: Vec<Entry>,
}

const KW: &[&str] = &[
    "module", "file", "feature", "raw", "item", "fn", "opt", "ret", "requires", "ensures",
    "decreases", "closure", "loop", "proof", "end", "attr", "implspec", "lift", "sig", "inimpl", "cap",
];

pub fn parse_contract(text: &str, default_mod: &str) -> Contract {
    let mut c = Contract { module: default_mod.to_string(), only_feature: None, entries: vec![] };
    let mut file = String::new();
    // split in directives
    let mut dirs: Vec<(String, String, String)> = vec![];
    for line in text.lines() {
        let d = if line.starts_with('#') && !line.starts_with("#[") && !line.starts_with("#!") {
            let w: String = line[1..].chars().take_while(|c| c.is_ascii_alphabetic()).collect();
            if KW.contains(&w.as_str()) {
                Some((w.clone(), line[1 + w.len()..].trim().to_string()))
            } else {
                None
            }
        } else {
            None
        };
        match d {
            Some((w, rest)) => dirs.push((w, rest, String::new())),
            None => {
                if let Some(l) = dirs.last_mut() {
                    l.2.push_str(line);
                    l.2.push('\n');
                }
            }
        }
    }
    let mut cur: Option<FnContract> = None;
    macro_rules! flush {
        () => {
            if let Some(f) = cur.take() {
                c.entries.push(Entry::Fn(f));
            }
        };
    }
    for (w, rest, body) in dirs {
        match w.as_str() {
            "module" => c.module = if rest == "root" { String::new() } else { rest },
            "feature" => c.only_feature = Some(rest),
            "file" => {
                flush!();
                file = rest
            }
            "raw" => {
                flush!();
                c.entries.push(Entry::Raw(body));
            }
            "end" => {
                flush!();
            }
            "item" => {
                flush!();
                let mut it = rest.split_whitespace();
                let kind = it.next().unwrap().to_string();
                let name = it.next().unwrap().to_string();
                c.entries.push(Entry::Item { kind, name, file: file.clone(), extra: body });
            }
            "fn" => {
                flush!();
                let mut f = FnContract { file: file.clone(), path: rest.clone(), ret: "r".into(), ..Default::default() };
                f.path = rest.split_whitespace().next().unwrap().to_string();
                for t in rest.split_whitespace().skip(1) {
                    f.opts.push(t.to_string());
                }
                for t in f.opts.clone() {
                    if let Some(r) = t.strip_prefix("rename=") {
                        f.rename = Some(r.to_string());
                    } else if let Some(r) = t.strip_prefix("subst=") {
                        let (a, b) = r.split_once("->").unwrap();
                        f.subst.push((a.to_string(), b.to_string()));
                    } else if t == "free" {
                        f.free = true;
                    } else if let Some(r) = t.strip_prefix("trait=") {
                        f.as_trait = Some(r.to_string());
                    } else if let Some(r) = t.strip_prefix("call=") {
                        let (a, b) = r.split_once("->").unwrap();
                        f.mcalls.push((a.to_string(), b.to_string()));
                    } else if t == "rangeidx" || t == "rankcmp" || t == "optmap" || t == "resmap" || t == "foriter" || t.starts_with("findty=") || t.starts_with("fncall=") || t.starts_with("fnbound=") || (t.starts_with("co=") || t.starts_with("coarg=")) {
                    } else if t == "dropdbg" {
                        f.keep_dbg = false;
                        f.drop_dbg.push(usize::MAX);
                    } else if let Some(r) = t.strip_prefix("dropdbg=") {
                        for x in r.split(',') {
                            f.drop_dbg.push(x.parse().unwrap());
                        }
                    } else if let Some(r) = t.strip_prefix("ret=") {
                        f.ret = r.to_string();
                    } else {
                        panic!("unknown option {t}");
                    }
                }
                cur = Some(f);
            }
            "attr" => {
                let f = cur.as_mut().expect("attr outside fn");
                f.attrs.push_str(&rest);
                f.attrs.push('\n');
            }
            "ret" => cur.as_mut().unwrap().ret = rest,
            "requires" => cur.as_mut().unwrap().requires = format!("{rest}\n{body}"),
            "ensures" => cur.as_mut().unwrap().ensures = format!("{rest}\n{body}"),
            "decreases" => cur.as_mut().unwrap().decreases = format!("{rest}\n{body}"),
            "closure" => {
                let (n, r) = rest.split_once(' ').unwrap();
                cur.as_mut().unwrap().closures.insert(n.parse().unwrap(), format!("{r}\n{body}"));
            }
            "loop" => {
                let n: usize = rest.split_whitespace().next().unwrap().parse().unwrap();
                cur.as_mut().unwrap().loops.insert(n, body);
            }
            "lift" => {
                let (n, r) = rest.split_once(' ').unwrap();
                cur.as_mut().unwrap().lifts.push((n.parse().unwrap(), r.to_string()));
            }
            "sig" => cur.as_mut().unwrap().sig = rest,
            "inimpl" => cur.as_mut().unwrap().inimpl = rest,
            "cap" => {
                let (n, r) = rest.split_once(' ').unwrap();
                cur.as_mut().unwrap().caps.push((n.to_string(), r.to_string()));
            }
            "implspec" => cur.as_mut().unwrap().implspec = format!("{rest}\n{body}"),
            "proof" => cur.as_mut().unwrap().proofs.push((rest, body)),
            "opt" => {}
            _ => unreachable!(),
        }
    }
    flush!();
    c
}
