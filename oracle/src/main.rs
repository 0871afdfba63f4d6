//! `oracle search Cxx [--tier quick|thorough] [--seed N] [--seconds N]`: bounded search for a failing input.
//! `oracle replay FILE`: runs the one case of a replay file.
mod gen;
mod props;
mod spec;
mod tmpl;

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn run(id: &str, sub: &str, args: &[&str]) -> props::R {
    match catch_unwind(AssertUnwindSafe(|| props::check(id, sub, args))) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>().map(String::as_str).or(e.downcast_ref::<&str>().copied()).unwrap_or("?")
        )),
    }
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn case_text(id: &str, sub: &str, args: &[&str]) -> String {
    let mut o = String::new();
    for s in [id, sub].iter().chain(args) {
        o += "#case";
        if s.is_empty() {
            o += " -";
        }
        for b in s.bytes() {
            o += &format!(" {b:02x}");
        }
        o += "\n";
    }
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}
fn hash(sub: &str, args: &[&str]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (sub, args).hash(&mut h);
    h.finish()
}
/// Greedy removal of characters while the case keeps failing.
fn shrink(id: &str, sub: &str, mut args: Vec<String>, mut msg: String) -> (Vec<String>, String) {
    let keep = |a: &[String]| -> Option<String> {
        run(id, sub, &a.iter().map(|s| s.as_str()).collect::<Vec<_>>()).err()
    };
    let end = Instant::now() + Duration::from_secs(5);
    loop {
        let mut changed = false;
        for i in 0..args.len() {
            let idx: Vec<usize> = args[i].char_indices().map(|x| x.0).collect();
            for len in [8, 4, 2, 1] {
                let idx_now: Vec<usize> = args[i].char_indices().map(|x| x.0).chain([args[i].len()]).collect();
                let _ = &idx;
                let mut k = 0;
                while k + len < idx_now.len() {
                    if idx_now[k + len] > args[i].len() {
                        break;
                    }
                    let mut c = args.clone();
                    c[i].replace_range(idx_now[k]..idx_now[k + len], "");
                    if let Some(m) = keep(&c) {
                        args = c;
                        msg = m;
                        changed = true;
                        break;
                    }
                    k += 1;
                }
            }
        }
        if !changed || Instant::now() > end {
            return (args, msg);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let flag = |n: &str, d: &str| a.iter().position(|x| x == n).map_or(d.to_string(), |i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "replay" => {
            // One argument per line after the property and the sub-check, as JSON-free hex.
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut it = t.lines().filter_map(|l| l.strip_prefix("#case ")).map(|l| {
                String::from_utf8(l.split_whitespace().filter(|x| *x != "-").map(|x| u8::from_str_radix(x, 16).unwrap()).collect()).unwrap()
            });
            let (id, sub) = (it.next().unwrap(), it.next().unwrap());
            let args: Vec<String> = it.collect();
            match run(&id, &sub, &args.iter().map(|s| s.as_str()).collect::<Vec<_>>()) {
                Ok(_) => println!("holds: {id} {sub} {args:?}"),
                Err(m) => {
                    println!("FAILS: {id} {sub} {args:?}: {m}");
                    std::process::exit(1);
                }
            }
        }
        "search" => {
            let id = a[2].clone();
            let tier = flag("--tier", "quick");
            let seed: u64 = flag("--seed", "1").parse().unwrap();
            let secs: u64 = flag("--seconds", "200").parse().unwrap();
            let threads = 8usize;
            let end = Instant::now() + Duration::from_secs(secs);
            let stop = AtomicBool::new(false);
            // With --trace DIR every worker writes its current case to DIR/<n> before running it
            // (used after the process was ended by a signal, to find the responsible case).
            let trace = flag("--trace", "");
            // Watchdog: a case that runs for more than HANG seconds is reported as non-terminating.
            const HANG: u64 = 20;
            type Cur = Option<(Instant, String, Vec<String>)>;
            let cur: Vec<Mutex<Cur>> = (0..threads).map(|_| Mutex::new(None)).collect();
            let done = AtomicBool::new(false);
            type Out = (u64, HashSet<u64>, u64, Vec<String>, bool);
            let outs: Mutex<Vec<Out>> = Mutex::new(vec![]);
            let fails: Mutex<Vec<(u64, String, Vec<String>, String)>> = Mutex::new(vec![]);
            std::thread::scope(|sc| {
                {
                    let (cur, done, id, tier) = (&cur, &done, &id, &tier);
                    sc.spawn(move || {
                        while !done.load(Ordering::Relaxed) {
                            std::thread::sleep(Duration::from_millis(100));
                            for c in cur {
                                if let Some((t0, sub, args)) = &*c.lock().unwrap() {
                                    if t0.elapsed().as_secs() >= HANG {
                                        println!("{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"evaluations\": 1, \"distinct_nontrivial\": 1, \"cut_short\": true, \"samples\": [], \"failure\": {{\"sub\": {}, \"args\": {}, \"message\": \"did not finish within {HANG} s\"}}}}",
                                            json_str(id), json_str(tier), json_str(sub), json_list(args));
                                        std::process::exit(1);
                                    }
                                }
                            }
                        }
                    });
                }
                let workers: Vec<_> = (0..threads).map(|t| {
                    let (id, tier, stop, outs, fails, trace, cur) = (&id, &tier, &stop, &outs, &fails, &trace, &cur);
                    sc.spawn(move || {
                        let (mut i, mut evals, mut overflow) = (0u64, 0u64, 0u64);
                        let mut seen: HashSet<u64> = HashSet::new();
                        let mut samples = vec![];
                        let mut cut = false;
                        gen::generate(id, tier, seed, &mut |sub, args| {
                            let mine = i % threads as u64 == t as u64;
                            i += 1;
                            if !mine {
                                return true;
                            }
                            if evals % 256 == 0 && (stop.load(Ordering::Relaxed) || Instant::now() > end) {
                                cut = true;
                                return false;
                            }
                            evals += 1;
                            *cur[t].lock().unwrap() = Some((Instant::now(), sub.to_string(), args.iter().map(|s| s.to_string()).collect()));
                            if !trace.is_empty() {
                                let _ = std::fs::write(format!("{trace}/{t}"), case_text(id, sub, args));
                            }
                            let res = run(id, sub, args);
                            *cur[t].lock().unwrap() = None;
                            match res {
                                Ok(true) => {
                                    if seen.len() < 4_000_000 {
                                        if seen.insert(hash(sub, args)) && samples.len() < 3 && evals % 997 == 0 {
                                            samples.push(format!("{sub} {args:?}").chars().take(200).collect());
                                        }
                                    } else {
                                        overflow += 1;
                                    }
                                }
                                Ok(false) => {}
                                Err(m) => {
                                    fails.lock().unwrap().push((i, sub.to_string(), args.iter().map(|s| s.to_string()).collect(), m));
                                    stop.store(true, Ordering::Relaxed);
                                    return false;
                                }
                            }
                            true
                        });
                        outs.lock().unwrap().push((evals, seen, overflow, samples, cut));
                    })
                }).collect();
                for w in workers {
                    let _ = w.join();
                }
                done.store(true, Ordering::Relaxed);
            });
            let outs = outs.into_inner().unwrap();
            let mut all: HashSet<u64> = HashSet::new();
            let (mut evals, mut samples, mut cut) = (0, vec![], false);
            for (e, s, _, sm, c) in outs {
                evals += e;
                all.extend(s);
                samples.extend(sm);
                cut |= c;
            }
            samples.truncate(8);
            let mut fails = fails.into_inner().unwrap();
            fails.sort();
            let fail = fails.into_iter().next().map(|(_, sub, args, m)| {
                let (args, m) = shrink(&id, &sub, args, m);
                (sub, args, m)
            });
            let f = match &fail {
                None => "null".to_string(),
                Some((sub, args, m)) => format!("{{\"sub\": {}, \"args\": {}, \"message\": {}}}", json_str(sub), json_list(args), json_str(m)),
            };
            println!("{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"evaluations\": {evals}, \"distinct_nontrivial\": {}, \"cut_short\": {cut}, \"samples\": {}, \"failure\": {f}}}",
                json_str(&id), json_str(&tier), all.len(), json_list(&samples));
            std::process::exit(if fail.is_some() { 1 } else { 0 });
        }
        _ => panic!("usage"),
    }
}
