//! Executes operation scripts (JSON) on elasticlunr-rs through its public API and writes a trace
//! (JSON) of every operation with its arguments and everything observable afterwards.
//!
//! It decides nothing: the traces are judged by the TLA+ specification in /verif/spec.

mod custom;
mod index;
mod inv;
mod json;
mod langs;
mod misc;
mod store;

use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn units(s: &str) -> Value {
    Value::Array(s.encode_utf16().map(|c| json!(c)).collect())
}

/// Runs one operation; a panic of the library becomes an event that no action of the
/// specification matches (unless it has one for this panic).
pub fn guarded<F: FnOnce() -> Value>(op: &Value, f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({"e": "panic", "msg": m, "op": op.to_string()})
        }
    }
}

pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("script: string expected, got {}", v))
}

pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().expect("script: array").iter().map(|x| s(x).to_string()).collect()
}

fn replaced(v: &Value, from: char, to: char, numbers: bool) -> Value {
    match v {
        Value::String(t) => Value::String(t.replace(from, to.encode_utf8(&mut [0; 4]))),
        Value::Array(a) => a.iter().map(|x| replaced(x, from, to, numbers)).collect(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), replaced(x, from, to, numbers))).collect()),
        Value::Number(n) if numbers && n.as_u64() == Some(from as u64) => json!(to as u32),
        x => x.clone(),
    }
}

const PLACE: char = '\u{e000}';

/// One script for every character of the given ranges, in place of U+E000. Histories that differ
/// only in that character are written down once, after the characters they belong to.
fn each(sc: &Value) -> Value {
    let inner = &sc["inner"];
    let mut at: std::collections::HashMap<String, usize> = Default::default();
    let mut groups: Vec<(Vec<[u32; 2]>, Value)> = vec![];
    for r in sc["chars"].as_array().unwrap() {
        for c in (r[0].as_u64().unwrap() as u32..=r[1].as_u64().unwrap() as u32).filter_map(char::from_u32) {
            let mut o = events(&replaced(inner, PLACE, c, false));
            let n = c as u32;
            if n >= 0x100 {
                o = replaced(&o, c, PLACE, n >= 0x200);
            }
            let k = o.to_string();
            let i = *at.entry(k).or_insert_with(|| {
                groups.push((vec![], o));
                groups.len() - 1
            });
            match groups[i].0.last_mut() {
                Some(l) if l[1] + 1 == n => l[1] = n,
                _ => groups[i].0.push([n, n]),
            }
        }
    }
    let mut out = vec![];
    for (r, o) in groups {
        out.push(json!({"e": "group", "n": r.iter().map(|x| x[1] - x[0] + 1).sum::<u32>(), "chars": r.iter().take(30).collect::<Vec<_>>()}));
        out.extend(o.as_array().unwrap().iter().cloned());
    }
    Value::Array(out)
}

/// Scripts run by several threads at once, each of which begins with another one. What the threads
/// saw is written down once if they agree.
fn threads(sc: &Value) -> Value {
    let inner = sc["inner"].as_array().unwrap();
    let n = sc["n"].as_u64().unwrap() as usize;
    let rep = sc["rep"].as_u64().unwrap_or(1);
    let barrier = std::sync::Barrier::new(n);
    let seen: Vec<Vec<Vec<Value>>> = std::thread::scope(|t| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let barrier = &barrier;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(t, move || {
                        let mut out: Vec<Vec<Value>> = vec![vec![]; inner.len()];
                        barrier.wait();
                        for _ in 0..rep {
                            for i in 0..inner.len() {
                                let i = (i + k * inner.len() / n) % inner.len();
                                let e = events(&inner[i]);
                                if !out[i].contains(&e) {
                                    out[i].push(e);
                                }
                            }
                        }
                        out
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    let mut out = vec![];
    for i in 0..inner.len() {
        let mut told: Vec<&Value> = vec![];
        for s in &seen {
            for e in &s[i] {
                if !told.contains(&e) {
                    told.push(e);
                }
            }
        }
        for (k, o) in told.iter().enumerate() {
            out.push(json!({"e": "group", "n": seen.iter().filter(|s| s[i].contains(*o)).count(), "chars": [[i, k]]}));
            out.extend(o.as_array().unwrap().iter().cloned());
        }
    }
    Value::Array(out)
}

fn run(sc: &Value) -> Value {
    let mut o = serde_json::Map::new();
    o.insert("id".into(), sc["id"].clone());
    if let Some(x) = sc.get("hdr") {
        o.insert("hdr".into(), x.clone());
    }
    o.insert("events".into(), events(sc));
    Value::Object(o)
}

fn events(sc: &Value) -> Value {
    match s(&sc["kind"]) {
        "inv" => inv::run(sc),
        "store" => store::run(sc),
        "index" => index::run(sc),
        "pipe" => misc::pipe(sc),
        "cfg" => misc::cfg(sc),
        "reg" => langs::registry(sc),
        "tok" => langs::tokens(sc),
        "stage" => langs::stage(sc),
        "words" => langs::words(sc),
        "langrun" => langs::run(sc),
        "seg" => langs::segment(sc),
        "sweep" => langs::sweep(sc),
        "fuzz" => langs::fuzz(sc),
        "each" => each(sc),
        "threads" => threads(sc),
        "blocks" => langs::blocks(sc),
        k => panic!("script: unknown kind {}", k),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--native").unwrap_or(false) {
        // Runs one scenario on the main thread with its ordinary stack.
        let sc: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        println!("{}", run(&sc));
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let (i, o) = (a[1].clone(), a[2].clone());
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let scs: Value = serde_json::from_str(&std::fs::read_to_string(i).unwrap()).unwrap();
            // where the driver finds what was run last
            let at = o.clone() + ".at";
            let out: Vec<Value> = scs
                .as_array()
                .unwrap()
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    std::fs::write(&at, i.to_string()).unwrap();
                    run(x)
                })
                .collect();
            std::fs::write(o, serde_json::to_string(&out).unwrap()).unwrap();
        })
        .unwrap();
    if let Err(e) = h.join() {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        eprintln!("harness error: {}", m);
        std::process::exit(3);
    }
}
