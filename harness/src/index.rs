//! Scripts on `IndexBuilder` and `Index`.

use crate::custom;
use crate::inv;
use crate::json::{self, root_of, J};
use crate::langs;
use crate::store;
use crate::{codes, s, strs};
use elasticlunr::{Index, IndexBuilder, Language};
use serde::de::IgnoredAny;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hash(b: &[u8]) -> String {
    // two FNV-1a variants: enough to tell texts of one run apart
    let (mut x, mut y) = (0xcbf29ce484222325u64, 0x9ae16a3b2f90404fu64);
    for c in b {
        x = (x ^ *c as u64).wrapping_mul(0x100000001b3);
        y = (y.rotate_left(5) ^ *c as u64).wrapping_mul(0x9e3779b97f4a7c15);
    }
    format!("{:016x}{:016x}", x, y)
}

/// A text, or a name that stands for it if it is long.
pub fn abbr(t: &str) -> String {
    if t.len() <= 400 {
        t.to_string()
    } else {
        format!("~{}:{}", t.len(), hash(t.as_bytes()))
    }
}

fn chars(t: &str) -> Value {
    Value::Array(t.chars().map(|c| json!(c.to_string())).collect())
}

/// The text of a script value: a string, or [[token, count]..] joined by single spaces.
fn text(v: &Value) -> String {
    match v {
        Value::String(t) => t.clone(),
        Value::Object(o) if o.contains_key("stored") => s(&o["stored"]).to_string(),
        Value::Object(o) if o.contains_key("uniq") => {
            let p = s(&o["uniq"][0]);
            (0..o["uniq"][1].as_u64().unwrap()).map(|i| format!("{}{}", p, i)).collect::<Vec<_>>().join(" ")
        }
        Value::Object(o) => {
            let mut r = vec![];
            for p in o["runs"].as_array().unwrap() {
                for _ in 0..p[1].as_u64().unwrap() {
                    r.push(s(&p[0]));
                }
            }
            r.join(" ")
        }
        _ => panic!("script: value {}", v),
    }
}

/// What an index was told, so that the same tokens can be computed without it.
struct Told {
    lang: Box<dyn Language>,
    builtin: bool,
    fields: Vec<(String, Option<String>)>,
}

/// How a value is described to the specification.
fn value(v: &Value, i: usize, told: &Told, enc: &str) -> Value {
    let t = text(v);
    // a text of the reference field, whose tokens do not matter
    if v.get("stored").is_some() {
        return json!({"s": abbr(&t), "k": "bag", "c": []});
    }
    if v.get("uniq").is_some() && !told.builtin {
        return json!({"s": abbr(&t), "k": "uniq", "c": chars(s(&v["uniq"][0])), "n": v["uniq"][1]});
    }
    if v.is_object() && !told.builtin {
        let runs: Vec<Value> = v["runs"].as_array().unwrap().iter().map(|p| json!([chars(s(&p[0])), p[1]])).collect();
        return json!({"s": abbr(&t), "k": "runs", "c": runs});
    }
    if enc == "cp" {
        return json!({"s": abbr(&t), "k": "cp", "c": codes(&t)});
    }
    if !told.builtin {
        return json!({"s": abbr(&t), "k": "c", "c": chars(&t)});
    }
    let raw = match told.fields.get(i).and_then(|f| f.1.clone()) {
        Some(id) if id == "boom" => vec![],
        Some(id) => custom::tokenizer(&id)(&t),
        None => told.lang.tokenize(&t),
    };
    let done = told.lang.make_pipeline().run(raw);
    let mut counts: Vec<(&String, u64)> = vec![];
    let mut at = std::collections::HashMap::new();
    for x in &done {
        let k = *at.entry(x).or_insert_with(|| {
            counts.push((x, 0));
            counts.len() - 1
        });
        counts[k].1 += 1;
    }
    json!({"s": abbr(&t), "k": "bag", "c": counts.iter().map(|x| json!([chars(x.0), x.1])).collect::<Vec<_>>()})
}

fn node_list(j: &J, enc: &str) -> Value {
    let mut out = vec![];
    match j.get("root") {
        Some(r) => inv::nodes(r, &mut vec![], &mut out, &|x| json!(root_of(x))),
        None => out.push(json!([[33], 0, []])),
    }
    if enc != "cp" {
        for n in out.iter_mut() {
            let p: Vec<Value> = n[0]
                .as_array()
                .unwrap()
                .iter()
                .map(|c| json!(char::from_u32(c.as_u64().unwrap() as u32).unwrap().to_string()))
                .collect();
            n[0] = Value::Array(p);
        }
    }
    Value::Array(out)
}

/// Every leaf as [path, kind, text].
pub fn leaves(j: &J, path: &mut Vec<String>, out: &mut Vec<Value>) {
    let mut put = |path: &Vec<String>, k: &str, t: String| out.push(json!([path, k, t]));
    match j {
        J::Null => put(path, "null", "".into()),
        J::Bool(b) => put(path, "bool", b.to_string()),
        J::Str(t) => put(path, "str", abbr(t)),
        J::Num(n) => {
            if path[0] == "index" && path.last().map(|x| x == "tf").unwrap_or(false) {
                put(path, "root", root_of(n.parse().unwrap_or(f64::NAN)).to_string())
            } else {
                put(path, "num", n.clone())
            }
        }
        J::Arr(v) => {
            if v.is_empty() {
                put(path, "arr", "".into())
            }
            for (i, x) in v.iter().enumerate() {
                path.push(format!("#{}", i));
                leaves(x, path, out);
                path.pop();
            }
        }
        J::Obj(v) => {
            if v.is_empty() {
                put(path, "obj", "".into())
            }
            for (i, (k, x)) in v.iter().enumerate() {
                if v[..i].iter().any(|y| y.0 == *k) {
                    path.push("<duplicate>".into());
                }
                path.push(k.clone());
                leaves(x, path, out);
                path.pop();
            }
        }
    }
}

fn str_list(j: Option<&J>) -> Value {
    match j {
        Some(J::Arr(v)) => json!(v.iter().map(|x| x.str()).collect::<Vec<_>>()),
        _ => json!(["<not an array>"]),
    }
}

fn names(j: &J) -> Vec<String> {
    j.obj().iter().map(|x| x.0.clone()).collect()
}

fn shot(v: &mut Value) {
    // long texts by name
    for d in v["docs"].as_array_mut().unwrap() {
        for kv in d[1].as_array_mut().unwrap() {
            let t = abbr(s(&kv[1]));
            kv[1] = json!(t);
        }
    }
}

fn dump(ix: &Index, enc: &str) -> Value {
    let j = match json::parse(&ix.to_json()) {
        Ok(j) => j,
        Err(e) => return json!({"e": "badjson", "msg": e}),
    };
    let null = J::Null;
    let mut st = store::view(j.get("documentStore").unwrap_or(&null), |n| json!(n.int()));
    shot(&mut st);
    let inner: Vec<Value> =
        j.get("index").unwrap_or(&null).obj().iter().map(|(f, x)| json!([f, node_list(x, enc)])).collect();
    json!({
        "e": "dump",
        "fields": str_list(j.get("fields")),
        "get": ix.get_fields(),
        "ref": j.get("ref").unwrap_or(&null).str(),
        "version": j.get("version").unwrap_or(&null).str(),
        "pipeline": str_list(j.get("pipeline")),
        "lang": j.get("lang").unwrap_or(&null).str(),
        "keys": names(&j),
        "index": inner,
        "store": st,
    })
}

/// Only the number of listed documents per node, for large indexes.
fn summary(ix: &Index, enc: &str) -> Value {
    let d = dump(ix, enc);
    if d["e"] != "dump" {
        return d;
    }
    let inner: Vec<Value> = d["index"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| {
            json!([
                f[0],
                f[1].as_array()
                    .unwrap()
                    .iter()
                    .map(|n| json!([n[0], n[1], n[2].as_array().unwrap().len()]))
                    .collect::<Vec<_>>()
            ])
        })
        .collect();
    json!({"e": "sum", "index": inner, "len": d["store"]["len"], "ndocs": d["store"]["docs"].as_array().unwrap().len(), "ninfo": d["store"]["info"].as_array().unwrap().len()})
}

fn json_event(ix: &Index) -> Value {
    let (a, b) = (ix.to_json(), ix.to_json_pretty());
    let mut out = vec![];
    match (json::parse(&a), json::parse(&b)) {
        (Ok(x), Ok(y)) => {
            leaves(&x, &mut vec![], &mut out);
            let mut pl = vec![];
            leaves(&y, &mut vec![], &mut pl);
            let same = x == y && pl == out && ix.to_json() == a && ix.to_json_pretty() == b;
            let std = serde_json::from_str::<IgnoredAny>(&a).is_ok() && serde_json::from_str::<IgnoredAny>(&b).is_ok();
            // serializing through serde (as the fixture tests do) must give the same value
            let via = serde_json::to_string(ix).map(|c| c == a).unwrap_or(false);
            json!({"e": "json", "leaves": out, "same": same, "valid": std, "via": via})
        }
        (x, y) => json!({"e": "badjson", "msg": format!("{:?} {:?}", x.err(), y.err())}),
    }
}

/// How much there is, for indexes too large to write down.
fn extent(ix: &Index) -> Value {
    let j = match json::parse(&ix.to_json()) {
        Ok(j) => j,
        Err(e) => return json!({"e": "badjson", "msg": e}),
    };
    let null = J::Null;
    let per: Vec<Value> = j
        .get("index")
        .unwrap_or(&null)
        .obj()
        .iter()
        .map(|(f, x)| {
            let mut out = vec![];
            inv::nodes(x.get("root").unwrap_or(&null), &mut vec![], &mut out, &|x| json!(root_of(x)));
            let listed = out.iter().filter(|n| !n[2].as_array().unwrap().is_empty()).count();
            let df: i64 = out.iter().map(|n| n[1].as_i64().unwrap()).sum();
            let times: i64 = out.iter().flat_map(|n| n[2].as_array().unwrap()).map(|x| x[1].as_i64().unwrap()).sum();
            json!([f, listed, df, times])
        })
        .collect();
    json!({"e": "extent", "per": per})
}

enum B {
    Building(IndexBuilder),
    Ready(Index),
    Gone,
}

pub fn run(sc: &Value) -> Value {
    let enc = sc.get("enc").and_then(|x| x.as_str()).unwrap_or("str");
    let mut out = vec![];
    let mut seen_lang: String;
    let start = |lang: &Value| -> (B, Told, String) {
        let (b, l, n): (IndexBuilder, Box<dyn Language>, &str) = if lang.is_null() {
            (if sc["via"] == "default" { IndexBuilder::default() } else { IndexBuilder::new() }, custom::language("en"), "default")
        } else {
            (IndexBuilder::with_language(custom::language(s(lang))), custom::language(s(lang)), s(lang))
        };
        let builtin = !custom::is_custom(n);
        (B::Building(b), Told { lang: l, builtin, fields: vec![] }, n.to_string())
    };
    let lang = sc.get("lang").cloned().unwrap_or(json!("rw"));
    let (mut b, mut told, n) = start(&lang);
    seen_lang = n;
    let mut aside: std::collections::BTreeMap<u64, (B, Told, String)> = Default::default();
    let mut at = 0u64;
    let mut turn = s(&sc["id"]).len();
    out.push(json!({"e": "begin", "lang": if lang.is_null() { "en" } else { langs::base(&seen_lang) }}));
    let mut over = false;
    let mut dead: Vec<u64> = vec![];
    for op in sc["ops"].as_array().unwrap() {
        let k = s(&op[0]).to_string();
        // after a panic only another index goes on
        if over && k != "use" {
            continue;
        }
        over = false;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let cur = std::mem::replace(&mut b, B::Gone);
            let (next, ev) = match (k.as_str(), cur) {
                // a fresh builder
                ("begin", _) => {
                    let (nb, nt, n) = start(&op[1]);
                    told = nt;
                    seen_lang = n;
                    let l = if op[1].is_null() { "en" } else { langs::base(&seen_lang) };
                    (nb, json!({"e": "begin", "lang": l}))
                }
                // Index::new / Index::with_language
                ("new", _) => {
                    let fs = strs(&op[2]);
                    let (_, nt, n) = start(&op[1]);
                    told = nt;
                    told.fields = fs.iter().map(|f| (f.clone(), None)).collect();
                    let ix = if op[1].is_null() { Index::new(&fs) } else { Index::with_language(custom::language(&n), &fs) };
                    (B::Ready(ix), json!({"e": "new", "lang": if op[1].is_null() { "en" } else { langs::base(&n) }, "fs": fs}))
                }
                ("field", B::Building(x)) => {
                    let f = s(&op[1]);
                    let x = match op[2].as_str() {
                        Some(t) => x.add_field_with_tokenizer(f, custom::tokenizer(t)),
                        None => x.add_field(f),
                    };
                    told.fields.push((f.into(), op[2].as_str().map(|t| t.into())));
                    (B::Building(x), json!({"e": "field", "f": op[1], "tk": op[2].as_str().unwrap_or("lang")}))
                }
                ("fields", B::Building(x)) => {
                    let fs = strs(&op[1]);
                    turn += 1;
                    let x = match turn % 3 {
                        0 => x.add_fields(&fs),
                        1 => x.add_fields(fs.iter().filter(|_| true)),
                        _ => x.add_fields(fs.clone()),
                    };
                    for f in &fs {
                        told.fields.push((f.clone(), None));
                    }
                    (B::Building(x), json!({"e": "fields", "fs": fs}))
                }
                ("ref", B::Building(x)) => (B::Building(x.set_ref(s(&op[1]))), json!({"e": "ref", "f": op[1]})),
                ("save", B::Building(x)) => {
                    let v = op[1].as_bool().unwrap();
                    (B::Building(x.save_docs(v)), json!({"e": "save", "v": v}))
                }
                ("build", B::Building(x)) => (B::Ready(x.build()), json!({"e": "build"})),
                ("add", B::Ready(mut ix)) => {
                    let vs = op[2].as_array().unwrap();
                    let texts: Vec<String> = vs.iter().map(text).collect();
                    let ev = json!({"e": "add", "r": op[1],
                        "v": vs.iter().enumerate().map(|(i, v)| value(v, i, &told, enc)).collect::<Vec<_>>()});
                    // the values come in different ways
                    turn += 1;
                    match turn % 6 {
                        0 => ix.add_doc(s(&op[1]), &texts),
                        1 => ix.add_doc(s(&op[1]), texts.iter().filter(|_| true)),
                        2 => ix.add_doc(s(&op[1]), texts.iter().map(|t| &t[..]).collect::<Vec<&str>>()),
                        3 => ix.add_doc(s(&op[1]), texts.iter().take(1).chain(texts.iter().skip(1)).cloned()),
                        // another index is at work while the values are asked for
                        4 => {
                            let mut side = Index::new(&["body", "q"]);
                            let mut n = 0;
                            ix.add_doc(
                                s(&op[1]),
                                texts.iter().map(|t| {
                                    n += 1;
                                    side.add_doc(&n.to_string(), &["other words", t]);
                                    assert!(side.to_json().len() > n, "the index at the side is empty");
                                    t
                                }),
                            )
                        }
                        _ => {
                            let mut left: std::collections::VecDeque<String> = texts.iter().cloned().collect();
                            ix.add_doc(s(&op[1]), std::iter::from_fn(move || left.pop_front()))
                        }
                    }
                    (B::Ready(ix), ev)
                }
                // many documents with the same single value: refs prefix0..prefix(n-1)
                ("addmany", B::Ready(mut ix)) => {
                    let vs = op[3].as_array().unwrap();
                    let texts: Vec<String> = vs.iter().map(text).collect();
                    let ev = json!({"e": "addmany", "p": op[1], "n": op[2],
                        "v": vs.iter().enumerate().map(|(i, v)| value(v, i, &told, enc)).collect::<Vec<_>>()});
                    for i in 0..op[2].as_u64().unwrap() {
                        ix.add_doc(&format!("{}{}", s(&op[1]), i), &texts);
                    }
                    (B::Ready(ix), ev)
                }
                ("dump", B::Ready(ix)) => {
                    let e = dump(&ix, enc);
                    (B::Ready(ix), e)
                }
                ("sum", B::Ready(ix)) => {
                    let e = summary(&ix, enc);
                    (B::Ready(ix), e)
                }
                ("extent", B::Ready(ix)) => {
                    let e = extent(&ix);
                    (B::Ready(ix), e)
                }
                // puts the current index aside and goes on with another one
                ("use", cur) => {
                    let k = op[1].as_u64().unwrap();
                    let fresh = start(&op[2]);
                    let l = if op[2].is_null() { "en".to_string() } else { langs::base(&fresh.2).to_string() };
                    let (nb, nt, _) = aside.remove(&k).unwrap_or(fresh);
                    aside.insert(at, (cur, std::mem::replace(&mut told, nt), String::new()));
                    at = k;
                    (nb, json!({"e": "use", "k": k, "lang": l}))
                }
                ("json", B::Ready(ix)) => {
                    let e = json_event(&ix);
                    (B::Ready(ix), e)
                }
                ("ser", B::Ready(ix)) => {
                    let (x, y) = (ix.to_json(), ix.to_json_pretty());
                    let e = json!({"e": "ser", "h": format!("{}:{}:{}:{}", x.len(), hash(x.as_bytes()), y.len(), hash(y.as_bytes()))});
                    (B::Ready(ix), e)
                }
                // serialize and drop, without looking at the result
                ("bytes", B::Ready(ix)) => {
                    let n = ix.to_json().len();
                    let m = ix.to_json_pretty().len();
                    drop(ix);
                    (B::Gone, json!({"e": "bytes", "ok": n > 0 && m > n}))
                }
                ("reload", B::Ready(ix)) => {
                    let e = reload(&ix);
                    (B::Ready(ix), e)
                }
                (k, _) => panic!("script: index op {} is out of place", k),
            };
            b = next;
            ev
        }));
        // back to one that panicked: nothing more to see
        over = k == "use" && dead.contains(&at);
        match r {
            Ok(ev) => out.push(ev),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                if m.starts_with("script:") || m.starts_with("harness:") {
                    panic!("{}", m);
                }
                let mut e = json!({"e": "panic", "in": k, "msg": m});
                match k.as_str() {
                    "field" => {
                        e["f"] = op[1].clone();
                        e["tk"] = json!(op[2].as_str().unwrap_or("lang"));
                    }
                    "fields" => e["fs"] = op[1].clone(),
                    "new" => e["fs"] = op[2].clone(),
                    "add" => e["n"] = json!(op[2].as_array().unwrap().len()),
                    _ => {}
                }
                out.push(e);
                over = true;
                dead.push(at);
            }
        }
    }
    for e in out.iter_mut() {
        shorten(e);
    }
    Value::Array(out)
}

/// Long references and names by what stands for them.
pub fn shorten(v: &mut Value) {
    match v {
        Value::String(t) if t.len() > 400 => *t = abbr(t),
        Value::Array(a) => a.iter_mut().for_each(shorten),
        Value::Object(o) => o.values_mut().for_each(shorten),
        _ => {}
    }
}

/// Loading a complete index back.
fn reload(ix: &Index) -> Value {
    let a: &'static str = Box::leak(ix.to_json().into_boxed_str());
    match serde_json::from_str::<Index>(a) {
        Ok(n) => {
            let mut moved = vec![];
            let want = json::parse(a).map(|j| json::as_read(&j, &mut moved));
            let same = json::parse(&n.to_json()) == want && (!moved.is_empty() || n.to_json() == a);
            json!({"e": "reload", "ok": true, "same": same, "moved": moved.len(), "msg": ""})
        }
        Err(e) => json!({"e": "reload", "ok": false, "same": false, "moved": 0, "msg": e.to_string().split(" at ").next().unwrap()}),
    }
}
