//! Scripts on `Pipeline` and the search configuration.

use crate::index::leaves;
use crate::json::parse;
use crate::{guarded, s, strs};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::pipeline::{FnWrapper, Pipeline, PipelineFn};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// The functions a script can put into a pipeline; the specification defines each one too.
pub fn apply(kind: &str, t: String) -> Option<String> {
    let (k, arg) = kind.split_once(':').unwrap_or((kind, ""));
    match k {
        "id" => Some(t),
        "drop" => None,
        "app" => Some(t + arg),
        "pre" => Some(format!("{}{}", arg, t)),
        "dropif" => (t != arg).then_some(t),
        "only" => (t == arg).then_some(t),
        "empty" => Some(String::new()),
        "dropempty" => (!t.is_empty()).then_some(t),
        "tail" => {
            let mut c = t.chars();
            c.next();
            Some(c.as_str().to_string())
        }
        _ => panic!("script: unknown function {}", kind),
    }
}

struct Spy {
    name: String,
    kind: String,
    at: usize,
    log: Rc<RefCell<Vec<(usize, String)>>>,
}

impl PipelineFn for Spy {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn filter(&self, token: String) -> Option<String> {
        self.log.borrow_mut().push((self.at, token.clone()));
        apply(&self.kind, token)
    }
}

fn chars(t: &str) -> Value {
    Value::Array(t.chars().map(|c| json!(c.to_string())).collect())
}

fn plain_drop_x(t: String) -> Option<String> {
    apply("dropif:x", t)
}
fn plain_app(t: String) -> Option<String> {
    apply("app:w", t)
}

pub fn pipe(sc: &Value) -> Value {
    let log = Rc::new(RefCell::new(vec![]));
    let mut q: Vec<Box<dyn PipelineFn>> = vec![];
    for (i, k) in strs(&sc["fns"]).iter().enumerate() {
        match k.as_str() {
            // wrapped plain functions are not spied upon
            "wrap:dropx" => q.push(Box::new(FnWrapper("wrapDrop".into(), plain_drop_x))),
            "wrap:app" => q.push(Box::new(FnWrapper("wrapApp".into(), plain_app))),
            _ => q.push(Box::new(Spy { name: format!("f{}", k), kind: k.clone(), at: i + 1, log: log.clone() })),
        }
    }
    let p = Pipeline { queue: q };
    let mut out = vec![json!({"e": "queue", "fns": strs(&sc["fns"]).iter().map(|x| fname(x)).collect::<Vec<_>>(),
        "names": serde_json::to_value(&p).unwrap()})];
    // [[what, how many in a row]..]
    let rle = |v: &[String]| -> Value {
        let mut r: Vec<(&String, u64)> = vec![];
        for t in v {
            match r.last_mut() {
                Some(l) if l.0 == t => l.1 += 1,
                _ => r.push((t, 1)),
            }
        }
        Value::Array(r.iter().map(|(t, n)| json!([chars(t), n])).collect())
    };
    for op in sc["runs"].as_array().unwrap() {
        if let Some(ps) = op.get("rle") {
            let toks: Vec<String> = ps.as_array().unwrap().iter().flat_map(|p| vec![s(&p[0]).to_string(); p[1].as_u64().unwrap() as usize]).collect();
            out.push(guarded(op, || {
                log.borrow_mut().clear();
                let r = p.run(toks.clone());
                let mut calls: BTreeMap<(usize, String), u64> = Default::default();
                for c in log.borrow().iter() {
                    *calls.entry(c.clone()).or_default() += 1;
                }
                json!({"e": "rle", "in": rle(&toks), "out": rle(&r), "calls": calls.iter().map(|((i, t), n)| json!([[i, chars(t)], n])).collect::<Vec<_>>()})
            }));
            continue;
        }
        let toks = strs(op);
        let e = guarded(op, || {
            log.borrow_mut().clear();
            let r = p.run(toks.clone());
            let calls: Vec<Value> = log.borrow().iter().map(|(i, t)| json!([i, chars(t)])).collect();
            json!({"e": "run", "in": toks.iter().map(|t| chars(t)).collect::<Vec<_>>(),
                "out": r.iter().map(|t| chars(t)).collect::<Vec<_>>(), "calls": calls})
        });
        out.push(e);
    }
    Value::Array(out)
}

fn fname(k: &str) -> Value {
    let (a, b) = k.split_once(':').unwrap_or((k, ""));
    json!([a, chars(b), k])
}

fn sbool(v: &Value) -> Option<SearchBool> {
    match v.as_str() {
        Some("or") => Some(SearchBool::Or),
        Some("and") => Some(SearchBool::And),
        _ => None,
    }
}

/// One operation: [bool, expand, [[field, boost, bool, expand]..]]; absent parts are null and keep
/// the default.
pub fn cfg(sc: &Value) -> Value {
    let mut out = vec![];
    for op in sc["ops"].as_array().unwrap() {
        let e = guarded(op, || {
            let mut o = SearchOptions::default();
            if let Some(b) = sbool(&op[0]) {
                o.bool = b;
            }
            if let Some(x) = op[1].as_bool() {
                o.expand = x;
            }
            let mut fs = vec![];
            for f in op[2].as_array().unwrap() {
                let mut x = SearchOptionsField::default();
                if let Some(b) = f[1].as_u64() {
                    x.boost = Some(b as u8);
                }
                if let Some(b) = sbool(&f[2]) {
                    x.bool = Some(b);
                }
                if let Some(b) = f[3].as_bool() {
                    x.expand = Some(b);
                }
                o.fields.insert(s(&f[0]).into(), x);
                fs.push(json!([f[0], f[1].as_u64().map(|x| x as i64).unwrap_or(-1), f[2].as_str().unwrap_or("none"),
                    f[3].as_bool().map(|b| b.to_string()).unwrap_or("none".into())]));
            }
            let a = serde_json::to_string(&o).unwrap();
            let pretty = serde_json::to_string_pretty(&o).unwrap();
            let mut l = vec![];
            let mut same = false;
            match (parse(&a), parse(&pretty)) {
                (Ok(x), Ok(y)) => {
                    leaves(&x, &mut vec![], &mut l);
                    same = x == y;
                }
                _ => l.push(json!([["<bad json>"], "", ""])),
            }
            let back = serde_json::from_str::<SearchOptions>(&a).map(|b| b == o && serde_json::to_string(&b).unwrap() == a);
            let back2 = serde_json::from_str::<SearchOptions>(&pretty).map(|b| b == o);
            let eq = |x: Result<SearchOptions, serde_json::Error>| x.map(|b| b == o).unwrap_or(false);
            let others = eq(serde_json::from_slice(a.as_bytes()))
                && eq(serde_json::from_reader(pretty.as_bytes()))
                && eq(serde_json::to_value(&o).and_then(serde_json::from_value))
                && eq(serde_json::from_str::<serde_json::Value>(&a).and_then(serde_json::from_value));
            json!({"e": "cfg", "b": op[0].as_str().unwrap_or("none"),
                "x": op[1].as_bool().map(|b| b.to_string()).unwrap_or("none".into()), "fs": fs,
                "leaves": l, "same": same, "back": back.unwrap_or(false) && back2.unwrap_or(false) && others})
        });
        out.push(e);
    }
    Value::Array(out)
}
