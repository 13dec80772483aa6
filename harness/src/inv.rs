//! Scripts on `InvertedIndex`.

use crate::json::{self, J};
use crate::{codes, guarded, s, strs};
use elasticlunr::inverted_index::InvertedIndex;
use serde_json::{json, Value};

/// A frequency of a script: a text is read exactly.
fn freq(v: &Value) -> f64 {
    v.as_str().map_or_else(|| v.as_f64().unwrap(), |t| t.parse().unwrap())
}

pub fn tf(x: f64) -> String {
    format!("{:?}", x)
}

/// Every node below `j` as [path, df, [[doc, tf]..]], with malformed members as paths "!".
pub fn nodes(j: &J, path: &mut Vec<u32>, out: &mut Vec<Value>, f: &dyn Fn(f64) -> Value) {
    let mut docs = vec![];
    let mut df = json!(-1_000_003);
    let mut seen: Vec<&str> = vec![];
    for (k, v) in j.obj() {
        if seen.contains(&k.as_str()) {
            out.push(json!([[33, 33], 0, []]));
        }
        seen.push(k);
        match k.as_str() {
            "docs" => {
                for (d, t) in v.obj() {
                    docs.push(json!([d, t.get("tf").map(|x| f(x.f64())).unwrap_or(json!("?"))]));
                }
            }
            "df" => df = json!(v.int()),
            _ => {}
        }
    }
    out.push(json!([path, df, docs]));
    for (k, v) in j.obj() {
        if k == "docs" || k == "df" {
            continue;
        }
        let cs: Vec<char> = k.chars().collect();
        if cs.len() != 1 {
            out.push(json!([[33], 0, []]));
            continue;
        }
        path.push(cs[0] as u32);
        nodes(v, path, out, f);
        path.pop();
    }
}

pub fn dump_nodes(text: &str) -> Value {
    match json::parse(text) {
        Ok(j) => {
            let mut out = vec![];
            match j.get("root") {
                Some(r) => nodes(r, &mut vec![], &mut out, &|x| json!(tf(x))),
                None => out.push(json!([[33], 0, []])),
            }
            Value::Array(out)
        }
        Err(_) => json!([[[33, 33, 33], 0, []]]),
    }
}

pub fn query(ix: &InvertedIndex, toks: &[String], docs: &[String]) -> Value {
    let mut r = vec![];
    for t in toks {
        let listed = ix.get_docs(t);
        r.push(json!({
            "t": codes(t),
            "has": ix.has_token(t),
            "some": listed.is_some(),
            "docs": listed.unwrap_or_default().iter().map(|(k, v)| json!([k, tf(*v)])).collect::<Vec<_>>(),
            "df": ix.get_doc_frequency(t),
            "tfs": docs.iter().map(|d| json!([d, tf(ix.get_term_frequency(d, t))])).collect::<Vec<_>>(),
        }));
    }
    Value::Array(r)
}

pub fn run(sc: &Value) -> Value {
    let mut ix = InvertedIndex::new();
    let mut out = vec![];
    for op in sc["ops"].as_array().unwrap() {
        let e = guarded(op, || match s(&op[0]) {
            "add" => {
                let f = freq(&op[3]);
                ix.add_token(s(&op[1]), s(&op[2]), f);
                json!({"e": "add", "d": op[1], "t": codes(s(&op[2])), "f": tf(f)})
            }
            // many documents with one token: prefix0..prefix(n-1)
            "addmany" => {
                let f = freq(&op[4]);
                for i in 0..op[2].as_u64().unwrap() {
                    ix.add_token(&format!("{}{}", s(&op[1]), i), s(&op[3]), f);
                }
                json!({"e": "addmany", "p": op[1], "n": op[2], "t": codes(s(&op[3])), "f": tf(f)})
            }
            // only how many are listed
            "sum" => {
                let j = serde_json::to_string(&ix).unwrap();
                let nodes = dump_nodes(&j);
                let short: Vec<Value> = nodes.as_array().unwrap().iter().map(|n| {
                    let fs: std::collections::BTreeSet<String> = n[2].as_array().unwrap().iter().map(|x| x[1].to_string()).collect();
                    json!([n[0], n[1], n[2].as_array().unwrap().len(), fs.len()])
                }).collect();
                let asked: Vec<Value> = strs(&op[1]).iter().map(|t| json!([codes(t), ix.get_doc_frequency(t), ix.get_docs(t).map_or(0, |d| d.len())])).collect();
                json!({"e": "sum", "nodes": short, "asked": asked})
            }
            "rem" => {
                ix.remove_token(s(&op[1]), s(&op[2]));
                json!({"e": "rem", "d": op[1], "t": codes(s(&op[2]))})
            }
            "q" => json!({"e": "q", "r": query(&ix, &strs(&op[1]), &strs(&op[2]))}),
            "dump" => json!({"e": "dump", "nodes": dump_nodes(&serde_json::to_string(&ix).unwrap())}),
            // compares two ways to observe the same index, for tokens too deep to dump
            "reload" => {
                let a = serde_json::to_string(&ix).unwrap();
                let pretty = serde_json::to_string_pretty(&ix).unwrap();
                match (serde_json::from_str::<InvertedIndex>(&a), serde_json::from_str::<InvertedIndex>(&pretty)) {
                    (Ok(n), Ok(n2)) => {
                        let mut moved = vec![];
                        let want = json::parse(&a).map(|j| json::as_read(&j, &mut moved));
                        let same = json::parse(&serde_json::to_string(&n).unwrap()) == want;
                        // the other ways to read JSON; through a value in memory every number is exact
                        let others = serde_json::from_slice::<InvertedIndex>(pretty.as_bytes()).map(|x| x == n).unwrap_or(false)
                            && serde_json::from_reader::<_, InvertedIndex>(a.as_bytes()).map(|x| x == n).unwrap_or(false)
                            && serde_json::from_str::<Value>(&a).and_then(serde_json::from_value::<InvertedIndex>).map(|x| x == n).unwrap_or(false)
                            && serde_json::to_value(&ix).and_then(serde_json::from_value::<InvertedIndex>).map(|x| x == ix).unwrap_or(false);
                        let eq = n == ix && n2 == ix;
                        let twice = n == n2;
                        ix = n;
                        let mut seen: Vec<Value> = vec![];
                        for (x, y) in moved {
                            let p = json!([tf(x), tf(y)]);
                            if !seen.contains(&p) {
                                seen.push(p);
                            }
                        }
                        json!({"e": "reload", "ok": true, "eq": eq, "same": same, "twice": twice && others, "moved": seen})
                    }
                    (x, y) => json!({"e": "reload", "ok": false, "eq": false, "same": false,
                        "msg": format!("{:?} {:?}", x.err().map(|e| e.to_string()), y.err().map(|e| e.to_string()))}),
                }
            }
            k => panic!("script: inv op {}", k),
        });
        let stop = e["e"] == "panic";
        out.push(e);
        if stop {
            break;
        }
    }
    Value::Array(out)
}
