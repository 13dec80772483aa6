//! Scripts on `DocumentStore`.

use crate::json::{self, J};
use crate::{guarded, s, strs};
use elasticlunr::document_store::DocumentStore;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn pairs(m: &BTreeMap<String, String>) -> Value {
    json!(m.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>())
}

/// The serialized form of a store as lists.
pub fn view(j: &J, length: fn(&J) -> Value) -> Value {
    let null = J::Null;
    let docs = j.get("docs").unwrap_or(&null);
    let info = j.get("docInfo").unwrap_or(&null);
    json!({
        "save": j.get("save") == Some(&J::Bool(true)),
        "len": j.get("length").unwrap_or(&null).int(),
        "docs": docs.obj().iter().map(|(r, d)| json!([r, d.obj().iter().map(|(k, v)| json!([k, v.str()])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "info": info.obj().iter().map(|(r, d)| json!([r, d.obj().iter().map(|(k, v)| json!([k, length(v)])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "keys": j.obj().iter().map(|(k, _)| k.clone()).collect::<Vec<_>>(),
    })
}

pub fn run(sc: &Value) -> Value {
    let mut st = DocumentStore::new(sc["save"].as_bool().unwrap());
    let mut out = vec![];
    for op in sc["ops"].as_array().unwrap() {
        let e = guarded(op, || match s(&op[0]) {
            "add" => {
                let m: BTreeMap<String, String> = op[2]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|kv| (s(&kv[0]).to_string(), s(&kv[1]).to_string()))
                    .collect();
                let p = pairs(&m);
                st.add_doc(s(&op[1]), m);
                json!({"e": "add", "r": op[1], "doc": p})
            }
            "rem" => {
                st.remove_doc(s(&op[1]));
                json!({"e": "rem", "r": op[1]})
            }
            "len" => {
                st.add_field_length(s(&op[1]), s(&op[2]), op[3].as_u64().unwrap() as usize);
                json!({"e": "len", "r": op[1], "f": op[2], "n": op[3].to_string()})
            }
            // goes on with a copy, the original is changed and given up
            "copy" => {
                let mut old = std::mem::replace(&mut st, DocumentStore::new(true));
                st = old.clone();
                let refs: Vec<String> = old.docs.keys().cloned().collect();
                for r in refs.iter().step_by(2) {
                    old.remove_doc(r);
                }
                old.add_doc("other", Default::default());
                old.add_field_length("other", "f", 7);
                for r in refs.iter() {
                    old.add_field_length(r, "f", 9);
                    old.add_doc(r, Default::default());
                }
                json!({"e": "copy"})
            }
            "q" => {
                let mut r = vec![];
                for d in strs(&op[1]) {
                    let g = st.get_doc(&d);
                    r.push(json!({
                        "r": d, "has": st.has_doc(&d), "some": g.is_some(),
                        "doc": g.map(|m| pairs(&m)).unwrap_or(json!([])),
                        "lens": strs(&op[2]).iter().map(|f| json!([f, st.get_field_length(&d, f).to_string()])).collect::<Vec<_>>(),
                    }));
                }
                json!({"e": "q", "r": r, "len": st.len(), "empty": st.is_empty(), "stored": st.is_stored(), "flen": st.length})
            }
            "dump" => {
                let t = serde_json::to_string(&st).unwrap();
                let v = view(&json::parse(&t).unwrap_or(J::Null), |n| if let J::Num(t) = n { json!(t) } else { json!("?") });
                json!({"e": "dump", "v": v})
            }
            "reload" => {
                let a = serde_json::to_string(&st).unwrap();
                let pretty = serde_json::to_string_pretty(&st).unwrap();
                let back = |x: &DocumentStore| serde_json::to_string(x).unwrap() == a;
                // the other ways to read JSON
                let others = serde_json::from_slice::<DocumentStore>(a.as_bytes()).map(|x| back(&x)).unwrap_or(false)
                    && serde_json::from_reader::<_, DocumentStore>(pretty.as_bytes()).map(|x| back(&x)).unwrap_or(false)
                    && serde_json::to_value(&st).and_then(serde_json::from_value::<DocumentStore>).map(|x| back(&x)).unwrap_or(false)
                    && serde_json::from_str::<serde_json::Value>(&a).and_then(serde_json::from_value::<DocumentStore>).map(|x| back(&x)).unwrap_or(false);
                match (serde_json::from_str::<DocumentStore>(&a), serde_json::from_str::<DocumentStore>(&pretty)) {
                    (Ok(n), Ok(n2)) => {
                        let same = back(&n) && back(&n2);
                        st = n;
                        json!({"e": "reload", "ok": true, "eq": others, "same": same})
                    }
                    _ => json!({"e": "reload", "ok": false, "eq": false, "same": false}),
                }
            }
            k => panic!("script: store op {}", k),
        });
        let stop = e["e"] == "panic";
        out.push(e);
        if stop {
            break;
        }
    }
    let mut out = Value::Array(out);
    crate::index::shorten(&mut out);
    out
}
