//! Scripts on the built-in languages: registry, tokenizers, stages, whole pipelines.

use crate::index::abbr;
use crate::{codes, guarded, s, strs, units};
use elasticlunr::lang;
use elasticlunr::{Index, Language};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Lang {
    pub lang: Box<dyn Language>,
    pub pipe: elasticlunr::Pipeline,
}

thread_local! {
    static CACHE: RefCell<BTreeMap<String, Rc<Lang>>> = RefCell::new(BTreeMap::new());
}

/// The code in "code@way".
pub fn base(key: &str) -> &str {
    key.split('@').next().unwrap()
}

#[cfg(feature = "all")]
fn by_type(code: &str, default: bool) -> Option<Box<dyn Language>> {
    macro_rules! types {
        ($($code:literal $name:ident),*) => {
            match code {
                $($code => Some(if default { Box::<lang::$name>::default() as Box<dyn Language> } else { Box::new(lang::$name::new()) }),)*
                _ => None,
            }
        };
    }
    types!("en" English, "ar" Arabic, "zh" Chinese, "da" Danish, "du" Dutch, "fi" Finnish, "fr" French, "de" German, "hu" Hungarian, "it" Italian,
        "ja" Japanese, "ko" Korean, "no" Norwegian, "pt" Portuguese, "ro" Romanian, "ru" Russian, "es" Spanish, "sv" Swedish, "tr" Turkish)
}

#[cfg(not(feature = "all"))]
fn by_type(_: &str, default: bool) -> Option<Box<dyn Language>> {
    Some(if default { Box::<lang::English>::default() } else { Box::new(lang::English::new()) })
}

#[cfg(feature = "all")]
fn with_config() -> Box<dyn Language> {
    Box::new(lang::Japanese::with_config(lindera::tokenizer::TokenizerConfig {
        mode: lindera_core::viterbi::Mode::Decompose(Default::default()),
        ..Default::default()
    }))
}

/// A copy, of an instance that has been used and is gone.
#[cfg(feature = "all")]
fn copied(code: &str) -> Option<Box<dyn Language>> {
    macro_rules! types {
        ($($code:literal $name:ident),*) => {
            match code {
                $($code => {
                    let l = lang::$name::new();
                    l.make_pipeline().run(l.tokenize("one Text"));
                    let c = l.clone();
                    l.make_pipeline().run(l.tokenize("another"));
                    drop(l);
                    Some(Box::new(c) as Box<dyn Language>)
                })*
                // the only one that cannot be copied
                _ => by_type(code, false),
            }
        };
    }
    types!("en" English, "zh" Chinese, "da" Danish, "du" Dutch, "fi" Finnish, "fr" French, "de" German, "hu" Hungarian, "it" Italian,
        "ja" Japanese, "ko" Korean, "no" Norwegian, "pt" Portuguese, "ro" Romanian, "ru" Russian, "es" Spanish, "sv" Swedish, "tr" Turkish)
}

#[cfg(not(feature = "all"))]
fn copied(_: &str) -> Option<Box<dyn Language>> {
    Some(Box::new(lang::English::new().clone()))
}

#[cfg(not(feature = "all"))]
fn with_config() -> Box<dyn Language> {
    panic!("script: built without the segmenters")
}

/// A language in one of the ways to get it: by code (also "code" in capitals), name, list, type or
/// configuration.
pub fn make(key: &str) -> Option<Box<dyn Language>> {
    let code = base(key);
    match key.split('@').nth(1).unwrap_or("") {
        "" => lang::from_code(code),
        "CODE" => lang::from_code(&code.to_uppercase()),
        "name" => lang::from_code(code).and_then(|l| lang::from_name(&l.name())),
        "list" => lang::languages().into_iter().find(|l| l.code() == code),
        "new" => by_type(code, false),
        "default" => by_type(code, true),
        "clone" => copied(code),
        "config" => Some(with_config()),
        w => panic!("script: way {}", w),
    }
}

/// One instance of each language for all scripts of a run.
pub fn get(code: &str) -> Rc<Lang> {
    CACHE.with(|c| {
        c.borrow_mut()
            .entry(code.to_string())
            .or_insert_with(|| {
                let lang = make(code).unwrap_or_else(|| panic!("harness: no language {}", code));
                let pipe = lang.make_pipeline();
                Rc::new(Lang { lang, pipe })
            })
            .clone()
    })
}

fn list(v: &[String]) -> Value {
    Value::Array(v.iter().map(|x| codes(x)).collect())
}

fn opt(v: &Option<String>, enc: fn(&str) -> Value) -> Value {
    match v {
        Some(t) => json!([enc(t)]),
        None => json!([]),
    }
}

fn describe(l: &dyn Language) -> Value {
    let p = l.make_pipeline();
    let ix = Index::with_language(lang::from_code(&l.code()).unwrap_or_else(|| Box::new(lang::English::new())), ["f"]);
    let j: Value = serde_json::from_str(&ix.to_json()).unwrap_or(Value::Null);
    json!({
        "name": l.name(), "code": l.code(),
        "stages": p.queue.iter().map(|f| f.name()).collect::<Vec<_>>(),
        "jname": j["lang"].as_str().unwrap_or("?"),
        "jstages": j["pipeline"].as_array().cloned().unwrap_or_default(),
        "ser": serde_json::to_value(&p).unwrap_or(json!([])),
    })
}

/// Each name with each part before or after it, with something in between.
fn with_parts(names: &[String], parts: &[String], probe: &mut dyn FnMut(&str)) {
    let mut t = String::new();
    let mut go = |bits: &[&str]| {
        t.clear();
        bits.iter().for_each(|x| t.push_str(x));
        probe(&t);
    };
    for n in names {
        for p in parts {
            for sep in ["", "-", "_", ".", "@", "/", ":", " ", "+", "#", ",", ";", "--", "-x-", "_x_", "=", "\\", "(", "\n", "\0"] {
                go(&[n, sep, p]);
                go(&[p, sep, n]);
            }
            go(&[n, "-US-", p]);
            go(&[n, "_US_", p]);
            go(&[n, " (", p, ")"]);
            go(&[p, "-", n, ".js"]);
            go(&[p, ".", n, ".js"]);
        }
    }
}

/// A name with any of its first letters in the other case.
fn every_case(n: &str, probe: &mut dyn FnMut(&str)) {
    let cs: Vec<char> = n.chars().collect();
    let k = cs.len().min(10);
    for mask in 0u32..1 << k {
        let d: String = cs
            .iter()
            .enumerate()
            .map(|(i, c)| {
                if i < k && mask >> i & 1 == 1 {
                    if c.is_ascii_uppercase() {
                        c.to_ascii_lowercase()
                    } else {
                        c.to_ascii_uppercase()
                    }
                } else {
                    *c
                }
            })
            .collect();
        probe(&d);
    }
}

/// What might be taken for the code of a language.
fn code_probes(codes: &[String], parts: &[String], every: bool, probe: &mut dyn FnMut(&str)) {
    probe("");
    // all short strings of printable characters, and the controls
    let ascii: Vec<u8> = (0..128).collect();
    let mut t = String::new();
    for &a in &ascii {
        for &b in &ascii {
            t.clear();
            t.push(a as char);
            if b == 0 {
                probe(&t);
            }
            t.push(b as char);
            probe(&t);
            for &c in &ascii {
                t.truncate(2);
                t.push(c as char);
                probe(&t);
            }
        }
    }
    if every {
        // all of four letters or digits, also with a sign in the middle
        let few: Vec<char> = ('a'..='z').chain(['-', '_', '.', ' ', '0', '9', 'A', 'Z']).collect();
        for &a in &few {
            for &b in &few {
                for &c in &few {
                    for &d in &few {
                        t.clear();
                        t.extend([a, b, c, d]);
                        probe(&t);
                    }
                }
            }
        }
    }
    for c in codes {
        let cs: Vec<char> = c.chars().collect();
        for x in (0..0x30000u32).filter_map(char::from_u32) {
            for i in 0..cs.len() {
                let mut d = cs.clone();
                d[i] = x;
                if x.is_ascii() {
                    continue; // covered above for codes of two letters
                }
                probe(&d.iter().collect::<String>());
            }
            if x as u32 <= 0x3000 {
                probe(&format!("{}{}", c, x));
                probe(&format!("{}{}", x, c));
            }
        }
        if every {
            // a code and any three more
            for &x in &ascii[32..127] {
                for &y in &ascii[32..127] {
                    for &z in &ascii[32..127] {
                        t.clear();
                        t.push_str(c);
                        t.extend([x as char, y as char, z as char]);
                        probe(&t);
                    }
                }
            }
        }
        for n in 1..40 {
            for x in [' ', '\0', '-', '_', 'a', '\u{301}'] {
                probe(&(c.clone() + &String::from(x).repeat(n)));
                probe(&(String::from(x).repeat(n) + c));
            }
            probe(&c.repeat(n + 1));
        }
    }
    with_parts(codes, parts, probe);
}

pub fn registry(sc: &Value) -> Value {
    let mut out = vec![];
    let none = json!(0);
    out.push(guarded(&none, || {
        json!({"e": "list", "langs": lang::languages().iter().map(|l| describe(&**l)).collect::<Vec<_>>()})
    }));
    let brief = |p: &str, l: Box<dyn Language>| json!([abbr(p), l.name(), l.code()]);
    // every probe is tried; the ones found are written down
    let given = strs(&sc["more"]);
    let parts = strs(&sc["parts"]);
    let every = sc["every"].as_bool().unwrap_or(false);
    let (codes, names) = (strs(&sc["codes"]), strs(&sc["names"]));
    out.push(guarded(&none, || {
        let (mut f, mut n) = (vec![], 0usize);
        let mut probe = |p: &str| {
            n += 1;
            if f.len() < 400 {
                if let Some(l) = lang::from_code(p) {
                    f.push(brief(p, l));
                }
            }
        };
        code_probes(&codes, &parts, every, &mut probe);
        given.iter().chain(&names).chain(&parts).for_each(|p| probe(p));
        f.sort_by_key(|x| x.to_string());
        f.dedup();
        json!({"e": "codes", "n": n, "found": f})
    }));
    let mut np: Vec<String> = given.clone();
    np.push("".into());
    np.extend(parts.iter().cloned());
    np.extend(codes.iter().cloned());
    for n in names.iter().cloned() {
        let cs: Vec<char> = n.chars().collect();
        for i in 0..cs.len() {
            let mut d = cs.clone();
            d.remove(i);
            np.push(d.iter().collect());
            for x in (0u32..0x250).chain(0x2100..0x2200).filter_map(char::from_u32) {
                if x != cs[i] {
                    let mut d = cs.clone();
                    d[i] = x;
                    np.push(d.iter().collect());
                }
                let mut d = cs.clone();
                d.insert(i, x);
                np.push(d.iter().collect());
            }
            np.push(cs[..i].iter().collect());
            np.push(cs[i..].iter().skip(1).collect());
        }
        for x in (0u32..0x250).filter_map(char::from_u32) {
            np.push(format!("{}{}", n, x));
        }
        np.push(n.to_lowercase());
        np.push(n.to_uppercase());
        np.push(n.clone());
    }
    np.sort();
    np.dedup();
    out.push(guarded(&none, || {
        let (mut f, mut n) = (vec![], 0usize);
        let mut probe = |p: &str| {
            n += 1;
            if f.len() < 400 {
                if let Some(l) = lang::from_name(p) {
                    f.push(brief(p, l));
                }
            }
        };
        np.iter().for_each(|p| probe(p));
        with_parts(&names, &parts, &mut probe);
        for n in &names {
            every_case(n, &mut probe);
        }
        f.sort_by_key(|x| x.to_string());
        f.dedup();
        json!({"e": "names", "n": n, "found": f})
    }));
    Value::Array(out)
}

/// Tokenization of texts, in batches.
pub fn tokens(sc: &Value) -> Value {
    let code = s(&sc["lang"]);
    let mut out = vec![];
    for batch in sc["texts"].as_array().unwrap() {
        out.push(guarded(batch, || {
            let r: Vec<Value> = strs(batch)
                .iter()
                .map(|t| {
                    let o = if code == "ws" { lang::tokenize_whitespace(t) } else { get(code).lang.tokenize(t) };
                    json!([codes(t), list(&o)])
                })
                .collect();
            json!({"e": "tok", "lang": base(code), "r": r})
        }));
    }
    Value::Array(out)
}

/// One stage of a language's pipeline on single tokens, in batches. `enc` is "cp" or "u16".
pub fn stage(sc: &Value) -> Value {
    let code = s(&sc["lang"]);
    let name = s(&sc["stage"]);
    let enc: fn(&str) -> Value = if sc["enc"] == "u16" { units } else { codes };
    let mut out = vec![];
    for batch in sc["toks"].as_array().unwrap() {
        out.push(guarded(batch, || {
            let l = get(code);
            let f = match l.pipe.queue.iter().find(|f| f.name() == name) {
                Some(f) => f,
                None => return json!({"e": "nostage", "lang": base(code), "stage": name}),
            };
            let r: Vec<Value> =
                strs(batch).iter().map(|t| json!([enc(t), opt(&f.filter(t.clone()), enc)])).collect();
            json!({"e": "stage", "lang": base(code), "stage": name, "r": r})
        }));
    }
    Value::Array(out)
}

/// Very many words through one stage: what does not come out as it went in.
pub fn words(sc: &Value) -> Value {
    let code = s(&sc["lang"]);
    let name = s(&sc["stage"]);
    let all = std::fs::read_to_string(s(&sc["file"])).expect("words");
    let r = guarded(&sc["file"], || {
        let l = get(code);
        let f = match l.pipe.queue.iter().find(|f| f.name() == name) {
            Some(f) => f,
            None => return json!({"e": "nostage", "lang": base(code), "stage": name}),
        };
        let mut n = 0;
        let mut r = vec![];
        for w in all.lines() {
            n += 1;
            let x = f.filter(w.to_string());
            if x.as_deref() != Some(w) {
                r.push(json!([codes(w), opt(&x, codes)]));
            }
        }
        json!({"e": "words", "lang": base(code), "stage": name, "r": r, "n": n, "given": sc["given"]})
    });
    json!([r])
}

#[cfg(feature = "all")]
fn snowball(code: &str, t: &str) -> String {
    use rust_stemmers::{Algorithm::*, Stemmer};
    let a = match code {
        "da" => Danish,
        "du" => Dutch,
        "fi" => Finnish,
        "fr" => French,
        "de" => German,
        "hu" => Hungarian,
        "it" => Italian,
        "no" => Norwegian,
        "pt" => Portuguese,
        "ro" => Romanian,
        "ru" => Russian,
        "es" => Spanish,
        "sv" => Swedish,
        "tr" => Turkish,
        "ko" | "zh" | "ja" => return t.to_string(),
        _ => panic!("harness: no stemmer for {}", code),
    };
    thread_local! {
        static ST: RefCell<BTreeMap<String, Stemmer>> = RefCell::new(BTreeMap::new());
    }
    ST.with(|m| m.borrow_mut().entry(code.to_string()).or_insert_with(|| Stemmer::create(a)).stem(t).into_owned())
}

#[cfg(not(feature = "all"))]
fn snowball(_: &str, t: &str) -> String {
    t.to_string()
}

/// The whole pipeline on vectors of tokens, with what each stage makes of each token by itself and
/// the reference stem of what reaches the stemmer.
pub fn run(sc: &Value) -> Value {
    let code = s(&sc["lang"]);
    let mut out = vec![];
    for batch in sc["toks"].as_array().unwrap() {
        out.push(guarded(batch, || {
            let l = get(code);
            let toks = strs(batch);
            let res = l.pipe.run(toks.clone());
            let n = l.pipe.queue.len();
            let mut rows = vec![];
            for t in &toks {
                let mut cur = Some(t.clone());
                let mut before = None;
                for (i, f) in l.pipe.queue.iter().enumerate() {
                    if i + 1 == n {
                        before = cur.clone();
                    }
                    cur = cur.and_then(|x| f.filter(x));
                }
                let stem = match &before {
                    Some(b) if base(code) != "en" && base(code) != "ar" => json!([codes(b), codes(&snowball(base(code), b))]),
                    _ => json!([]),
                };
                rows.push(json!([codes(t), opt(&cur, codes), stem]));
            }
            json!({"e": "lr", "lang": base(code), "rows": rows, "out": list(&res)})
        }));
    }
    Value::Array(out)
}

/// Segmentation: the segmenter called directly, and the language's tokens.
#[cfg(feature = "all")]
pub fn segment(sc: &Value) -> Value {
    let code = s(&sc["lang"]);
    let mut out = vec![];
    let jieba = (base(code) == "zh").then(jieba_rs::Jieba::new);
    let lind = (base(code) == "ja").then(|| {
        lindera::tokenizer::Tokenizer::with_config(lindera::tokenizer::TokenizerConfig {
            mode: lindera_core::viterbi::Mode::Decompose(Default::default()),
            ..Default::default()
        })
        .unwrap()
    });
    for t in strs(&sc["texts"]) {
        let op = json!(t);
        out.push(guarded(&op, || {
            let words: Vec<Value> = match (&jieba, &lind) {
                (Some(j), _) => j.cut_for_search(&t, false).iter().map(|w| json!([codes(w), ""])).collect(),
                (_, Some(l)) => l
                    .tokenize(&t)
                    .unwrap()
                    .iter()
                    .map(|k| json!([codes(&k.text), k.detail.first().map(|x| x.to_string()).unwrap_or_default()]))
                    .collect(),
                _ => panic!("script: language {}", code),
            };
            let o = get(code).lang.tokenize(&t);
            json!({"e": "seg", "lang": base(code), "t": codes(&t), "words": words, "out": list(&o)})
        }));
    }
    Value::Array(out)
}

#[cfg(not(feature = "all"))]
pub fn segment(_: &Value) -> Value {
    panic!("script: built without the segmenters")
}

/// The code points a sweep visits, in order: those outside the given ranges.
fn settled(sc: &Value) -> Vec<char> {
    let skip: Vec<(u32, u32)> = sc["skip"]
        .as_array()
        .expect("script: skip")
        .iter()
        .map(|r| (r[0].as_u64().unwrap() as u32, r[1].as_u64().unwrap() as u32))
        .collect();
    let mut out = vec![];
    let mut i = 0;
    for x in 0..0x110000u32 {
        while i < skip.len() && skip[i].1 < x {
            i += 1;
        }
        if i < skip.len() && skip[i].0 <= x {
            continue;
        }
        out.extend(char::from_u32(x));
    }
    out
}

/// A set of code points as ranges; a range goes on across code points that were not visited.
#[derive(Default)]
struct Ranges {
    v: Vec<[u32; 2]>,
    open: bool,
}

impl Ranges {
    fn put(&mut self, c: char, yes: bool) {
        if yes {
            match self.v.last_mut() {
                Some(l) if self.open => l[1] = c as u32,
                _ => self.v.push([c as u32, c as u32]),
            }
        }
        self.open = yes;
    }
}

/// All tokens made of one of the beginnings, a sequence of letters and one of the endings of each grid;
/// their number.
fn grids(gs: &Value, f: &mut dyn FnMut(&str)) -> u64 {
    let mut given = 0u64;
    for g in gs.as_array().unwrap() {
        let letters: Vec<char> = s(&g[0]).chars().collect();
        let depth = g[1].as_u64().unwrap();
        let some = |v: &Value| if v.is_array() { strs(v) } else { vec![String::new()] };
        let (fronts, backs) = (some(&g[2]), some(&g[3]));
        let total = (letters.len() as u64).pow(depth as u32);
        given += total * fronts.len() as u64 * backs.len() as u64;
        let mut t = String::new();
        for a in &fronts {
            for x in 0..total {
                for b in &backs {
                    let mut x = x;
                    t.clear();
                    t.push_str(a);
                    for _ in 0..depth {
                        t.push(letters[(x % letters.len() as u64) as usize]);
                        x /= letters.len() as u64;
                    }
                    t.push_str(b);
                    f(&t);
                }
            }
        }
    }
    given
}

/// Every settled Unicode scalar value through one function.
pub fn sweep(sc: &Value) -> Value {
    let op = json!(0);
    let e = guarded(&op, || match s(&sc["what"]) {
        // characters at which tokenization splits, what the others become, and what does neither
        "tok" => {
            let code = s(&sc["lang"]).to_string();
            let l = if code == "ws" { None } else { Some(get(&code)) };
            let tok = |t: &str| match &l {
                None => lang::tokenize_whitespace(t),
                Some(l) => l.lang.tokenize(t),
            };
            let (mut split, mut lower, mut odd) = (Ranges::default(), vec![], vec![]);
            for c in settled(sc) {
                let v = tok(&format!("a{}b", c));
                let parts = v == ["a", "b"];
                split.put(c, parts);
                let mid = if v.len() == 1 { v[0].strip_prefix('a').and_then(|y| y.strip_suffix('b')) } else { None };
                let alone = tok(&c.to_string());
                let ends = tok(&format!("{}a{}{}", c, c, c));
                let fine = if parts {
                    alone.is_empty() && ends == ["a"]
                } else {
                    mid.is_some() && alone.len() == 1 && ends.len() == 1
                };
                if !fine && odd.len() < 50 {
                    odd.push(json!([c as u32, list(&v), list(&alone), list(&ends)]));
                }
                if let Some(m) = mid {
                    let mut b = [0; 4];
                    if m != &*c.encode_utf8(&mut b) {
                        lower.push(json!([c as u32, codes(m)]));
                    }
                }
            }
            json!({"e": "toksweep", "lang": base(&code), "split": split.v, "lower": lower, "odd": odd})
        }
        // very many texts without separators and capitals: those are shown which do not become one
        // token, or two when written twice
        "tokgrid" => {
            let code = s(&sc["lang"]).to_string();
            let l = if code == "ws" { None } else { Some(get(&code)) };
            let tok = |t: &str| match &l {
                None => lang::tokenize_whitespace(t),
                Some(l) => l.lang.tokenize(t),
            };
            let seps = strs(&sc["seps"]);
            let (mut n, mut r) = (0u64, vec![]);
            let given = grids(&sc["grids"], &mut |t| {
                n += 1;
                let v = tok(t);
                let one = if t.is_empty() { v.is_empty() } else { v.len() == 1 && v[0] == t };
                if !one && r.len() < 2000 {
                    r.push(json!([codes(t), list(&v)]));
                }
                let x = format!("{}{}{}", t, seps[n as usize % seps.len()], t);
                let v = tok(&x);
                let two = if t.is_empty() { v.is_empty() } else { v.len() == 2 && v[0] == t && v[1] == t };
                if !two && r.len() < 2000 {
                    r.push(json!([codes(&x), list(&v)]));
                }
            });
            json!({"e": "tokgrid", "lang": base(&code), "r": r, "n": n, "given": given})
        }
        // which characters a trimmer keeps before, after and without the word w; and those with
        // which it does something else than strip or keep them, or which it changes inside
        "trim" => {
            let (code, name, w) = (s(&sc["lang"]), s(&sc["stage"]), s(&sc["word"]).to_string());
            let l = get(code);
            let f = match l.pipe.queue.iter().find(|f| f.name() == name) {
                Some(f) => f,
                None => return json!({"e": "nostage", "lang": base(code), "stage": name}),
            };
            let (mut front, mut back, mut alone, mut odd) = (Ranges::default(), Ranges::default(), Ranges::default(), vec![]);
            let mut blank = 0u32;
            for c in settled(sc) {
                let (x, y, z, m) = (format!("{}{}", c, w), format!("{}{}", w, c), c.to_string(), format!("{}{}{}", w, c, w));
                let (rx, ry, rz, rm) = (f.filter(x.clone()), f.filter(y.clone()), f.filter(z.clone()), f.filter(m.clone()));
                // inside a word with dots around it, and around one with dots around it
                let (i, o) = (format!("..{}.", m), format!("{}.{}..{}", c, w, c));
                let (ri, ro) = (f.filter(i), f.filter(o.clone()));
                let (kx, ky, kz) = (rx.as_deref() == Some(&x[..]), ry.as_deref() == Some(&y[..]), rz.as_deref() == Some(&z[..]));
                front.put(c, kx);
                back.put(c, ky);
                alone.put(c, kz);
                if rz.as_deref() == Some("") {
                    blank += 1;
                }
                let fine = (kx || rx.as_deref() == Some(&w[..]))
                    && (ky || ry.as_deref() == Some(&w[..]))
                    && (kz || rz.as_deref().unwrap_or("").is_empty())
                    && rm.as_deref() == Some(&m[..])
                    && ri.as_deref() == Some(&m[..])
                    && ro.as_deref() == Some(if kx { &o[..] } else { &w[..] });
                if !fine && odd.len() < 50 {
                    odd.push(json!([c as u32, opt(&rx, codes), opt(&ry, codes), opt(&rz, codes), opt(&rm, codes), opt(&ri, codes), opt(&ro, codes)]));
                }
            }
            json!({"e": "trimsweep", "lang": base(code), "stage": name, "front": front.v, "back": back.v, "alone": alone.v, "blank": blank, "odd": odd})
        }
        // every sequence of the given letters around words and alone: where the letters stay by
        // themselves at the ends of a word decides where they stay in a sequence
        "trimgrid" => {
            let (code, name) = (s(&sc["lang"]), s(&sc["stage"]));
            let letters: Vec<char> = s(&sc["letters"]).chars().collect();
            let (depth, words) = (sc["depth"].as_u64().unwrap() as usize, strs(&sc["words"]));
            let l = get(code);
            let f = match l.pipe.queue.iter().find(|f| f.name() == name) {
                Some(f) => f,
                None => return json!({"e": "nostage", "lang": base(code), "stage": name}),
            };
            let stays: BTreeMap<char, bool> = letters
                .iter()
                .map(|c| {
                    let t = format!("{}{}", c, words[0]);
                    (*c, f.filter(t.clone()).as_deref() == Some(&t[..]))
                })
                .collect();
            let (mut n, mut odd) = (0u64, vec![]);
            let mut one = |q: &str| {
                let front = q.find(|c| stays[&c]).map(|i| &q[i..]).unwrap_or("");
                let back = q.rfind(|c| stays[&c]).map(|i| &q[..i + q[i..].chars().next().unwrap().len_utf8()]).unwrap_or("");
                let alone = if front.is_empty() { "" } else { &q[q.len() - front.len()..back.len()] };
                for (k, w) in words.iter().enumerate() {
                    let mut forms = vec![
                        (format!("{}{}", q, w), format!("{}{}", front, w)),
                        (format!("{}{}", w, q), format!("{}{}", w, back)),
                        (format!("{0}{1}{0}", w, q), format!("{0}{1}{0}", w, q)),
                    ];
                    if k == 0 {
                        forms.push((q.to_string(), alone.to_string()));
                        forms.push((format!("{0}{1}{0}", q, w), format!("{}{}{}", front, w, back)));
                    }
                    for (t, want) in forms {
                        n += 1;
                        let r = f.filter(t.clone());
                        let fine = r.as_deref().unwrap_or("") == want && (r.is_some() || want.is_empty());
                        if !fine && odd.len() < 20 {
                            odd.push(json!([codes(&t), opt(&r, codes)]));
                        }
                    }
                }
            };
            strs(&sc["strings"]).iter().for_each(|q| one(q));
            let mut at = vec![0usize; depth];
            while depth > 0 {
                let q: String = at.iter().map(|i| letters[*i]).collect();
                one(&q);
                let mut i = 0;
                while i < depth && at[i] + 1 == letters.len() {
                    at[i] = 0;
                    i += 1;
                }
                if i == depth {
                    break;
                }
                at[i] += 1;
            }
            let kept: Vec<u32> = stays.iter().filter(|x| *x.1).map(|x| *x.0 as u32).collect();
            let all: Vec<u32> = letters.iter().map(|c| *c as u32).collect();
            json!({"e": "trimgrid", "lang": base(code), "stage": name, "letters": all, "kept": kept, "n": n, "odd": odd})
        }
        // every sequence of letters through a stage that should leave nearly all as they are
        "grid" => {
            let (code, name) = (s(&sc["lang"]), s(&sc["stage"]));
            let l = get(code);
            let f = match l.pipe.queue.iter().find(|f| f.name() == name) {
                Some(f) => f,
                None => return json!({"e": "nostage", "lang": base(code), "stage": name}),
            };
            let (mut n, mut r) = (0u64, vec![]);
            let given = grids(&sc["grids"], &mut |t| {
                n += 1;
                let y = f.filter(t.to_string());
                if y.as_deref() != Some(t) && r.len() < 3000 {
                    r.push(json!([codes(t), opt(&y, codes)]));
                }
            });
            json!({"e": "words", "lang": base(code), "stage": name, "r": r, "n": n, "given": given})
        }
        // very many tokens through the whole pipeline: those are shown for which it does something else
        // than the stages up to the last and the stemmer by itself
        "lrgrid" => {
            let code = s(&sc["lang"]);
            let l = get(code);
            let last = l.pipe.queue.len() - 1;
            let (mut n, mut rows) = (0u64, vec![]);
            let given = grids(&sc["grids"], &mut |t| {
                n += 1;
                let before = l.pipe.queue[..last].iter().fold(Some(t.to_string()), |c, f| c.and_then(|x| f.filter(x)));
                let stem = before.as_deref().map(|x| snowball(base(code), x)).filter(|x| !x.is_empty());
                let all = l.pipe.run(vec![t.to_string()]);
                if all.first() != stem.as_ref() || all.len() > 1 {
                    if rows.len() < 1000 {
                        let reached = before.map_or(json!([]), |x| json!([codes(&x), codes(&snowball(base(code), &x))]));
                        rows.push(json!([codes(t), list(&all), reached]));
                    }
                }
            });
            json!({"e": "lrgrid", "lang": base(code), "rows": rows, "n": n, "given": given})
        }
        // what a stage makes of each character between two words, and alone
        "map" => {
            let (code, name, w) = (s(&sc["lang"]), s(&sc["stage"]), s(&sc["word"]).to_string());
            let l = get(code);
            let f = match l.pipe.queue.iter().find(|f| f.name() == name) {
                Some(f) => f,
                None => return json!({"e": "nostage", "lang": base(code), "stage": name}),
            };
            let mut m = vec![];
            for c in settled(sc) {
                let (t, u) = (format!("{}{}{}", w, c, w), c.to_string());
                let (a, b) = (f.filter(t.clone()), f.filter(u.clone()));
                if (a.as_deref() != Some(&t[..]) || b.as_deref() != Some(&u[..])) && m.len() < 3000 {
                    m.push(json!([c as u32, opt(&a, codes), opt(&b, codes)]));
                }
            }
            json!({"e": "mapsweep", "lang": base(code), "stage": name, "w": codes(&w), "map": m})
        }
        k => panic!("script: sweep {}", k),
    });
    Value::Array(vec![e])
}

fn rng(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    s.wrapping_mul(0x2545f4914f6cdd1d) >> 11
}

/// Random texts, made from pieces of the given samples and arbitrary characters, through a whole
/// language and an index: what panicked, and for which texts a token came out empty.
pub fn fuzz(sc: &Value) -> Value {
    let code = s(&sc["lang"]);
    let n = sc["n"].as_u64().unwrap();
    let mut seed = sc["seed"].as_u64().unwrap().wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let pools: Vec<Vec<char>> = strs(&sc["samples"]).iter().map(|x| x.chars().collect()).filter(|x: &Vec<char>| !x.is_empty()).collect();
    let fixed = strs(&sc["fixed"]);
    let mut out = vec![];
    let l = get(code);
    let (mut panics, mut empties, mut tokens, mut bad) = (vec![], vec![], 0u64, vec![]);
    let mut ix = Index::with_language(make(code).unwrap(), ["f"]);
    let mut count = 0u64;
    for it in 0..n + fixed.len() as u64 {
        let mut t = String::new();
        if (it as usize) < fixed.len() {
            t = fixed[it as usize].clone();
        } else {
            let len = rng(&mut seed) % 24;
            for _ in 0..len {
                let p = &pools[rng(&mut seed) as usize % pools.len()];
                match rng(&mut seed) % 10 {
                    0..=5 => {
                        let i = rng(&mut seed) as usize % p.len();
                        let k = 1 + rng(&mut seed) as usize % 6;
                        t.extend(&p[i..(i + k).min(p.len())]);
                    }
                    6 => t.push(p[rng(&mut seed) as usize % p.len()]),
                    7 => t.push((32 + rng(&mut seed) % 95) as u8 as char),
                    8 => t.push([' ', '-', '\t', '\u{3000}', '\u{0}', '\'', '_', '\u{301}', '\u{640}', '\u{200d}'][rng(&mut seed) as usize % 10]),
                    _ => t.extend(char::from_u32((rng(&mut seed) % 0x110000) as u32)),
                }
            }
        }
        count += 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let v = l.pipe.run(l.lang.tokenize(&t));
            if t.len() > 20000 {
                let mut own = Index::with_language(make(code).unwrap(), ["f"]);
                own.add_doc("1", [t.as_str()]);
                return crate::json::parse(&own.to_json()).map(|_| v);
            }
            ix.add_doc(&(it % 7).to_string(), [t.as_str()]);
            if it % 1024 == 5 {
                let j = ix.to_json();
                ix.to_json_pretty();
                if let Err(e) = crate::json::parse(&j) {
                    return Err(e);
                }
            }
            Ok(v)
        }));
        match r {
            Ok(Ok(v)) => {
                tokens += v.len() as u64;
                if v.iter().any(|x| x.is_empty()) {
                    empties.push(json!(codes(&t)));
                }
            }
            Ok(Err(e)) => bad.push(json!(e)),
            Err(_) => {
                panics.push(json!(codes(&t)));
                ix = Index::with_language(make(code).unwrap(), ["f"]);
            }
        }
        if panics.len() + empties.len() + bad.len() > 20 {
            break;
        }
    }
    if let Err(e) = crate::json::parse(&ix.to_json()) {
        bad.push(json!(e));
    }
    out.push(json!({"e": "fuzz", "lang": base(code), "n": count, "tokens": tokens.min(1 << 30), "panics": panics, "empty": empties, "badjson": bad}));
    Value::Array(out)
}

/// The building blocks for languages with words, letters and algorithms of their own.
pub fn blocks(sc: &Value) -> Value {
    use elasticlunr::lang::common::{RegexTrimmer, StopWordFilter};
    use elasticlunr::pipeline::PipelineFn;
    let mut out = vec![];
    for op in sc["ops"].as_array().unwrap() {
        let toks = strs(&op["toks"]);
        let name = s(&op["name"]);
        let rows = |f: &dyn PipelineFn| -> Value { toks.iter().map(|t| json!([codes(t), opt(&f.filter(t.clone()), codes)])).collect() };
        out.push(guarded(op, || match s(&op["block"]) {
            "stop" => {
                let words = strs(&op["words"]);
                let ws: Vec<&str> = words.iter().map(|x| &x[..]).collect();
                let f = StopWordFilter::new(name, &ws);
                let g = f.clone();
                json!({"e": "stopblock", "name": name, "got": [f.name(), g.name()], "words": list(&words), "r": rows(&f), "copy": rows(&g)})
            }
            "trim" => {
                let f = RegexTrimmer::new(name, s(&op["class"]));
                let g = f.clone();
                json!({"e": "trimblock", "name": name, "got": [f.name(), g.name()], "ranges": op["ranges"], "r": rows(&f), "copy": rows(&g)})
            }
            "stem" => stem_block(name, s(&op["algo"]), &toks),
            "chain" => chain(op),
            k => panic!("script: block {}", k),
        }));
    }
    Value::Array(out)
}

/// A stage that remembers what it was given.
struct Watched {
    inner: Box<dyn elasticlunr::pipeline::PipelineFn>,
    got: Rc<RefCell<Vec<String>>>,
}

impl elasticlunr::pipeline::PipelineFn for Watched {
    fn name(&self) -> String {
        self.inner.name()
    }
    fn filter(&self, token: String) -> Option<String> {
        self.got.borrow_mut().push(token.clone());
        self.inner.filter(token)
    }
}

fn plus(t: String) -> Option<String> {
    if t.starts_with('x') {
        None
    } else {
        Some(t + "+")
    }
}

/// A pipeline, and a language, of a user who puts them together from the building blocks.
struct Assembled(Value);

impl Assembled {
    fn build(&self, got: &mut Vec<Rc<RefCell<Vec<String>>>>) -> elasticlunr::Pipeline {
        use elasticlunr::lang::common::{RegexTrimmer, StopWordFilter};
        use elasticlunr::pipeline::{FnWrapper, PipelineFn};
        let mut queue: Vec<Box<dyn PipelineFn>> = vec![];
        for st in self.0.as_array().unwrap() {
            let name = s(&st["name"]);
            let words = strs(&st["words"]);
            let ws: Vec<&str> = words.iter().map(|x| &x[..]).collect();
            let inner: Box<dyn PipelineFn> = match s(&st["k"]) {
                "stop" => Box::new(StopWordFilter::new(name, &ws)),
                "trim" => Box::new(RegexTrimmer::new(name, s(&st["class"]))),
                "stem" => rust_stemmer(name, s(&st["algo"])).0,
                "fn" => Box::new(FnWrapper(name.to_string(), plus)),
                k => panic!("script: block {}", k),
            };
            let g = Rc::new(RefCell::new(vec![]));
            got.push(g.clone());
            queue.push(if s(&st["k"]) == "stem" { Box::new(Watched { inner, got: g }) } else { inner });
        }
        elasticlunr::Pipeline { queue }
    }
}

impl Language for Assembled {
    fn name(&self) -> String {
        "Assembled".into()
    }
    fn code(&self) -> String {
        "as".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        text.split(' ').map(|x| x.to_string()).collect()
    }
    fn make_pipeline(&self) -> elasticlunr::Pipeline {
        self.build(&mut vec![])
    }
}

fn chain(op: &Value) -> Value {
    let mut got = vec![];
    let p = Assembled(op["stages"].clone()).build(&mut got);
    let mut runs = vec![];
    for l in op["lists"].as_array().unwrap() {
        let toks = strs(l);
        runs.push(json!([list(&toks), list(&p.run(toks.clone()))]));
    }
    let mut ix = Index::with_language(Box::new(Assembled(op["stages"].clone())), ["f"]);
    let text = s(&op["text"]);
    ix.add_doc("1", [text]);
    let j = crate::json::parse(&ix.to_json()).unwrap_or(crate::json::J::Null);
    let null = crate::json::J::Null;
    let mut nodes = vec![];
    if let Some(r) = j.get("index").and_then(|x| x.get("f")).and_then(|x| x.get("root")) {
        crate::inv::nodes(r, &mut vec![], &mut nodes, &|x| json!(crate::json::root_of(x)));
    }
    let posted: Vec<Value> = nodes.iter().filter(|n| n[2] != json!([])).map(|n| json!([n[0], n[2][0][1]])).collect();
    let stages: Vec<Value> = op["stages"]
        .as_array()
        .unwrap()
        .iter()
        .zip(&got)
        .map(|(st, g)| {
            let mut seen = g.borrow().clone();
            // what the index gives to the stage is judged by the same table
            seen.extend(strs(&op["lists"][0]));
            seen.sort();
            seen.dedup();
            let stems: Vec<Value> = if s(&st["k"]) == "stem" {
                let f = rust_stemmer("", s(&st["algo"])).1;
                seen.iter().map(|t| json!([codes(t), codes(&f(t))])).collect()
            } else {
                vec![]
            };
            json!({"k": st["k"], "name": st["name"], "words": list(&strs(&st["words"])), "ranges": st["ranges"], "stems": stems})
        })
        .collect();
    let pl = j.get("pipeline").unwrap_or(&null);
    let names: Vec<String> = match pl {
        crate::json::J::Arr(v) => v.iter().map(|x| x.str()).collect(),
        _ => vec!["<not an array>".into()],
    };
    let raw: Vec<String> = text.split(' ').map(|x| x.to_string()).collect();
    json!({"e": "chain", "stages": stages, "names": names, "ser": serde_json::to_value(&p).unwrap_or(Value::Null),
        "lang": j.get("lang").unwrap_or(&null).str(), "runs": runs, "text": list(&raw), "posted": posted})
}

#[cfg(feature = "all")]
type Stems = Box<dyn Fn(&str) -> String>;

#[cfg(feature = "all")]
fn rust_stemmer(name: &str, algo: &str) -> (Box<dyn elasticlunr::pipeline::PipelineFn>, Stems) {
    use elasticlunr::lang::common::RustStemmer;
    use rust_stemmers::{Algorithm, Stemmer};
    macro_rules! algos {
        ($($n:ident)*) => {
            match algo {
                $(stringify!($n) => {
                    let st = Stemmer::create(Algorithm::$n);
                    (Box::new(RustStemmer::new(name, Algorithm::$n)), Box::new(move |t: &str| st.stem(t).into_owned()))
                })*
                a => panic!("script: algorithm {}", a),
            }
        };
    }
    algos!(Arabic Danish Dutch English Finnish French German Greek Hungarian Italian Norwegian Portuguese Romanian Russian Spanish Swedish Tamil Turkish)
}

#[cfg(not(feature = "all"))]
fn rust_stemmer(_: &str, _: &str) -> (Box<dyn elasticlunr::pipeline::PipelineFn>, Box<dyn Fn(&str) -> String>) {
    panic!("script: built without the stemmers")
}

#[cfg(feature = "all")]
fn stem_block(name: &str, algo: &str, toks: &[String]) -> Value {
    let (f, st) = rust_stemmer(name, algo);
    let r: Vec<Value> = toks.iter().map(|t| json!([codes(t), opt(&f.filter(t.clone()), codes), codes(&st(t))])).collect();
    json!({"e": "stemblock", "name": name, "got": [f.name()], "r": r})
}

#[cfg(not(feature = "all"))]
fn stem_block(_: &str, _: &str, _: &[String]) -> Value {
    panic!("script: built without the stemmers")
}
