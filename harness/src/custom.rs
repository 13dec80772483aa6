//! User-supplied languages and tokenizers, simple enough for the specification to define them.

use crate::json;
use elasticlunr::pipeline::{FnWrapper, Pipeline, PipelineFn};
use elasticlunr::{Language, TokenizerFn};

/// Splits at every single space, keeping empty tokens; processes nothing.
pub struct Raw;
/// Splits at every single space; its pipeline drops tokens starting with 'x', makes '~' empty and
/// appends '+' to the rest.
pub struct Tagging;

pub fn split_spaces(t: &str) -> Vec<String> {
    t.split(' ').map(|x| x.to_string()).collect()
}

impl Language for Raw {
    fn name(&self) -> String {
        "Raw \"\\ lang\u{e9}".into()
    }
    fn code(&self) -> String {
        "rw".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        split_spaces(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline { queue: vec![] }
    }
}

struct Suffix;
impl PipelineFn for Suffix {
    fn name(&self) -> String {
        "suffix".into()
    }
    fn filter(&self, token: String) -> Option<String> {
        if token == "~" {
            Some(String::new())
        } else {
            Some(token + "+")
        }
    }
}

impl Language for Tagging {
    fn name(&self) -> String {
        "Tagging".into()
    }
    fn code(&self) -> String {
        "tg".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        split_spaces(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline {
            queue: vec![
                Box::new(FnWrapper("dropX".into(), |t| if t.starts_with('x') { None } else { Some(t) })),
                Box::new(Suffix),
            ],
        }
    }
}

/// A user-supplied language with the name and code of another one: it works like `Raw`, or like
/// `Tagging` with the stage names of that language.
pub struct Mimic {
    name: &'static str,
    code: &'static str,
    tagging: bool,
}

impl Language for Mimic {
    fn name(&self) -> String {
        self.name.into()
    }
    fn code(&self) -> String {
        self.code.into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        split_spaces(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        if self.tagging {
            let mut p = Tagging.make_pipeline();
            let suffix = if self.code == "en" { String::new() } else { format!("-{}", self.code) };
            p.queue[0] = Box::new(FnWrapper(format!("trimmer{}", suffix), |t| if t.starts_with('x') { None } else { Some(t) }));
            p
        } else {
            Pipeline { queue: vec![] }
        }
    }
}

/// Shares name, code and stage names with another language and does something else.
pub struct Other {
    name: &'static str,
    code: &'static str,
    stages: &'static [&'static str],
    commas: bool,
}

struct Star(&'static str);
impl PipelineFn for Star {
    fn name(&self) -> String {
        self.0.into()
    }
    fn filter(&self, token: String) -> Option<String> {
        Some(token + "*")
    }
}

impl Language for Other {
    fn name(&self) -> String {
        self.name.into()
    }
    fn code(&self) -> String {
        self.code.into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        if self.commas {
            text.split(',').map(|x| x.to_string()).collect()
        } else {
            split_spaces(text)
        }
    }
    fn make_pipeline(&self) -> Pipeline {
        if self.commas {
            return Tagging.make_pipeline();
        }
        let mut queue: Vec<Box<dyn PipelineFn>> = vec![Box::new(FnWrapper(self.stages[0].into(), |t| if t.starts_with('y') { None } else { Some(t) }))];
        for n in &self.stages[1..self.stages.len() - 1] {
            queue.push(Box::new(FnWrapper(n.to_string(), Some)));
        }
        queue.push(Box::new(Star(self.stages[self.stages.len() - 1])));
        Pipeline { queue }
    }
}

/// Builds other indexes while one is at work. Gives the pieces between spaces that are not empty.
fn with_inner(t: &str) -> Vec<String> {
    let all: Vec<String> = t.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    let mut ix = elasticlunr::IndexBuilder::with_language(Box::new(Raw)).add_field("body").build();
    ix.add_doc("1", &[t]);
    ix.add_doc("2", &["a b"]);
    ix.add_doc("1", &[t]);
    let mut en = elasticlunr::Index::new(&["title", "body"]);
    en.add_doc("1", &[t, "running"]);
    let (a, b) = (ix.to_json(), en.to_json_pretty());
    let l = elasticlunr::lang::English::new();
    let done = l.make_pipeline().run(l.tokenize("the running dogs"));
    let fine = json::parse(&a).is_ok() && json::parse(&b).is_ok() && done == ["run", "dog"];
    let mut seen: Vec<String> = vec![];
    if let Ok(j) = json::parse(&a) {
        if let Some(r) = j.get("index").and_then(|x| x.get("body")).and_then(|x| x.get("root")) {
            let mut nodes = vec![];
            crate::inv::nodes(r, &mut vec![], &mut nodes, &|x| serde_json::json!(json::root_of(x)));
            for n in &nodes {
                let w: String = n[0].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
                for d in n[2].as_array().unwrap() {
                    if d[0] == "1" {
                        for _ in 0..d[1].as_u64().unwrap_or(0) {
                            seen.push(w.clone());
                        }
                    }
                }
            }
        }
    }
    let mut want = all.clone();
    want.sort();
    seen.sort();
    if fine && seen == want {
        all
    } else {
        vec!["<the inner index is wrong>".into()]
    }
}

/// Works like `Tagging`; tokenizer and pipeline use other indexes.
pub struct Nested;

struct NestedStage;
impl PipelineFn for NestedStage {
    fn name(&self) -> String {
        "nested".into()
    }
    fn filter(&self, token: String) -> Option<String> {
        let t = token.replace(' ', "");
        let mut r = with_inner(&t);
        match r.len() {
            0 => Some(token),
            1 if r[0] == t => Some(token),
            _ => r.pop(),
        }
    }
}

impl Language for Nested {
    fn name(&self) -> String {
        "Nested".into()
    }
    fn code(&self) -> String {
        "ne".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        if with_inner(text).first().map(|x| x.starts_with('<') && x.contains("inner")).unwrap_or(false) {
            return vec!["<the inner index is wrong>".into()];
        }
        split_spaces(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        let mut p = Tagging.make_pipeline();
        p.queue.insert(1, Box::new(NestedStage));
        p
    }
}

pub fn is_custom(id: &str) -> bool {
    matches!(id, "t5" | "t2" | "t3" | "t4" | "rw" | "tg" | "m1" | "m2" | "m3" | "m4" | "m5" | "m6" | "m7" | "m8" | "m9")
}

pub fn language(code: &str) -> Box<dyn Language> {
    match code {
        "rw" => Box::new(Raw),
        "tg" => Box::new(Tagging),
        "m1" => Box::new(Mimic { name: "English", code: "en", tagging: false }),
        "m2" => Box::new(Mimic { name: "German", code: "de", tagging: true }),
        "m3" => Box::new(Mimic { name: "", code: "", tagging: false }),
        "m4" => Box::new(Mimic { name: "Raw", code: "en", tagging: true }),
        "m5" => Box::new(Mimic { name: "Klingon", code: "tlhx", tagging: true }),
        "m6" => Box::new(Mimic { name: "english", code: "EN", tagging: true }),
        "m7" => Box::new(Mimic { name: "\u{65e5}\u{672c}", code: "", tagging: true }),
        "m8" => Box::new(Mimic { name: "Japanese", code: "ja", tagging: true }),
        "m9" => Box::new(Mimic { name: "Chinese", code: "\u{4e2d}\u{6587}", tagging: false }),
        "t2" => Box::new(Other { name: "Tagging", code: "tg", stages: &["dropX", "suffix"], commas: false }),
        "t3" => Box::new(Other { name: "Tagging", code: "tg", stages: &[], commas: true }),
        "t4" => Box::new(Other { name: "English", code: "en", stages: &["trimmer", "stopWordFilter", "stemmer"], commas: false }),
        "t5" => Box::new(Nested),
        c => crate::langs::make(c).unwrap_or_else(|| panic!("harness: no language {}", c)),
    }
}

pub fn tokenizer(id: &str) -> TokenizerFn {
    let id = id.to_string();
    if id == "comma" {
        Box::new(|t| t.split(',').map(|x| x.to_string()).collect())
    } else if id == "whole" {
        Box::new(|t| vec![t.to_string()])
    } else if id == "inner" {
        Box::new(with_inner)
    } else if id == "boom" {
        Box::new(|_| panic!("boom"))
    } else if id == "none" {
        Box::new(|_| vec![])
    } else if let Some(p) = id.strip_prefix("pre:") {
        let p = p.to_string();
        Box::new(move |t| split_spaces(t).into_iter().map(|x| format!("{}{}", p, x)).collect())
    } else {
        panic!("script: unknown tokenizer {}", id)
    }
}
