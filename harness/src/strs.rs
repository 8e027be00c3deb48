//! Runs a sequence of operations on the library's string types.

use std::{
    borrow::{Borrow, Cow},
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    ops::Deref,
};

use asciidoc_parser::strings::{CowStr, InlineStr};
use serde_json::{Value, json};

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn make<'a>(how: &str, s: &'a str) -> Option<CowStr<'a>> {
    Some(match how {
        "str" => CowStr::from(s),
        "string" => CowStr::from(s.to_string()),
        "cowb" => CowStr::from(Cow::Borrowed(s)),
        "cowo" => CowStr::from(Cow::<str>::Owned(s.to_string())),
        "inline" => CowStr::Inlined(InlineStr::try_from(s).ok()?),
        "char" => CowStr::from(s.chars().next()?),
        "cowchar" => CowStr::from(Cow::Owned::<char>(s.chars().next()?)),
        x => panic!("make {x}"),
    })
}

/// One observation of a string value.
fn view(c: &CowStr<'_>) -> Value {
    let b: &str = c.borrow();
    let r: &str = c.as_ref();
    let d: &str = c.deref();
    let mut all = vec![b.to_string(), r.to_string(), d.to_string(), format!("{c}"), c.to_string()];
    let mut hashok = h(c) == h(d);
    let mut debugok = format!("{c:#?}") == format!("{d:?}");
    if let CowStr::Inlined(i) = c {
        let j = *i;
        let ri: &str = i.as_ref();
        all.extend([ri.to_string(), i.deref().to_string(), format!("{i}"), format!("{j}")]);
        hashok &= h(i) == h(d) && *i == j;
        debugok &= format!("{c:?}").starts_with("CowStr::Inlined(");
    } else {
        debugok &= format!("{c:?}").ends_with(&format!("({d:?})"));
    }
    all.dedup();
    json!({"texts": all, "len": d.len(), "hashok": hashok, "debugok": debugok})
}

pub fn run(case: &Value) -> Value {
    let text = case["text"].as_str().unwrap().to_string();
    let other = case["other"].as_str().unwrap_or("").to_string();
    let mut steps = vec![];
    let inline_ok = InlineStr::try_from(text.as_str()).is_ok();
    let mut cur: Option<CowStr<'_>> = None;
    for op in case["ops"].as_array().unwrap() {
        let op = op.as_str().unwrap();
        let mut eq = vec![];
        if let Some(how) = op.strip_prefix("make:") {
            cur = make(how, &text);
        } else if let Some(how) = op.strip_prefix("eq:") {
            if let (Some(c), Some(o)) = (cur.as_ref(), make(how, &other)) {
                eq.push(json!(*c == o));
                eq.push(json!(o == *c));
                eq.push(json!(h(c) == h(&o)));
            }
        } else {
            cur = match (op, cur) {
                (_, None) => None,
                ("clone", Some(c)) => Some(c.clone()),
                ("into_string", Some(c)) => Some(CowStr::from(c.into_string())),
                ("into_cow", Some(c)) => {
                    let k: Cow<'_, str> = c.into();
                    Some(CowStr::from(k))
                }
                ("inline_copy", Some(c)) => match c {
                    CowStr::Inlined(i) => {
                        let j = i;
                        Some(CowStr::Inlined(j))
                    }
                    c => Some(c),
                },
                (x, _) => panic!("op {x}"),
            };
        }
        steps.push(json!({"some": cur.is_some(), "eq": eq,
            "v": cur.as_ref().map(|c| vec![view(c)]).unwrap_or_default()}));
    }
    json!({"id": case["id"], "outcome": "ok", "inline": inline_ok, "steps": steps})
}
