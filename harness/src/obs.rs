//! Parses documents with the real parser and projects everything the public
//! API exposes into JSON.

use std::{
    cell::RefCell,
    collections::HashMap,
    fmt::Debug,
    rc::Rc,
};

use asciidoc_parser::{
    Document, HasSpan, Parser, Span,
    attributes::Attrlist,
    blocks::{Block, BreakType, ContentModel, IsBlock, MediaType, SectionType, SimpleBlockStyle},
    document::{Attribute, InterpretedValue, RefType},
    parser::{IncludeFileHandler, ModificationContext},
};
use serde_json::{Map, Value, json};

use crate::rend::Sym;

struct Ctx<'a> {
    src: &'a str,
    /// byte offset -> char index (only valid at boundaries)
    cix: HashMap<usize, i64>,
    full: bool,
    bf: Vec<String>,
}

impl<'a> Ctx<'a> {
    fn char_ix(&self, off: usize) -> i64 {
        self.cix.get(&off).copied().unwrap_or(-1)
    }

    fn sp(&self, s: Span<'_>) -> Value {
        let off = s.byte_offset();
        let end = off + s.data().len();
        if self.full {
            let inside = end <= self.src.len();
            return json!({"off": off, "line": s.line(), "col": s.col(), "txt": s.data(),
                          "in": inside});
        }
        if off <= self.src.len() {
            let e = end.min(self.src.len());
            match self.src.get(off..e) {
                Some(d) if s.data().starts_with(d) => (),
                _ => return json!([-2, -2]),
            }
        }
        json!([self.char_ix(off), self.char_ix(end)])
    }

    fn osp(&self, s: Option<Span<'_>>) -> Value {
        Value::Array(s.into_iter().map(|s| self.sp(s)).collect())
    }
}

fn ostr(s: Option<&str>) -> Value {
    Value::Array(s.into_iter().map(|s| json!(s)).collect())
}

fn iv(v: &InterpretedValue) -> Value {
    match v {
        InterpretedValue::Value(s) => json!({"k": "value", "v": s}),
        InterpretedValue::Set => json!({"k": "set", "v": ""}),
        InterpretedValue::Unset => json!({"k": "unset", "v": ""}),
    }
}

/// Names and options that every attribute list is asked for.
const QN: [&str; 8] = ["a", "id", "b", "role", "opts", "options", "foo", "alt"];
const QO: [&str; 5] = ["o", "p", "a", "u", ""];

fn attrlist(c: &Ctx<'_>, a: &Attrlist<'_>) -> Value {
    // (Attrlist's accessors borrow for 'src: clone to get a local lifetime.)
    let a = a.clone();
    let list: Vec<Value> = a
        .attributes()
        .map(|e| {
            json!({"n": ostr(e.name()), "v": e.value(), "sh": e.shorthand_items(),
                   "style": ostr(e.block_style()), "id": ostr(e.id()), "roles": e.roles(),
                   "opts": e.options()})
        })
        .collect();
    // what the queries answer, for names that the drivers use
    let val = |e: Option<&asciidoc_parser::attributes::ElementAttribute<'_>>| {
        Value::Array(e.into_iter().map(|e| json!(e.value())).collect())
    };
    let named: Vec<Value> = QN.iter().map(|n| val(a.named_attribute(n))).collect();
    let nop: Vec<Value> = QN
        .iter()
        .enumerate()
        .map(|(i, n)| val(a.named_or_positional_attribute(n, i % 4)))
        .collect();
    let hasopt: Vec<bool> = QO.iter().map(|o| a.has_option(o)).collect();
    let mut pos = vec![];
    let mut n = 1;
    while let Some(e) = a.nth_attribute(n) {
        pos.push(json!(e.value()));
        n += 1;
    }
    json!({"span": c.sp(a.span()), "anchor": ostr(a.anchor()), "attrs": list, "pos": pos,
           "id": ostr(a.id()), "roles": a.roles(), "opts": a.options(),
           "style": ostr(a.block_style()), "named": named, "nop": nop, "hasopt": hasopt})
}

fn oattrlist(c: &Ctx<'_>, a: Option<&Attrlist<'_>>) -> Value {
    Value::Array(a.into_iter().map(|a| attrlist(c, a)).collect())
}

fn docattr(c: &Ctx<'_>, a: &Attribute<'_>) -> Value {
    let a = a.clone();
    json!({"name": c.sp(*a.name()), "raw": c.osp(a.raw_value()), "val": iv(a.value()),
           "span": c.sp(a.span())})
}

fn block(c: &Ctx<'_>, b: &Block<'_>) -> Value {
    let b = b.clone();
    let b = &b;
    let mut m: Map<String, Value> = Map::new();
    let kind = match b {
        Block::Simple(_) => "simple",
        Block::Media(_) => "media",
        Block::Section(_) => "section",
        Block::RawDelimited(_) => "raw",
        Block::CompoundDelimited(_) => "compound",
        Block::Preamble(_) => "preamble",
        Block::Break(_) => "break",
        Block::DocumentAttribute(_) => "attr",
        _ => "other",
    };
    for f in &c.bf {
        let v = match f.as_str() {
            "kind" => json!(kind),
            "ctx" => json!(b.raw_context().to_string()),
            "rctx" => json!(b.resolved_context().to_string()),
            "model" => json!(match b.content_model() {
                ContentModel::Compound => "compound",
                ContentModel::Simple => "simple",
                ContentModel::Verbatim => "verbatim",
                ContentModel::Raw => "raw",
                ContentModel::Empty => "empty",
                ContentModel::Table => "table",
                _ => "other",
            }),
            "span" => c.sp(b.span()),
            "tsrc" => c.osp(b.title_source()),
            "title" => ostr(b.title()),
            "anchor" => c.osp(b.anchor()),
            "areft" => c.osp(b.anchor_reftext()),
            "attrlist" => oattrlist(c, b.attrlist()),
            "dstyle" => ostr(b.declared_style()),
            "id" => ostr(match b {
                Block::Section(x) => x.id(),
                _ => b.id(),
            }),
            "roles" => json!(b.roles()),
            "opts" => json!(b.options()),
            "hasopt" => json!(QO.iter().map(|o| b.has_option(o)).collect::<Vec<_>>()),
            "empty" => match b {
                Block::Simple(x) => json!([x.content().is_empty()]),
                Block::RawDelimited(x) => json!([x.content().is_empty()]),
                _ => json!([]),
            },
            "sg" => json!(format!("{:?}", b.substitution_group()).to_lowercase()),
            "orig" => match b {
                Block::Simple(x) => json!([c.sp(x.content().original())]),
                Block::RawDelimited(x) => json!([c.sp(x.content().original())]),
                _ => json!([]),
            },
            "text" => ostr(b.rendered_content()),
            "style" => match b {
                Block::Simple(x) => json!(match x.style() {
                    SimpleBlockStyle::Paragraph => "paragraph",
                    SimpleBlockStyle::Literal => "literal",
                    SimpleBlockStyle::Listing => "listing",
                    SimpleBlockStyle::Source => "source",
                    _ => "other",
                }),
                _ => json!(""),
            },
            "level" => match b {
                Block::Section(s) => json!(s.level()),
                _ => json!(0),
            },
            "stsrc" => match b {
                Block::Section(s) => json!([c.sp(s.section_title_source())]),
                _ => json!([]),
            },
            "stitle" => match b {
                Block::Section(s) => json!([s.section_title()]),
                _ => json!([]),
            },
            "stype" => match b {
                Block::Section(s) => json!(match s.section_type() {
                    SectionType::Normal => "normal",
                    SectionType::Appendix => "appendix",
                    SectionType::Discrete => "discrete",
                }),
                _ => json!(""),
            },
            "num" => match b {
                Block::Section(s) => Value::Array(
                    s.section_number()
                        .into_iter()
                        .map(|n| json!({"comp": n.components(), "txt": n.to_string()}))
                        .collect(),
                ),
                _ => json!([]),
            },
            "mtype" => match b {
                Block::Media(x) => json!(match x.type_() {
                    MediaType::Image => "image",
                    MediaType::Video => "video",
                    MediaType::Audio => "audio",
                }),
                _ => json!(""),
            },
            "target" => match b {
                Block::Media(x) => c.osp(x.target().copied()),
                _ => json!([]),
            },
            "mattr" => match b {
                Block::Media(x) => json!([attrlist(c, x.macro_attrlist())]),
                _ => json!([]),
            },
            "btype" => match b {
                Block::Break(x) => json!(match x.type_() {
                    BreakType::Thematic => "thematic",
                    BreakType::Page => "page",
                    _ => "other",
                }),
                _ => json!(""),
            },
            "attr" => match b {
                Block::DocumentAttribute(a) => json!([docattr(c, a)]),
                _ => json!([]),
            },
            "kids" => Value::Array(b.nested_blocks().map(|k| block(c, k)).collect()),
            x => panic!("field {x}"),
        };
        m.insert(f.clone(), v);
    }
    Value::Object(m)
}

/// The values in the debug form of a tuple: numbers and quoted strings.
fn debug_args(s: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut quoted = false;
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        let last = out.last_mut().unwrap();
        match ch {
            '"' => quoted = !quoted,
            '\\' if quoted => match it.next() {
                Some('n') => last.push('\n'),
                Some('t') => last.push('\t'),
                Some('r') => last.push('\r'),
                Some('0') => last.push('\0'),
                Some('u') => {
                    let hex: String = it.by_ref().skip(1).take_while(|x| *x != '}').collect();
                    let n = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32);
                    last.push(n.unwrap_or('?'));
                }
                Some(x) => last.push(x),
                None => {}
            },
            ',' if !quoted => {
                if it.peek() == Some(&' ') {
                    it.next();
                }
                out.push(String::new());
            }
            _ => last.push(ch),
        }
    }
    out
}

fn warning(c: &Ctx<'_>, source: Span<'_>, w: &dyn Debug) -> Value {
    let d = format!("{w:?}");
    let d = d.strip_prefix("WarningType::").unwrap_or(&d).to_string();
    let (name, args) = match d.split_once('(') {
        Some((n, a)) => (n.to_string(), debug_args(a.strip_suffix(')').unwrap_or(a))),
        None => (d, vec![]),
    };
    json!({"t": name, "args": args, "span": c.sp(source)})
}

#[derive(Debug)]
struct Files {
    map: HashMap<String, String>,
    calls: Rc<RefCell<Vec<Value>>>,
}

impl IncludeFileHandler for Files {
    fn resolve_target<'src>(
        &self,
        source: Option<&str>,
        target: &str,
        attrlist: &Attrlist<'src>,
        _parser: &Parser,
    ) -> Option<String> {
        let attrs: Vec<Value> = attrlist
            .attributes()
            .map(|e| json!({"n": ostr(e.name()), "v": e.value()}))
            .collect();
        self.calls
            .borrow_mut()
            .push(json!({"from": ostr(source), "target": target, "attrs": attrs}));
        self.map.get(target).cloned()
    }
}

fn has(case: &Value, what: &str) -> bool {
    case["want"]
        .as_array()
        .is_some_and(|a| a.iter().any(|x| x == what))
}

pub fn mk_parser(case: &Value, calls: &Rc<RefCell<Vec<Value>>>) -> Parser {
    let mut p = Parser::default();
    if let Some(attrs) = case["attrs"].as_array() {
        for a in attrs {
            let name = a[0].as_str().unwrap();
            let ctx = match a[2].as_str().unwrap() {
                "api" => ModificationContext::ApiOnly,
                "header" => ModificationContext::ApiOrHeader,
                "body" => ModificationContext::ApiOrDocumentBody,
                _ => ModificationContext::Anywhere,
            };
            p = match &a[1] {
                Value::Bool(b) => p.with_intrinsic_attribute_bool(name, *b, ctx),
                v => p.with_intrinsic_attribute(name, v.as_str().unwrap(), ctx),
            };
        }
    }
    if let Some(f) = case["files"].as_object() {
        let map = f
            .iter()
            .map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string()))
            .collect();
        p = p.with_include_file_handler(Files {
            map,
            calls: calls.clone(),
        });
    }
    if let Some(n) = case["primary"].as_str() {
        p = p.with_primary_file_name(n);
    }
    if case["renderer"] == "sym" {
        p = p.with_inline_substitution_renderer(Sym);
    }
    p
}

pub fn project(
    case: &Value,
    p: &Parser,
    input: &str,
    doc: &Document<'_>,
    calls: &[Value],
) -> Value {
    let src_span = doc.span();
    // Trailing whitespace of the text is not part of the document's span.
    let src = if input.starts_with(src_span.data()) {
        input
    } else {
        src_span.data()
    };
    let mut cix = HashMap::new();
    let mut n = 0i64;
    for (i, _) in src.char_indices() {
        cix.insert(i, n);
        n += 1;
    }
    cix.insert(src.len(), n);
    cix.insert(src.len() + 1, n + 1); // the line end that the document span leaves out
    let bf: Vec<String> = case["bf"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    let c = Ctx {
        src,
        cix,
        full: case["spans"] == "full",
        bf,
    };

    let mut m = Map::new();
    m.insert("src".into(), json!(src_span.data()));
    if has(case, "span") {
        m.insert("span".into(), c.sp(src_span));
    }
    if has(case, "smap") {
        let extra = case["smapextra"].as_u64().unwrap_or(2) as usize;
        let nl = src.matches('\n').count() + 1 + extra;
        let l: Vec<Value> = (1..=nl)
            .map(|i| match doc.source_map().original_file_and_line(i) {
                Some(sl) => json!([[sl.0.map(|f| vec![f]).unwrap_or_default(), sl.1]]),
                None => json!([]),
            })
            .collect();
        m.insert("smap".into(), json!(l));
    }
    if has(case, "hdr") {
        let h = doc.header().clone();
        let authors: Vec<Value> = h
            .author_line()
            .into_iter()
            .map(|al| {
                let al = al.clone();
                let list: Vec<Value> = al
                    .authors()
                    .map(|a| {
                        json!({"name": a.name(), "first": a.firstname(),
                            "middle": ostr(a.middlename()), "last": ostr(a.lastname()),
                            "email": ostr(a.email()), "initials": a.initials()})
                    })
                    .collect();
                json!({"span": c.sp(al.span()), "authors": list})
            })
            .collect();
        let rev: Vec<Value> = h
            .revision_line()
            .into_iter()
            .map(|r| {
                json!({"span": c.sp(r.span()), "num": ostr(r.revnumber()), "date": r.revdate(),
                       "remark": ostr(r.revremark())})
            })
            .collect();
        let attrs: Vec<Value> = h.attributes().map(|a| docattr(&c, a)).collect();
        let comments: Vec<Value> = h.comments().map(|s| c.sp(*s)).collect();
        m.insert(
            "hdr".into(),
            json!({"span": c.sp(h.span()), "tsrc": c.osp(h.title_source()),
                   "title": ostr(h.title()), "attrs": attrs, "author": authors, "rev": rev,
                   "comments": comments}),
        );
    }
    if has(case, "blocks") {
        let l: Vec<Value> = doc.nested_blocks().map(|b| block(&c, b)).collect();
        m.insert("blocks".into(), json!(l));
    }
    if has(case, "eids") {
        // what a Block, as opposed to the block inside it, says its ID is
        fn eids(b: &Block<'_>, out: &mut Vec<Value>) {
            let x = b.clone();
            out.push(ostr(x.id()));
            for k in x.nested_blocks() {
                eids(k, out);
            }
        }
        let mut l: Vec<Value> = vec![];
        for b in doc.nested_blocks() {
            eids(b, &mut l);
        }
        m.insert("eids".into(), json!(l));
    }
    if has(case, "warn") {
        let l: Vec<Value> = doc
            .warnings()
            .map(|w| warning(&c, w.source, &w.warning))
            .collect();
        m.insert("warn".into(), json!(l));
    }
    if has(case, "refs") {
        let cat = doc.catalog();
        let mut ids: Vec<String> = case["idq"]
            .as_array()
            .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
            .unwrap_or_default();
        fn walk(b: &Block<'_>, ids: &mut Vec<String>) {
            let b = b.clone();
            if let Some(id) = b.id() {
                ids.push(id.to_string());
            }
            if let Some(t) = b.title() {
                ids.push(t.to_string());
            }
            if let Some(t) = b.anchor_reftext() {
                ids.push(t.data().to_string());
            }
            if let Block::Section(x) = &b {
                ids.push(x.section_title().to_string());
                if let Some(id) = x.id() {
                    ids.push(id.to_string());
                }
            }
            for k in b.nested_blocks() {
                walk(k, ids);
            }
        }
        for b in doc.nested_blocks() {
            walk(b, &mut ids);
        }
        ids.sort();
        ids.dedup();
        let l: Vec<Value> = ids
            .iter()
            .map(|id| {
                let e: Vec<Value> = cat
                    .get_ref(id)
                    .into_iter()
                    .map(|e| {
                        let byref: Vec<String> = e
                            .reftext
                            .iter()
                            .flat_map(|r| cat.resolve_id(r))
                            .collect();
                        json!({"id": e.id, "reftext": ostr(e.reftext.as_deref()),
                            "resolved": byref,
                            "type": match e.ref_type { RefType::Anchor => "anchor",
                                RefType::Section => "section",
                                RefType::Bibliography => "bib" }})
                    })
                    .collect();
                json!({"key": id, "has": cat.contains_id(id), "e": e,
                       "res": ostr(cat.resolve_id(id).as_deref())})
            })
            .collect();
        m.insert("refs".into(), json!(l));
        m.insert("nrefs".into(), json!([cat.len(), cat.is_empty() as usize]));
    }
    if let Some(w) = case["watch"].as_array() {
        let l: Vec<Value> = w
            .iter()
            .map(|n| {
                let n = n.as_str().unwrap();
                json!({"n": n, "val": iv(&p.attribute_value(n)), "has": p.has_attribute(n),
                       "set": p.is_attribute_set(n)})
            })
            .collect();
        m.insert("vals".into(), json!(l));
    }
    if has(case, "calls") {
        m.insert("calls".into(), json!(calls));
    }
    if has(case, "debug") {
        m.insert("debug".into(), json!(format!("{doc:?}")));
    }
    Value::Object(m)
}

pub fn run_parse(case: &Value) -> Value {
    let calls = Rc::new(RefCell::new(vec![]));
    let mut p = mk_parser(case, &calls);
    let mut out = vec![];
    for d in case["docs"].as_array().unwrap() {
        calls.borrow_mut().clear();
        let doc = p.parse(d.as_str().unwrap());
        let cl = calls.borrow().clone();
        out.push(project(case, &p, d.as_str().unwrap(), &doc, &cl));
    }
    json!({"id": case["id"], "outcome": "ok", "docs": out})
}
