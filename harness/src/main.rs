//! Conformance harness: drives the real asciidoc-parser through its public API
//! and records, as one JSON line per case, what it observed.
//!
//! Reads one JSON case per line on stdin. Every case is announced on stdout
//! (`{"begin":id}`) before it runs, so that the driver can attribute a crash
//! (stack overflow, abort) or a hang to the case that caused it.

#![allow(unreachable_patterns)]

mod cover;
mod obs;
mod rend;
mod strs;

use std::{
    io::{BufRead, Write},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use serde_json::{Value, json};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(n) = std::env::var("CHOOSE").ok().and_then(|s| s.parse().ok()) {
        return cover::choose(n);
    }
    let limit = std::env::args()
        .nth(1)
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(10);

    // Watchdog: a case that runs longer than the limit is reported as a hang.
    let current: Arc<Mutex<Option<(String, Instant)>>> = Arc::new(Mutex::new(None));
    let watched = current.clone();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let g = watched.lock().unwrap();
            if let Some((id, t0)) = &*g
                && t0.elapsed() > Duration::from_secs(limit)
            {
                let mut o = std::io::stdout().lock();
                let _ = writeln!(o, "{}", json!({"id": id, "outcome": "hang"}));
                let _ = o.flush();
                std::process::exit(3);
            }
        }
    });

    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let id = case["id"].as_str().unwrap_or("?").to_string();
        emit(&json!({"begin": id}));
        *current.lock().unwrap() = Some((id.clone(), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(|| run(&case)));
        *current.lock().unwrap() = None;
        let out = match r {
            Ok(v) => v,
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"id": id, "outcome": "panic", "msg": msg})
            }
        };
        emit(&out);
    }
}

fn emit(v: &Value) {
    let mut o = std::io::stdout().lock();
    writeln!(o, "{v}").unwrap();
    o.flush().unwrap();
}

fn run(case: &Value) -> Value {
    match case["op"].as_str().unwrap_or("parse") {
        "parse" => obs::run_parse(case),
        "webpath" => {
            let mut p = asciidoc_parser::parser::PathResolver::default();
            if let Some(c) = case["sep"].as_str().and_then(|s| s.chars().next()) {
                p.file_separator = c;
            }
            let r = p.web_path(
                case["target"].as_str().unwrap(),
                case["start"].as_str(),
            );
            json!({"id": case["id"], "outcome": "ok", "result": r,
                   "root": p.is_web_root(&r), "posix": p.posixify(case["target"].as_str().unwrap()),
                   "again": p.web_path(&r, None)})
        }
        "strings" => strs::run(case),
        x => panic!("unknown op {x}"),
    }
}
