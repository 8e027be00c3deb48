//! Which branches of the parser an input takes, and a choice of inputs that
//! takes all of them in many combinations.
//!
//! The parser is compiled with counters (covwrap.sh); without them there is
//! nothing to choose by.

use std::{
    collections::HashMap,
    io::BufRead,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::Mutex,
};

use serde_json::{Value, json};

static COUNTERS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// Called by the instrumented code when it is loaded.
///
/// # Safety
///
/// `start` and `stop` delimit the counters of a compilation unit.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    COUNTERS.lock().unwrap().push((start as usize, stop as usize));
}

fn each(mut f: impl FnMut(usize, &mut u8)) {
    let mut n = 0;
    for &(a, b) in COUNTERS.lock().unwrap().iter() {
        for p in a..b {
            // The counters are plain bytes that live as long as the program.
            f(n, unsafe { &mut *(p as *mut u8) });
            n += 1;
        }
    }
}

fn bucket(n: u8) -> u32 {
    match n {
        0..=3 => n as u32,
        4..=7 => 4,
        8..=15 => 5,
        16..=31 => 6,
        32..=127 => 7,
        _ => 8,
    }
}

/// Reads cases; prints the IDs of at most `want` of them.
pub fn choose(want: usize) {
    let mut ids: Vec<Value> = vec![];
    let mut seen: Vec<Vec<u32>> = vec![];
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let Ok(case) = serde_json::from_str::<Value>(&line) else { continue };
        each(|_, c| *c = 0);
        let _ = catch_unwind(AssertUnwindSafe(|| crate::run(&case)));
        let mut v = vec![];
        each(|k, c| {
            if *c > 0 {
                v.push(k as u32 * 16 + bucket(*c));
            }
        });
        ids.push(case["id"].clone());
        seen.push(v);
    }
    println!("{}", json!(pick(&seen, want).iter().map(|k| ids[*k].clone()).collect::<Vec<_>>()));
}

/// First the inputs with the rarest branches (each branch, with each order of
/// magnitude of its count, several times), then those with a pair of rare
/// branches that no chosen input has.
fn pick(seen: &[Vec<u32>], want: usize) -> Vec<usize> {
    let mut freq: HashMap<u32, u32> = HashMap::new();
    for v in seen {
        for f in v {
            *freq.entry(*f).or_default() += 1;
        }
    }
    let rare = |v: &Vec<u32>| v.iter().map(|f| freq[f]).min().unwrap_or(u32::MAX);
    let mut order: Vec<usize> = (0..seen.len()).collect();
    order.sort_by_key(|k| (rare(&seen[*k]), *k));
    let mut have: HashMap<u32, u32> = HashMap::new();
    let mut chosen = vec![];
    let mut taken = vec![false; seen.len()];
    let each_branch = want * 3 / 5;
    for most in [1, 2, 4, 8] {
        for k in &order {
            if chosen.len() < each_branch
                && !taken[*k]
                && seen[*k].iter().any(|f| *have.get(f).unwrap_or(&0) < most.min(freq[f]))
            {
                taken[*k] = true;
                chosen.push(*k);
                for f in &seen[*k] {
                    *have.entry(*f).or_default() += 1;
                }
            }
        }
    }
    let limit = (seen.len() / 25) as u32 + 1;
    let mut pairs = std::collections::HashSet::new();
    let few = |v: &Vec<u32>| -> Vec<u32> {
        let mut w: Vec<u32> = v.iter().copied().filter(|f| freq[f] <= limit).collect();
        w.sort_by_key(|f| freq[f]);
        w.truncate(40);
        w.sort();
        w
    };
    let mut add = |v: &Vec<u32>| -> bool {
        let w = few(v);
        let mut new = false;
        for (a, x) in w.iter().enumerate() {
            for y in &w[a + 1..] {
                new |= pairs.insert((*x, *y));
            }
        }
        new
    };
    for k in &chosen {
        add(&seen[*k]);
    }
    for k in order {
        if chosen.len() >= want {
            break;
        }
        if !taken[k] && add(&seen[k]) {
            taken[k] = true;
            chosen.push(k);
        }
    }
    chosen
}
