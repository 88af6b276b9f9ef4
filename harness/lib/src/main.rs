//! Checks of the library parts of hyperdrive (errors, body wrappers, service
//! adapters, panic catching, blocking closures) over generated inputs,
//! operation histories and schedules.
//!
//! usage: hdv-lib PROPERTY SEED CASES OUT PROGRESS [TAPE]

mod c08;
mod c12;
mod c13;
mod c14;
mod c16;
mod common;
mod svc;

use common::*;
use hdv_core::tape::{self, Tape};
use proptest::test_runner::{Config, TestCaseError, TestError, TestRunner};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, cases) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u32>().unwrap());
    let f: CaseFn = match prop {
        "C08" => c08::case,
        "C12" => c12::case,
        "C13" => c13::case,
        "C14" => c14::case,
        "C16" => c16::case,
        p => panic!("no property {}", p),
    };
    hdv_rt::exec::silence_panics();
    let progress = std::fs::File::create(&a[5]).expect("progress file");
    let note = |data: &[u32]| {
        let b: Vec<u8> = data.iter().flat_map(|d| d.to_le_bytes()).collect();
        let _ = progress.write_at(&b, 0);
    };
    let run = |data: &[u32]| -> (Obsd, Result<(), Bad>) {
        note(data);
        let mut o = Obsd::default();
        let mut t = Tape::new(data);
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut t, &mut o))) {
            Ok(r) => r,
            Err(p) => Err(Bad::new(format!("panicked: {}", hdv_rt::exec::panic_text(p)))),
        };
        o.used = t.used();
        (o, r)
    };
    let mut out = json!({});
    if let Some(t) = a.get(6) {
        let data: Vec<u32> = serde_json::from_str(t).expect("tape");
        let (o, r) = run(&data);
        out["cases"] = json!(1);
        out["evaluations"] = json!(o.evals);
        if let Err(b) = r {
            out["violation"] = violation(&data, &o, b);
        }
    } else {
        struct S {
            cases: u64,
            evals: u64,
            seen: HashSet<u64>,
            labels: BTreeMap<String, u64>,
            samples: Vec<serde_json::Value>,
        }
        let st = RefCell::new(S { cases: 0, evals: 0, seen: HashSet::new(), labels: BTreeMap::new(), samples: vec![] });
        let cfg = Config { cases, max_shrink_iters: 2000, max_shrink_time: 60_000, failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, tape::rng(seed, &format!("lib/{}", prop), 0));
        let r = runner.run(&tape::strategy(TAPE), |data| {
            let (o, r) = run(&data);
            let mut s = st.borrow_mut();
            s.cases += 1;
            s.evals += o.evals;
            for l in o.labels {
                *s.labels.entry(l).or_insert(0) += 1;
            }
            if o.nontrivial {
                let text = o.describe.to_string();
                if s.seen.insert(tape::hash64(&text)) && s.samples.len() < 3 && s.cases % 7 == 3 {
                    s.samples.push(o.describe);
                }
            }
            r.map_err(|b| TestCaseError::fail(b.message))
        });
        let s = st.into_inner();
        out["cases"] = json!(s.cases);
        out["evaluations"] = json!(s.evals);
        out["labels"] = json!(s.labels);
        out["samples"] = json!(s.samples);
        out["seen"] = json!(s.seen);
        if let Err(e) = r {
            match e {
                TestError::Fail(first, data) => {
                    let (o, r) = run(&data);
                    let b = match r {
                        Err(b) => b,
                        Ok(()) => Bad::new(format!("failed once but not when repeated: {}", first)),
                    };
                    out["violation"] = violation(&data, &o, b);
                }
                TestError::Abort(r) => panic!("aborted: {}", r),
            }
        }
    }
    std::fs::write(&a[4], out.to_string()).expect("write results");
    std::process::exit(0);
}

fn violation(data: &[u32], o: &Obsd, b: Bad) -> serde_json::Value {
    let mut data = data[..o.used.min(data.len())].to_vec();
    while data.last() == Some(&0) {
        data.pop();
    }
    json!({"message": b.message, "expected": b.expected, "observed": b.observed, "case": o.describe, "tape": data})
}
