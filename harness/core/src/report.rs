//! Evidence, replay files, known findings and verdict lines.

use crate::driver::Env;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::path::PathBuf;

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<Value>,
    pub rule: String,
    pub labels: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, Value>,
    pub assumptions: Vec<String>,
    pub violations: Vec<Finding>,
}

/// One failing case, in a form `hdv replay` understands.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Finding {
    pub property: String,
    pub kind: String,
    /// Identifies what fails, independent of the seed.
    pub signature: String,
    pub message: String,
    pub detail: Value,
}

fn known(env: &Env) -> Vec<(String, String)> {
    let text = fs::read_to_string(env.root.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            // known: property=<id> signature=<...> -- description
            let l = l.strip_prefix("known: property=")?;
            let (id, rest) = l.split_once(" signature=")?;
            if id != env.prop {
                return None;
            }
            let (sig, what) = rest.split_once(" -- ")?;
            Some((sig.to_string(), what.to_string()))
        })
        .collect()
}

/// Writes the evidence, prints the verdict and returns the exit code.
pub fn finish(env: &Env, mut r: Report) -> i32 {
    let known = known(env);
    for (sig, what) in &known {
        println!("KNOWN-FINDING: property={} {} ({})", env.prop, what, sig);
    }
    r.violations.retain(|v| !known.iter().any(|(sig, _)| *sig == v.signature));
    r.extra.insert("labels".into(), json!(r.labels));
    let mut coverage = json!({
        "evaluations": r.evaluations,
        "distinct_nontrivial": r.distinct,
        "rule": r.rule,
        "samples": r.samples,
    });
    for (k, v) in &r.extra {
        coverage[k] = v.clone();
    }
    let ev = json!({
        "property": env.prop,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": r.assumptions,
        "wall_s": (env.elapsed() * 100.0).round() / 100.0,
        "violations": r.violations.len(),
    });
    let dir = env.root.join("evidence");
    fs::create_dir_all(&dir).expect("evidence directory");
    fs::write(
        dir.join(format!("{}.json", env.prop)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        env.prop,
        r.evaluations,
        r.distinct,
        r.violations.len(),
        env.elapsed()
    );
    if r.violations.is_empty() {
        return 0;
    }
    for v in r.violations.iter().take(3) {
        let p = write_replay(env, v);
        println!("--- {}\n{}", v.message, pretty(&v.detail));
        println!("VIOLATION property={} replay={}", env.prop, p.display());
    }
    1
}

fn pretty(v: &Value) -> String {
    let mut s = String::new();
    if let Value::Object(m) = v {
        for (k, x) in m {
            if k == "family" || k == "case" || k == "decls" {
                continue;
            }
            match x {
                Value::String(t) => s.push_str(&format!("{}:\n{}\n", k, t)),
                x => s.push_str(&format!("{}: {}\n", k, x)),
            }
        }
    }
    s.chars().take(6000).collect()
}

pub fn write_replay(env: &Env, v: &Finding) -> PathBuf {
    let dir = env.root.join("work/replays");
    fs::create_dir_all(&dir).expect("replay directory");
    let text = serde_json::to_string_pretty(v).unwrap();
    let p = dir.join(format!("{}-{:016x}.json", v.property, crate::tape::hash64(&text)));
    fs::write(&p, text + "\n").expect("write replay");
    p
}
