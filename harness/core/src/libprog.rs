//! Properties of the library parts, decided by the program in harness/lib.

use crate::driver::*;
use crate::report::*;
use crate::tape;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// Builds harness/lib against /repo's working tree.
pub fn build(env: &Env) -> Result<PathBuf, String> {
    let out = Command::new("cargo")
        .args(["build", "--offline", "--message-format=json-render-diagnostics"])
        .arg("--manifest-path")
        .arg(env.root.join("harness/lib/Cargo.toml"))
        .arg("--target-dir")
        .arg(&env.target)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).to_string());
    }
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        if let Ok(v) = serde_json::from_str::<Value>(line) {
            if v["target"]["name"] == "hdv-lib" {
                if let Some(e) = v["executable"].as_str() {
                    return Ok(e.into());
                }
            }
        }
    }
    Err("cargo did not report hdv-lib".into())
}

fn quick_cases(prop: &str) -> u32 {
    match prop {
        "C08" => 20_000,
        "C12" => 2_000,
        "C16" => 10_000,
        _ => 60_000,
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C08" => "a body of several chunks or with a stream fault, decoded by a wrapper directly",
        "C12" => "one source and method list combined with every status code and constructor",
        "C13" => "a history with more than one request over clones of the service adapters",
        "C14" => "a history with more than one request over clones of services with panic catching",
        "C16" => "a wave with more than one blocking future on one pool",
        _ => "",
    }
}

fn run_one(env: &Env, bin: &PathBuf, i: usize, seed: u64, cases: u32, replay: Option<&str>) -> Result<Value, String> {
    let d = env.work.join(format!("lib{}", i));
    fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let (out, pf) = (d.join("out.json"), d.join("progress"));
    let _ = fs::remove_file(&out);
    let mut c = Command::new(bin);
    c.arg(&env.prop).arg(seed.to_string()).arg(cases.to_string()).arg(&out).arg(&pf).env("RUST_BACKTRACE", "0");
    if let Some(t) = replay {
        c.arg(t);
    }
    let what = match run_watched(c, &pf, &d.join("stderr"))? {
        RunEnd::Done => {
            let t = fs::read_to_string(&out).map_err(|e| e.to_string())?;
            return serde_json::from_str(&t).map_err(|e| e.to_string());
        }
        RunEnd::Died(m) => format!("the program died: {}", m),
        RunEnd::Hung => format!("no progress within {} s", STALL),
    };
    let b = fs::read(&pf).unwrap_or_default();
    let data: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    if data.is_empty() && replay.is_none() {
        return Err(what);
    }
    Ok(json!({"cases": 0, "evaluations": 0, "violation": {"message": what, "tape": data, "case": Value::Null}}))
}

/// `share` of the usual time is spent.
pub fn check(env: &Env, rep: &mut Report) -> Result<(), String> {
    let bin = build(env)?;
    let budget = if env.thorough { 600.0 } else { 0.0 };
    let cases = quick_cases(&env.prop);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut round = 0u64;
    let mut total = 0u64;
    loop {
        let results: Vec<Result<Value, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..JOBS)
                .map(|i| {
                    let bin = &bin;
                    sc.spawn(move || {
                        let seed = tape::hash64(&format!("{}/{}/{}", env.seed, round, i));
                        run_one(env, bin, i, seed, cases, None)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("run thread")).collect()
        });
        let mut bad: Vec<Value> = Vec::new();
        for r in results {
            let v = r?;
            total += v["cases"].as_u64().unwrap_or(0);
            rep.evaluations += v["evaluations"].as_u64().unwrap_or(0);
            for (k, n) in v["labels"].as_object().into_iter().flatten() {
                *rep.labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
            seen.extend(v["seen"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
            if rep.samples.len() < 8 {
                rep.samples.extend(v["samples"].as_array().into_iter().flatten().take(1).cloned());
            }
            if v["violation"].is_object() {
                bad.push(v["violation"].clone());
            }
        }
        bad.sort_by_key(|v| v["tape"].as_array().map_or(0, |a| a.len()));
        if let Some(v) = bad.first() {
            rep.violations.push(finding(&env.prop, v, bad.len()));
        }
        round += 1;
        if !rep.violations.is_empty() || env.elapsed() > budget {
            break;
        }
    }
    rep.distinct += seen.len() as u64;
    rep.extra.insert("generated_cases".into(), json!(total));
    Ok(())
}

fn finding(prop: &str, v: &Value, n: usize) -> Finding {
    let message = v["message"].as_str().unwrap_or("").to_string();
    Finding {
        property: prop.into(),
        kind: "lib".into(),
        signature: format!("lib:{}", message.replace(|c: char| c.is_ascii_digit(), "#")),
        message: format!("{} ({} of {} searches)", message, n, JOBS),
        detail: v.clone(),
    }
}

pub fn replay(env: &Env, f: &Finding) -> Result<Option<Finding>, String> {
    let bin = build(env)?;
    let v = run_one(env, &bin, 0, 1, 1, Some(&f.detail["tape"].to_string()))?;
    Ok(if v["violation"].is_object() { Some(finding(&f.property, &v["violation"], 1)) } else { None })
}
