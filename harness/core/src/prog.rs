//! Properties decided by generating whole programs: declarations are
//! generated, compiled and sent generated requests; the reference model says
//! what must come back.

use crate::driver::*;
use crate::gen;
use crate::job::*;
use crate::props;
use crate::render;
use crate::report::*;
use crate::reqs;
use crate::spec::*;
use crate::tape::{self, Tape};
use serde_json::json;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use std::process::Command;

/// (families, requests per family) of one round in the quick tier.
pub fn size(prop: &str) -> (usize, u32) {
    match prop {
        "C01" => (320, 1200),
        "C02" | "C03" | "C04" => (400, 1500),
        "C05" | "C06" => (260, 1000),
        "C07" => (320, 1200),
        "C09" => (220, 400),
        "C15" => (200, 350),
        "C17" => (240, 1000),
        "C18" => (200, 500),
        "C19" => (200, 200),
        "C20" => (200, 500),
        _ => (200, 600),
    }
}

pub fn families(prop: &str, seed: u64, round: u64, n: usize) -> Vec<Family> {
    let k = gen::knobs_for(prop);
    (0..n)
        .map(|i| {
            let tp = tape::fixed_tape(seed, &format!("{}/programs", prop), round << 32 | i as u64, 4000);
            let edition = EDITIONS[i % JOBS];
            gen::family(&mut Tape::new(&tp), &k, &format!("f{}", i), edition)
        })
        .collect()
}

pub struct Ran {
    pub outs: Vec<FamOut>,
    /// Families whose program crashed or hung, with the case at hand.
    pub crashed: Vec<Violation>,
}

/// Runs compiled shards with the given job parameters.
pub fn run_shards(shards: &[Shard], prop: &str, seed: u64, cases: u32, replay: Option<&BTreeMap<String, Case>>) -> Result<Ran, String> {
    let results: Vec<Result<(Vec<FamOut>, Option<Violation>), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = shards
            .iter()
            .map(|s| {
                sc.spawn(move || -> Result<(Vec<FamOut>, Option<Violation>), String> {
                    let job = Job {
                        prop: prop.into(),
                        seed,
                        cases,
                        families: s.families.clone(),
                        replay: match replay {
                            None => vec![],
                            Some(m) => s.families.iter().map(|f| m[&f.name].clone()).collect(),
                        },
                    };
                    let jf = s.dir.join("job.json");
                    let of = s.dir.join("out.json");
                    let pf = s.dir.join("progress");
                    let _ = fs::remove_file(&of);
                    fs::write(&jf, serde_json::to_string(&job).unwrap()).map_err(|e| e.to_string())?;
                    let _ = fs::write(&pf, b"");
                    let mut c = Command::new(s.bin.as_ref().unwrap());
                    c.arg(&jf).arg(&of).arg(&pf).env("RUST_BACKTRACE", "0");
                    let end = run_watched(c, &pf, &s.dir.join("stderr"))?;
                    let what = match end {
                        RunEnd::Done => {
                            let t = fs::read_to_string(&of).map_err(|e| e.to_string())?;
                            return Ok((serde_json::from_str(&t).map_err(|e| e.to_string())?, None));
                        }
                        RunEnd::Died(m) => format!("the program died: {}", m),
                        RunEnd::Hung => format!("no progress within {} s", STALL),
                    };
                    let b = fs::read(&pf).unwrap_or_default();
                    if b.len() < 32 {
                        return Err(what);
                    }
                    let name = String::from_utf8_lossy(&b[..32]).trim_end_matches('\0').to_string();
                    let fam = s
                        .families
                        .iter()
                        .find(|f| f.name == name)
                        .ok_or_else(|| format!("{} (in {:?})", what, name))?;
                    let data: Vec<u32> = b[32..]
                        .chunks_exact(4)
                        .map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]))
                        .collect();
                    let case = match replay {
                        Some(m) => m[&name].clone(),
                        None => Case::from_tape(&data, fam, &reqs::req_knobs(prop)),
                    };
                    Ok((
                        vec![],
                        Some(Violation {
                            family: name,
                            case,
                            message: what,
                            expected: json!(null),
                            observed: json!(null),
                        }),
                    ))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("run thread")).collect()
    });
    let mut ran = Ran {
        outs: vec![],
        crashed: vec![],
    };
    for r in results {
        let (o, c) = r?;
        ran.outs.extend(o);
        ran.crashed.extend(c);
    }
    Ok(ran)
}

pub fn check(env: &Env, libs: &Libs) -> Result<Report, String> {
    let prop = env.prop.as_str();
    let mut rep = Report {
        rule: format!(
            "one case = one generated request sent to one generated, compiled declaration and compared with the reference model; {}",
            props::rule(prop)
        ),
        assumptions: vec![
            "the reference model (harness/core/src/model.rs) states the documented behaviour".into(),
            "declarations and requests outside the generators' grammar are not covered".into(),
        ],
        ..Report::default()
    };
    let (nf, cases) = size(prop);
    let budget = if env.thorough { 600.0 } else { 0.0 };
    let mut round = 0u64;
    let mut programs = 0u64;
    let mut executions = 0u64;
    let mut bad_requests = 0u64;
    let mut oos = 0u64;
    loop {
        let fams = families(prop, env.seed, round, nf);
        let dir = env.work.join(format!("r{}", round));
        let (shards, fails) = compile(libs, &dir, fams.clone())?;
        let t_compile = env.elapsed();
        programs += shards.iter().map(|s| s.families.len() as u64).sum::<u64>();
        let mut fails = fails;
        fails.sort_by_key(|f| f.family.name[1..].parse::<u32>().unwrap_or(0));
        if let Some(f) = fails.first() {
            let (fam, messages) = reduce_compile(env, libs, f);
            rep.violations.push(compile_finding(prop, &fam, &messages, fails.len()));
        }
        let ran = run_shards(&shards, prop, env.seed ^ round << 40, cases, None)?;
        if std::env::var("HDV_VERBOSE").is_ok() {
            eprintln!("round {}: compiled {:.1}, ran {:.1}", round, t_compile, env.elapsed());
        }
        for o in &ran.outs {
            rep.evaluations += o.cases;
            executions += o.executions;
            rep.distinct += o.distinct;
            bad_requests += o.bad_requests;
            oos += o.out_of_scope;
            for (k, v) in &o.labels {
                *rep.labels.entry(k.clone()).or_insert(0) += v;
            }
            if rep.samples.len() < 6 {
                rep.samples.extend(o.samples.iter().take(1).cloned());
            }
        }
        let mut vs: Vec<Violation> = ran.crashed;
        vs.extend(ran.outs.into_iter().filter_map(|o| o.violation));
        // the smallest program first
        let fam_of = |v: &Violation| fams.iter().find(|f| f.name == v.family).unwrap().clone();
        vs.sort_by_key(|v| render::family_src(&fam_of(v)).len());
        if let Some(v) = vs.first() {
            let (fam, v2) = reduce_run(env, libs, &fam_of(v), v);
            rep.violations.push(run_finding(prop, &fam, &v2, vs.len()));
        }
        let _ = fs::remove_dir_all(&dir);
        round += 1;
        if !rep.violations.is_empty() || env.elapsed() > budget {
            break;
        }
    }
    rep.extra.insert("programs".into(), json!(programs));
    rep.extra.insert("rounds".into(), json!(round));
    rep.extra.insert("decodings_executed".into(), json!(executions));
    rep.extra.insert("requests_not_constructible".into(), json!(bad_requests));
    rep.extra.insert("cases_out_of_scope".into(), json!(oos));
    Ok(rep)
}

pub fn compile_finding(prop: &str, fam: &Family, messages: &[String], n: usize) -> Finding {
    Finding {
        property: prop.into(),
        kind: "compile".into(),
        signature: format!("compile:{}", messages.first().map(|m| strip_place(m)).unwrap_or_default()),
        message: format!("a well-formed declaration does not compile ({} of the generated ones)", n),
        detail: json!({
            "compiler": messages.iter().take(4).cloned().collect::<Vec<_>>().join("\n"),
            "program": render::family_src(fam),
            "family": fam,
        }),
    }
}

fn strip_place(m: &str) -> String {
    m.splitn(3, ':').nth(2).unwrap_or(m).trim().to_string()
}

pub fn run_finding(prop: &str, fam: &Family, v: &Violation, n: usize) -> Finding {
    let r = &v.case.req;
    Finding {
        property: prop.into(),
        kind: "run".into(),
        signature: format!("run:{}", v.message),
        message: format!("{} ({} failing declarations)", v.message, n),
        detail: json!({
            "request": format!("{} {}", r.method, r.uri()),
            "headers": r.headers,
            "body": format!("{:?}", r.body),
            "expected": v.expected,
            "observed": v.observed,
            "program": render::family_src(fam),
            "family": fam,
            "case": v.case,
        }),
    }
}

// ---- reduction of programs ----

fn overlap_free(r: &Router) -> bool {
    let rs: Vec<&Route> = r.variants.iter().flat_map(|v| v.routes.iter()).collect();
    for (i, a) in rs.iter().enumerate() {
        for b in &rs[..i] {
            if a.pattern.key() == b.pattern.key() {
                if a.method == b.method {
                    return false;
                }
            } else if a.pattern.overlaps(&b.pattern) {
                return false;
            }
        }
    }
    true
}

fn constructible(v: &Variant) -> bool {
    !v.routes.is_empty() || v.forward().is_some()
}

/// One-step simplifications; every one is again a valid family.
pub fn reductions(fam: &Family) -> Vec<Family> {
    let mut out = Vec::new();
    if fam.routers.iter().any(|r| r.params > 0) {
        return out;
    }
    // unreachable routers
    let mut reach = vec![false; fam.routers.len()];
    let mut todo = fam.mains.clone();
    while let Some(i) = todo.pop() {
        if reach[i] {
            continue;
        }
        reach[i] = true;
        for v in &fam.routers[i].variants {
            for f in &v.fields {
                if let Kind::Forward(Fwd::Router(k)) = f.kind {
                    todo.push(k);
                }
            }
        }
    }
    for (i, r) in reach.iter().enumerate() {
        if !r {
            let mut f = fam.clone();
            f.routers.remove(i);
            for m in f.mains.iter_mut() {
                if *m > i {
                    *m -= 1;
                }
            }
            for r in f.routers.iter_mut() {
                for v in r.variants.iter_mut() {
                    for fl in v.fields.iter_mut() {
                        if let Kind::Forward(Fwd::Router(k)) = &mut fl.kind {
                            if *k > i {
                                *k -= 1;
                            }
                        }
                    }
                }
            }
            return vec![f];
        }
    }
    for (ri, r) in fam.routers.iter().enumerate() {
        let mut push = |g: &dyn Fn(&mut Router)| {
            let mut f = fam.clone();
            g(&mut f.routers[ri]);
            if overlap_free(&f.routers[ri]) && f != *fam {
                out.push(f);
            }
        };
        if r.noise != 0 {
            push(&|r| r.noise = 0);
        }
        for (vi, v) in r.variants.iter().enumerate() {
            let others = r.variants.iter().enumerate().any(|(j, w)| j != vi && constructible(w));
            if !r.is_struct && others {
                push(&|r| {
                    r.variants.remove(vi);
                });
            }
            if v.routes.len() > 1 {
                for k in 0..v.routes.len() {
                    push(&|r| {
                        r.variants[vi].routes.remove(k);
                    });
                }
            }
            for (fi, f) in v.fields.iter().enumerate() {
                let removable = match &f.kind {
                    Kind::Path(_) => v.style == Style::Named && v.routes.is_empty(),
                    Kind::Forward(_) => !v.routes.is_empty(),
                    _ => true,
                };
                if removable && v.style == Style::Named {
                    push(&|r| {
                        r.variants[vi].fields.remove(fi);
                    });
                }
                if let Kind::Forward(Fwd::Router(_)) = f.kind {
                    push(&|r| r.variants[vi].fields[fi].kind = Kind::Forward(Fwd::Spy));
                }
            }
            for (ki, rt) in v.routes.iter().enumerate() {
                for (si, s) in rt.pattern.segs.iter().enumerate() {
                    if matches!(s, Seg::Lit(_)) && rt.pattern.segs.len() > 1 {
                        push(&|r| {
                            r.variants[vi].routes[ki].pattern.segs.remove(si);
                        });
                    }
                }
            }
        }
    }
    if fam.ctx.is_some() {
        let mut f = fam.clone();
        f.ctx = None;
        for r in f.routers.iter_mut() {
            for v in r.variants.iter_mut() {
                for fl in v.fields.iter_mut() {
                    match &mut fl.kind {
                        Kind::Guard { ctx, .. } => *ctx = CtxSel::None,
                        Kind::Body(BodyTy::Raw(c)) | Kind::Body(BodyTy::Ignore(c)) => *c = CtxSel::None,
                        _ => {}
                    }
                }
            }
        }
        out.push(f);
    }
    out
}

fn renamed(fams: Vec<Family>) -> Vec<Family> {
    fams.into_iter()
        .enumerate()
        .map(|(i, mut f)| {
            f.name = format!("f{}", i);
            f.edition = EDITIONS[i % JOBS];
            f
        })
        .collect()
}

const REDUCE_S: f64 = 90.0;

fn reduce_run(env: &Env, libs: &Libs, fam: &Family, v: &Violation) -> (Family, Violation) {
    let t0 = env.elapsed();
    let mut best = fam.clone();
    let mut bv = v.clone();
    if fam.mains.len() == 1 || (fam.ctx.is_none() && env.prop != "C18") {
        let mut f = best.clone();
        let mut w = bv.clone();
        f.mains = vec![f.mains[w.case.req.main % f.mains.len()]];
        w.case.req.main = 0;
        best = f;
        bv = w;
    }
    let mut round = 0;
    while env.elapsed() - t0 < REDUCE_S {
        let mut cands = renamed(reductions(&best));
        if cands.is_empty() {
            break;
        }
        cands.truncate(64);
        round += 1;
        let dir = env.work.join(format!("reduce{}", round));
        let got = (|| -> Result<Option<(Family, Violation)>, String> {
            let (shards, _) = compile(libs, &dir, cands.clone())?;
            let cases: BTreeMap<String, Case> = cands.iter().map(|f| (f.name.clone(), bv.case.clone())).collect();
            let ran = run_shards(&shards, &env.prop, env.seed, 1, Some(&cases))?;
            let mut vs: Vec<Violation> = ran.crashed;
            vs.extend(ran.outs.into_iter().filter_map(|o| o.violation));
            let pick = |v: &Violation| cands.iter().find(|f| f.name == v.family).unwrap().clone();
            vs.sort_by_key(|v| render::family_src(&pick(v)).len());
            Ok(vs.first().map(|v| (pick(v), v.clone())))
        })();
        let _ = fs::remove_dir_all(&dir);
        match got {
            Ok(Some((f, w))) => {
                best = f;
                bv = w;
            }
            _ => break,
        }
    }
    (best, bv)
}

fn reduce_compile(env: &Env, libs: &Libs, f: &CompileFail) -> (Family, Vec<String>) {
    let t0 = env.elapsed();
    let mut best = f.family.clone();
    let mut messages = f.messages.clone();
    let mut round = 0;
    while env.elapsed() - t0 < REDUCE_S {
        let mut cands = renamed(reductions(&best));
        for c in cands.iter_mut() {
            c.edition = best.edition;
        }
        if cands.is_empty() {
            break;
        }
        cands.truncate(64);
        round += 1;
        let dir = env.work.join(format!("creduce{}", round));
        let got = compile(libs, &dir, cands);
        let _ = fs::remove_dir_all(&dir);
        match got {
            Ok((_, mut fails)) if !fails.is_empty() => {
                fails.sort_by_key(|f| render::family_src(&f.family).len());
                best = fails[0].family.clone();
                messages = fails[0].messages.clone();
            }
            _ => break,
        }
    }
    (best, messages)
}

/// Repeats the case of a replay file. `Some` if it (still) fails.
pub fn replay(env: &Env, libs: &Libs, f: &Finding) -> Result<Option<Finding>, String> {
    let fam: Family = serde_json::from_value(f.detail["family"].clone()).map_err(|e| e.to_string())?;
    let dir = env.work.join("replay");
    let (shards, fails) = compile(libs, &dir, vec![fam.clone()])?;
    if let Some(c) = fails.first() {
        return Ok(Some(compile_finding(&f.property, &fam, &c.messages, 1)));
    }
    if f.kind == "compile" {
        return Ok(None);
    }
    let case: Case = serde_json::from_value(f.detail["case"].clone()).map_err(|e| e.to_string())?;
    let cases: BTreeMap<String, Case> = vec![(fam.name.clone(), case)].into_iter().collect();
    let ran = run_shards(&shards, &f.property, env.seed, 1, Some(&cases))?;
    let v = ran
        .crashed
        .into_iter()
        .chain(ran.outs.into_iter().filter_map(|o| o.violation))
        .next();
    Ok(v.map(|v| run_finding(&f.property, &fam, &v, 1)))
}

pub fn show_programs(prop: &str, seed: u64, n: usize, dir: &Path) {
    for f in families(prop, seed, 0, n) {
        fs::write(dir.join(format!("{}.rs", f.name)), render::family_src(&f)).expect("write");
    }
}
