//! The property loop run inside a compiled shard.

use crate::exec::{drive, err_obs, panic_text, Counter, Entry, Mode, MODES};
use futures::executor;
use futures::Async;
use hdv_core::model::{self, compare, Expected, Obs};
use hdv_core::props;
use hdv_core::reqs::{self, ReqKnobs};
use hdv_core::spec::*;
use hdv_core::tape::{self, Tape};
use proptest::test_runner::{Config, TestCaseError, TestError, TestRunner};
pub use hdv_core::job::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub struct Module {
    pub name: &'static str,
    pub entries: fn() -> Vec<Entry>,
    pub ctx_check: fn() -> Vec<String>,
}

pub struct Fail {
    pub message: String,
    pub expected: serde_json::Value,
    pub observed: serde_json::Value,
}

thread_local! {
    static NOTED: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) };
}
/// A label for the case being run that only the run can tell.
pub fn noted(label: &'static str) {
    NOTED.with(|n| n.borrow_mut().push(label));
}

fn fail(msg: String, e: &Expected, o: &Obs) -> Fail {
    Fail {
        message: msg,
        expected: serde_json::json!({"result": e.result, "events": e.events}),
        observed: serde_json::to_value(o).unwrap(),
    }
}

fn rename_root(o: &Obs, name: &str) -> Obs {
    match o {
        Obs::Done {
            result: Ok(V::Node(_, f)),
            events,
        } => Obs::Done {
            result: Ok(V::Node(name.into(), f.clone())),
            events: events.clone(),
        },
        o => o.clone(),
    }
}

/// Decides one case. Returns the expectation for statistics.
fn run_case(
    prop: &str,
    fam: &Family,
    entries: &[Entry],
    case: &Case,
    knobs: &ReqKnobs,
    execs: &mut u64,
) -> (Expected, Result<bool, Fail>) {
    if prop == "C19" {
        return crate::wire::run_case(fam, entries, case, knobs, execs);
    }
    if prop == "C20" {
        return crate::leave::run_case(fam, entries, case, execs);
    }
    let req = &case.req;
    let exp = model::expect(fam, req);
    let f = props::facets(prop);
    let entry = &entries[req.main % entries.len()];
    *execs += 1;
    let obs = (entry.decode)(req, Mode::Poll);
    if let Obs::BadRequest(_) = obs {
        return (exp, Ok(false));
    }
    if props::out_of_scope(prop, &exp) {
        return (exp, Ok(true));
    }
    if let Err(m) = compare(&exp, &obs, f) {
        let x = fail(m, &exp, &obs);
        return (exp, Err(x));
    }
    match prop {
        "C03" => {
            // metamorphic: HEAD through an implied route is the GET request
            if req.method == "HEAD" && exp.notes.implied_head && exp.notes.depth == 0 {
                let mut get = req.clone();
                get.method = "GET".into();
                *execs += 1;
                let o2 = (entry.decode)(&get, Mode::Poll);
                let differs = match (&obs, &o2) {
                    (Obs::Done { result: a, .. }, Obs::Done { result: b, .. }) => a != b,
                    _ => true,
                };
                if differs {
                    let x = fail("HEAD and GET decode differently".into(), &exp, &o2);
                    return (exp, Err(x));
                }
            }
        }
        "C15" => {
            if let Err(x) = determinism(fam, entries, case, &exp, knobs, execs) {
                return (exp, Err(x));
            }
        }
        "C17" => {
            // also through the service adapters, where nothing may be lost
            let mode = MODES[Tape::new(&case.sched).below(4)];
            *execs += 1;
            let o2 = (entry.decode)(req, mode);
            let e2 = exp.through_service();
            if let Err(m) = compare(&e2, &o2, f) {
                let x = fail(format!("{:?}: {}", mode, m), &exp, &o2);
                return (exp, Err(x));
            }
        }
        "C18" => {
            // the monomorphic twin is the last main
            if fam.mains.len() == 3 && req.main % 3 == 0 {
                *execs += 1;
                let o2 = (entries[2].decode)(req, Mode::Poll);
                if rename_root(&obs, "") != rename_root(&o2, "") && fam.routers[fam.mains[0]].is_struct
                    || !fam.routers[fam.mains[0]].is_struct && obs != o2
                {
                    let x = fail("generic and monomorphic declaration differ".into(), &exp, &o2);
                    return (exp, Err(x));
                }
            }
            // the other instantiations see the same request, and the first
            // one then sees it again: they share no state
            for d in 1..=entries.len() {
                let mut r = req.clone();
                r.main = (req.main + d) % entries.len();
                let e2 = model::expect(fam, &r);
                if props::out_of_scope(prop, &e2) {
                    continue;
                }
                *execs += 1;
                let o2 = (entries[r.main].decode)(&r, Mode::Poll);
                if let Err(m) = compare(&e2, &o2, f) {
                    let x = fail(format!("instantiation {} after the others: {}", r.main, m), &e2, &o2);
                    return (exp, Err(x));
                }
            }
        }
        _ => {}
    }
    (exp, Ok(true))
}

fn determinism(
    fam: &Family,
    entries: &[Entry],
    case: &Case,
    exp: &Expected,
    knobs: &ReqKnobs,
    execs: &mut u64,
) -> Result<(), Fail> {
    let f = props::facets("C15");
    let mut t = Tape::new(&case.sched);
    let entry = |r: &ReqCase| &entries[r.main % entries.len()];
    // every entry point, with its own schedule
    let n_modes = 3;
    for _ in 0..n_modes {
        let mode = MODES[t.below(MODES.len())];
        let r = reqs::reschedule(&mut t, &case.req);
        *execs += 1;
        let o = (entry(&r).decode)(&r, mode);
        let service = matches!(mode, Mode::Async | Mode::Blocking);
        let e = if service { exp.through_service() } else { exp.clone() };
        // a stream failure behind data may be noticed before or after it
        if let Err(m) = compare(&e, &o, f) {
            return Err(fail(format!("through {:?}: {}", mode, m), &e, &o));
        }
    }
    // several requests in flight, polled in an arbitrary order
    let mut seed = 0x9E37u32;
    let others = 1 + t.below(3);
    let mut flight = Vec::new();
    let mut all = vec![case.req.clone()];
    for _ in 0..others {
        all.push(another(t.raw(), &mut seed, fam, knobs));
    }
    // the same request for the other declarations of the program, and again
    if t.pct(50) {
        for d in 1..=entries.len() {
            let mut r = case.req.clone();
            r.main = (r.main + d) % entries.len();
            all.push(r);
        }
    }
    for r in &all {
        *execs += 1;
        let started = catch_unwind(AssertUnwindSafe(|| (entry(r).start)(r)));
        match started {
            Ok(Ok((fut, probe))) => flight.push((
                r.clone(),
                Some(executor::spawn(fut)),
                probe,
                None,
                Arc::new(Counter::default()),
            )),
            Ok(Err(_)) => {}
            Err(p) => {
                let o = Obs::Panic(panic_text(p));
                let e = model::expect(fam, r);
                return Err(fail("in flight with others: panicked".into(), &e, &o));
            }
        }
    }
    let mut live = flight.len();
    let mut steps = 0;
    while live > 0 && steps < 100_000 {
        steps += 1;
        let open: Vec<usize> = (0..flight.len()).filter(|i| flight[*i].1.is_some()).collect();
        let i = open[if steps < 40 { t.below(open.len()) } else { steps % open.len() }];
        let (_, fut, _, out, n) = &mut flight[i];
        let before = n.0.load(Ordering::SeqCst);
        let polled = catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().poll_future_notify(n, 0)));
        match polled {
            Err(p) => {
                *out = Some(Err(Obs::Panic(panic_text(p))));
                *fut = None;
                live -= 1;
            }
            Ok(Ok(Async::NotReady)) => {
                if n.0.load(Ordering::SeqCst) == before {
                    *out = Some(Err(Obs::Stuck));
                    *fut = None;
                    live -= 1;
                }
            }
            Ok(Ok(Async::Ready(v))) => {
                *out = Some(Ok(Ok(v)));
                *fut = None;
                live -= 1;
            }
            Ok(Err(e)) => {
                *out = Some(Ok(Err(err_obs(&e))));
                *fut = None;
                live -= 1;
            }
        }
    }
    for (r, _, probe, out, _) in flight {
        let o = match out {
            Some(Ok(result)) => Obs::Done {
                result,
                events: probe.events.lock().unwrap().clone(),
            },
            Some(Err(o)) => o,
            None => Obs::Stuck,
        };
        let e = model::expect(fam, &r);
        if let Err(m) = compare(&e, &o, f) {
            return Err(fail(format!("interleaved with others ({} {}): {}", r.method, r.uri(), m), &e, &o));
        }
    }
    Ok(())
}

/// Several threads decode at the same time, from the very first request on.
fn hammer(fam: &Family, entries: &[Entry], knobs: &ReqKnobs, execs: &mut u64) -> Option<Violation> {
    const THREADS: usize = 4;
    const ROUNDS: usize = 3;
    let mut seed = tape::hash64(&fam.name) as u32;
    let mut all: Vec<(ReqCase, Expected)> = Vec::new();
    for i in 0..24 {
        let r = another(i, &mut seed, fam, knobs);
        // long ones would only slow the others down
        if r.path.len() < 500 && r.body.chunks.len() < 8 {
            let e = model::expect(fam, &r);
            all.push((r, e));
        }
    }
    let f = props::facets("C15");
    let start = std::sync::Barrier::new(THREADS);
    let bad: Vec<Violation> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                let (all, start) = (&all, &start);
                sc.spawn(move || {
                    start.wait();
                    for i in 0..all.len() * ROUNDS {
                        let (r, e) = &all[(i + (t / 2) * 7) % all.len()];
                        let o = (entries[r.main % entries.len()].decode)(r, Mode::Poll);
                        if let Obs::BadRequest(_) = o {
                            continue;
                        }
                        if let Err(m) = compare(e, &o, f) {
                            let x = fail(format!("decoded by several threads at once: {}", m), e, &o);
                            return Some(Violation {
                                family: fam.name.clone(),
                                case: Case {
                                    req: r.clone(),
                                    sched: vec![],
                                },
                                message: x.message,
                                expected: x.expected,
                                observed: x.observed,
                            });
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().expect("thread")).collect()
    });
    *execs += (THREADS * ROUNDS * all.len()) as u64;
    bad.into_iter().next()
}

/// A further request derived from one choice.
pub fn another(base: u32, seed: &mut u32, fam: &Family, knobs: &ReqKnobs) -> ReqCase {
    let tp: Vec<u32> = (0..REQ_TAPE as u32)
        .map(|i| {
            *seed = seed.wrapping_mul(1664525).wrapping_add(base ^ i).rotate_left(7);
            *seed
        })
        .collect();
    reqs::gen_req(&mut Tape::new(&tp), fam, knobs)
}

fn sample(fam: &Family, case: &Case, e: &Expected) -> serde_json::Value {
    let r = &case.req;
    serde_json::json!({
        "router": hdv_core::render::router_src(fam, fam.mains[r.main % fam.mains.len()])
            .split("impl").next().unwrap_or("").trim(),
        "request": format!("{} {}", r.method, r.uri()),
        "headers": r.headers,
        "body_chunks": r.body.chunks.len(),
        "expected": serde_json::to_value(&e.result).unwrap(),
        "events": e.events,
    })
}

/// Leaves a trace of what is being run, for crashes and hangs.
struct Progress(std::fs::File);

impl Progress {
    fn note(&self, name: &str, data: &[u32]) {
        use std::os::unix::fs::FileExt;
        let mut b = Vec::with_capacity(64 + data.len() * 4);
        b.extend_from_slice(name.as_bytes());
        b.resize(32, 0);
        for d in data {
            b.extend_from_slice(&d.to_le_bytes());
        }
        if data.is_empty() {
            let _ = self.0.set_len(0);
        }
        let _ = self.0.write_at(&b, 0);
    }
}

fn run_family(job: &Job, fam: &Family, m: &Module, idx: usize, progress: &Progress) -> FamOut {
    let knobs = reqs::req_knobs(&job.prop);
    progress.note(&fam.name, &[]);
    let entries = (m.entries)();
    let stats = RefCell::new(FamOut {
        name: fam.name.clone(),
        ..FamOut::default()
    });
    let seen = RefCell::new(HashSet::new());
    if job.prop == "C09" {
        let bad = (m.ctx_check)();
        stats.borrow_mut().executions += 1;
        if !bad.is_empty() {
            let mut s = stats.into_inner();
            s.violation = Some(Violation {
                family: fam.name.clone(),
                case: Case {
                    req: reqs::gen_req(&mut Tape::new(&[]), fam, &knobs),
                    sched: vec![],
                },
                message: format!("context references: {}", bad.join("; ")),
                expected: serde_json::Value::Null,
                observed: serde_json::Value::Null,
            });
            return s;
        }
    }
    if job.prop == "C15" {
        let mut ex = 0;
        let bad = hammer(fam, &entries, &knobs, &mut ex);
        let mut s = stats.borrow_mut();
        s.executions += ex;
        s.labels.insert("several-threads".into(), ex);
        if bad.is_some() {
            s.violation = bad;
            drop(s);
            return stats.into_inner();
        }
    }
    if let Some(case) = job.replay.get(idx) {
        let mut ex = 0;
        let (_, r) = run_case(&job.prop, fam, &entries, case, &knobs, &mut ex);
        let mut s = stats.into_inner();
        s.cases = 1;
        s.executions = ex;
        if let Err(f) = r {
            s.violation = Some(Violation {
                family: fam.name.clone(),
                case: case.clone(),
                message: f.message,
                expected: f.expected,
                observed: f.observed,
            });
        }
        return s;
    }
    let cfg = Config {
        cases: job.cases,
        max_shrink_iters: 3000,
        // repeating a hang takes its time
        max_shrink_time: 30_000,
        failure_persistence: None,
        ..Config::default()
    };
    let rng = tape::rng(job.seed, &format!("{}/{}", job.prop, fam.name), idx as u64);
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let to_case = |data: &[u32]| Case::from_tape(data, fam, &knobs);
    let result = runner.run(&tape::strategy(REQ_TAPE + SCHED_TAPE), |data| {
        progress.note(&fam.name, &data);
        let case = to_case(&data);
        let mut ex = 0;
        let (exp, r) = run_case(&job.prop, fam, &entries, &case, &knobs, &mut ex);
        let extra = NOTED.with(|n| std::mem::take(&mut *n.borrow_mut()));
        let mut s = stats.borrow_mut();
        s.cases += 1;
        s.executions += ex;
        match r {
            Ok(false) => s.bad_requests += 1,
            Ok(true) => {
                if props::out_of_scope(&job.prop, &exp) {
                    s.out_of_scope += 1;
                    return Ok(());
                }
                for l in props::labels(fam, &case.req, &exp) {
                    *s.labels.entry(l.to_string()).or_insert(0) += 1;
                }
                for l in extra {
                    *s.labels.entry(l.to_string()).or_insert(0) += 1;
                }
                if props::nontrivial(&job.prop, fam, &case.req, &exp) {
                    let h = tape::hash64(&serde_json::to_string(&case.req).unwrap());
                    if seen.borrow_mut().insert(h) {
                        s.distinct += 1;
                        if s.samples.is_empty() || (s.samples.len() < 2 && s.distinct == 17) {
                            let v = sample(fam, &case, &exp);
                            s.samples.push(v);
                        }
                    }
                }
            }
            Err(f) => return Err(TestCaseError::fail(f.message)),
        }
        Ok(())
    });
    let mut out = stats.into_inner();
    if let Err(e) = result {
        match e {
            TestError::Fail(_, data) => {
                let case = to_case(&data);
                let mut ex = 0;
                let (exp, r) = run_case(&job.prop, fam, &entries, &case, &knobs, &mut ex);
                let f = match r {
                    Err(f) => f,
                    // not reproducible: report with what we have
                    Ok(_) => Fail {
                        message: "failed once but not when repeated".into(),
                        expected: serde_json::to_value(&exp.result).unwrap(),
                        observed: serde_json::Value::Null,
                    },
                };
                out.violation = Some(Violation {
                    family: fam.name.clone(),
                    case,
                    message: f.message,
                    expected: f.expected,
                    observed: f.observed,
                });
            }
            TestError::Abort(r) => panic!("aborted: {}", r),
        }
    }
    out
}

pub fn shard_main(modules: &[Module]) {
    let args: Vec<String> = std::env::args().collect();
    let job: Job = serde_json::from_str(&std::fs::read_to_string(&args[1]).expect("job file")).expect("job");
    crate::exec::silence_panics();
    let _ = drive(futures::future::ok::<(), ()>(()), 1);
    let progress = Progress(std::fs::File::create(&args[3]).expect("progress file"));
    let mut outs = Vec::new();
    for (i, fam) in job.families.iter().enumerate() {
        let m = modules
            .iter()
            .find(|m| m.name == fam.name)
            .expect("module for family");
        outs.push(run_family(&job, fam, m, i, &progress));
        if job.prop == "C19" && outs.last().unwrap().violation.is_some() && job.replay.is_empty() {
            break;
        }
    }
    std::fs::write(&args[2], serde_json::to_string(&outs).unwrap()).expect("write results");
    // background runtimes must not delay the exit
    std::process::exit(0);
}
