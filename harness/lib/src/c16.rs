//! `blocking()` under competition for worker and blocking capacity.

use crate::common::*;
use crate::svc::{blow, KINDS};
use futures::{executor, future, Async, Future, Poll};
use hdv_core::tape::Tape;
use hdv_rt::exec::Counter;
use hdv_rt::Delay;
use hyperdrive::blocking;
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Generous; only ever waited for when something is wrong.
const WAIT: Duration = Duration::from_secs(40);

struct Gate(Mutex<bool>, Condvar);
impl Gate {
    fn new() -> Arc<Gate> {
        Arc::new(Gate(Mutex::new(false), Condvar::new()))
    }
    fn open(&self) {
        *self.0.lock().unwrap() = true;
        self.1.notify_all();
    }
    fn pass(&self) {
        let mut g = self.0.lock().unwrap();
        while !*g {
            g = self.1.wait(g).unwrap();
        }
    }
}
/// Opens the gate however the case ends.
struct Opener(Arc<Gate>);
impl Drop for Opener {
    fn drop(&mut self) {
        self.0.open();
    }
}

/// A value whose fate is counted.
#[derive(Debug)]
struct Tok(u32, Arc<AtomicUsize>);
impl Drop for Tok {
    fn drop(&mut self) {
        self.1.fetch_add(1, SeqCst);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ok,
    Err,
    Panic(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
    Plain,
    /// After some not-ready polls.
    Late(u32),
    /// Followed by another future.
    Chained,
    /// Two in one task.
    Joined,
    /// The future is made by the task.
    Inside,
}

/// Polls up to `left` times; `None` if it was never ready.
struct GiveUp<F> {
    f: Option<F>,
    left: u32,
}
impl<F: Future> Future for GiveUp<F> {
    type Item = Option<F::Item>;
    type Error = F::Error;
    fn poll(&mut self) -> Poll<Self::Item, F::Error> {
        if let Some(f) = &mut self.f {
            match f.poll()? {
                Async::Ready(v) => return Ok(Async::Ready(Some(v))),
                Async::NotReady => {
                    if self.left == 0 {
                        self.f = None;
                        return Ok(Async::Ready(None));
                    }
                    self.left -= 1;
                    futures::task::current().notify();
                }
            }
        }
        Ok(Async::NotReady)
    }
}

#[derive(Clone, Debug)]
struct Spec {
    end: End,
    shape: Shape,
    gated: bool,
    work: usize,
}

#[derive(Default)]
struct Counts {
    runs: AtomicUsize,
    captured: Arc<AtomicUsize>,
    made: Arc<AtomicUsize>,
}

type Out = Result<Tok, Result<Tok, ()>>;

/// The closure's future; panics of it become `Err(Err(()))` of the task.
fn make(id: u32, s: &Spec, c: &Arc<Counts>, gate: &Arc<Gate>) -> impl Future<Item = Tok, Error = Tok> {
    let c2 = c.clone();
    let cap = Tok(id, c.captured.clone());
    let made = c.made.clone();
    let (end, gated, work, gate) = (s.end, s.gated, s.work, gate.clone());
    blocking(move || {
        c2.runs.fetch_add(1, SeqCst);
        let cap = cap;
        if gated {
            gate.pass();
        }
        if work > 0 {
            std::thread::sleep(Duration::from_micros(work as u64));
        }
        match end {
            End::Ok => Ok(Tok(cap.0, made)),
            End::Err => Err(Tok(cap.0, made)),
            End::Panic(k) => blow(k, cap.0),
        }
    })
}

enum Pool {
    Rt(tokio::runtime::Runtime),
    Tp(tokio_threadpool::ThreadPool),
}
impl Pool {
    fn spawn<F: Future<Item = (), Error = ()> + Send + 'static>(&self, f: F) {
        match self {
            Pool::Rt(r) => {
                let _ = r.executor().spawn(f);
            }
            Pool::Tp(p) => p.spawn(f),
        }
    }
}

type Task = Box<dyn Future<Item = (), Error = ()> + Send>;

fn task<F: Future<Item = Vec<Out>, Error = ()> + Send + 'static>(f: F, tx: Sender<Vec<Out>>) -> Task {
    Box::new(AssertUnwindSafe(f).catch_unwind().then(move |r| {
        let _ = tx.send(match r {
            Ok(Ok(v)) => v,
            Ok(Err(())) => vec![],
            Err(_) => vec![Err(Err(()))],
        });
        Ok::<(), ()>(())
    }))
}

fn outside(t: &mut Tape, o: &mut Obsd) -> Result<(), Bad> {
    let c = Arc::new(Counts::default());
    let g = Gate::new();
    g.open();
    let end = *t.pick(&[End::Ok, End::Err, End::Panic(0)]);
    let s = Spec { end, shape: Shape::Plain, gated: false, work: 0 };
    let fut = make(1, &s, &c, &g);
    let place = t.below(4);
    o.label(["polled on a plain thread", "polled on the current-thread runtime", "polled by wait()", "polled on another thread"][place]);
    let poll = move || match place {
        0 => {
            let n = Arc::new(Counter::default());
            executor::spawn(fut).poll_future_notify(&n, 0).map(|a| a.is_ready()).map_err(|_| ())
        }
        1 => {
            let mut rt = tokio::runtime::current_thread::Runtime::new().expect("runtime");
            rt.block_on(fut).map(|_| true).map_err(|_| ())
        }
        _ => fut.wait().map(|_| true).map_err(|_| ()),
    };
    let r = catch_unwind(AssertUnwindSafe(move || {
        if place == 3 {
            match std::thread::spawn(move || catch_unwind(AssertUnwindSafe(poll))).join() {
                Ok(Ok(x)) => x,
                _ => panic!("panicked over there"),
            }
        } else {
            poll()
        }
    }));
    o.evals += 1;
    if let Ok(x) = r {
        return differ("polled outside of a thread pool", "a panic", format!("{:?}", x));
    }
    same("runs of the closure outside of a thread pool", &0, &c.runs.load(SeqCst))?;
    same("drops of the captured value", &1, &c.captured.load(SeqCst))
}

/// Futures that are dropped while they wait for capacity. The pool is not used
/// afterwards: tokio-threadpool can lose capacity that way.
fn abandoned(t: &mut Tape, o: &mut Obsd) -> Result<(), Bad> {
    let pool = Pool::Tp(tokio_threadpool::Builder::new().pool_size(2 + t.below(2)).max_blocking(1).build());
    let gate = Gate::new();
    let _opener = Opener(gate.clone());
    let spec = |gated| Spec { end: End::Ok, shape: Shape::Plain, gated, work: 0 };
    let holder = Arc::new(Counts::default());
    let (tx, rx) = channel();
    let f = make(0, &spec(true), &holder, &gate);
    pool.spawn(task(f.then(|r| Ok(vec![r.map_err(Ok)])), tx));
    let deadline = Instant::now() + WAIT;
    while holder.runs.load(SeqCst) == 0 {
        if Instant::now() > deadline {
            return differ("the first closure", "is run", "not so");
        }
        std::thread::yield_now();
    }
    let n = 1 + t.below(4);
    o.describe = json!(format!("{} futures given up while another closure holds the only capacity", n));
    o.nontrivial = true;
    o.evals += n as u64;
    o.label("given up for want of capacity");
    let mut all = Vec::new();
    for i in 0..n {
        let c = Arc::new(Counts::default());
        let (tx, rx) = channel();
        let f = make(1 + i as u32, &spec(false), &c, &gate);
        let g = GiveUp { f: Some(f), left: t.below(4) as u32 };
        pool.spawn(task(
            g.then(|r| {
                Ok(match r {
                    Ok(None) => vec![],
                    Ok(Some(v)) => vec![Ok(v)],
                    Err(v) => vec![Err(Ok(v))],
                })
            }),
            tx,
        ));
        all.push((c, rx));
    }
    let check = |c: &Counts| {
        same("runs of a closure whose future was dropped before there was capacity", &0, &c.runs.load(SeqCst))?;
        same("drops of what it captured", &1, &c.captured.load(SeqCst))
    };
    for (c, rx) in &all {
        match rx.recv_timeout(WAIT) {
            Ok(v) if v.is_empty() => {}
            Ok(v) => return differ("a future without capacity", "not ready", format!("{:?}", v)),
            Err(_) => return differ("a future without capacity", "not ready", format!("blocks for {:?}", WAIT)),
        }
        check(c)?;
    }
    gate.open();
    match rx.recv_timeout(WAIT) {
        Ok(v) if v.len() == 1 && v[0].is_ok() => {}
        Ok(v) => return differ("the first future", "ok", format!("{:?}", v)),
        Err(_) => return differ("the first future", "ok", format!("nothing within {:?}", WAIT)),
    }
    for (c, _) in &all {
        check(c)?;
    }
    Ok(())
}

pub fn case(t: &mut Tape, o: &mut Obsd) -> Result<(), Bad> {
    if t.pct(12) {
        o.describe = json!("outside of a thread pool");
        return outside(t, o);
    }
    if t.pct(6) {
        return abandoned(t, o);
    }
    let core = 1 + t.below(3);
    let cap = 1 + t.below(5);
    let full = t.pct(25);
    let pool = if full {
        Pool::Rt(tokio::runtime::Builder::new().core_threads(core).blocking_threads(cap).build().expect("runtime"))
    } else {
        Pool::Tp(tokio_threadpool::Builder::new().pool_size(core).max_blocking(cap).build())
    };
    let waves = 1 + t.below(3);
    let mut log = vec![json!(format!("{} with {} core and {} blocking threads", if full { "runtime" } else { "thread pool" }, core, cap))];
    let r = waves_(t, o, &pool, waves, cap, &mut log);
    o.describe = json!(log);
    if r.is_ok() {
        match pool {
            Pool::Rt(r) => {
                let _ = r.shutdown_now().wait();
            }
            Pool::Tp(p) => {
                let _ = p.shutdown_now().wait();
            }
        }
    } else {
        std::mem::forget(pool);
    }
    r
}

fn waves_(t: &mut Tape, o: &mut Obsd, pool: &Pool, waves: usize, cap: usize, log: &mut Vec<serde_json::Value>) -> Result<(), Bad> {
    for w in 0..waves {
        let n = 1 + t.below(12);
        let gate = Gate::new();
        let _opener = Opener(gate.clone());
        let specs: Vec<Spec> = (0..n)
            .map(|_| Spec {
                end: match t.weighted(&[5, 3, 2]) {
                    0 => End::Ok,
                    1 => End::Err,
                    _ => End::Panic(t.below(KINDS.len())),
                },
                shape: match t.weighted(&[5, 2, 2, 2, 3]) {
                    4 => Shape::Inside,
                    0 => Shape::Plain,
                    1 => Shape::Late(1 + t.below(4) as u32),
                    2 => Shape::Chained,
                    _ => Shape::Joined,
                },
                gated: t.pct(45),
                work: if t.pct(20) { t.below(400) } else { 0 },
            })
            .collect();
        let gated = specs.iter().filter(|s| s.gated).count();
        log.push(json!(format!("wave {}: {:?}", w, specs)));
        o.label(if gated > cap { "more blocked closures than capacity" } else if gated > 0 { "blocked closures" } else { "no blocked closures" });
        o.nontrivial |= n > 1;
        // (counts, expected runs, expected values made)
        let mut all: Vec<(Arc<Counts>, usize)> = Vec::new();
        let mut rx: Vec<(usize, Receiver<Vec<Out>>)> = Vec::new();
        // futures that are never polled must not run
        let idle: Vec<_> = (0..t.below(3))
            .map(|_| {
                let c = Arc::new(Counts::default());
                let f = make(999, &specs[0], &c, &gate);
                (c, f)
            })
            .collect();
        let mut tasks: Vec<Task> = Vec::new();
        for (i, s) in specs.iter().enumerate() {
            let c = Arc::new(Counts::default());
            let id = (w * 100 + i) as u32;
            let (tx, r) = channel();
            rx.push((i, r));
            if s.shape == Shape::Inside {
                let early = Arc::new(AtomicUsize::new(0));
                let (s, c2, gate) = (s.clone(), c.clone(), gate.clone());
                let f = future::lazy(move || {
                    // another one, that is never polled
                    let idle = Arc::new(Counts::default());
                    drop(make(id, &Spec { end: End::Ok, gated: false, ..s.clone() }, &idle, &gate));
                    let f = make(id, &s, &c2, &gate);
                    early.store(c2.runs.load(SeqCst) + idle.runs.load(SeqCst), SeqCst);
                    Delay(1).map_err(|_| ()).then(move |_| f.then(move |r| match early.load(SeqCst) {
                        0 => Ok(vec![r.map_err(Ok)]),
                        // makes for a difference
                        _ => Ok(vec![r.map_err(Ok), Err(Err(()))]),
                    }))
                });
                all.push((c, i));
                tasks.push(task(f, tx));
                o.label("Inside");
                continue;
            }
            let f = make(id, s, &c, &gate);
            let f: Box<dyn Future<Item = Vec<Out>, Error = ()> + Send> = match s.shape {
                Shape::Inside => unreachable!(),
                Shape::Plain => Box::new(f.then(|r| Ok(vec![r.map_err(Ok)]))),
                Shape::Late(n) => Box::new(Delay(n).map_err(|_| ()).and_then(move |()| f.then(|r| Ok(vec![r.map_err(Ok)])))),
                Shape::Chained => Box::new(f.then(|r| {
                    Delay(2).map_err(|_| ()).map(move |()| vec![r.map_err(Ok)])
                })),
                Shape::Joined => {
                    // the second one ends well and is not gated
                    let s2 = Spec { end: End::Ok, gated: false, ..s.clone() };
                    let c2 = Arc::new(Counts::default());
                    let g = make(id + 50, &s2, &c2, &gate);
                    all.push((c2, 1000 + i));
                    Box::new(f.then(Ok::<_, ()>).join(g.then(Ok::<_, ()>)).map(|(a, b)| vec![a.map_err(Ok), b.map_err(Ok)]))
                }
            };
            all.push((c, i));
            tasks.push(task(f, tx));
            o.label(format!("{:?}", s.shape).split('(').next().unwrap_or("").to_string());
            o.label(match s.end {
                End::Panic(_) => "panics".to_string(),
                e => format!("ends {:?}", e),
            });
        }
        for (c, _) in &all {
            same("runs of a closure before the first poll", &0, &c.runs.load(SeqCst))?;
        }
        o.evals += n as u64;
        for x in tasks {
            pool.spawn(x);
        }
        // other tasks advance while closures are blocked
        let (tx, ticked) = channel();
        let tickers = 1 + t.below(4);
        for k in 0..tickers {
            let tx = tx.clone();
            pool.spawn(future::lazy(move || Delay(20).then(move |_| {
                let _ = tx.send(k);
                Ok::<(), ()>(())
            })));
        }
        for _ in 0..tickers {
            if ticked.recv_timeout(WAIT).is_err() {
                return differ("other tasks do not advance while closures are blocked", "progress", format!("none within {:?}", WAIT));
            }
        }
        for i in 0..n {
            // one of the ungated ones may wait for capacity held by gated ones
            if specs[i].gated && all.iter().any(|(_, k)| *k == i) {
                if let Ok(v) = rx[i].1.try_recv() {
                    return differ("the future of a blocked closure", "not ready", format!("{:?}", v));
                }
            }
        }
        gate.open();
        for (i, r) in rx {
            let got = match r.recv_timeout(WAIT) {
                Ok(v) => v,
                Err(_) => return differ(&format!("future {} of wave {}", i, w), "an outcome", format!("none within {:?}", WAIT)),
            };
            let s = &specs[i];
            let id = (w * 100 + i) as u32;
            let one = |e: End, id: u32| match e {
                End::Ok => json!({"ok": id}),
                End::Err => json!({"err": id}),
                End::Panic(_) => json!("panic"),
            };
            let mut want = vec![one(s.end, id)];
            if s.shape == Shape::Joined && !matches!(s.end, End::Panic(_)) {
                want.push(one(End::Ok, id + 50));
            }
            let seen: Vec<serde_json::Value> = got
                .iter()
                .map(|x| match x {
                    Ok(v) => json!({"ok": v.0}),
                    Err(Ok(v)) => json!({"err": v.0}),
                    Err(Err(())) => json!("panic"),
                })
                .collect();
            same(&format!("future {} of wave {}", i, w), &want, &seen)?;
        }
        for (c, f) in idle {
            drop(f);
            same("runs of a closure whose future is never polled", &0, &c.runs.load(SeqCst))?;
            same("drops of what it captured", &1, &c.captured.load(SeqCst))?;
        }
        for (c, i) in &all {
            let joined = *i >= 1000;
            let s = &specs[*i % 1000];
            // its companion may have blown the task before it was polled
            if joined && matches!(s.end, End::Panic(_)) {
                if c.runs.load(SeqCst) > 1 {
                    return differ("runs of a closure", "at most 1", c.runs.load(SeqCst));
                }
                continue;
            }
            same(&format!("runs of closure {} of wave {}", i, w), &1, &c.runs.load(SeqCst))?;
            same("drops of what the closure captured", &1, &c.captured.load(SeqCst))?;
            let made = if !joined && matches!(s.end, End::Panic(_)) { 0 } else { 1 };
            same("values made and delivered", &made, &c.made.load(SeqCst))?;
        }
    }
    Ok(())
}
