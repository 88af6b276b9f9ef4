//! What a request leaves behind, finished or abandoned.

use crate::exec::{self, Entry, Mode};
use crate::shard::{noted, Fail};
use crate::{Ctx, Probe, Show};
use futures::{Async, Future, Poll};
use hdv_core::model::{self, Expected};
use hdv_core::job::Case;
use hdv_core::spec::{Family, ReqCase};
use hdv_core::tape::Tape;
use hyper::service::Service;
use hyper::Body;
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, FromRequest};
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// Counts the bytes this thread holds.
struct Counting;
thread_local! {
    static HELD: Cell<isize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = HELD.try_with(|h| h.set(h.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
fn held_bytes() -> isize {
    HELD.with(|h| h.get())
}

type AnyFuture = Box<dyn Future<Item = Box<dyn Any + Send>, Error = BoxedError> + Send>;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Way {
    Direct,
    Async,
    Caught,
    Sync,
}

/// A request under way.
pub struct Held {
    fut: AnyFuture,
    service: Option<Box<dyn Any + Send>>,
    probe: Arc<Probe>,
    body: Arc<()>,
    handled: Arc<AtomicUsize>,
}

pub fn hold<R>(case: &ReqCase, way: Way) -> Result<Held, String>
where
    R: FromRequest + Show + Send + 'static,
    R::Context: Ctx,
    R::Future: Send + 'static,
{
    let token = Arc::new(());
    let stream = exec::ChunkStream::watched(&case.body, token.clone());
    let (req, probe) = exec::build_with(case, Body::wrap_stream(stream))?;
    probe.runtime.store(true, Ordering::SeqCst);
    let handled = Arc::new(AtomicUsize::new(0));
    let ctx = R::Context::mk(&case.ctx);
    let seen = handled.clone();
    let (fut, service): (AnyFuture, Option<Box<dyn Any + Send>>) = match way {
        Way::Direct => (Box::new(R::from_request(req, ctx).map(|r| Box::new(r) as Box<dyn Any + Send>)), None),
        Way::Async | Way::Caught => {
            let mut svc = AsyncService::with_context(
                move |r: R, _| {
                    seen.fetch_add(1, Ordering::SeqCst);
                    let seen = seen.clone();
                    // the handler takes its time
                    crate::Delay(1).map(move |()| {
                        drop(r);
                        seen.fetch_add(100, Ordering::SeqCst);
                        http::Response::new(Body::empty())
                    })
                },
                ctx,
            );
            if way == Way::Async {
                (Box::new(svc.call(req).map(|r| Box::new(r) as Box<dyn Any + Send>)), Some(Box::new(svc)))
            } else {
                let mut svc = svc.catch_unwind(|_| Err::<http::Response<Body>, BoxedError>("panicked".into()));
                (Box::new(svc.call(req).map(|r| Box::new(r) as Box<dyn Any + Send>)), Some(Box::new(svc)))
            }
        }
        Way::Sync => {
            let mut svc = SyncService::with_context(
                move |_: R, _| {
                    seen.fetch_add(1, Ordering::SeqCst);
                    http::Response::new(Body::empty())
                },
                ctx,
            );
            (Box::new(svc.call(req).map(|r| Box::new(r) as Box<dyn Any + Send>)), Some(Box::new(svc)))
        }
    };
    Ok(Held {
        fut,
        service,
        probe,
        body: token,
        handled,
    })
}

/// Polls at most so many times and then drops the future.
struct UpTo(Option<AnyFuture>, u32);
impl Future for UpTo {
    type Item = Option<Result<Box<dyn Any + Send>, BoxedError>>;
    type Error = ();
    fn poll(&mut self) -> Poll<Self::Item, ()> {
        if self.1 == 0 {
            self.0 = None;
            return Ok(Async::Ready(None));
        }
        self.1 -= 1;
        let out = match self.0.as_mut().expect("polled after its end").poll() {
            Ok(Async::Ready(v)) => Ok(Async::Ready(Some(Ok(v)))),
            Err(e) => Ok(Async::Ready(Some(Err(e)))),
            Ok(Async::NotReady) if self.1 == 0 => Ok(Async::Ready(None)),
            Ok(Async::NotReady) => return Ok(Async::NotReady),
        };
        self.0 = None;
        out
    }
}

thread_local! {
    static RT: RefCell<Option<tokio::runtime::current_thread::Runtime>> = const { RefCell::new(None) };
}

/// What is still around, apart from what the watcher holds itself.
fn remains(probe: &Arc<Probe>, body: &Arc<()>, parts: isize) -> Vec<String> {
    let mut out = Vec::new();
    match Arc::strong_count(probe) - 1 {
        0 => {}
        n => out.push(format!("{} references to the request's extensions", n)),
    }
    if Arc::strong_count(body) != 1 {
        out.push("the body stream".into());
    }
    match crate::live_parts() - parts {
        0 => {}
        n => out.push(format!("{} context parts", n)),
    }
    out
}

pub fn run_case(fam: &Family, entries: &[Entry], case: &Case, execs: &mut u64) -> (Expected, Result<bool, Fail>) {
    let req = &case.req;
    let exp = model::expect(fam, req);
    let entry = &entries[req.main % entries.len()];
    let mut t = Tape::new(&case.sched);
    let way = match t.below(10) {
        0..=4 => Way::Direct,
        5..=6 => Way::Async,
        7..=8 => Way::Caught,
        _ => Way::Sync,
    };
    let polls = match t.below(4) {
        0 => 100_000,
        1 => 1,
        _ => t.below(14) as u32,
    };
    let drop_service = t.pct(50);
    let repeat = t.pct(12);
    *execs += 1;
    let r = catch_unwind(AssertUnwindSafe(|| abandon(entry, req, way, polls, drop_service)))
        .unwrap_or_else(|p| Err(format!("panicked: {}", exec::panic_text(p))));
    let r = match r {
        Ok(true) if repeat => {
            *execs += 40;
            growth(entry, req).map(|()| true)
        }
        r => r,
    };
    let f = r.map_err(|message| Fail {
        message,
        expected: serde_json::json!({"result": exp.result, "polls": polls, "way": format!("{:?}", way)}),
        observed: serde_json::Value::Null,
    });
    (exp, f)
}

/// `Ok(false)`: the request cannot be made.
fn abandon(entry: &Entry, req: &ReqCase, way: Way, polls: u32, drop_service: bool) -> Result<bool, String> {
    let parts = crate::live_parts();
    RT.with(|slot| {
        let mut slot = slot.borrow_mut();
        let rt = match slot.take() {
            Some(r) => r,
            // after a panic the old one is not used again
            None => tokio::runtime::current_thread::Runtime::new().map_err(|e| e.to_string())?,
        };
        let mut rt = Restore(&mut *slot, Some(rt));
        let rt = rt.1.as_mut().unwrap();
        let start = entry.hold;
        // started where a runtime is at hand, as a server does
        let held = rt.block_on(futures::future::lazy(|| Ok::<_, ()>(start(req, way)))).unwrap();
        let Held {
            fut,
            service: mut svc,
            probe,
            body,
            handled,
        } = match held {
            Ok(h) => h,
            Err(_) => return Ok(false),
        };
        if drop_service {
            svc = None;
        }
        let run = UpTo(Some(fut), polls);
        let out = match way {
            Way::Sync => match exec::on_pool(run) {
                Ok(r) => r.unwrap(),
                Err(p) => return Err(format!("panicked: {}", p)),
            },
            _ => rt.block_on(run).unwrap(),
        };
        let when = match &out {
            Some(Ok(_)) => "finished",
            Some(Err(_)) => "failed",
            None => "abandoned",
        };
        noted(when);
        match way {
            Way::Direct => {}
            Way::Async => noted("through-async-service"),
            Way::Caught => noted("through-catch-unwind"),
            Way::Sync => noted("through-sync-service"),
        }
        let count = handled.load(Ordering::SeqCst);
        if count % 100 > 1 {
            return Err(format!("the handler was called {} times", count % 100));
        }
        let events = probe.events.lock().unwrap().clone();
        if out.is_none() && polls > 1 && !events.is_empty() {
            noted("abandoned-midway");
        }
        drop(svc);
        // the outcome itself is still at hand
        let rest = remains(&probe, &body, parts);
        if !rest.is_empty() {
            return Err(format!("{} after the request {}", rest.join(", "), when));
        }
        drop(out);
        // whatever was left to an executor gets its chance
        match way {
            Way::Sync => std::thread::sleep(std::time::Duration::from_millis(2)),
            _ => rt.run().map_err(|e| format!("the runtime failed: {}", e))?,
        }
        let after = probe.events.lock().unwrap().clone();
        if after != events {
            return Err(format!("decoding went on after the request {}: {:?}", when, &after[events.len()..]));
        }
        if handled.load(Ordering::SeqCst) != count {
            return Err(format!("the handler went on after the request {}", when));
        }
        let rest = remains(&probe, &body, parts);
        if !rest.is_empty() {
            return Err(format!("{} in the end, after the request {}", rest.join(", "), when));
        }
        Ok(true)
    })
}

/// Puts the runtime back unless something went wrong.
struct Restore<'a>(
    &'a mut Option<tokio::runtime::current_thread::Runtime>,
    Option<tokio::runtime::current_thread::Runtime>,
);
impl<'a> Drop for Restore<'a> {
    fn drop(&mut self) {
        if !std::thread::panicking() {
            *self.0 = self.1.take();
        }
    }
}

/// The same request, again and again.
fn growth(entry: &Entry, req: &ReqCase) -> Result<(), String> {
    noted("repeated");
    for _ in 0..4 {
        (entry.decode)(req, Mode::Poll);
    }
    // a lazily grown cache may still settle; what every request leaves adds up
    const N: u32 = 12;
    let mut grown = Vec::new();
    for _ in 0..3 {
        let before = held_bytes();
        for _ in 0..N {
            (entry.decode)(req, Mode::Poll);
        }
        grown.push(held_bytes() - before);
    }
    if grown.iter().all(|g| *g > 0) {
        return Err(format!("repeating the same request {} times leaves {:?} bytes behind, again and again", N, grown));
    }
    Ok(())
}
