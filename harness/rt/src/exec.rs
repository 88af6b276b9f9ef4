//! Building requests and running decoders in different ways.

use crate::{Ctx, Delay, Probe, Show, TestErr};
use futures::executor::{self, Notify};
use futures::{Async, Future, Poll, Stream};
use hdv_core::model::{ErrObs, Obs};
use hdv_core::spec::{BodyCase, ReqCase, V};
use hyper::service::Service;
use hyper::Body;
use hyperdrive::service::{AsyncService, SyncService};
use hyperdrive::{BoxedError, FromRequest};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

pub struct ChunkStream {
    chunks: std::collections::VecDeque<(u8, Vec<u8>)>,
    wait: Option<Delay>,
    fail: bool,
    end_pend: u8,
    ended: bool,
    _token: Option<Arc<()>>,
}

impl ChunkStream {
    pub fn new(b: &BodyCase) -> Self {
        ChunkStream {
            _token: None,
            chunks: b.chunks.iter().cloned().collect(),
            wait: None,
            fail: b.fail,
            end_pend: b.end_pend,
            ended: false,
        }
    }

    /// A stream whose end of life can be told from the token.
    pub fn watched(b: &BodyCase, token: Arc<()>) -> Self {
        ChunkStream {
            _token: Some(token),
            ..ChunkStream::new(b)
        }
    }
}

impl Stream for ChunkStream {
    type Item = Vec<u8>;
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<Option<Vec<u8>>, BoxedError> {
        loop {
            if let Some(w) = &mut self.wait {
                futures::try_ready!(w.poll());
                self.wait = None;
                if let Some((_, c)) = self.chunks.pop_front() {
                    return Ok(Async::Ready(Some(c)));
                }
                if self.fail && !self.ended {
                    self.ended = true;
                    return Err(Box::new(TestErr("stream failed".into())));
                }
                self.ended = true;
                return Ok(Async::Ready(None));
            }
            if self.ended {
                return Ok(Async::Ready(None));
            }
            let n = self.chunks.front().map(|c| c.0).unwrap_or(self.end_pend);
            self.wait = Some(Delay(n as u32));
        }
    }
}

pub fn make_body(b: &BodyCase) -> Body {
    if b.chunks.is_empty() && !b.fail && b.end_pend == 0 {
        return Body::empty();
    }
    if b.chunks.len() == 1 && !b.fail && b.end_pend == 0 && b.chunks[0].0 == 0 {
        return Body::from(b.chunks[0].1.clone());
    }
    Body::wrap_stream(ChunkStream::new(b))
}

pub fn build(case: &ReqCase) -> Result<(http::Request<Body>, Arc<Probe>), String> {
    build_with(case, make_body(&case.body))
}

pub fn build_with(case: &ReqCase, body: Body) -> Result<(http::Request<Body>, Arc<Probe>), String> {
    let mut b = http::Request::builder();
    b.method(case.method.as_str()).uri(case.uri());
    b.version(match case.version {
        0 => http::Version::HTTP_11,
        1 => http::Version::HTTP_10,
        _ => http::Version::HTTP_2,
    });
    for (k, v) in &case.headers {
        // header values need not be text
        let v = http::header::HeaderValue::from_bytes(v.as_bytes()).map_err(|e| e.to_string())?;
        b.header(k.as_str(), v);
    }
    let mut r = b.body(body).map_err(|e| e.to_string())?;
    let p = Arc::new(Probe {
        digest: crate::digest(&r),
        events: Mutex::new(vec![]),
        runtime: Default::default(),
    });
    r.extensions_mut().insert(p.clone());
    Ok((r, p))
}

/// Which type of error a source is, as a caller finds out by downcasting.
fn source_tag(e: &(dyn std::error::Error + 'static)) -> &'static str {
    macro_rules! tags {
        ($($t:ty => $n:literal;)*) => { $( if e.is::<$t>() { return $n; } )* };
    }
    tags! {
        crate::TestErr => "script";
        serde::de::value::Error => "urlencoded";
        std::num::ParseIntError => "int";
        std::num::ParseFloatError => "float";
        std::str::ParseBoolError => "bool";
        std::char::ParseCharError => "char";
        std::net::AddrParseError => "addr";
        hdv_core::types::PErr => "custom";
    }
    "other"
}

pub fn err_obs(e: &BoxedError) -> ErrObs {
    match e.downcast_ref::<hyperdrive::Error>() {
        None => ErrObs {
            own: false,
            status: 0,
            allowed: None,
            allow_header: None,
            resp_status: 0,
            source: None,
            source_ty: String::new(),
            display: e.to_string(),
        },
        Some(h) => {
            let r = h.response();
            ErrObs {
                own: true,
                status: h.http_status().as_u16(),
                allowed: h
                    .allowed_methods()
                    .map(|ms| ms.iter().map(|m| m.to_string()).collect()),
                allow_header: r
                    .headers()
                    .get(http::header::ALLOW)
                    .map(|v| v.to_str().unwrap_or("?").to_string()),
                resp_status: r.status().as_u16(),
                source: h.source().map(|s| s.to_string()),
                source_ty: h.source().map_or("", source_tag).to_string(),
                display: h.to_string(),
            }
        }
    }
}

#[derive(Default)]
pub struct Counter(pub AtomicUsize);
impl Notify for Counter {
    fn notify(&self, _: usize) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

/// Polls to completion; `None` when the future can never finish.
pub fn drive<F: Future>(f: F, max: usize) -> Option<Result<F::Item, F::Error>> {
    let n = Arc::new(Counter::default());
    let mut s = executor::spawn(f);
    for _ in 0..max {
        let before = n.0.load(Ordering::SeqCst);
        match s.poll_future_notify(&n, 0) {
            Ok(Async::Ready(v)) => return Some(Ok(v)),
            Err(e) => return Some(Err(e)),
            Ok(Async::NotReady) => {
                if n.0.load(Ordering::SeqCst) == before {
                    return None;
                }
            }
        }
    }
    None
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// `from_request`, polled by hand
    Poll,
    /// `from_request_sync`
    Sync,
    /// `from_request_and_body`
    Parts,
    /// `AsyncService`
    Async,
    /// `SyncService` on a thread pool
    Blocking,
    /// `from_request` on a fresh thread
    Thread,
    /// `from_request` on a multi-threaded runtime
    Pool,
}
pub const MODES: [Mode; 7] = [
    Mode::Poll,
    Mode::Sync,
    Mode::Parts,
    Mode::Async,
    Mode::Blocking,
    Mode::Thread,
    Mode::Pool,
];

pub fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| {
        tokio::runtime::Builder::new()
            .core_threads(2)
            .blocking_threads(4)
            .build()
            .expect("runtime")
    })
}

/// Starts a future on the shared thread pool.
pub fn on_pool_start<F>(f: F) -> std::sync::mpsc::Receiver<Result<Result<F::Item, F::Error>, String>>
where
    F: Future + Send + 'static,
    F::Item: Send,
    F::Error: Send,
{
    let (tx, rx) = std::sync::mpsc::channel();
    let fut = AssertUnwindSafe(f).catch_unwind().then(move |r| {
        let _ = tx.send(r.map_err(panic_text));
        Ok::<(), ()>(())
    });
    runtime().executor().spawn(fut);
    rx
}

/// Runs a future on the shared thread pool and waits for it.
pub fn on_pool<F>(f: F) -> Result<Result<F::Item, F::Error>, String>
where
    F: Future + Send + 'static,
    F::Item: Send,
    F::Error: Send,
{
    match on_pool_start(f).recv() {
        Ok(r) => r,
        Err(_) => Err("task lost".into()),
    }
}

pub type InFlightFuture = Box<dyn Future<Item = V, Error = BoxedError> + Send>;

pub struct Entry {
    pub decode: fn(&ReqCase, Mode) -> Obs,
    pub start: fn(&ReqCase) -> Result<(InFlightFuture, Arc<Probe>), String>,
    /// Starts a request whose remains are watched.
    pub hold: fn(&ReqCase, crate::leave::Way) -> Result<crate::leave::Held, String>,
    /// Starts a real server.
    pub serve: fn(usize) -> Result<std::net::SocketAddr, String>,
}

pub fn entry<R>() -> Entry
where
    R: FromRequest + Show + Send + 'static,
    R::Context: Ctx,
    R::Future: Send + 'static,
{
    Entry {
        decode: decode::<R>,
        start: start::<R>,
        hold: crate::leave::hold::<R>,
        serve: crate::wire::serve::<R>,
    }
}

fn start<R>(case: &ReqCase) -> Result<(InFlightFuture, Arc<Probe>), String>
where
    R: FromRequest + Show + Send + 'static,
    R::Context: Ctx,
    R::Future: Send + 'static,
{
    let (req, probe) = build(case)?;
    let ctx = R::Context::mk(&case.ctx);
    Ok((Box::new(R::from_request(req, ctx).map(|r| r.show())), probe))
}

fn decode<R>(case: &ReqCase, mode: Mode) -> Obs
where
    R: FromRequest + Show + Send + 'static,
    R::Context: Ctx,
    R::Future: Send + 'static,
{
    let (req, probe) = match build(case) {
        Ok(x) => x,
        Err(e) => return Obs::BadRequest(e),
    };
    probe.runtime.store(matches!(mode, Mode::Sync | Mode::Blocking | Mode::Pool), Ordering::SeqCst);
    let ctx = R::Context::mk(&case.ctx);
    let max = 100_000;
    let res = catch_unwind(AssertUnwindSafe(|| -> Option<Result<V, ErrObs>> {
        match mode {
            Mode::Poll => drive(R::from_request(req, ctx).map(|r| r.show()), max)
                .map(|r| r.map_err(|e| err_obs(&e))),
            Mode::Sync => Some(
                R::from_request_sync(req, ctx)
                    .map(|r| r.show())
                    .map_err(|e| err_obs(&e)),
            ),
            Mode::Parts => {
                let (parts, body) = req.into_parts();
                let req = Arc::new(http::Request::from_parts(parts, ()));
                drive(
                    R::from_request_and_body(&req, body, ctx).map(|r| r.show()),
                    max,
                )
                .map(|r| r.map_err(|e| err_obs(&e)))
            }
            Mode::Async => {
                let mut svc = AsyncService::with_context(
                    |r: R, _| {
                        let mut resp = http::Response::new(Body::from("x"));
                        resp.extensions_mut().insert(r.show());
                        futures::future::ok::<_, BoxedError>(resp)
                    },
                    ctx,
                );
                drive(svc.call(req), max).map(service_obs)
            }
            Mode::Blocking => {
                let mut svc = SyncService::with_context(
                    |r: R, _| {
                        let mut resp = http::Response::new(Body::from("x"));
                        resp.extensions_mut().insert(r.show());
                        resp
                    },
                    ctx,
                );
                match on_pool(futures::future::lazy(move || svc.call(req))) {
                    Ok(r) => Some(service_obs(r)),
                    Err(p) => std::panic::resume_unwind(Box::new(p)),
                }
            }
            Mode::Thread => {
                let h = std::thread::spawn(move || {
                    drive(R::from_request(req, ctx).map(|r| r.show()), max)
                        .map(|r| r.map_err(|e| err_obs(&e)))
                });
                match h.join() {
                    Ok(r) => r,
                    Err(p) => std::panic::resume_unwind(p),
                }
            }
            Mode::Pool => match on_pool(futures::future::lazy(move || {
                R::from_request(req, ctx).map(|r| r.show())
            })) {
                Ok(r) => Some(r.map_err(|e| err_obs(&e))),
                Err(p) => std::panic::resume_unwind(Box::new(p)),
            },
        }
    }));
    let events = probe.events.lock().unwrap().clone();
    match res {
        Err(p) => Obs::Panic(panic_text(p)),
        Ok(None) => Obs::Stuck,
        Ok(Some(result)) => Obs::Done { result, events },
    }
}

/// A service turns the crate's own errors into responses; map them back to
/// what can be observed of them.
fn service_obs(r: Result<http::Response<Body>, BoxedError>) -> Result<V, ErrObs> {
    match r {
        Ok(resp) => match resp.extensions().get::<V>() {
            Some(v) => Ok(v.clone()),
            None => Err(ErrObs {
                own: true,
                status: resp.status().as_u16(),
                allowed: resp.headers().get(http::header::ALLOW).map(|v| {
                    v.to_str()
                        .unwrap_or("?")
                        .split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect()
                }),
                allow_header: resp
                    .headers()
                    .get(http::header::ALLOW)
                    .map(|v| v.to_str().unwrap_or("?").to_string()),
                resp_status: resp.status().as_u16(),
                source: None,
                source_ty: String::new(),
                display: String::new(),
            }),
        },
        Err(e) => Err(err_obs(&e)),
    }
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
