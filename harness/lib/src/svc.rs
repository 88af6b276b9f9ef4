//! Scripted decoders, handlers, inner services and panic handlers, and the
//! model of what services built from them must answer.

use crate::common::*;
use futures::{executor, future, stream, Async, Future, IntoFuture, Poll, Stream};
use hdv_core::spec::{BodyCase, ReqCase};
use hdv_core::tape::{self, Tape};
use hdv_rt::exec::{build, drive, make_body, on_pool_start, Counter};
use hdv_rt::{digest, Delay};
use http::{Request, Response};
use hyper::service::{MakeService, Service};
use hyper::Body;
use hyperdrive::body::Json;
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------ panics

#[derive(Debug)]
pub struct Custom {
    pub id: u32,
}

pub const KINDS: [&str; 6] = ["String", "str", "Custom", "u32", "Box", "private"];

pub struct Anon(u32);

/// Panics with a payload of the given kind that carries `id`.
pub fn blow(kind: usize, id: u32) -> ! {
    use std::panic::panic_any;
    match KINDS[kind] {
        "String" => panic!("p{}", id),
        "str" => {
            static S: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
            let s: &'static str = {
                let mut v = S.lock().unwrap_or_else(|e| e.into_inner());
                let want = format!("p{}", id);
                match v.iter().find(|x| **x == want) {
                    Some(x) => *x,
                    None => {
                        let x: &'static str = Box::leak(want.into_boxed_str());
                        v.push(x);
                        x
                    }
                }
            };
            panic_any(s)
        }
        "Custom" => panic_any(Custom { id }),
        "u32" => panic_any(id),
        "Box" => panic_any(Box::new(Custom { id }) as Box<dyn Any + Send>),
        _ => panic_any(Anon(id)),
    }
}

/// The kind and id of a payload, if it is one of ours.
pub fn identify(p: &(dyn Any + Send)) -> Option<(usize, u32)> {
    let num = |s: &str| s.strip_prefix('p').and_then(|n| n.parse().ok());
    if let Some(s) = p.downcast_ref::<String>() {
        return num(s).map(|i| (0, i));
    }
    if let Some(s) = p.downcast_ref::<&'static str>() {
        return num(s).map(|i| (1, i));
    }
    if let Some(c) = p.downcast_ref::<Custom>() {
        return Some((2, c.id));
    }
    if let Some(c) = p.downcast_ref::<u32>() {
        return Some((3, *c));
    }
    if let Some(b) = p.downcast_ref::<Box<dyn Any + Send>>() {
        return b.downcast_ref::<Custom>().map(|c| (4, c.id));
    }
    p.downcast_ref::<Anon>().map(|c| (5, c.0))
}

// ------------------------------------------------------------ plans

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Site {
    InnerCall,
    InnerPoll,
    DecodeCall,
    DecodePoll,
    BodyStream,
    GuardCall,
    GuardPoll,
    HandlerCall,
    HandlerPoll,
}

#[derive(Debug, Clone)]
pub struct RespPlan {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: BodyCase,
}
impl RespPlan {
    pub fn gen(t: &mut Tape) -> RespPlan {
        let status = match t.weighted(&[4, 3, 1]) {
            0 => 200,
            1 => 200 + t.below(400) as u16,
            _ => *t.pick(&[101u16, 204, 304, 405, 404, 599, 100]),
        };
        let n = t.below(5);
        let headers = (0..n)
            .map(|i| {
                let k = t.pick(&["content-type", "content-length", "allow", "set-cookie", "x-a", "transfer-encoding", "location", "etag"]);
                let v = format!("{}{}", t.pick(&["text/html", "", "7", "GET", "a=b; "]), i);
                (k.to_string(), v)
            })
            .collect();
        let data = if t.pct(70) { bytes(t, 60) } else { vec![] };
        let fail = t.pct(6);
        let body = hdv_core::reqs::chunk_up(t, &data, fail);
        RespPlan { status, headers, body }
    }
    pub fn make(&self) -> Response<Body> {
        let mut b = Response::builder();
        b.status(self.status);
        for (k, v) in &self.headers {
            b.header(k.as_str(), v.as_str());
        }
        b.body(make_body(&self.body)).expect("response")
    }
}

#[derive(Debug, Clone)]
pub enum Res {
    Ok(RespPlan),
    Err(ErrPlan),
    /// Only in panic handlers below another panic handler.
    Panic(usize),
}

#[derive(Debug, Clone)]
pub struct Plan {
    pub id: u32,
    pub dec_polls: u32,
    pub dec_err: Option<ErrPlan>,
    /// The decoder takes the body apart.
    pub reads: bool,
    pub hnd_polls: u32,
    pub hnd: Res,
    pub panic: Option<(Site, usize)>,
    /// What the panic handler of each layer does, and after how many polls.
    pub catch: Vec<(u32, Res)>,
    /// Readiness script of the inner service: not-ready polls, then an error?
    pub ready: (u32, Option<ErrPlan>),
}

pub struct Tag {
    pub plan: Plan,
    pub digest: String,
    pub decoded: AtomicUsize,
    pub handled: AtomicUsize,
    pub notes: Mutex<Vec<String>>,
    /// (layer, payload kind, payload id)
    pub caught: Mutex<Vec<(usize, usize, u32)>>,
}
impl Tag {
    fn note(&self, s: String) {
        self.notes.lock().unwrap_or_else(|e| e.into_inner()).push(s);
    }
    fn at(&self, s: Site) {
        if let Some((p, k)) = self.plan.panic {
            if p == s {
                blow(k, self.plan.id * 10);
            }
        }
    }
}

fn tag<B>(r: &Request<B>) -> Arc<Tag> {
    r.extensions().get::<Arc<Tag>>().expect("the request lost its extensions").clone()
}

// ------------------------------------------------------------ context

/// A context whose clones do not share their hit counter.
pub struct Cx {
    pub id: u32,
    pub hits: AtomicUsize,
}
impl Clone for Cx {
    fn clone(&self) -> Cx {
        Cx { id: self.id, hits: AtomicUsize::new(self.hits.load(SeqCst)) }
    }
}
impl AsRef<Cx> for Cx {
    fn as_ref(&self) -> &Cx {
        self
    }
}
impl AsRef<NoContext> for Cx {
    fn as_ref(&self) -> &NoContext {
        &NoContext
    }
}
impl RequestContext for Cx {}

// ------------------------------------------------------------ decoders

pub trait Shown {
    fn shown(&self) -> String;
    /// What a direct decoding of the request gives.
    fn direct(case: &ReqCase, plan: &Plan, cx: u32) -> Result<String, BoxedError>;
}

pub struct Dec(String);
impl FromRequest for Dec {
    type Context = Cx;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(request: &Arc<Request<()>>, body: Body, context: Cx) -> Self::Future {
        let t = tag(request);
        t.decoded.fetch_add(1, SeqCst);
        t.at(Site::DecodeCall);
        let hits = context.hits.fetch_add(1, SeqCst);
        let req = request.clone();
        let reads = t.plan.reads;
        Box::new(Delay(t.plan.dec_polls).and_then(move |()| -> DefaultFuture<Dec, BoxedError> {
            t.at(Site::DecodePoll);
            if let Some(e) = &t.plan.dec_err {
                return Box::new(future::err(e.make(t.plan.id)));
            }
            let id = context.id;
            let head = format!("{} {} cx{} hits{}", t.plan.id, req.uri(), id, hits);
            if reads {
                Box::new(body.concat2().map_err(BoxedError::from).map(move |c| Dec(format!("{} body{:?}", head, &c[..]))))
            } else {
                Box::new(future::ok(Dec(head)))
            }
        }))
    }
}
impl Shown for Dec {
    fn shown(&self) -> String {
        self.0.clone()
    }
    fn direct(case: &ReqCase, plan: &Plan, cx: u32) -> Result<String, BoxedError> {
        match &plan.dec_err {
            Some(e) => Err(e.make(plan.id)),
            None => {
                let head = format!("{} {} cx{} hits0", plan.id, case.uri().parse::<http::Uri>().unwrap(), cx);
                Ok(if plan.reads { format!("{} body{:?}", head, case.body.bytes()) } else { head })
            }
        }
    }
}

/// A decoder whose future is immediately done.
pub struct Now(String);
impl FromRequest for Now {
    type Context = Cx;
    type Future = future::FutureResult<Self, BoxedError>;
    fn from_request_and_body(request: &Arc<Request<()>>, _: Body, context: Cx) -> Self::Future {
        let t = tag(request);
        t.decoded.fetch_add(1, SeqCst);
        t.at(Site::DecodeCall);
        let hits = context.hits.fetch_add(1, SeqCst);
        match &t.plan.dec_err {
            Some(e) => future::err(e.make(t.plan.id)),
            None => future::ok(Now(format!("{} {} cx{} hits{}", t.plan.id, request.uri(), context.id, hits))),
        }
    }
}
impl Shown for Now {
    fn shown(&self) -> String {
        self.0.clone()
    }
    fn direct(case: &ReqCase, plan: &Plan, cx: u32) -> Result<String, BoxedError> {
        let mut p = plan.clone();
        p.reads = false;
        Dec::direct(case, &p, cx)
    }
}

/// A guard looking at the context.
pub struct Gua(String);
impl Guard for Gua {
    type Context = Cx;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(request: &Arc<Request<()>>, context: &Cx) -> Self::Result {
        let t = tag(request);
        t.at(Site::GuardCall);
        let hits = context.hits.fetch_add(1, SeqCst);
        let id = context.id;
        Box::new(Delay(t.plan.dec_polls).and_then(move |()| {
            t.at(Site::GuardPoll);
            match &t.plan.dec_err {
                Some(e) => Err(e.make(t.plan.id)),
                None => Ok(Gua(format!("cx{} hits{}", id, hits))),
            }
        }))
    }
}
pub struct Bytes(Vec<u8>);
impl FromBody for Bytes {
    type Context = NoContext;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(_: &Arc<Request<()>>, body: Body, _: &NoContext) -> Self::Result {
        Box::new(body.concat2().map_err(BoxedError::from).map(|c| Bytes(c.to_vec())))
    }
}

#[derive(FromRequest)]
#[context(Cx)]
pub enum Routes {
    #[get("/")]
    Home { guard: Gua },
    #[get("/r/{n}")]
    #[post("/r/{n}")]
    Num { n: u8, guard: Gua },
    #[post("/a")]
    #[put("/a")]
    Echo {
        guard: Gua,
        #[body]
        body: Bytes,
    },
    #[delete("/a/b")]
    #[post("/a/b")]
    Js {
        guard: Gua,
        #[body]
        body: Json<Value>,
    },
    #[get("/item/{x}")]
    #[patch("/item/{x}")]
    Item { x: String, guard: Gua },
}
impl Shown for Routes {
    fn shown(&self) -> String {
        match self {
            Routes::Home { guard } => format!("Home {}", guard.0),
            Routes::Num { n, guard } => format!("Num {} {}", n, guard.0),
            Routes::Echo { guard, body } => format!("Echo {} {:?}", guard.0, body.0),
            Routes::Js { guard, body } => format!("Js {} {}", guard.0, body.0),
            Routes::Item { x, guard } => format!("Item {} {}", x, guard.0),
        }
    }
    fn direct(case: &ReqCase, plan: &Plan, cx: u32) -> Result<String, BoxedError> {
        let mut p = plan.clone();
        p.panic = None;
        let (r, _) = request(case, p)?;
        match drive(Routes::from_request(r, Cx { id: cx, hits: AtomicUsize::new(0) }), 100_000) {
            Some(r) => r.map(|r| r.shown()),
            None => Err("stuck".into()),
        }
    }
}

/// A body stream that panics when its end is reached.
fn panicking(b: Body, t: Arc<Tag>) -> Body {
    let tail = stream::poll_fn(move || -> Poll<Option<hyper::Chunk>, BoxedError> {
        t.at(Site::BodyStream);
        Ok(Async::Ready(None))
    });
    Body::wrap_stream(b.map_err(BoxedError::from).chain(tail))
}

pub fn request(case: &ReqCase, plan: Plan) -> Result<(Request<Body>, Arc<Tag>), BoxedError> {
    let (mut r, _) = build(case)?;
    let stream_panics = matches!(plan.panic, Some((Site::BodyStream, _)));
    let tag = Arc::new(Tag {
        digest: digest(&r),
        plan,
        decoded: AtomicUsize::new(0),
        handled: AtomicUsize::new(0),
        notes: Mutex::new(vec![]),
        caught: Mutex::new(vec![]),
    });
    r.extensions_mut().insert(tag.clone());
    if stream_panics {
        let (p, b) = r.into_parts();
        r = Request::from_parts(p, panicking(b, tag.clone()));
    }
    Ok((r, tag))
}

// ------------------------------------------------------------ services

pub type Fut = Box<dyn Future<Item = Response<Body>, Error = BoxedError> + Send>;

/// A service with its type forgotten.
pub trait Svc {
    fn ready(&mut self) -> Poll<(), BoxedError>;
    fn call(&mut self, r: Request<Body>) -> Fut;
    fn dup(&self) -> Box<dyn Svc>;
    /// As a hyper server does for a new connection.
    fn connect(&mut self) -> Box<dyn Svc>;
}

struct Cloning<S>(S);
impl<S> Svc for Cloning<S>
where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Clone + 'static,
    S::Future: Send + 'static,
{
    fn ready(&mut self) -> Poll<(), BoxedError> {
        self.0.poll_ready()
    }
    fn call(&mut self, r: Request<Body>) -> Fut {
        Box::new(self.0.call(r))
    }
    fn dup(&self) -> Box<dyn Svc> {
        Box::new(Cloning(self.0.clone()))
    }
    fn connect(&mut self) -> Box<dyn Svc> {
        let mut m = self.0.clone().make_service_by_cloning();
        let first = drive(m.make_service(()), 100);
        let second = drive(m.make_service("peer"), 100);
        drop(first);
        match second.expect("make_service never finishes") {
            Ok(s) => Box::new(Cloning(s)),
            Err(_) => panic!("make_service failed"),
        }
    }
}

pub trait Adapter:
    Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = DefaultFuture<Response<Body>, BoxedError>>
    + MakeService<u8, ReqBody = Body, ResBody = Body, Error = BoxedError, Service = Self, MakeError = BoxedError>
    + Clone
    + Sync
    + 'static
{
}
impl<T> Adapter for T where
    T: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = DefaultFuture<Response<Body>, BoxedError>>
        + MakeService<u8, ReqBody = Body, ResBody = Body, Error = BoxedError, Service = T, MakeError = BoxedError>
        + Clone
        + Sync
        + 'static
{
}

struct Making<S>(S);
impl<S: Adapter> Svc for Making<S> {
    fn ready(&mut self) -> Poll<(), BoxedError> {
        Service::poll_ready(&mut self.0)
    }
    fn call(&mut self, r: Request<Body>) -> Fut {
        Box::new(self.0.call(r))
    }
    fn dup(&self) -> Box<dyn Svc> {
        Box::new(Making(self.0.clone()))
    }
    fn connect(&mut self) -> Box<dyn Svc> {
        // also through the general adapter, which must not make a difference
        let mut m = self.0.clone().make_service_by_cloning();
        let mut s = match drive(m.make_service(()), 100).expect("make_service never finishes") {
            Ok(s) => s,
            Err(_) => panic!("make_service failed"),
        };
        match drive(s.make_service(7u8), 100).expect("make_service never finishes") {
            Ok(s) => Box::new(Making(s)),
            Err(_) => panic!("make_service failed"),
        }
    }
}

/// What a handler records, shared by the sync and async ones.
fn enter(svc: u32, value: String, r: &Arc<Request<()>>) -> Arc<Tag> {
    let t = tag(&**r);
    t.handled.fetch_add(1, SeqCst);
    if digest(&**r) != t.digest {
        t.note(format!("the handler got the metadata {:?} instead of {:?}", digest(&**r), t.digest));
    }
    t.note(format!("svc{} {}", svc, value));
    t.at(Site::HandlerCall);
    t
}

fn async_service<R>(svc: u32, cx: u32) -> impl Adapter
where
    R: FromRequest<Context = Cx> + Shown + Send + 'static,
{
    AsyncService::with_context(
        move |v: R, r: Arc<Request<()>>| -> DefaultFuture<Response<Body>, BoxedError> {
            let t = enter(svc, v.shown(), &r);
            Box::new(Delay(t.plan.hnd_polls).and_then(move |()| {
                t.at(Site::HandlerPoll);
                match &t.plan.hnd {
                    Res::Ok(r) => Ok(r.make()),
                    Res::Err(e) => Err(e.make(t.plan.id)),
                    Res::Panic(_) => unreachable!(),
                }
            }))
        },
        Cx { id: cx, hits: AtomicUsize::new(0) },
    )
}

fn sync_service<R>(svc: u32, cx: u32) -> impl Adapter
where
    R: FromRequest<Context = Cx> + Shown + Send + 'static,
{
    SyncService::with_context(
        move |v: R, r: Arc<Request<()>>| {
            let t = enter(svc, v.shown(), &r);
            match &t.plan.hnd {
                Res::Ok(r) => r.make(),
                _ => unreachable!(),
            }
        },
        Cx { id: cx, hits: AtomicUsize::new(0) },
    )
}

/// The readiness the next scripted inner service reports.
pub static READY: Mutex<(u32, Option<(ErrPlan, u32)>)> = Mutex::new((0, None));

/// A scripted service without any of the adapters.
#[derive(Clone)]
struct Inner;
impl Service for Inner {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = DefaultFuture<Response<Body>, BoxedError>;
    fn poll_ready(&mut self) -> Poll<(), BoxedError> {
        let mut r = READY.lock().unwrap_or_else(|e| e.into_inner());
        if r.0 > 0 {
            r.0 -= 1;
            futures::task::current().notify();
            return Ok(Async::NotReady);
        }
        match &r.1 {
            None => Ok(Async::Ready(())),
            Some((e, id)) => Err(e.make(*id)),
        }
    }
    fn call(&mut self, r: Request<Body>) -> Self::Future {
        let t = tag(&r);
        t.decoded.fetch_add(1, SeqCst);
        if digest(&r) != t.digest {
            t.note(format!("the service got the metadata {:?} instead of {:?}", digest(&r), t.digest));
        }
        t.at(Site::InnerCall);
        Box::new(Delay(t.plan.hnd_polls).and_then(move |()| -> DefaultFuture<Response<Body>, BoxedError> {
            t.at(Site::InnerPoll);
            let end = move |t: &Tag| match &t.plan.hnd {
                Res::Ok(r) => Ok(r.make()),
                Res::Err(e) => Err(e.make(t.plan.id)),
                Res::Panic(_) => unreachable!(),
            };
            if !t.plan.reads {
                return Box::new(end(&t).into_future());
            }
            Box::new(r.into_body().concat2().map_err(BoxedError::from).and_then(move |c| {
                t.note(format!("body{:?}", &c[..]));
                end(&t)
            }))
        }))
    }
}

/// Requests of the running case by number, for panic handlers.
pub static REG: Mutex<Option<HashMap<u32, Arc<Tag>>>> = Mutex::new(None);

fn caught(layer: usize, p: Box<dyn Any + Send>) -> (Option<Arc<Tag>>, Result<Response<Body>, BoxedError>) {
    let unknown = || {
        let r = Response::builder().status(598).header("x-payload", "unknown").body(Body::empty()).unwrap();
        (None, Ok(r))
    };
    let (kind, id) = match identify(&*p) {
        None => return unknown(),
        Some(x) => x,
    };
    let t = match REG.lock().unwrap_or_else(|e| e.into_inner()).as_ref().and_then(|m| m.get(&(id / 10))) {
        None => return unknown(),
        Some(t) => t.clone(),
    };
    t.caught.lock().unwrap_or_else(|e| e.into_inner()).push((layer, kind, id));
    let r = match &t.plan.catch[layer].1 {
        Res::Ok(r) => Ok(r.make()),
        Res::Err(e) => Err(e.make(t.plan.id)),
        Res::Panic(k) => blow(*k, t.plan.id * 10 + layer as u32 + 1),
    };
    (Some(t), r)
}

pub trait Base:
    Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = DefaultFuture<Response<Body>, BoxedError>>
    + Clone
    + Sync
    + 'static
{
}
impl<S> Base for S where
    S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = DefaultFuture<Response<Body>, BoxedError>>
        + Clone
        + Sync
        + 'static
{
}

fn now<S: Base>(s: S, layer: usize) -> impl Base {
    s.catch_unwind(move |p| caught(layer, p).1)
}
fn later<S: Base>(s: S, layer: usize) -> impl Base {
    s.catch_unwind(move |p| -> DefaultFuture<Response<Body>, BoxedError> {
        let (t, r) = caught(layer, p);
        let n = t.map_or(0, |t| t.plan.catch[layer].0);
        Box::new(Delay(n).and_then(move |()| r))
    })
}
fn layered<S: Base>(s: S, layers: usize, delayed: bool) -> Box<dyn Svc> {
    match (layers, delayed) {
        (1, false) => Box::new(Cloning(now(s, 0))),
        (1, true) => Box::new(Cloning(later(s, 0))),
        (2, false) => Box::new(Cloning(later(now(s, 0), 1))),
        (2, true) => Box::new(Cloning(now(later(s, 0), 1))),
        (_, false) => Box::new(Cloning(now(later(now(s, 0), 1), 2))),
        (_, true) => Box::new(Cloning(later(now(later(s, 0), 1), 2))),
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum What {
    Dec,
    Now,
    Routes,
    Inner,
}
#[derive(Debug, Clone, Copy)]
pub struct Kind {
    pub what: What,
    pub sync: bool,
    pub layers: usize,
    pub delayed: bool,
}
impl Kind {
    pub fn name(&self) -> String {
        format!(
            "{}{:?}{}",
            if self.what == What::Inner { "" } else if self.sync { "sync " } else { "async " },
            self.what,
            " caught".repeat(self.layers)
        )
    }
    pub fn make(&self, svc: u32, cx: u32) -> Box<dyn Svc> {
        fn fin<S: Adapter>(s: S, k: &Kind) -> Box<dyn Svc> {
            if k.layers == 0 {
                Box::new(Making(s))
            } else {
                layered(s, k.layers, k.delayed)
            }
        }
        match (self.what, self.sync) {
            (What::Dec, false) => fin(async_service::<Dec>(svc, cx), self),
            (What::Now, false) => fin(async_service::<Now>(svc, cx), self),
            (What::Routes, false) => fin(async_service::<Routes>(svc, cx), self),
            (What::Dec, true) => fin(sync_service::<Dec>(svc, cx), self),
            (What::Now, true) => fin(sync_service::<Now>(svc, cx), self),
            (What::Routes, true) => fin(sync_service::<Routes>(svc, cx), self),
            (What::Inner, _) => layered(Inner, self.layers, self.delayed),
        }
    }
}

// ------------------------------------------------------------ the model

pub enum Outcome {
    Handler(RespPlan),
    Described(u16, Option<String>),
    /// This very error.
    Error(ErrPlan),
    /// An error as a direct decoding gives it.
    Like(BoxedError),
    Panic(usize, u32),
}

pub struct Model {
    pub decoded: usize,
    pub handled: usize,
    pub notes: Vec<String>,
    pub caught: Vec<(usize, usize, u32)>,
    pub outcome: Outcome,
    pub head: bool,
}

/// What a service of this kind does with the request.
pub fn model(k: &Kind, svc: u32, cx: u32, case: &ReqCase, plan: &Plan) -> Model {
    let mut m = Model {
        decoded: if k.what == What::Routes { 0 } else { 1 },
        handled: 0,
        notes: vec![],
        caught: vec![],
        outcome: Outcome::Described(0, None),
        head: case.method == "HEAD",
    };
    let site = |s: Site| matches!(plan.panic, Some((p, _)) if p == s);
    let boom = Outcome::Panic(plan.panic.map_or(0, |p| p.1), plan.id * 10);
    let outcome = match k.what {
        What::Inner => {
            if site(Site::InnerCall) || site(Site::InnerPoll) || (plan.reads && site(Site::BodyStream)) {
                boom
            } else {
                if plan.reads {
                    m.notes.push(format!("body{:?}", case.body.bytes()));
                }
                match &plan.hnd {
                    Res::Ok(r) => Outcome::Handler(r.clone()),
                    Res::Err(e) => Outcome::Error(e.clone()),
                    Res::Panic(_) => unreachable!(),
                }
            }
        }
        _ => {
            let (panics, value) = match k.what {
                What::Dec => (
                    site(Site::DecodeCall)
                        || site(Site::DecodePoll)
                        || (site(Site::BodyStream) && plan.reads && plan.dec_err.is_none()),
                    Dec::direct(case, plan, cx),
                ),
                What::Now => (site(Site::DecodeCall), Now::direct(case, plan, cx)),
                _ => {
                    let mut probe = plan.clone();
                    probe.dec_err = Some(ErrPlan::Foreign { wraps: false });
                    let guarded = Routes::direct(case, &probe, cx)
                        .err()
                        .map_or(false, |e| e.downcast_ref::<Mark>().is_some());
                    let body = matches!(
                        (case.eff_path(), case.method.as_str()),
                        ("/a", "POST") | ("/a", "PUT") | ("/a/b", "DELETE") | ("/a/b", "POST")
                    );
                    (
                        guarded && (site(Site::GuardCall) || site(Site::GuardPoll))
                            || body && plan.dec_err.is_none() && site(Site::BodyStream),
                        Routes::direct(case, plan, cx),
                    )
                }
            };
            let own = |e: BoxedError| match e.downcast_ref::<hyperdrive::Error>() {
                Some(o) => Outcome::Described(
                    o.http_status().as_u16(),
                    o.allowed_methods().map(|m| m.iter().map(|m| m.as_str()).collect::<Vec<_>>().join(",")),
                ),
                None => Outcome::Like(e),
            };
            if panics {
                boom
            } else {
                match value {
                    Err(e) => own(e),
                    Ok(v) => {
                        m.handled = 1;
                        m.notes.push(format!("svc{} {}", svc, v));
                        if site(Site::HandlerCall) || (site(Site::HandlerPoll) && !k.sync) {
                            boom
                        } else {
                            match &plan.hnd {
                                Res::Ok(r) => Outcome::Handler(r.clone()),
                                Res::Err(e) => match e.response() {
                                    Some((s, a)) => Outcome::Described(s, a),
                                    None => Outcome::Error(e.clone()),
                                },
                                Res::Panic(_) => unreachable!(),
                            }
                        }
                    }
                }
            }
        }
    };
    // a HEAD response only loses its body inside of the adapters
    let by_adapter = k.what != What::Inner;
    m.head &= by_adapter;
    m.outcome = outcome;
    for layer in 0..k.layers {
        if let Outcome::Panic(kind, id) = m.outcome {
            m.caught.push((layer, kind, id));
            m.head = false;
            m.outcome = match &plan.catch[layer].1 {
                Res::Ok(r) => Outcome::Handler(r.clone()),
                Res::Err(e) => Outcome::Error(e.clone()),
                Res::Panic(k) => Outcome::Panic(*k, plan.id * 10 + layer as u32 + 1),
            };
        }
    }
    m
}

fn header_list(h: &http::HeaderMap) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::new();
    let mut names: Vec<String> = h.keys().map(|k| k.to_string()).collect();
    names.sort();
    for n in names {
        for x in h.get_all(&n[..]) {
            v.push((n.clone(), String::from_utf8_lossy(x.as_bytes()).to_string()));
        }
    }
    v
}

pub fn verify(m: &Model, plan: &Plan, tag: &Tag, got: Result<Response<Body>, BoxedError>) -> Result<(), Bad> {
    let id = plan.id;
    same(&format!("request {}: calls of the decoder", id), &m.decoded, &tag.decoded.load(SeqCst))?;
    same(&format!("request {}: calls of the handler", id), &m.handled, &tag.handled.load(SeqCst))?;
    same(&format!("request {}: what the handler was given", id), &m.notes, &*tag.notes.lock().unwrap_or_else(|e| e.into_inner()))?;
    same(
        &format!("request {}: calls of the panic handlers (layer, payload kind, payload id)", id),
        &m.caught,
        &*tag.caught.lock().unwrap_or_else(|e| e.into_inner()),
    )?;
    let show = |r: &Result<Response<Body>, BoxedError>| match r {
        Ok(r) => format!("response {} {:?}", r.status(), r.headers()),
        Err(e) => format!("error {:?}", e),
    };
    let text = show(&got);
    match (&m.outcome, got) {
        (Outcome::Handler(p), Ok(r)) => {
            same(&format!("request {}: status", id), &p.status, &r.status().as_u16())?;
            let exp = header_list(p.make().headers());
            same(&format!("request {}: headers", id), &exp, &header_list(r.headers()))?;
            let body = match drive(r.into_body().concat2(), 100_000) {
                None => return differ(&format!("request {}: body never ends", id), "", ""),
                Some(b) => b.map(|c| c.to_vec()).map_err(|_| "stream error".to_string()),
            };
            let want = if m.head {
                Ok(vec![])
            } else if p.body.fail {
                Err("stream error".to_string())
            } else {
                Ok(p.body.bytes())
            };
            same(&format!("request {}: body", id), &want, &body)
        }
        (Outcome::Described(status, allow), Ok(r)) => {
            same(&format!("request {}: status", id), status, &r.status().as_u16())?;
            let mut exp = vec![];
            if let Some(a) = allow {
                exp.push(("allow".to_string(), a.clone()));
            }
            let got: Vec<(String, String)> =
                header_list(r.headers()).into_iter().map(|(k, v)| if k == "allow" { (k, norm_allow(&v)) } else { (k, v) }).collect();
            same(&format!("request {}: headers", id), &exp, &got)?;
            match drive(r.into_body().concat2(), 100_000) {
                Some(Ok(c)) => same(&format!("request {}: body", id), &Vec::<u8>::new(), &c.to_vec()),
                _ => differ(&format!("request {}: body", id), "empty", "broken"),
            }
        }
        (Outcome::Error(p), Err(e)) => match is_that_error(p, id, &e) {
            Ok(()) => Ok(()),
            Err(s) => differ(&format!("request {}: error: {}", id, s), p.text(), text),
        },
        (Outcome::Like(a), Err(e)) => {
            let (x, y) = (hdv_rt::exec::err_obs(a), hdv_rt::exec::err_obs(&e));
            if serde_json::to_value(&x).unwrap() == serde_json::to_value(&y).unwrap() {
                Ok(())
            } else {
                differ(&format!("request {}: error", id), x, y)
            }
        }
        (Outcome::Handler(p), _) => differ(&format!("request {}: outcome", id), format!("response {} {:?}", p.status, p.headers), text),
        (Outcome::Described(s, a), _) => differ(&format!("request {}: outcome", id), format!("response {} with Allow {:?}", s, a), text),
        (Outcome::Error(p), _) => differ(&format!("request {}: outcome", id), format!("error {:?}", p), text),
        (Outcome::Like(e), _) => differ(&format!("request {}: outcome", id), format!("error {:?}", e), text),
        (Outcome::Panic(..), _) => Err(Bad::new("the case is not meant to panic")),
    }
}

// ------------------------------------------------------------ histories

pub struct Req {
    pub case: ReqCase,
    pub plan: Plan,
}

enum State {
    Polled(executor::Spawn<Fut>, Arc<Counter>),
    Pool(std::sync::mpsc::Receiver<Result<Result<Response<Body>, BoxedError>, String>>),
    Done(Result<Response<Body>, BoxedError>),
    Gone,
}

struct Flight {
    case: ReqCase,
    plan: Plan,
    tag: Arc<Tag>,
    base: usize,
    state: State,
}

/// Polls once; `Err` if it can never finish.
fn step(f: &mut Flight) -> Result<(), Bad> {
    if let State::Polled(s, n) = &mut f.state {
        let before = n.0.load(SeqCst);
        match s.poll_future_notify(n, 0) {
            Ok(Async::Ready(r)) => f.state = State::Done(Ok(r)),
            Err(e) => f.state = State::Done(Err(e)),
            Ok(Async::NotReady) => {
                if n.0.load(SeqCst) == before {
                    return Err(Bad::new(format!("request {} is never answered", f.plan.id)));
                }
            }
        }
    }
    Ok(())
}

/// Runs a history over clones of several services.
pub fn history(
    t: &mut Tape,
    o: &mut Obsd,
    kinds: &[Kind],
    gen: &dyn Fn(&mut Tape, u32, &Kind) -> Req,
) -> Result<(), Bad> {
    *REG.lock().unwrap_or_else(|e| e.into_inner()) = Some(HashMap::new());
    let mut log: Vec<Value> = Vec::new();
    for (i, k) in kinds.iter().enumerate() {
        o.label(format!("service: {}", k.name()));
        log.push(json!(format!("service {} = {}", i, k.name())));
    }
    let r = if t.pct(2) {
        o.label("long history");
        let n = 1 + t.below(600);
        let data = tape::expand(t.raw(), 40_000);
        history_(&mut Tape::new(&data), o, kinds, gen, n, &mut log)
    } else {
        let n = 1 + t.below(14);
        history_(t, o, kinds, gen, n, &mut log)
    };
    o.describe = json!(log);
    r
}

fn history_(
    t: &mut Tape,
    o: &mut Obsd,
    kinds: &[Kind],
    gen: &dyn Fn(&mut Tape, u32, &Kind) -> Req,
    n: usize,
    log: &mut Vec<Value>,
) -> Result<(), Bad> {
    let mut handles: Vec<(usize, Box<dyn Svc>)> = Vec::new();
    for (i, k) in kinds.iter().enumerate() {
        handles.push((i, k.make(i as u32, 100 + i as u32)));
    }
    let mut flights: Vec<Flight> = Vec::new();
    let mut id = 0;
    for _ in 0..n {
        let h = t.below(handles.len());
        match t.weighted(&[10, 3, 3, 2, 6, 1]) {
            0 => {
                id += 1;
                let (b, _) = handles[h];
                let k = &kinds[b];
                let r = gen(t, id, k);
                let (req, tag) = match request(&r.case, r.plan.clone()) {
                    Ok(x) => x,
                    Err(_) => continue,
                };
                REG.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap().insert(id, tag.clone());
                log.push(json!(format!(
                    "request {} to service {} (handle {}): {} {} body {} bytes in {} chunks, plan {:?}",
                    id, b, h, r.case.method, r.case.uri(), r.case.body.bytes().len(), r.case.body.chunks.len(), r.plan
                )));
                let svc = &mut handles[h].1;
                // readiness first, as hyper does
                let script = if k.what == What::Inner { r.plan.ready.clone() } else { (0, None) };
                *READY.lock().unwrap_or_else(|e| e.into_inner()) = (script.0, script.1.clone().map(|e| (e, id)));
                let mut not_ready = 0;
                let res = loop {
                    let c = Arc::new(Counter::default());
                    match executor::spawn(future::poll_fn(|| svc.ready())).poll_future_notify(&c, 0) {
                        Ok(Async::NotReady) if c.0.load(SeqCst) == 0 => {
                            return Err(Bad::new("poll_ready() is not ready and never notifies"))
                        }
                        Ok(Async::NotReady) => not_ready += 1,
                        r => break r.map(|_| ()),
                    }
                };
                same(&format!("request {}: not-ready answers of poll_ready", id), &script.0, &not_ready)?;
                match (&script.1, res) {
                    (None, Ok(_)) => {}
                    (Some(e), Err(got)) => {
                        if let Err(m) = is_that_error(e, id, &got) {
                            return differ(&format!("poll_ready: {}", m), e.text(), got.to_string());
                        }
                        o.label("service not ready");
                        continue;
                    }
                    (e, r) => {
                        return differ("poll_ready", format!("{:?}", e), format!("{:?}", r.map_err(|e| e.to_string())))
                    }
                }
                *READY.lock().unwrap_or_else(|e| e.into_inner()) = (0, None);
                o.evals += 1;
                let fut = svc.call(req);
                // sync services need the thread pool, others run anywhere
                let pool = k.sync || t.pct(20);
                let state = if pool {
                    State::Pool(on_pool_start(fut))
                } else {
                    State::Polled(executor::spawn(fut), Arc::new(Counter::default()))
                };
                flights.push(Flight { case: r.case, plan: r.plan, tag, base: b, state });
            }
            1 => {
                log.push(json!(format!("clone handle {}", h)));
                let c = (handles[h].0, handles[h].1.dup());
                handles.push(c);
                o.label("clone");
            }
            2 => {
                log.push(json!(format!("connection from handle {}", h)));
                let b = handles[h].0;
                let c = handles[h].1.connect();
                handles.push((b, c));
                o.label("make_service");
            }
            3 => {
                // keep one handle per service
                if handles.iter().filter(|x| x.0 == handles[h].0).count() > 1 {
                    log.push(json!(format!("drop handle {}", h)));
                    handles.remove(h);
                }
            }
            4 => {
                if !flights.is_empty() {
                    let i = t.below(flights.len());
                    step(&mut flights[i])?;
                }
            }
            _ => {
                let i = if flights.is_empty() { continue } else { t.below(flights.len()) };
                if let State::Polled(..) = flights[i].state {
                    log.push(json!(format!("drop the future of request {}", flights[i].plan.id)));
                    flights[i].state = State::Gone;
                    o.label("request dropped");
                }
            }
        }
    }
    if t.pct(20) {
        // answers must not depend on the services staying alive
        handles.clear();
    }
    // finish what is in flight, in turns
    let mut rounds = 0;
    loop {
        let open: Vec<usize> =
            (0..flights.len()).filter(|i| matches!(flights[*i].state, State::Polled(..))).collect();
        if open.is_empty() || rounds > 100_000 {
            break;
        }
        let i = open[if rounds < 30 { t.below(open.len()) } else { rounds % open.len() }];
        step(&mut flights[i])?;
        rounds += 1;
    }
    o.nontrivial = flights.len() > 1;
    o.label(match flights.len() {
        0 => "no requests",
        1 => "one request",
        2..=4 => "2-4 requests",
        5..=20 => "5-20 requests",
        _ => "more than 20 requests",
    });
    for f in flights {
        let m = model(&kinds[f.base], f.base as u32, 100 + f.base as u32, &f.case, &f.plan);
        let got = match f.state {
            State::Done(r) => r,
            State::Gone => {
                let n = f.tag.handled.load(SeqCst);
                if n > m.handled {
                    return differ("a dropped request", format!("at most {} calls of the handler", m.handled), n);
                }
                continue;
            }
            State::Pool(rx) => match rx.recv() {
                Ok(Ok(r)) => r,
                Ok(Err(p)) => return differ(&format!("request {}", f.plan.id), "an answer", format!("panicked: {}", p)),
                Err(_) => return Err(Bad::new(format!("request {} was lost by the pool", f.plan.id))),
            },
            State::Polled(..) => return Err(Bad::new(format!("request {} is never answered", f.plan.id))),
        };
        o.label(format!(
            "outcome: {}",
            match &m.outcome {
                Outcome::Handler(_) if !m.caught.is_empty() => "panic handler's response",
                Outcome::Handler(_) if m.head => "response to HEAD",
                Outcome::Handler(_) => "handler's response",
                Outcome::Described(..) => "own error as response",
                Outcome::Error(_) if !m.caught.is_empty() => "panic handler's error",
                _ => "foreign error",
            }
        ));
        if !m.caught.is_empty() {
            let (s, k) = f.plan.panic.unwrap();
            o.label(format!("panic at {:?}", s));
            o.label(format!("payload {}", KINDS[k]));
            if m.caught.len() > 1 {
                o.label("panic in a panic handler");
            }
        }
        verify(&m, &f.plan, &f.tag, got)?;
    }
    Ok(())
}
