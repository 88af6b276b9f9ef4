//! Runtime support linked into generated shards: observable guards, bodies,
//! contexts and forward targets, request construction, execution modes, and
//! the property loop.

pub mod exec;
pub mod leave;
pub mod shard;
pub mod wire;

pub use hdv_core::spec::V;
pub use hdv_core::types::{Never, Odd, Page, Req, Upper};
pub use serde_json::Value;
pub use shard::shard_main;
pub use exec::{entry, Entry};

use futures::{Async, Future, Poll, Stream};
use hdv_core::form;
use hdv_core::model::{script, show_bytes, show_json};
use hyperdrive::{body, BoxedError, DefaultFuture, FromBody, FromRequest, Guard, NoContext, RequestContext};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- values

pub trait Show {
    fn show(&self) -> V;
}
macro_rules! show_leaf {
    ($($t:ty => $f:expr;)*) => { $( impl Show for $t { fn show(&self) -> V { let f: fn(&$t) -> String = $f; V::Leaf(f(self)) } } )* };
}
show_leaf! {
    String => |s| s.clone();
    u8 => |v| v.to_string();
    u32 => |v| v.to_string();
    i16 => |v| v.to_string();
    bool => |v| v.to_string();
    char => |v| v.to_string();
    Odd => |v| v.0.clone();
    Upper => |v| v.0.clone();
    Never => |v| v.0.clone();
    u64 => |v| v.to_string();
    f64 => |v| format!("{:?}", v);
    std::net::IpAddr => |v| v.to_string();
    std::num::NonZeroU8 => |v| v.to_string();
    () => |_| "()".to_string();
    Page => |p| form::show_page(p.start, p.count);
    Req => |p| form::show_req(p.a, &p.b);
    Vec<(String, String)> => |v| form::show_pairs(v.iter().map(|(a, b)| (a, b)));
    BTreeMap<String, String> => |v| form::show_pairs(v.iter());
    Value => |v| show_json(v);
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> V {
        match self {
            None => V::Leaf("None".into()),
            Some(x) => match x.show() {
                V::Leaf(s) => V::Leaf(format!("Some({})", s)),
                v => v,
            },
        }
    }
}
// read through `Deref`, as users do
impl<T: Show + serde::de::DeserializeOwned + Send + 'static> Show for body::Json<T> {
    fn show(&self) -> V {
        (**self).show()
    }
}
impl<T: Show + serde::de::DeserializeOwned + Send + 'static> Show for body::HtmlForm<T> {
    fn show(&self) -> V {
        (**self).show()
    }
}

// ---------------------------------------------------------------- probe

#[derive(Debug)]
pub struct Probe {
    pub digest: String,
    pub events: Mutex<Vec<String>>,
    /// Whether the caller promises a tokio runtime.
    pub runtime: AtomicBool,
}

pub fn digest<B>(r: &http::Request<B>) -> String {
    let hs: Vec<String> = r
        .headers()
        .iter()
        .map(|(k, v)| format!("{}={:?}", k, v))
        .collect();
    format!("{} {} {:?} {}", r.method(), r.uri(), r.version(), hs.join("|"))
}

fn probe(r: &http::Request<()>) -> Option<Arc<Probe>> {
    r.extensions().get::<Arc<Probe>>().cloned()
}

fn log(r: &http::Request<()>, what: &str, ctx: &str) {
    if let Some(p) = probe(r) {
        let same = if digest(r) == p.digest { "same" } else { "CHANGED" };
        p.events.lock().unwrap().push(format!("{} call {} {}", what, ctx, same));
    }
}

// ---------------------------------------------------------------- contexts

pub trait Ctx: RequestContext + Clone + Send + Sync + 'static {
    fn mk(p: &str) -> Self;
    fn show_ctx(&self) -> String;
    fn check(&self, out: &mut Vec<String>);
}
impl Ctx for NoContext {
    fn mk(_: &str) -> Self {
        NoContext
    }
    fn show_ctx(&self) -> String {
        "none".into()
    }
    fn check(&self, _: &mut Vec<String>) {}
}
static LIVE: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);
/// How many context parts are still around.
pub fn live_parts() -> isize {
    LIVE.load(Ordering::SeqCst)
}
#[derive(Debug)]
pub struct Live;
impl Live {
    fn new() -> Self {
        LIVE.fetch_add(1, Ordering::SeqCst);
        Live
    }
}
impl Clone for Live {
    fn clone(&self) -> Self {
        Live::new()
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
    }
}

macro_rules! leaves {
    ($($n:ident)*) => { $(
        #[derive(Debug, Clone)]
        pub struct $n(pub String, Live);
        impl AsRef<$n> for $n { fn as_ref(&self) -> &$n { self } }
        impl AsRef<NoContext> for $n { fn as_ref(&self) -> &NoContext { &NoContext } }
        impl RequestContext for $n {}
        impl $n {
            /// A decoy: only the traits count.
            pub fn as_ref(&self) -> &NoContext { &NoContext }
        }
        impl Ctx for $n {
            fn mk(p: &str) -> Self { $n(p.to_string(), Live::new()) }
            fn show_ctx(&self) -> String { format!("{}[{}]", stringify!($n), self.0) }
            fn check(&self, _: &mut Vec<String>) {}
        }
    )* };
}
leaves!(L0 L1 L2 L3 L4 L5 L6 L7 L8 L9 L10 L11 L12 L13 L14 L15);

#[derive(Debug, Clone)]
pub struct Lg<T>(pub T);
impl<T> AsRef<Lg<T>> for Lg<T> {
    fn as_ref(&self) -> &Lg<T> {
        self
    }
}
impl<T> AsRef<NoContext> for Lg<T> {
    fn as_ref(&self) -> &NoContext {
        &NoContext
    }
}
impl<T> RequestContext for Lg<T> {}
impl<T: Ctx> Ctx for Lg<T> {
    fn mk(p: &str) -> Self {
        Lg(T::mk(p))
    }
    fn show_ctx(&self) -> String {
        format!("Lg<{}>", self.0.show_ctx())
    }
    fn check(&self, _: &mut Vec<String>) {}
}

// ---------------------------------------------------------------- guards

pub trait Id: Send + Sync + 'static {
    const N: u8;
}
macro_rules! ids {
    ($($n:ident $v:expr;)*) => { $( #[derive(Debug, Clone, Copy)] pub struct $n; impl Id for $n { const N: u8 = $v; } )* };
}
ids! { I0 0; I1 1; I2 2; I3 3; I4 4; I5 5; I6 6; I7 7; I8 8; I9 9; I10 10; I11 11; I12 12; I13 13; I14 14; I15 15; }

#[derive(Debug)]
pub struct TestErr(pub String);
impl std::fmt::Display for TestErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TestErr {}

pub fn scripted(who: &str, outcome: &str) -> Result<(), BoxedError> {
    match outcome {
        "err" => Err(Box::new(TestErr(format!("{} failed", who)))),
        "h405" => Err(Box::new(hyperdrive::Error::wrong_method(vec![
            &http::Method::PATCH,
            &http::Method::DELETE,
        ]))),
        h if h.starts_with('h') => Err(Box::new(hyperdrive::Error::with_source(
            http::StatusCode::from_u16(h[1..].parse().unwrap()).unwrap(),
            TestErr(format!("{} failed", who)),
        ))),
        _ => Ok(()),
    }
}

pub struct Delay(pub u32);
impl Future for Delay {
    type Item = ();
    type Error = BoxedError;
    fn poll(&mut self) -> Poll<(), BoxedError> {
        if self.0 == 0 {
            return Ok(Async::Ready(()));
        }
        self.0 -= 1;
        futures::task::current().notify();
        Ok(Async::NotReady)
    }
}

/// Waits as scripted; with a runtime at hand some of the waiting uses its executor or timer.
fn wait(r: &http::Request<()>, polls: u32) -> DefaultFuture<(), BoxedError> {
    let runtime = probe(r).map_or(false, |p| p.runtime.load(Ordering::SeqCst));
    match polls % 4 {
        1 if runtime => Box::new(Delay(polls).and_then(|()| {
            let (tx, rx) = futures::sync::oneshot::channel();
            tokio::spawn(Delay(1).then(move |_| tx.send(())));
            rx.map_err(BoxedError::from)
        })),
        3 if runtime => Box::new(
            Delay(polls)
                .and_then(|()| tokio::timer::Delay::new(std::time::Instant::now()).map_err(BoxedError::from)),
        ),
        _ => Box::new(Delay(polls)),
    }
}

fn guard_script(r: &http::Request<()>, n: u8) -> (u32, String, String) {
    script(
        r.headers()
            .get(&format!("x-g{}", n)[..])
            .and_then(|h| h.to_str().ok()),
    )
}

fn guard_done(r: &http::Request<()>, n: u8, outcome: &str) -> Result<(), BoxedError> {
    if let Some(p) = probe(r) {
        p.events.lock().unwrap().push(format!("g{} done", n));
    }
    scripted(&format!("g{}", n), outcome)
}

/// Decoded values need not be `Sync`.
type NotSync = std::cell::Cell<u8>;

/// A guard that answers immediately.
pub struct Gd<C, I>(String, PhantomData<(C, I, NotSync)>);
impl<C: Ctx, I: Id> Guard for Gd<C, I> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_request(request: &Arc<http::Request<()>>, context: &C) -> Self::Result {
        log(request, &format!("g{}", I::N), &context.show_ctx());
        let (_, outcome, value) = guard_script(request, I::N);
        guard_done(request, I::N, &outcome)?;
        Ok(Gd(value, PhantomData))
    }
}
impl<C, I: Id> Show for Gd<C, I> {
    fn show(&self) -> V {
        V::Leaf(format!("g{}={}", I::N, self.0))
    }
}

/// A guard that answers after a scripted number of polls.
pub struct Ga<C, I>(String, PhantomData<(C, I, NotSync)>);
impl<C: Ctx, I: Id> Guard for Ga<C, I> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_request(request: &Arc<http::Request<()>>, context: &C) -> Self::Result {
        log(request, &format!("g{}", I::N), &context.show_ctx());
        let (polls, outcome, value) = guard_script(request, I::N);
        let request = request.clone();
        Box::new(wait(&request, polls).and_then(move |()| {
            guard_done(&request, I::N, &outcome)?;
            Ok(Ga(value, PhantomData))
        }))
    }
}
impl<C, I: Id> Show for Ga<C, I> {
    fn show(&self) -> V {
        V::Leaf(format!("g{}={}", I::N, self.0))
    }
}

// ---------------------------------------------------------------- bodies

pub struct Raw<C>(Vec<u8>, PhantomData<(C, NotSync)>);
impl<C: Ctx> FromBody for Raw<C> {
    type Context = C;
    type Result = DefaultFuture<Self, BoxedError>;
    fn from_body(request: &Arc<http::Request<()>>, body: hyper::Body, context: &C) -> Self::Result {
        log(request, "body", &context.show_ctx());
        Box::new(
            body.concat2()
                .map_err(BoxedError::from)
                .map(|c| Raw(c.to_vec(), PhantomData)),
        )
    }
}
impl<C> Show for Raw<C> {
    fn show(&self) -> V {
        V::Leaf(show_bytes(&self.0))
    }
}

pub struct Ignore<C>(PhantomData<(C, NotSync)>);
impl<C: Ctx> FromBody for Ignore<C> {
    type Context = C;
    type Result = Result<Self, BoxedError>;
    fn from_body(request: &Arc<http::Request<()>>, _: hyper::Body, context: &C) -> Self::Result {
        log(request, "body", &context.show_ctx());
        Ok(Ignore(PhantomData))
    }
}
impl<C> Show for Ignore<C> {
    fn show(&self) -> V {
        V::Leaf("ignored".into())
    }
}

/// A hand-written forward target that records what it is handed.
pub struct Spy<C>(String, PhantomData<(C, NotSync)>);
impl<C: Ctx> FromRequest for Spy<C> {
    type Context = C;
    type Future = DefaultFuture<Self, BoxedError>;
    fn from_request_and_body(
        request: &Arc<http::Request<()>>,
        body: hyper::Body,
        context: C,
    ) -> Self::Future {
        log(request, "spy", &context.show_ctx());
        let (polls, outcome, value) =
            script(request.headers().get("x-spy").and_then(|h| h.to_str().ok()));
        Box::new(wait(request, polls).and_then(move |()| scripted("spy", &outcome)).and_then(move |()| {
            body.concat2()
                .map_err(BoxedError::from)
                .map(move |c| Spy(format!("spy={} {}", value, show_bytes(&c)), PhantomData))
        }))
    }
}
impl<C> Show for Spy<C> {
    fn show(&self) -> V {
        V::Leaf(self.0.clone())
    }
}

fn decoy(what: &str) -> BoxedError {
    Box::new(TestErr(format!("the inherent {} was called", what)))
}
// Decoys: inherent functions named like those of the traits must not matter.
impl<C: Ctx, I: Id> Gd<C, I> {
    pub fn from_request(_: &Arc<http::Request<()>>, _: &C) -> Result<Self, BoxedError> {
        Err(decoy("from_request"))
    }
}
impl<C: Ctx, I: Id> Ga<C, I> {
    pub fn from_request(_: &Arc<http::Request<()>>, _: &C) -> DefaultFuture<Self, BoxedError> {
        Box::new(futures::future::err(decoy("from_request")))
    }
}
impl<C: Ctx> Raw<C> {
    pub fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &C) -> DefaultFuture<Self, BoxedError> {
        Box::new(futures::future::err(decoy("from_body")))
    }
}
impl<C: Ctx> Ignore<C> {
    pub fn from_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: &C) -> Result<Self, BoxedError> {
        Err(decoy("from_body"))
    }
}
impl<C: Ctx> Spy<C> {
    pub fn from_request_and_body(_: &Arc<http::Request<()>>, _: hyper::Body, _: C) -> DefaultFuture<Self, BoxedError> {
        Box::new(futures::future::err(decoy("from_request_and_body")))
    }
}
