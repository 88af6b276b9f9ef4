//! Documented signatures that the harness itself relies on. Only looked at
//! when hyperdrive builds but the harness does not: each small program is
//! then compiled on its own, to tell which promise of which property is gone.

use crate::driver::*;
use crate::report::*;
use serde_json::json;
use std::fs;

const COMMON: &str = "#![allow(warnings)]
use hyperdrive::{body::{HtmlForm, Json}, service::*, *};
use hyperdrive::http::{Method, Request, Response, StatusCode};
use hyperdrive::hyper::{service::{MakeService, Service}, Body};
use hyperdrive::futures::{Future, IntoFuture};
use hyperdrive::serde::de::DeserializeOwned;
use std::{any::Any, sync::Arc};
fn main() {}
";

/// (property, what is promised, program)
const PROBES: &[(&str, &str, &str)] = &[
    ("C08", "read access to a decoded JSON body", "fn f<T: DeserializeOwned + Send>(j: &Json<T>) -> &T { &**j }"),
    ("C08", "write access to a decoded JSON body", "fn f<T: DeserializeOwned + Send>(j: &mut Json<T>) -> &mut T { &mut **j }"),
    ("C08", "read access to a decoded form", "fn f<T: DeserializeOwned + Send>(j: &HtmlForm<T>) -> &T { &**j }"),
    ("C08", "write access to a decoded form", "fn f<T: DeserializeOwned + Send>(j: &mut HtmlForm<T>) -> &mut T { &mut **j }"),
    ("C08", "taking the value out of the wrappers", "fn f<T: DeserializeOwned + Send>(j: Json<T>, h: HtmlForm<T>) -> (T, T) { (j.0, h.0) }"),
    ("C08", "comparing and printing the wrappers", "fn f<T: DeserializeOwned + Send + std::fmt::Debug + PartialEq>(j: Json<T>, h: HtmlForm<T>) { assert_eq!(j, j); assert_eq!(h, h); }"),
    ("C08", "the wrappers decode bodies without a context", "fn g<B: FromBody<Context = NoContext>>() {} fn f<T: DeserializeOwned + Send + 'static>() { g::<Json<T>>(); g::<HtmlForm<T>>(); }"),
    ("C09", "the empty context is a request context", "fn g<C: RequestContext>() {} fn f() { g::<NoContext>(); }"),
    ("C12", "errors can be boxed and sent", "fn f(e: Error) -> BoxedError { e.into() } fn g<E: std::error::Error + Send + Sync + 'static>() {} fn h() { g::<Error>() }"),
    ("C12", "errors from a status", "fn f() -> Error { Error::from_status(StatusCode::NOT_FOUND) }"),
    ("C12", "errors with a source", "fn f<E: std::error::Error + Send + Sync + 'static>(e: E, b: BoxedError) -> [Error; 4] { [Error::with_source(StatusCode::NOT_FOUND, e), Error::with_source(StatusCode::NOT_FOUND, b), Error::with_source(StatusCode::NOT_FOUND, \"a\"), Error::with_source(StatusCode::NOT_FOUND, String::new())] }"),
    ("C12", "errors with allowed methods", "fn f() -> [Error; 2] { [Error::wrong_method(&[&Method::GET][..]), Error::wrong_method(vec![&Method::GET])] }"),
    ("C12", "what an error tells", "fn f(e: &Error) -> (StatusCode, Option<&(dyn std::error::Error + 'static)>, Response<()>, Option<&[&'static Method]>, String) { (e.http_status(), e.source(), e.response(), e.allowed_methods(), format!(\"{}{:?}\", e, e)) }"),
    ("C13", "the asynchronous adapter is a service and makes services", "fn g<S: Service<ReqBody = Body, ResBody = Body> + MakeService<u32, ReqBody = Body, ResBody = Body> + Clone>(s: S) {} fn f<R: FromRequest<Context = NoContext> + 'static>() where R::Future: 'static { g(AsyncService::new(|r: R, q: Arc<Request<()>>| Ok::<_, BoxedError>(Response::new(Body::empty())).into_future())) }"),
    ("C13", "the synchronous adapter is a service and makes services", "fn g<S: Service<ReqBody = Body, ResBody = Body> + MakeService<u32, ReqBody = Body, ResBody = Body> + Clone>(s: S) {} fn f<R: FromRequest<Context = NoContext> + Send + 'static>() { g(SyncService::new(|r: R, q: Arc<Request<()>>| Response::new(Body::empty()))) }"),
    ("C13", "adapters with a context", "fn f<R: FromRequest + Send + 'static>(c: R::Context) where R::Context: Clone { SyncService::with_context(|r: R, q: Arc<Request<()>>| Response::new(Body::empty()), c.clone()); AsyncService::with_context(|r: R, q: Arc<Request<()>>| Ok::<_, BoxedError>(Response::new(Body::empty())).into_future(), c); }"),
    ("C14", "panic catching around a service", "fn g<S: Service<ResBody = Body>>(s: S) {} fn f<S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Sync>(s: S) where S::Future: Send + 'static { g(s.catch_unwind(|p: Box<dyn Any + Send>| Ok::<_, BoxedError>(Response::new(Body::empty())))) }"),
    ("C14", "clones of services with panic catching", "fn h<S: Clone>(s: S) {} fn g<S: MakeService<u32, ReqBody = Body, ResBody = Body>>(s: S) {} fn f<S: Service<ReqBody = Body, ResBody = Body, Error = BoxedError> + Sync + Clone>(s: S) where S::Future: Send + 'static { let c = s.catch_unwind(|p: Box<dyn Any + Send>| Ok::<_, BoxedError>(Response::new(Body::empty()))); h(c.clone()); g(c.make_service_by_cloning()) }"),
    ("C15", "the entry points of decoding", "fn f<R: FromRequest>(q: Request<Body>, p: &Arc<Request<()>>, b: Body, c: R::Context) where R::Context: Clone, R::Future: Send + 'static, R: Send + 'static { let x: R::Future = R::from_request_and_body(p, b, c.clone()); let y = R::from_request(Request::new(Body::empty()), c.clone()); let z: Result<R, BoxedError> = R::from_request_sync(q, c); }"),
    ("C16", "turning a closure into a future", "fn g<F: Future<Item = u8, Error = String>>(f: F) {} fn f() { g(blocking(|| Ok::<u8, String>(1))) }"),
];

/// What to report when the harness can't be built. `None`: nothing is known.
pub fn explain(env: &Env) -> Option<Report> {
    let libs = build_only(env).ok()?;
    let mut rep = Report { rule: "one case = one documented signature, compiled on its own".into(), ..Report::default() };
    for (i, p) in PROBES.iter().enumerate() {
        if p.0 != env.prop {
            continue;
        }
        rep.evaluations += 1;
        rep.distinct += 1;
        if let Some(v) = probe(env, &libs, i) {
            rep.violations.push(v);
        }
    }
    if rep.violations.is_empty() {
        None
    } else {
        Some(rep)
    }
}

fn probe(env: &Env, libs: &Libs, i: usize) -> Option<Finding> {
    let (prop, what, text) = PROBES[i];
    let src = env.work.join(format!("api{}.rs", i));
    fs::write(&src, format!("{}{}\n", COMMON, text)).ok()?;
    let out = env.work.join(format!("api{}.rmeta", i));
    let ds = rustc(libs, &src, 2018, &["--emit=metadata", "--crate-name", "api"], false, &out).err()?;
    Some(Finding {
        property: prop.into(),
        kind: "api".into(),
        signature: format!("api:{}", what),
        message: format!("a program using this does not compile: {}", what),
        detail: json!({
            "probe": i,
            "compiler": ds.iter().take(4).map(|d| d.message.clone()).collect::<Vec<_>>().join("\n"),
            "program": format!("{}{}", COMMON, text),
        }),
    })
}

pub fn replay(env: &Env, f: &Finding) -> Result<Option<Finding>, String> {
    let libs = build_only(env)?;
    let i = f.detail["probe"].as_u64().unwrap_or(0) as usize;
    Ok(probe(env, &libs, i))
}

/// All of them compile (for development).
pub fn selftest(env: &Env) -> i32 {
    let libs = build_only(env).expect("build");
    let mut bad = 0;
    for i in 0..PROBES.len() {
        if let Some(v) = probe(env, &libs, i) {
            println!("{}: {}\n{}", v.property, v.message, v.detail["compiler"].as_str().unwrap_or(""));
            bad = 1;
        }
    }
    bad
}
