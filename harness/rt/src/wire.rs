//! Real servers on the loopback interface, spoken to over plain sockets.

use crate::exec::{panic_text, runtime, Entry};
use crate::shard::{another, noted, Fail};
use crate::{Ctx, Show};
use futures::{future, Future};
use hdv_core::job::Case;
use hdv_core::model::{self, ExpErr, Expected};
use hdv_core::reqs::ReqKnobs;
use hdv_core::spec::*;
use hdv_core::tape::Tape;
use http::{Request, Response, StatusCode};
use hyper::server::conn::AddrStream;
use hyper::service::{MakeService, Service};
use hyper::{Body, Server};
use hyperdrive::service::{AsyncService, ServiceExt, SyncService};
use hyperdrive::{BoxedError, DefaultFuture, FromRequest};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;

// ------------------------------------------------------------ server side

type Fut = DefaultFuture<Response<Body>, BoxedError>;

/// Adapters with their types forgotten, so that the server code is compiled
/// only once.
trait AnyMake: Send {
    fn make(&mut self, c: &AddrStream) -> Box<dyn AnySvc>;
}
trait AnySvc: Send {
    fn ready(&mut self) -> futures::Poll<(), BoxedError>;
    fn call(&mut self, r: Request<Body>) -> Fut;
}
struct M<S>(S);
struct S<T>(T);
impl<T> AnySvc for S<T>
where
    T: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = Fut> + Send,
{
    fn ready(&mut self) -> futures::Poll<(), BoxedError> {
        self.0.poll_ready()
    }
    fn call(&mut self, r: Request<Body>) -> Fut {
        self.0.call(r)
    }
}
impl<T> AnyMake for M<T>
where
    T: for<'a> MakeService<&'a AddrStream, ReqBody = Body, ResBody = Body, Error = BoxedError, MakeError = BoxedError> + Send,
    for<'a> <T as MakeService<&'a AddrStream>>::Service: Service<ReqBody = Body, ResBody = Body, Error = BoxedError, Future = Fut> + Send + 'static,
{
    fn make(&mut self, c: &AddrStream) -> Box<dyn AnySvc> {
        match self.0.make_service(c).wait() {
            Ok(s) => Box::new(S(s)),
            Err(_) => panic!("make_service failed"),
        }
    }
}

struct Erased(Box<dyn AnyMake>);
struct Conn(Box<dyn AnySvc>);
impl<'a> MakeService<&'a AddrStream> for Erased {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Service = Conn;
    type Future = future::FutureResult<Conn, BoxedError>;
    type MakeError = BoxedError;
    fn make_service(&mut self, c: &'a AddrStream) -> Self::Future {
        future::ok(Conn(self.0.make(c)))
    }
}
impl Service for Conn {
    type ReqBody = Body;
    type ResBody = Body;
    type Error = BoxedError;
    type Future = Fut;
    fn poll_ready(&mut self) -> futures::Poll<(), BoxedError> {
        self.0.ready()
    }
    fn call(&mut self, r: Request<Body>) -> Fut {
        self.0.call(r)
    }
}

pub const SERVERS: [&str; 4] = ["async", "sync", "async caught", "sync caught"];

/// What the handlers answer; the request says so in its `x-do` header.
fn answer(v: V, r: &Request<()>) -> Result<Response<Body>, BoxedError> {
    let todo = r.headers().get("x-do").and_then(|h| h.to_str().ok()).unwrap_or("");
    let body = serde_json::to_string(&v).unwrap();
    let body = if todo.ends_with("big") { big(&body) } else { body };
    let mut b = Response::builder();
    b.header("x-v", format!("{:016x}", model::fnv(body.as_bytes())));
    if let Some(s) = todo.strip_prefix("own") {
        return Err(hyperdrive::Error::from_status(StatusCode::from_u16(s.parse().unwrap()).unwrap()).into());
    }
    match todo {
        "foreign" => return Err(Box::new(crate::TestErr("handler failed".into()))),
        "panic" => panic!("handler panics"),
        "stream" | "streambig" => {
            let size = if todo == "stream" { 7 } else { 5003 };
            let cs: Vec<Vec<u8>> = body.as_bytes().chunks(size).map(|c| c.to_vec()).collect();
            let s = futures::stream::iter_ok::<_, BoxedError>(cs);
            return Ok(b.body(Body::wrap_stream(s)).unwrap());
        }
        _ => {}
    }
    if let Some(s) = todo.strip_prefix('s').filter(|s| s.len() == 3) {
        b.status(s.parse::<u16>().unwrap());
    }
    Ok(b.body(Body::from(body)).unwrap())
}

/// A long text that depends on the value.
fn big(body: &str) -> String {
    let n = 150_000 + body.len() * 7 % 10_000;
    body.chars().cycle().take(n).collect()
}

fn rescue(p: Box<dyn std::any::Any + Send>) -> Result<Response<Body>, BoxedError> {
    Ok(Response::builder().status(500).header("x-v", "rescued").body(Body::from(format!("rescued: {}", panic_text(p)))).unwrap())
}

pub fn serve<R>(kind: usize) -> Result<SocketAddr, String>
where
    R: FromRequest + Show + Send + 'static,
    R::Context: Ctx,
    R::Future: Send + 'static,
{
    let ctx = R::Context::mk("srv");
    let a = |r: R, q: Arc<Request<()>>| future::result(answer(r.show(), &q));
    let s = |r: R, q: Arc<Request<()>>| answer(r.show(), &q).expect("sync handlers cannot fail");
    let m: Box<dyn AnyMake> = match kind {
        0 => Box::new(M(AsyncService::with_context(a, ctx))),
        1 => Box::new(M(SyncService::with_context(s, ctx))),
        2 => Box::new(M(AsyncService::with_context(a, ctx).catch_unwind(rescue).make_service_by_cloning())),
        _ => Box::new(M(SyncService::with_context(s, ctx).catch_unwind(rescue).make_service_by_cloning())),
    };
    start(m)
}

fn start(m: Box<dyn AnyMake>) -> Result<SocketAddr, String> {
    let (tx, rx) = std::sync::mpsc::channel();
    runtime().executor().spawn(future::lazy(move || -> Box<dyn Future<Item = (), Error = ()> + Send> {
        match Server::try_bind(&([127, 0, 0, 1], 0).into()) {
            Err(e) => {
                let _ = tx.send(Err(e.to_string()));
                Box::new(future::ok(()))
            }
            Ok(b) => {
                let srv = b.serve(Erased(m));
                let _ = tx.send(Ok(srv.local_addr()));
                Box::new(srv.map_err(|_| ()))
            }
        }
    }));
    rx.recv().map_err(|_| "server not started".to_string())?
}

// ------------------------------------------------------------ client side

const WAIT: Duration = Duration::from_secs(20);
/// After a first timeout, when shrinking.
const SHORT: Duration = Duration::from_secs(2);
static TIMED_OUT: AtomicBool = AtomicBool::new(false);

struct Client {
    s: TcpStream,
    buf: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq)]
struct Got {
    status: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}
impl Got {
    fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0 == k).map(|h| &h.1[..])
    }
}

enum End {
    /// Closed or reset before any byte of a response.
    Closed,
    Bad(String),
}

impl Client {
    fn connect(a: SocketAddr) -> Result<Client, String> {
        let mut last = String::new();
        for _ in 0..20 {
            match TcpStream::connect_timeout(&a, WAIT) {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    let short = TIMED_OUT.load(Ordering::Relaxed);
                    let _ = s.set_read_timeout(Some(if short { SHORT } else { WAIT }));
                    let _ = s.set_write_timeout(Some(WAIT));
                    return Ok(Client { s, buf: vec![] });
                }
                // out of ports or the like; not the server's doing
                Err(e) => last = e.to_string(),
            }
            std::thread::sleep(Duration::from_millis(100));
        }
        Err(last)
    }
    fn fill(&mut self) -> Result<bool, String> {
        let mut b = [0u8; 4096];
        match self.s.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => {
                self.buf.extend_from_slice(&b[..n]);
                Ok(true)
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                TIMED_OUT.store(true, Ordering::Relaxed);
                Err("no answer in time".into())
            }
            Err(_) => Ok(false),
        }
    }
    fn line(&mut self) -> Result<Option<String>, String> {
        loop {
            if let Some(i) = self.buf.windows(2).position(|w| w == b"\r\n") {
                let l = String::from_utf8_lossy(&self.buf[..i]).to_string();
                self.buf.drain(..i + 2);
                return Ok(Some(l));
            }
            if !self.fill()? {
                return Ok(None);
            }
        }
    }
    fn exact(&mut self, n: usize) -> Result<Vec<u8>, String> {
        while self.buf.len() < n {
            if !self.fill()? {
                return Err("the connection ended within a body".into());
            }
        }
        Ok(self.buf.drain(..n).collect())
    }
    fn response(&mut self, head: bool) -> Result<Got, End> {
        loop {
            let l = match self.line().map_err(End::Bad)? {
                None if self.buf.is_empty() => return Err(End::Closed),
                None => return Err(End::Bad("the connection ended within a status line".into())),
                Some(l) => l,
            };
            let mut it = l.splitn(3, ' ');
            let (v, st) = (it.next().unwrap_or(""), it.next().and_then(|s| s.parse::<u16>().ok()));
            let status = match (v.starts_with("HTTP/1."), st) {
                (true, Some(s)) => s,
                _ => return Err(End::Bad(format!("not a status line: {:?}", l))),
            };
            let mut headers = Vec::new();
            loop {
                match self.line().map_err(End::Bad)? {
                    None => return Err(End::Bad("the connection ended within a head".into())),
                    Some(l) if l.is_empty() => break,
                    Some(l) => {
                        let (k, v) = l.split_once(':').unwrap_or((&l, ""));
                        headers.push((k.to_ascii_lowercase(), v.trim().to_string()));
                    }
                }
            }
            if status < 200 {
                continue;
            }
            let mut g = Got { status, headers, body: vec![] };
            if head || status == 204 || status == 304 {
                return Ok(g);
            }
            if g.header("transfer-encoding").map_or(false, |t| t.contains("chunked")) {
                loop {
                    let l = self.line().map_err(End::Bad)?.ok_or(End::Bad("the connection ended within a body".into()))?;
                    let n = usize::from_str_radix(l.split(';').next().unwrap_or("").trim(), 16)
                        .map_err(|_| End::Bad(format!("not a chunk size: {:?}", l)))?;
                    let c = self.exact(n).map_err(End::Bad)?;
                    g.body.extend_from_slice(&c);
                    let e = self.exact(2).map_err(End::Bad)?;
                    if e != b"\r\n" {
                        return Err(End::Bad("chunk without end".into()));
                    }
                    if n == 0 {
                        return Ok(g);
                    }
                }
            }
            match g.header("content-length").map(|n| n.parse::<usize>()) {
                Some(Ok(n)) => g.body = self.exact(n).map_err(End::Bad)?,
                Some(Err(_)) => return Err(End::Bad("bad content-length".into())),
                None => {
                    while self.fill().map_err(End::Bad)? {}
                    g.body = std::mem::take(&mut self.buf);
                }
            }
            return Ok(g);
        }
    }
}

// ------------------------------------------------------------ cases

fn plain(c: char) -> bool {
    c.is_ascii_alphanumeric() || "-._~!$&'()*+,;=:@%/".contains(c)
}

/// What the request looks like to a server, free of everything that has a
/// meaning on the level of the protocol.
fn sanitize(r: &mut ReqCase) {
    if r.method == "CONNECT" {
        r.method = "PUT".into();
    }
    r.form = UriForm::Origin;
    r.path = r.path.chars().map(|c| if plain(c) { c } else { '-' }).collect();
    if r.path.is_empty() {
        r.path = "/".into();
    }
    if let Some(q) = &mut r.query {
        *q = q.chars().map(|c| if plain(c) || c == '?' { c } else { '-' }).collect();
    }
    r.version = 0;
    r.ctx = "srv".into();
    r.body.fail = false;
    r.headers.retain(|h| h.0.starts_with("x-") || h.0 == "accept" || h.0 == "cookie" || h.0 == "content-type");
}

#[derive(Clone)]
struct Item {
    req: ReqCase,
    head: bool,
    exp: Expected,
    want: Want,
    bytes: Vec<u8>,
    /// Of the response's body.
    size: usize,
    /// The handler side reads the whole body (or there is none).
    tame: bool,
}

#[derive(Clone, Debug)]
struct Resp {
    status: u16,
    allow: Option<BTreeSet<String>>,
    xv: Option<String>,
    body: Vec<u8>,
}
#[derive(Clone, Debug)]
enum Want {
    Resp(Resp),
    Closed,
}

fn item(t: &mut Tape, fam: &Family, mut req: ReqCase, kind: usize) -> Item {
    sanitize(&mut req);
    let sync = kind % 2 == 1;
    let todo = match t.weighted(&[50, 18, 18, 9, 9, 9, 2]) {
        0 => "".to_string(),
        1 => "stream".to_string(),
        2 => format!("s{}", t.pick(&[201, 202, 299, 301, 400, 404, 405, 418, 500, 503, 599])),
        3 if !sync => format!("own{}", t.pick(&[400, 401, 404, 405, 418, 451, 500, 599])),
        4 if !sync => "foreign".to_string(),
        5 if kind >= 2 => "panic".to_string(),
        6 => t.pick(&["big", "streambig"]).to_string(),
        _ => "".to_string(),
    };
    if !todo.is_empty() {
        req.headers.push(("x-do".into(), todo.clone()));
    }
    let exp = model::expect(fam, &req);
    let head = req.method == "HEAD";
    let own = |status: u16, allow: Option<BTreeSet<String>>| {
        Want::Resp(Resp { status, allow, xv: None, body: vec![] })
    };
    let want = match &exp.result {
        Ok(v) => {
            let text = serde_json::to_string(v).unwrap();
            let text = if todo.ends_with("big") { big(&text) } else { text };
            let xv = format!("{:016x}", model::fnv(text.as_bytes()));
            if let Some(s) = todo.strip_prefix("own") {
                let s: u16 = s.parse().unwrap();
                own(s, if s == 405 { Some(BTreeSet::new()) } else { None })
            } else if todo == "foreign" {
                Want::Closed
            } else if todo == "panic" {
                Want::Resp(Resp {
                    status: 500,
                    allow: None,
                    xv: Some("rescued".into()),
                    body: if head { vec![] } else { b"rescued: handler panics".to_vec() },
                })
            } else {
                Want::Resp(Resp {
                    status: match todo.strip_prefix('s') {
                        Some(s) if s.len() == 3 => s.parse().unwrap(),
                        _ => 200,
                    },
                    allow: None,
                    xv: Some(xv),
                    body: if head { vec![] } else { text.into_bytes() },
                })
            }
        }
        Err(ExpErr::Own { status, allowed, .. }) => own(*status, allowed.clone()),
        Err(_) => Want::Closed,
    };
    // the bytes sent
    let mut b = format!("{} {} HTTP/1.1\r\n", req.method, req.uri());
    let mut lines: Vec<String> = vec!["Host: localhost".into()];
    for (k, v) in &req.headers {
        lines.push(match t.below(3) {
            0 => format!("{}: {}", k, v),
            1 => format!("{}:{}", k.to_ascii_uppercase(), v),
            _ => format!("{}:  {} ", k, v),
        });
    }
    let data = req.body.bytes();
    let chunked = t.pct(40);
    let reads = exp.notes.body_read && exp.result.is_ok();
    if !data.is_empty() || t.pct(15) {
        lines.push(if chunked { "Transfer-Encoding: chunked".to_string() } else { format!("Content-Length: {}", data.len()) });
        if reads && !data.is_empty() && t.pct(15) {
            lines.push("Expect: 100-continue".into());
        }
    }
    let framed = lines.iter().any(|l| l.starts_with("Transfer"));
    t.shuffle(&mut lines[1..]);
    b.push_str(&lines.join("\r\n"));
    b.push_str("\r\n\r\n");
    let mut bytes = b.into_bytes();
    if framed {
        for (_, c) in &req.body.chunks {
            if !c.is_empty() {
                let n = match t.below(3) {
                    0 => format!("{:x}\r\n", c.len()),
                    1 => format!("{:X}\r\n", c.len()),
                    _ => format!("{:04x};ext=1\r\n", c.len()),
                };
                bytes.extend_from_slice(n.as_bytes());
                bytes.extend_from_slice(c);
                bytes.extend_from_slice(b"\r\n");
            }
        }
        bytes.extend_from_slice(b"0\r\n\r\n");
    } else {
        bytes.extend_from_slice(&data);
    }
    let size = match &want {
        Want::Resp(r) => r.body.len(),
        Want::Closed => 0,
    };
    Item { head, size, tame: (data.is_empty() && !framed) || reads, exp, want, bytes, req }
}

fn judge(i: &Item, g: Result<Got, End>) -> Result<(), String> {
    match (&i.want, g) {
        (Want::Closed, Err(End::Closed)) => Ok(()),
        (Want::Closed, Ok(g)) => Err(format!("expected the connection to be closed, got {:?}", g)),
        (Want::Resp(_), Err(End::Closed)) => Err("the connection was closed instead of an answer".into()),
        (_, Err(End::Bad(m))) => Err(m),
        (Want::Resp(w), Ok(g)) => {
            if g.status != w.status {
                return Err(format!("status {} instead of {}", g.status, w.status));
            }
            let allow = g.header("allow").map(|a| {
                a.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect::<BTreeSet<_>>()
            });
            if allow != w.allow {
                return Err(format!("Allow {:?} instead of {:?}", allow, w.allow));
            }
            if g.header("x-v") != w.xv.as_deref() {
                return Err(format!("x-v {:?} instead of {:?}", g.header("x-v"), w.xv));
            }
            if g.body != w.body {
                return Err(format!(
                    "body {:?} ({}) instead of {:?} ({})",
                    short(&g.body),
                    g.body.len(),
                    short(&w.body),
                    w.body.len()
                ));
            }
            Ok(())
        }
    }
}

enum Step {
    Item(Item),
    /// Part of a request, then the client is gone.
    Abort(Vec<u8>),
    Garbage(Vec<u8>),
}

struct Line {
    c: Option<Client>,
    steps: std::collections::VecDeque<Step>,
    /// Sent and not answered yet.
    waiting: std::collections::VecDeque<Item>,
    /// The server may have given up on this connection.
    loose: bool,
}

fn garbage(t: &mut Tape) -> Vec<u8> {
    match t.below(7) {
        0 => b"\r\n\r\nGET\r\n\r\n".to_vec(),
        1 => vec![0; 1 + t.below(50)],
        2 => b"GET / HTTP/9.9\r\n\r\n".to_vec(),
        3 => b"POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n".to_vec(),
        4 => b"POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\n".to_vec(),
        5 => {
            let mut b = b"GET / HTTP/1.1\r\n".to_vec();
            for i in 0..200 {
                b.extend_from_slice(format!("h{}: v\r\n", i).as_bytes());
            }
            b.extend_from_slice(b"\r\n");
            b
        }
        _ => (0..20 + t.below(200)).map(|_| t.raw() as u8).collect(),
    }
}

pub fn run_case(
    fam: &Family,
    entries: &[Entry],
    case: &Case,
    knobs: &ReqKnobs,
    execs: &mut u64,
) -> (Expected, Result<bool, Fail>) {
    let mut t = Tape::new(&case.sched);
    // a few connections are used for long
    let long = t.pct(3);
    let more: Vec<u32>;
    if long {
        more = hdv_core::tape::expand(t.raw(), 3000);
        t = Tape::new(&more);
        noted("many-requests");
    }
    let kind = t.below(4);
    // a few are one of very many
    let crowded = t.raw() % 1300 == 1299;
    let main = case.req.main % entries.len();
    let addr = match server(fam, entries, main, kind) {
        Ok(a) => a,
        Err(e) => {
            let x = model::expect(fam, &case.req);
            return (x, Err(fail("the server cannot be started", e, &[])));
        }
    };
    let mut seed = 0x51u32;
    let n_lines = 1 + t.weighted(&[5, 3, 2]);
    let mut lines: Vec<Line> = Vec::new();
    let mut first = None;
    let mut log: Vec<String> = vec![format!("server: {}", SERVERS[kind])];
    for l in 0..n_lines {
        let n = if long { 20 + t.below(60) } else { 1 + t.below(4) };
        let mut steps = std::collections::VecDeque::new();
        for i in 0..n {
            // long choices of further requests come from a few numbers
            let sub: Vec<u32> = {
                let b = t.raw();
                (0..60).map(|k: u32| if b == 0 { 0 } else { (b ^ k).wrapping_mul(2654435761).rotate_left(k % 31) }).collect()
            };
            let mut st = Tape::new(&sub);
            let mut req = if l == 0 && i == 0 {
                case.req.clone()
            } else {
                another(t.raw(), &mut seed, fam, knobs)
            };
            req.main = case.req.main;
            let it = item(&mut st, fam, req, kind);
            if first.is_none() {
                first = Some(it.exp.clone());
            }
            if it.bytes.len() > 4000 && !it.tame {
                continue;
            }
            match if l == 0 && i == 0 || long && i < 20 { 0 } else { st.weighted(&[12, 1, 1]) } {
                0 => steps.push_back(Step::Item(it)),
                1 => {
                    let k = st.below(it.bytes.len());
                    steps.push_back(Step::Abort(it.bytes[..k].to_vec()));
                    break;
                }
                _ => {
                    steps.push_back(Step::Garbage(garbage(&mut st)));
                    break;
                }
            }
        }
        lines.push(Line { c: None, steps, waiting: Default::default(), loose: false });
    }
    let exp = first.unwrap_or_else(|| model::expect(fam, &case.req));
    let mut crowd = Vec::new();
    if crowded {
        noted("many-connections");
        let n = 130 + t.below(130);
        log.push(format!("{} more connections are open all the time", n));
        for i in 0..n {
            // at most so many; what counts is that the server goes on
            if let Ok(mut c) = Client::connect(addr) {
                if i % 3 == 0 {
                    let _ = c.s.write_all(b"GET / HTTP/1.1\r\nhost");
                }
                crowd.push(c);
            }
        }
    }
    let r = talk(&mut t, addr, &mut lines, &mut log, execs);
    let r = match r {
        Ok(()) => {
            // whatever happened, the server still answers
            let mut p = ReqCase {
                main: case.req.main,
                method: "GET".into(),
                form: UriForm::Origin,
                path: "/".into(),
                query: None,
                version: 0,
                headers: vec![],
                body: BodyCase { chunks: vec![], fail: false, end_pend: 0 },
                ctx: String::new(),
            };
            p.main = case.req.main;
            let it = item(&mut Tape::new(&[]), fam, p, kind);
            log.push("a last request on a fresh connection".into());
            *execs += 1;
            match Client::connect(addr) {
                Err(e) => Err(("the server is gone".to_string(), e)),
                Ok(mut c) => {
                    let _ = c.s.write_all(&it.bytes);
                    let g = c.response(it.head);
                    judge(&it, g).map_err(|m| (format!("after all: {}", m), format!("{:?}", it.want)))
                }
            }
        }
        e => e,
    };
    drop(crowd);
    match r {
        Ok(()) => (exp, Ok(true)),
        Err((m, w)) => (exp, Err(fail(&m, w, &log))),
    }
}

fn fail(m: &str, expected: String, log: &[String]) -> Fail {
    Fail { message: m.into(), expected: serde_json::json!(expected), observed: serde_json::json!(log) }
}

fn server(fam: &Family, entries: &[Entry], main: usize, kind: usize) -> Result<SocketAddr, String> {
    thread_local!(static SERVING: std::cell::RefCell<std::collections::HashMap<(String, usize, usize), SocketAddr>> = Default::default());
    SERVING.with(|s| {
        let mut s = s.borrow_mut();
        let k = (fam.name.clone(), main, kind);
        if let Some(a) = s.get(&k) {
            return Ok(*a);
        }
        let a = (entries[main].serve)(kind)?;
        s.insert(k, a);
        Ok(a)
    })
}

fn short(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(300).flat_map(|c| c.escape_debug()).collect()
}

fn talk(t: &mut Tape, addr: SocketAddr, lines: &mut [Line], log: &mut Vec<String>, execs: &mut u64) -> Result<(), (String, String)> {
    let lost = |e: String| ("the server does not accept connections".to_string(), e);
    loop {
        let open: Vec<usize> = (0..lines.len()).filter(|i| !lines[*i].steps.is_empty() || !lines[*i].waiting.is_empty()).collect();
        if open.is_empty() {
            return Ok(());
        }
        let k = open[t.below(open.len())];
        let l = &mut lines[k];
        // read an answer?
        let pipelined = match l.steps.front() {
            None => false,
            Some(Step::Item(i)) => {
                !l.loose
                    && l.waiting.len() < 4
                    && l.waiting.iter().chain(Some(i)).all(|i| i.bytes.len() + i.size < 20_000 && i.tame && matches!(i.want, Want::Resp(_)))
                    && t.pct(50)
            }
            Some(_) => false,
        };
        if !l.waiting.is_empty() && !pipelined {
            let i = l.waiting.pop_front().unwrap();
            let c = l.c.as_mut().unwrap();
            let mut g = c.response(i.head);
            if l.loose {
                if let Err(End::Closed) = g {
                    if !matches!(i.want, Want::Closed) {
                        // give it the connection it deserves
                        log.push(format!("{}: again on a new connection", k));
                        let mut n = Client::connect(addr).map_err(lost)?;
                        let _ = n.s.write_all(&i.bytes);
                        g = n.response(i.head);
                        l.c = Some(n);
                    }
                }
                l.loose = false;
            }
            log.push(format!(
                "{}: answer {}",
                k,
                match &g {
                    Ok(g) => format!("{} {:?} {:?}", g.status, g.headers, short(&g.body)),
                    Err(End::Closed) => "closed".into(),
                    Err(End::Bad(m)) => m.clone(),
                }
            ));
            judge(&i, g).map_err(|m| {
                (format!("over the wire: {}", m), format!("{} {} -> {:?}", i.req.method, i.req.uri(), i.want))
            })?;
            if !i.tame {
                l.loose = true;
            }
            if matches!(i.want, Want::Closed) {
                l.c = None;
                l.loose = false;
            }
            continue;
        }
        if l.c.is_none() {
            l.c = Some(Client::connect(addr).map_err(lost)?);
            log.push(format!("{}: connect", k));
        }
        let c = l.c.as_mut().unwrap();
        match l.steps.pop_front().unwrap() {
            Step::Abort(b) => {
                log.push(format!("{}: abort after {:?}", k, short(&b)));
                let _ = c.s.write_all(&b);
                if t.pct(30) {
                    std::thread::sleep(Duration::from_millis(1));
                }
                l.c = None;
            }
            Step::Garbage(b) => {
                log.push(format!("{}: garbage {:?}", k, short(&b)));
                let _ = c.s.write_all(&b);
                if t.pct(50) {
                    // whatever it says
                    let _ = c.s.set_read_timeout(Some(Duration::from_millis(20)));
                    let mut x = [0u8; 512];
                    let _ = c.s.read(&mut x);
                }
                l.c = None;
            }
            Step::Item(i) => {
                *execs += 1;
                let mut cuts: Vec<usize> = Vec::new();
                if i.tame && matches!(i.want, Want::Resp(_)) && !l.loose && t.pct(50) {
                    for _ in 0..1 + t.below(3) {
                        cuts.push(t.below(i.bytes.len()));
                    }
                    cuts.sort();
                }
                log.push(format!("{}: {}, sent in {} parts", k, short(&i.bytes), cuts.len() + 1));
                cuts.push(i.bytes.len());
                let mut at = 0;
                for (n, e) in cuts.iter().enumerate() {
                    // a server that has given up is noticed when reading
                    let _ = c.s.write_all(&i.bytes[at..*e]);
                    at = *e;
                    if n + 1 < cuts.len() && t.pct(20) {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
                l.waiting.push_back(i);
            }
        }
    }
}
