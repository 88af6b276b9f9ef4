use hdv_core::spec::{BodyCase, ReqCase, UriForm};
use hdv_core::tape::Tape;
use http::{Method, StatusCode};
use hyperdrive::{BoxedError, Error};
use serde_json::{json, Value};
use std::sync::Mutex;

pub const TAPE: usize = 800;

/// What a case did, for evidence.
#[derive(Default)]
pub struct Obsd {
    pub evals: u64,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub describe: Value,
    /// Length of the tape that was looked at.
    pub used: usize,
}
impl Obsd {
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
}

#[derive(Debug)]
pub struct Bad {
    pub message: String,
    pub expected: Value,
    pub observed: Value,
}
impl Bad {
    pub fn new(m: impl Into<String>) -> Bad {
        Bad { message: m.into(), expected: Value::Null, observed: Value::Null }
    }
}
pub fn differ<T>(what: &str, expected: impl serde::Serialize, observed: impl serde::Serialize) -> Result<T, Bad> {
    Err(Bad { message: what.into(), expected: json!(expected), observed: json!(observed) })
}
pub fn same<T: serde::Serialize + PartialEq>(what: &str, expected: &T, observed: &T) -> Result<(), Bad> {
    if expected == observed {
        Ok(())
    } else {
        differ(what, expected, observed)
    }
}

pub type CaseFn = fn(&mut Tape, &mut Obsd) -> Result<(), Bad>;

/// Methods with a `'static` lifetime, interned so that none leaks twice.
pub fn method(name: &str) -> &'static Method {
    static M: Mutex<Vec<&'static Method>> = Mutex::new(Vec::new());
    let mut m = M.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = m.iter().find(|x| x.as_str() == name) {
        return x;
    }
    let x: &'static Method = Box::leak(Box::new(Method::from_bytes(name.as_bytes()).unwrap()));
    m.push(x);
    x
}
pub const METHODS: [&str; 14] = [
    "GET", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "PROPFIND", "X", "get", "M-SEARCH",
    "A-very-long.method_name~9",
];

pub fn methods(t: &mut Tape, max: usize) -> Vec<&'static Method> {
    let n = t.below(max + 1);
    (0..n).map(|_| method(t.pick(&METHODS))).collect()
}

/// Errors told apart by identity.
#[derive(Debug)]
pub struct Mark {
    pub id: u32,
    pub cause: Option<BoxedError>,
}
impl std::fmt::Display for Mark {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "mark {}", self.id)
    }
}
impl std::error::Error for Mark {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.cause.as_ref().map(|c| &**c as &(dyn std::error::Error + 'static))
    }
}

/// How to make an error.
#[derive(Debug, Clone)]
pub enum ErrPlan {
    Own { status: u16, source: bool },
    Wrong(Vec<&'static Method>),
    /// An error of another type; optionally one that has an own error as its
    /// cause, which must not make a difference.
    Foreign { wraps: bool },
    Text,
}
impl ErrPlan {
    pub fn gen(t: &mut Tape) -> ErrPlan {
        match t.weighted(&[3, 2, 3, 1]) {
            0 => ErrPlan::Own { status: 400 + t.below(200) as u16, source: t.pct(50) },
            1 => ErrPlan::Wrong(methods(t, 4)),
            2 => ErrPlan::Foreign { wraps: t.pct(35) },
            _ => ErrPlan::Text,
        }
    }
    pub fn make(&self, id: u32) -> BoxedError {
        match self {
            ErrPlan::Own { status, source: false } => Error::from_status(StatusCode::from_u16(*status).unwrap()).into(),
            ErrPlan::Own { status, .. } => {
                Error::with_source(StatusCode::from_u16(*status).unwrap(), Mark { id, cause: None }).into()
            }
            ErrPlan::Wrong(ms) => Error::wrong_method(ms.clone()).into(),
            ErrPlan::Foreign { wraps } => Box::new(Mark {
                id,
                cause: if *wraps { Some(Error::from_status(StatusCode::IM_A_TEAPOT).into()) } else { None },
            }),
            ErrPlan::Text => format!("text {}", id).into(),
        }
    }
    pub fn own(&self) -> bool {
        matches!(self, ErrPlan::Own { .. } | ErrPlan::Wrong(_))
    }
    /// Status and `Allow` header of the response an own error describes.
    pub fn response(&self) -> Option<(u16, Option<String>)> {
        match self {
            ErrPlan::Own { status: 405, .. } => Some((405, Some(String::new()))),
            ErrPlan::Own { status, .. } => Some((*status, None)),
            ErrPlan::Wrong(ms) => {
                Some((405, Some(ms.iter().map(|m| m.as_str()).collect::<Vec<_>>().join(","))))
            }
            _ => None,
        }
    }
    pub fn text(&self) -> String {
        format!("{:?}", self)
    }
}

/// Checks that `e` is precisely the error made by the plan with this id.
pub fn is_that_error(p: &ErrPlan, id: u32, e: &BoxedError) -> Result<(), String> {
    match p {
        ErrPlan::Own { .. } | ErrPlan::Wrong(_) => {
            let (status, allow) = p.response().unwrap();
            match e.downcast_ref::<Error>() {
                None => Err(format!("expected an own error, got {}", e)),
                Some(o) if o.http_status().as_u16() != status => Err(format!("status {}", o.http_status())),
                Some(o) => {
                    let got = o.allowed_methods().map(|m| m.iter().map(|m| m.as_str()).collect::<Vec<_>>().join(","));
                    if got != allow {
                        return Err(format!("allowed methods {:?}", got));
                    }
                    let src = o.source().and_then(|s| s.downcast_ref::<Mark>()).map(|m| m.id);
                    let want = if let ErrPlan::Own { source: true, .. } = p { Some(id) } else { None };
                    if src != want {
                        return Err(format!("source {:?}", src));
                    }
                    Ok(())
                }
            }
        }
        ErrPlan::Foreign { wraps } => match e.downcast_ref::<Mark>() {
            None => Err(format!("expected the foreign error, got {:?}", e)),
            Some(m) if m.id != id || m.cause.is_some() != *wraps => Err(format!("got another foreign error: {:?}", m)),
            _ => Ok(()),
        },
        ErrPlan::Text => {
            if e.to_string() == format!("text {}", id) && !e.is::<Error>() {
                Ok(())
            } else {
                Err(format!("expected the text error, got {:?}", e))
            }
        }
    }
}

/// `Allow` lists are compared up to optional white space around the commas.
pub fn norm_allow(s: &str) -> String {
    s.split(',').map(|x| x.trim()).collect::<Vec<_>>().join(",")
}

pub fn bytes(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = t.below(max + 1);
    let k = t.raw();
    (0..n).map(|i| (k.wrapping_mul(2654435761).wrapping_add(i as u32 * 40503) >> 13) as u8).collect()
}

pub fn chunks(t: &mut Tape, data: &[u8]) -> BodyCase {
    hdv_core::reqs::chunk_up(t, data, false)
}

pub const PATHS: [&str; 8] = ["/", "/a", "/a/b", "/r/7", "/x%20y", "/a/b/c", "*", "/item/42"];

/// A request whose meaning is irrelevant to the decoder.
pub fn any_req(t: &mut Tape) -> ReqCase {
    let method = t.pick(&["GET", "HEAD", "POST", "PUT", "HEAD", "DELETE", "PATCH", "OPTIONS", "PROPFIND", "CONNECT"]).to_string();
    let path = t.pick(&PATHS).to_string();
    let query = if path != "*" && t.pct(30) { Some(t.pick(&["", "a=b", "x=%20&y", "a=1&a=2"]).to_string()) } else { None };
    let n = t.below(4);
    let headers = (0..n)
        .map(|i| {
            (
                t.pick(&["x-a", "content-type", "content-length", "x-b", "host", "expect", "connection"]).to_string(),
                format!("{}{}", t.pick(&["1", "text/html", "close", "", "v"]), i),
            )
        })
        .collect();
    let body = if t.pct(60) {
        let b = bytes(t, 40);
        chunks(t, &b)
    } else {
        BodyCase { chunks: vec![], fail: false, end_pend: 0 }
    };
    ReqCase {
        main: 0,
        method,
        form: if t.pct(10) { UriForm::Absolute("h.example:81".into()) } else { UriForm::Origin },
        path: path.replace("*", if t.pct(50) { "*" } else { "/s" }),
        query,
        version: t.below(3) as u8,
        headers,
        body,
        ctx: String::new(),
    }
}
