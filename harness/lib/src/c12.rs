//! Errors: every status code there is, against every way of making an error.

use crate::common::*;
use hdv_core::tape::Tape;
use http::{Method, StatusCode};
use hyperdrive::{BoxedError, Error};
use serde_json::json;
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
enum Src {
    Str(&'static str),
    Text(String),
    /// Depth of the chain of causes below it.
    Mark(u32),
    Boxed(u32),
    Own(u16),
    Io,
}

fn src(t: &mut Tape) -> Src {
    const S: [&str; 6] = ["file not found", "", "404 Not Found", "a: b\r\nc", "é✓ 漢", "0"];
    match t.below(6) {
        0 => Src::Str(t.pick(&S)),
        1 => {
            let n = t.below(4);
            Src::Text((0..n).map(|_| *t.pick(&S)).collect::<Vec<_>>().join("/"))
        }
        2 => Src::Mark(t.below(4) as u32),
        3 => Src::Boxed(t.below(3) as u32),
        4 => Src::Own(400 + t.below(200) as u16),
        _ => Src::Io,
    }
}

fn chain(n: u32) -> Mark {
    Mark { id: n, cause: if n == 0 { None } else { Some(Box::new(chain(n - 1))) } }
}

impl Src {
    fn make(&self, status: StatusCode) -> Error {
        match self {
            Src::Str(s) => Error::with_source(status, *s),
            Src::Text(s) => Error::with_source(status, s.clone()),
            Src::Mark(n) => Error::with_source(status, chain(*n)),
            Src::Boxed(n) => Error::with_source(status, Box::new(chain(*n)) as BoxedError),
            Src::Own(s) => Error::with_source(status, Error::from_status(StatusCode::from_u16(*s).unwrap())),
            Src::Io => Error::with_source(status, std::io::Error::new(std::io::ErrorKind::Other, "disk on fire")),
        }
    }
    fn text(&self) -> String {
        match self {
            Src::Str(s) => s.to_string(),
            Src::Text(s) => s.clone(),
            Src::Mark(n) | Src::Boxed(n) => chain(*n).to_string(),
            Src::Own(s) => Error::from_status(StatusCode::from_u16(*s).unwrap()).to_string(),
            Src::Io => "disk on fire".into(),
        }
    }
    /// The identity of the source, as far as its type has one.
    fn check(&self, s: &(dyn std::error::Error + 'static)) -> Result<(), String> {
        if s.to_string() != self.text() {
            return Err(format!("the source displays as {:?}", s.to_string()));
        }
        let ok = match self {
            Src::Mark(n) | Src::Boxed(n) => {
                // the complete chain
                let mut cur = Some(s);
                for k in (0..=*n).rev() {
                    match cur.and_then(|c| c.downcast_ref::<Mark>()) {
                        Some(m) if m.id == k => cur = std::error::Error::source(m),
                        _ => return Err(format!("chain of causes broken at {}", k)),
                    }
                }
                cur.is_none()
            }
            Src::Own(st) => s.downcast_ref::<Error>().map_or(false, |e| e.http_status().as_u16() == *st),
            Src::Io => s.is::<std::io::Error>(),
            _ => true,
        };
        if ok {
            Ok(())
        } else {
            Err("the source is not the error given".into())
        }
    }
}

fn verify(e: &Error, status: u16, source: Option<&Src>, allow: &[&'static Method], how: &str) -> Result<(), Bad> {
    let bad = |m: String| -> Result<(), Bad> {
        differ(&format!("{} with status {}: {}", how, status, m), json!({"status": status, "allow": allow.iter().map(|m| m.as_str()).collect::<Vec<_>>()}), format!("{:?} / {}", e, e))
    };
    if e.http_status().as_u16() != status {
        return bad(format!("http_status() is {}", e.http_status()));
    }
    let std_src = std::error::Error::source(e);
    match (source, e.source(), std_src) {
        (None, None, None) => {}
        (Some(s), Some(a), Some(b)) => {
            for x in [a, b] {
                if let Err(m) = s.check(x) {
                    return bad(m);
                }
            }
        }
        (_, a, b) => return bad(format!("source() is {:?} / {:?}", a, b)),
    }
    let d = e.to_string();
    if !d.contains(&status.to_string()) {
        return bad(format!("displays as {:?}, without the status", d));
    }
    if let Some(s) = source {
        if !d.contains(&s.text()) {
            return bad(format!("displays as {:?}, without the source's text", d));
        }
    }
    if format!("{:?}", e).is_empty() {
        return bad("empty debug output".into());
    }
    let want = if status == 405 { Some(allow.to_vec()) } else { None };
    if e.allowed_methods().map(|m| m.to_vec()) != want {
        return bad(format!("allowed_methods() is {:?}", e.allowed_methods()));
    }
    // building the response must be repeatable
    for _ in 0..2 {
        let r: http::Response<()> = e.response();
        if r.status().as_u16() != status {
            return bad(format!("the response has status {}", r.status()));
        }
        let hs: Vec<(String, Vec<u8>)> =
            r.headers().iter().map(|(k, v)| (k.to_string(), v.as_bytes().to_vec())).collect();
        if status == 405 {
            if hs.len() != 1 || hs[0].0 != "allow" {
                return bad(format!("the response has headers {:?}", r.headers()));
            }
            let got = norm_allow(&String::from_utf8_lossy(&hs[0].1));
            let exp = allow.iter().map(|m| m.as_str()).collect::<Vec<_>>().join(",");
            if got != exp {
                return bad(format!("Allow: {:?}", got));
            }
        } else if !hs.is_empty() {
            return bad(format!("the response has headers {:?}", r.headers()));
        }
    }
    Ok(())
}

pub fn case(t: &mut Tape, o: &mut Obsd) -> Result<(), Bad> {
    let s = src(t);
    let allow = methods(t, 7);
    let form = t.below(3);
    o.describe = json!({"source": format!("{:?}", s), "methods": allow.iter().map(|m| m.as_str()).collect::<Vec<_>>(), "list": form, "statuses": "100..=599"});
    o.nontrivial = true;
    o.label(format!("source: {}", format!("{:?}", s).split('(').next().unwrap_or("").trim()));
    o.label(match allow.len() {
        0 => "no methods",
        1 => "one method",
        _ => "several methods",
    });
    // every status the status type can express
    for code in 0..=u16::MAX.min(1100) {
        let status = match StatusCode::from_u16(code) {
            Ok(s) => s,
            Err(_) => continue,
        };
        let plain = catch_unwind(AssertUnwindSafe(|| Error::from_status(status)));
        let with = catch_unwind(AssertUnwindSafe(|| s.make(status)));
        o.evals += 2;
        let fits = status.is_client_error() || status.is_server_error();
        match (fits, plain, with) {
            (false, Err(_), Err(_)) => {}
            (true, Ok(p), Ok(w)) => {
                verify(&p, code, None, &[], "from_status")?;
                verify(&w, code, Some(&s), &[], "with_source")?;
            }
            (f, p, w) => {
                return differ(
                    &format!("status {}", code),
                    if f { "accepted" } else { "a panic" },
                    format!("from_status: {}, with_source: {}", if p.is_ok() { "accepted" } else { "panic" }, if w.is_ok() { "accepted" } else { "panic" }),
                )
            }
        }
    }
    let e = catch_unwind(AssertUnwindSafe(|| match form {
        0 => Error::wrong_method(allow.clone()),
        1 => Error::wrong_method(Cow::Owned(allow.clone())),
        _ => {
            static LISTS: std::sync::Mutex<Vec<&'static [&'static Method]>> = std::sync::Mutex::new(vec![]);
            let mut l = LISTS.lock().unwrap_or_else(|e| e.into_inner());
            let x: &'static [&'static Method] = match l.iter().find(|x| ***x == allow[..]) {
                Some(x) => x,
                None => {
                    let x: &'static [&'static Method] = Box::leak(allow.clone().into_boxed_slice());
                    l.push(x);
                    x
                }
            };
            Error::wrong_method(x)
        }
    }));
    o.evals += 1;
    match e {
        Err(_) => differ("wrong_method panicked", "an error", "panic"),
        Ok(e) => verify(&e, 405, None, &allow, "wrong_method"),
    }
}
