//! Body wrappers, driven directly with many chunkings and stream faults.

use crate::common::*;
use hdv_core::form;
use hdv_core::spec::{BodyCase, ReqCase};
use hdv_core::tape::Tape;
use hdv_rt::exec::{build, drive, make_body};
use hyperdrive::body::{HtmlForm, Json};
use hyperdrive::{FromBody, NoContext};
use futures::IntoFuture;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Deep {
    name: String,
    #[serde(default)]
    kids: Vec<Deep>,
    n: Option<i64>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: u8,
    b: bool,
}

fn json_text(t: &mut Tape) -> String {
    fn val(t: &mut Tape, d: u32) -> Value {
        match t.below(if d == 0 { 5 } else { 7 }) {
            0 => Value::Null,
            1 => json!(t.pct(50)),
            2 => json!(t.raw() as i64 - 0x7fff_ffff),
            3 => json!(text(t)),
            4 => json!(t.raw() as f64 / 7.0),
            5 => Value::Array((0..t.below(4)).map(|_| val(t, d - 1)).collect()),
            _ => {
                let n = t.below(4);
                Value::Object((0..n).map(|_| (text(t), val(t, d - 1))).collect())
            }
        }
    }
    fn deep(t: &mut Tape, d: u32) -> Deep {
        Deep {
            name: text(t),
            kids: if d == 0 { vec![] } else { (0..t.below(3)).map(|_| deep(t, d - 1)).collect() },
            n: if t.pct(50) { Some(t.raw() as i64) } else { None },
        }
    }
    match t.below(4) {
        0 => val(t, 3).to_string(),
        1 => serde_json::to_string_pretty(&deep(t, 2)).unwrap(),
        2 => json!({"a": t.below(300), "b": t.pct(50)}).to_string(),
        _ => {
            let pad = " \n\t\r".repeat(t.below(4));
            format!("{}{}{}", pad, val(t, 2), pad)
        }
    }
}
fn text(t: &mut Tape) -> String {
    const P: [&str; 10] = ["a", "", "é", "漢字", "\u{1F600}", "\"\\\n", "name", "0", "\u{0}", "long-long-long"];
    let n = t.below(3) + 1;
    (0..n).map(|_| *t.pick(&P)).collect()
}
fn form_text(t: &mut Tape) -> String {
    if t.pct(30) {
        return format!("a={}&b={}", t.below(300), t.pick(&["true", "false", "", "1"]));
    }
    let n = t.below(5);
    let ps: Vec<String> = (0..n)
        .map(|_| match t.below(6) {
            0 => String::new(),
            1 => text(t).chars().filter(|c| *c > ' ').collect(),
            2 => format!("{}=%zz+%", form::encode_component(&text(t))),
            3 => format!("{}=%FF%C3", form::encode_component(&text(t))),
            _ => format!("{}={}", form::encode_component(&text(t)), form::encode_component(&text(t))),
        })
        .collect();
    ps.join("&")
}

fn damage(t: &mut Tape, b: &mut Vec<u8>) {
    match t.below(6) {
        0 => b.truncate(b.len().saturating_sub(1 + t.below(3))),
        1 => b.push(*t.pick(&[b'x', b'}', 0, 0xff, b',', b'&'])),
        2 if !b.is_empty() => {
            let i = t.below(b.len());
            b[i] ^= 1 << t.below(8);
        }
        3 => b.insert(0, *t.pick(&[0xef, b'x', b'[', 0])),
        4 if !b.is_empty() => {
            let i = t.below(b.len());
            b.remove(i);
        }
        _ => b.clear(),
    }
}

type Out = Result<String, String>;

fn run<W>(req: &Arc<http::Request<()>>, body: hyper::Body, show: fn(&W) -> String) -> Option<Out>
where
    W: FromBody<Context = NoContext>,
{
    drive(W::from_body(req, body, &NoContext).into_future(), 1_000_000)
        .map(|r| r.map(|w| show(&w)).map_err(|e| e.to_string()))
}

struct Ty {
    name: &'static str,
    run: fn(&Arc<http::Request<()>>, hyper::Body) -> Option<Out>,
    whole: fn(&[u8]) -> Out,
}

fn s<T: Debug>(x: &T) -> String {
    format!("{:?}", x)
}
fn jr<T: DeserializeOwned + Send + Debug + 'static>(r: &Arc<http::Request<()>>, b: hyper::Body) -> Option<Out> {
    run::<Json<T>>(r, b, |w| s(&**w))
}
fn jw<T: DeserializeOwned + Debug>(b: &[u8]) -> Out {
    serde_json::from_slice::<T>(b).map(|v| s(&v)).map_err(|e| e.to_string())
}
fn fr<T: DeserializeOwned + Send + Debug + 'static>(r: &Arc<http::Request<()>>, b: hyper::Body) -> Option<Out> {
    run::<HtmlForm<T>>(r, b, |w| s(&**w))
}
fn fw<T: DeserializeOwned + Debug>(b: &[u8]) -> Out {
    serde_urlencoded::from_bytes::<T>(b).map(|v| s(&v)).map_err(|e| e.to_string())
}

const J: [Ty; 7] = [
    Ty { name: "Json<Value>", run: jr::<Value>, whole: jw::<Value> },
    Ty { name: "Json<Deep>", run: jr::<Deep>, whole: jw::<Deep> },
    Ty { name: "Json<Strict>", run: jr::<Strict>, whole: jw::<Strict> },
    Ty { name: "Json<String>", run: jr::<String>, whole: jw::<String> },
    Ty { name: "Json<Option<i64>>", run: jr::<Option<i64>>, whole: jw::<Option<i64>> },
    Ty { name: "Json<()>", run: jr::<()>, whole: jw::<()> },
    Ty { name: "Json<Vec<Value>>", run: jr::<Vec<Value>>, whole: jw::<Vec<Value>> },
];
const F: [Ty; 4] = [
    Ty { name: "HtmlForm<pairs>", run: fr::<Vec<(String, String)>>, whole: fw::<Vec<(String, String)>> },
    Ty { name: "HtmlForm<map>", run: fr::<BTreeMap<String, String>>, whole: fw::<BTreeMap<String, String>> },
    Ty { name: "HtmlForm<Strict>", run: fr::<Strict>, whole: fw::<Strict> },
    Ty { name: "HtmlForm<()>", run: fr::<()>, whole: fw::<()> },
];

/// `Deref` and `DerefMut` reach the decoded value itself.
fn access(t: &mut Tape) -> Result<(), Bad> {
    let (x, y) = (text(t), text(t));
    let mut j = Json(x.clone());
    same("Json derefs to its value", &x, &*j)?;
    j.push_str(&y);
    same("Json derefs mutably to its value", &format!("{}{}", x, y), &j.0)?;
    *j = y.clone();
    same("Json is assignable through deref", &y, &j.0)?;
    let mut f = HtmlForm(x.clone());
    same("HtmlForm derefs to its value", &x, &*f)?;
    f.push_str(&y);
    same("HtmlForm derefs mutably to its value", &format!("{}{}", x, y), &f.0)?;
    *f = y.clone();
    same("HtmlForm is assignable through deref", &y, &f.0)
}

pub fn case(t: &mut Tape, o: &mut Obsd) -> Result<(), Bad> {
    let form = t.pct(45);
    let mut data = if form { form_text(t) } else { json_text(t) }.into_bytes();
    let ty = if form { t.pick(&F) } else { t.pick(&J) };
    if t.pct(25) {
        damage(t, &mut data);
    }
    // now and then far beyond any buffer size
    if t.pct(3) {
        // any power of two up to 32 MiB, mostly the smaller ones, and next to it
        let big = if t.pct(8) { 26 } else { 20 };
        let n = (1usize << t.below(big)) - 1 + t.below(3) + if t.pct(50) { t.below(400_000) } else { 0 };
        let filler = "x".repeat(n);
        data = if form { format!("k={}&a=1", filler) } else { json!(filler).to_string() }.into_bytes();
        o.label("large");
    }
    let fail = t.pct(15);
    let mut body: BodyCase = hdv_core::reqs::chunk_up(t, &data, fail);
    if body.chunks.len() > 5000 {
        body.chunks = vec![(0, data.clone())];
    }
    if fail {
        // the stream may break anywhere, also right at the start
        let n = t.below(body.chunks.len() + 1);
        if t.pct(60) {
            body.chunks.truncate(n);
        }
    }
    let len = data.len();
    let mut headers = Vec::new();
    if t.pct(50) {
        headers.push(("content-type".to_string(), t.pick(&["application/json", "text/plain", "application/x-www-form-urlencoded; charset=latin1", "multipart/form-data", "", "image/png"]).to_string()));
    }
    if t.pct(50) {
        let n = match t.below(5) {
            0 => 0,
            1 => len / 2,
            2 => len + 7,
            3 => len.saturating_sub(1),
            _ => len,
        };
        headers.push(("content-length".to_string(), if t.pct(10) { "many".into() } else { n.to_string() }));
    }
    if t.pct(25) {
        headers.push((t.pick(&["content-encoding", "transfer-encoding", "expect", "accept"]).to_string(), t.pick(&["gzip", "chunked", "100-continue", "text/html"]).to_string()));
    }
    let rc = ReqCase {
        main: 0,
        method: t.pick(&["POST", "PUT", "GET", "HEAD", "DELETE", "TRACE"]).to_string(),
        form: hdv_core::spec::UriForm::Origin,
        path: t.pick(&["/", "/a/b"]).to_string(),
        query: if t.pct(20) { Some("a=1&b=true".into()) } else { None },
        version: t.below(3) as u8,
        headers,
        body: BodyCase { chunks: vec![], fail: false, end_pend: 0 },
        ctx: String::new(),
    };
    let (req, _) = build(&rc).map_err(Bad::new)?;
    let (parts, _) = req.into_parts();
    let req = Arc::new(http::Request::from_parts(parts, ()));
    let show = String::from_utf8_lossy(&data[..len.min(120)]).to_string();
    o.describe = json!({"type": ty.name, "data": show, "bytes": len, "chunks": body.chunks.len(), "sizes": body.chunks.iter().take(12).map(|c| c.1.len()).collect::<Vec<_>>(), "stream_fails": fail, "headers": rc.headers, "method": rc.method});
    o.nontrivial = body.chunks.len() > 1 || fail;
    o.label(ty.name);
    o.evals += 1;
    let got = match (ty.run)(&req, make_body(&body)) {
        None => return differ("the body is never decoded", "an outcome", "stuck"),
        Some(g) => g,
    };
    if fail {
        o.label("stream fails");
        if let Ok(v) = got {
            return differ("a failing stream gave a value", "an error", v);
        }
    } else {
        let want = (ty.whole)(&data);
        o.label(if want.is_ok() { "decodes" } else { "does not decode" });
        match (&want, &got) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(_), Err(_)) => {}
            _ => return differ("decoding differs from decoding the whole body", want, got),
        }
    }
    access(t)
}
