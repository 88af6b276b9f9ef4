//! Reference model: what decoding a request must yield, from the declaration
//! data alone. No regular expressions, no code shared with the crate.

use crate::form::{self, QTy};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum ExpErr {
    /// A `hyperdrive::Error`.
    Own {
        status: u16,
        /// `Some` only for 405.
        allowed: Option<BTreeSet<String>>,
        source: Src,
    },
    /// Some other error with this text.
    Foreign(String),
    /// Any error (body deserializers choose their own texts).
    Any,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Src {
    None,
    /// An error with this text, of the type with this tag.
    Text(String, String),
    /// Some error of the type with this tag.
    Of(String),
    /// Not observable.
    Any,
}

impl Expected {
    /// What is left to see when only an HTTP response is observed.
    pub fn through_service(&self) -> Expected {
        let mut e = self.clone();
        if let Err(ExpErr::Own { source, .. }) = &mut e.result {
            *source = Src::Any;
        }
        e
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, Default)]
pub struct Notes {
    /// Name of the variant selected at the outermost level.
    pub variant: Option<String>,
    /// The route was an implied HEAD route (at any level).
    pub implied_head: bool,
    /// The request went through a fallback.
    pub fallback: bool,
    /// Fallback after known path / wrong method.
    pub fallback_known_path: bool,
    pub merged: bool,
    pub depth: u32,
    /// Number of placeholders parsed successfully.
    pub placeholders: u32,
    pub query_used: bool,
    pub guards: u32,
    pub body_used: bool,
    /// The body was read to its end.
    pub body_read: bool,
    /// (pattern's methods, methods removed because a conversion fails)
    pub allowed_filtered: u32,
    /// The route was not the first one declared on its variant.
    pub later_route: bool,
    pub field_order_differs: bool,
    pub stop_at: String,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Expected {
    pub result: Result<V, ExpErr>,
    pub events: Vec<String>,
    pub notes: Notes,
}

pub struct Selected<'a> {
    pub variant: &'a Variant,
    pub caps: Vec<String>,
    pub implied_head: bool,
    pub route: usize,
}

/// Methods accepted for `key` including implied HEAD, with the variant.
pub fn methods_for<'a>(r: &'a Router, key: &Pattern) -> Vec<(usize, &'a Variant, bool)> {
    let mut out: Vec<(usize, &Variant, bool)> = Vec::new();
    for v in &r.variants {
        for rt in &v.routes {
            if rt.pattern.key() == *key && !out.iter().any(|o| o.0 == rt.method) {
                out.push((rt.method, v, false));
            }
        }
    }
    let has = |m: usize, out: &Vec<(usize, &Variant, bool)>| out.iter().position(|o| o.0 == m);
    if has(1, &out).is_none() {
        if let Some(g) = has(0, &out) {
            let v = out[g].1;
            out.push((1, v, true));
        }
    }
    out
}

pub fn matching_pattern<'a>(r: &'a Router, path: &str) -> Option<(&'a Pattern, Vec<String>)> {
    for v in &r.variants {
        for rt in &v.routes {
            if let Some(caps) = rt.pattern.matches(path) {
                return Some((&rt.pattern, caps));
            }
        }
    }
    None
}

enum Dispatch<'a> {
    To(Selected<'a>),
    NotFound,
    WrongMethod(BTreeSet<String>, u32),
}

fn dispatch<'a>(r: &'a Router, method: &str, path: &str) -> Dispatch<'a> {
    let (pat, caps) = match matching_pattern(r, path) {
        None => return Dispatch::NotFound,
        Some(x) => x,
    };
    let key = pat.key();
    let methods = methods_for(r, &key);
    for (m, v, implied) in &methods {
        if METHODS[*m] == method {
            let route = v.routes.iter().position(|rt| rt.pattern.key() == key).unwrap_or(0);
            return Dispatch::To(Selected {
                variant: v,
                caps,
                implied_head: *implied,
                route,
            });
        }
    }
    let mut allowed = BTreeSet::new();
    let mut filtered = 0;
    for (m, v, _) in &methods {
        // placeholder names of this variant's own route
        let names = v.routes[0].pattern.placeholders();
        let ok = names
            .iter()
            .zip(&caps)
            .all(|(n, c)| v.path_ty(n).parse(c).is_ok());
        if ok {
            allowed.insert(METHODS[*m].to_string());
        } else {
            filtered += 1;
        }
    }
    Dispatch::WrongMethod(allowed, filtered)
}

/// Guard script: `<polls>:<outcome>:<value>`
pub fn script(s: Option<&str>) -> (u32, String, String) {
    let s = s.unwrap_or("0:ok:-");
    let mut it = s.splitn(3, ':');
    let n = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let o = it.next().unwrap_or("ok").to_string();
    let v = it.next().unwrap_or("-").to_string();
    (n, o, v)
}

pub const GUARD_405: [&str; 2] = ["DELETE", "PATCH"];

/// The error a scripted outcome stands for (`None`: success).
pub fn scripted_error(who: &str, outcome: &str) -> Option<ExpErr> {
    match outcome {
        "ok" => None,
        "err" => Some(ExpErr::Foreign(format!("{} failed", who))),
        "h405" => Some(ExpErr::Own {
            status: 405,
            allowed: Some(GUARD_405.iter().map(|s| s.to_string()).collect()),
            source: Src::None,
        }),
        h if h.starts_with('h') => Some(ExpErr::Own {
            status: h[1..].parse().unwrap_or(500),
            allowed: None,
            source: Src::Text(format!("{} failed", who), "script".into()),
        }),
        _ => None,
    }
}

struct Run<'a> {
    fam: &'a Family,
    req: &'a ReqCase,
    events: Vec<String>,
    notes: Notes,
}

pub fn expect(fam: &Family, req: &ReqCase) -> Expected {
    let mut run = Run {
        fam,
        req,
        events: vec![],
        notes: Notes::default(),
    };
    let main = fam.mains[req.main % fam.mains.len()];
    let result = run.router(main, 0);
    Expected {
        result,
        events: run.events,
        notes: run.notes,
    }
}

fn show_body(bytes: &[u8]) -> String {
    let mut s = String::new();
    for b in bytes.iter().take(64) {
        for c in std::ascii::escape_default(*b) {
            s.push(c as char);
        }
    }
    format!("{}#{:016x}:{}", bytes.len(), fnv(bytes), s)
}
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
pub fn show_bytes(bytes: &[u8]) -> String {
    show_body(bytes)
}
pub fn show_json(v: &serde_json::Value) -> String {
    format!("json:{}", v)
}

impl<'a> Run<'a> {
    fn router(&mut self, idx: usize, depth: u32) -> Result<V, ExpErr> {
        let fam = self.fam;
        let r = &fam.routers[idx];
        self.notes.depth = self.notes.depth.max(depth);
        let path = self.req.eff_path().to_string();
        let fallback = r.variants.iter().find(|v| v.is_fallback());
        match dispatch(r, &self.req.method, &path) {
            Dispatch::To(sel) => {
                self.notes.implied_head |= sel.implied_head;
                if depth == 0 {
                    self.notes.variant = Some(sel.variant.name.clone());
                }
                if sel.route > 0 {
                    self.notes.later_route = true;
                }
                self.variant(sel.variant, &sel.caps, depth)
            }
            Dispatch::NotFound => match fallback {
                Some(v) => {
                    self.notes.fallback = true;
                    if depth == 0 {
                        self.notes.variant = Some(v.name.clone());
                    }
                    self.variant(v, &[], depth)
                }
                None => {
                    self.notes.stop_at = "route404".into();
                    Err(ExpErr::Own {
                        status: 404,
                        allowed: None,
                        source: Src::None,
                    })
                }
            },
            Dispatch::WrongMethod(ours, filtered) => {
                self.notes.allowed_filtered += filtered;
                match fallback {
                    Some(v) => {
                        self.notes.fallback = true;
                        self.notes.fallback_known_path = true;
                        if depth == 0 {
                            self.notes.variant = Some(v.name.clone());
                        }
                        match self.variant(v, &[], depth) {
                            Err(ExpErr::Own {
                                status: 405,
                                allowed,
                                ..
                            }) => {
                                self.notes.merged = true;
                                let mut u = ours;
                                u.extend(allowed.unwrap_or_default());
                                Err(ExpErr::Own {
                                    status: 405,
                                    allowed: Some(u),
                                    source: Src::None,
                                })
                            }
                            other => other,
                        }
                    }
                    None => {
                        self.notes.stop_at = "route405".into();
                        Err(ExpErr::Own {
                            status: 405,
                            allowed: Some(ours),
                            source: Src::None,
                        })
                    }
                }
            }
        }
    }

    fn variant(&mut self, v: &Variant, caps: &[String], depth: u32) -> Result<V, ExpErr> {
        let mut vals: Vec<Option<V>> = vec![None; v.fields.len()];
        let pos = |name: &str| v.fields.iter().position(|f| f.name == name).unwrap();

        // placeholders, in path order
        if let Some(rt) = v.routes.first() {
            let names = rt.pattern.placeholders();
            let mut last = None;
            for (name, cap) in names.iter().zip(caps) {
                let i = pos(name);
                if last.map_or(false, |l| l > i) {
                    self.notes.field_order_differs = true;
                }
                last = Some(i);
                match v.path_ty(name).parse(cap) {
                    Ok(s) => {
                        self.notes.placeholders += 1;
                        vals[i] = Some(V::Leaf(s))
                    }
                    Err(e) => {
                        self.notes.stop_at = "placeholder".into();
                        return Err(ExpErr::Own {
                            status: 404,
                            allowed: None,
                            source: Src::Text(e, v.path_ty(name).err_tag().into()),
                        });
                    }
                }
            }
        }
        // query
        for (i, f) in v.fields.iter().enumerate() {
            if let Kind::Query(q) = &f.kind {
                self.notes.query_used = true;
                match q.decode(self.req.eff_query().as_bytes()) {
                    Ok(s) => vals[i] = Some(V::Leaf(s)),
                    Err(()) => {
                        self.notes.stop_at = "query".into();
                        return Err(ExpErr::Own {
                            status: 400,
                            allowed: None,
                            source: Src::Of("urlencoded".into()),
                        });
                    }
                }
            }
        }
        // guards
        for (i, f) in v.fields.iter().enumerate() {
            if let Kind::Guard { id, ctx, .. } = &f.kind {
                self.notes.guards += 1;
                let who = format!("g{}", id);
                self.events.push(format!("{} call {} same", who, self.ctx(ctx)));
                let (_, outcome, value) = script(self.req.header(&format!("x-g{}", id)));
                self.events.push(format!("{} done", who));
                if let Some(e) = scripted_error(&who, &outcome) {
                    self.notes.stop_at = "guard".into();
                    return Err(e);
                }
                vals[i] = Some(V::Leaf(format!("{}={}", who, value)));
            }
        }
        // body or forward
        for (i, f) in v.fields.iter().enumerate() {
            match &f.kind {
                Kind::Body(b) => vals[i] = Some(self.body(b)?),
                Kind::Forward(Fwd::Router(k)) => vals[i] = Some(self.router(*k, depth + 1)?),
                Kind::Forward(Fwd::Spy) => vals[i] = Some(self.spy()?),
                _ => {}
            }
        }
        Ok(V::Node(
            v.name.clone(),
            v.fields
                .iter()
                .zip(vals)
                .map(|(f, v)| (f.name.clone(), v.expect("model: field without value")))
                .collect(),
        ))
    }

    fn ctx(&self, sel: &CtxSel) -> String {
        match &self.fam.ctx {
            None => "none".into(),
            Some(c) => c.show_sel(&self.req.ctx, sel),
        }
    }

    fn body(&mut self, b: &BodyTy) -> Result<V, ExpErr> {
        self.notes.body_used = true;
        let bytes = self.req.body.bytes();
        let fail = self.req.body.fail;
        match b {
            BodyTy::Raw(sel) => {
                self.notes.body_read = !fail;
                self.events.push(format!("body call {} same", self.ctx(sel)));
                if fail {
                    self.notes.stop_at = "body".into();
                    return Err(ExpErr::Any);
                }
                return Ok(V::Leaf(show_bytes(&bytes)));
            }
            BodyTy::Ignore(sel) => {
                self.events.push(format!("body call {} same", self.ctx(sel)));
                return Ok(V::Leaf("ignored".into()));
            }
            _ => {}
        }
        if fail {
            self.notes.stop_at = "body".into();
            return Err(ExpErr::Any);
        }
        self.notes.body_read = true;
        let r = match b {
            BodyTy::JsonVal => serde_json::from_slice::<serde_json::Value>(&bytes)
                .map(|v| show_json(&v))
                .map_err(|_| ()),
            BodyTy::JsonPage => serde_json::from_slice::<crate::types::Page>(&bytes)
                .map(|p| form::show_page(p.start, p.count))
                .map_err(|_| ()),
            BodyTy::JsonReq => serde_json::from_slice::<crate::types::Req>(&bytes)
                .map(|p| form::show_req(p.a, &p.b))
                .map_err(|_| ()),
            BodyTy::Form(q) => (*q as QTy).decode(&bytes),
            _ => unreachable!(),
        };
        match r {
            Ok(s) => Ok(V::Leaf(s)),
            Err(()) => {
                self.notes.stop_at = "body".into();
                Err(ExpErr::Any)
            }
        }
    }

    fn spy(&mut self) -> Result<V, ExpErr> {
        self.notes.body_used = true;
        self.events.push(format!("spy call {} same", self.ctx(&CtxSel::Own)));
        let (_, outcome, value) = script(self.req.header("x-spy"));
        if let Some(e) = scripted_error("spy", &outcome) {
            self.notes.stop_at = "spy".into();
            return Err(e);
        }
        if self.req.body.fail {
            self.notes.stop_at = "body".into();
            return Err(ExpErr::Any);
        }
        self.notes.body_read = true;
        Ok(V::Leaf(format!("spy={} {}", value, show_bytes(&self.req.body.bytes()))))
    }
}

/// What was observed when decoding for real.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Obs {
    Done {
        result: Result<V, ErrObs>,
        events: Vec<String>,
    },
    Panic(String),
    /// Not ready with no wake-up outstanding, or too many polls.
    Stuck,
    /// The request could not be built (generator problem, not a verdict).
    BadRequest(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ErrObs {
    pub own: bool,
    pub status: u16,
    pub allowed: Option<Vec<String>>,
    /// `Allow` header of `Error::response()`.
    pub allow_header: Option<String>,
    pub resp_status: u16,
    pub source: Option<String>,
    /// Tag of the source's type; empty without a source.
    pub source_ty: String,
    pub display: String,
}

pub fn err_matches(e: &ExpErr, o: &ErrObs, with_allowed: bool) -> Result<(), String> {
    match e {
        ExpErr::Any => Ok(()),
        ExpErr::Foreign(t) => {
            if o.own || &o.display != t {
                Err(format!("expected foreign error {:?}", t))
            } else {
                Ok(())
            }
        }
        ExpErr::Own {
            status,
            allowed,
            source,
        } => {
            if !o.own {
                return Err(format!("expected a hyperdrive::Error with status {}", status));
            }
            if o.status != *status || o.resp_status != *status {
                return Err(format!("expected status {}, got {} (response {})", status, o.status, o.resp_status));
            }
            match source {
                Src::None if o.source.is_some() => return Err("unexpected source".into()),
                Src::Of(_) | Src::Text(..) if o.source.is_none() => return Err("missing source".into()),
                Src::Text(t, _) if o.source.as_deref() != Some(t) => {
                    return Err(format!("expected source {:?}", t))
                }
                Src::Text(_, ty) | Src::Of(ty) if o.source_ty != *ty => {
                    return Err(format!("expected a source of the {} type", ty))
                }
                _ => {}
            }
            if with_allowed {
                let got: Option<BTreeSet<String>> =
                    o.allowed.as_ref().map(|v| v.iter().cloned().collect());
                if got != *allowed {
                    return Err(format!("expected allowed methods {:?}", allowed));
                }
                let hdr = o.allow_header.as_ref().map(|h| {
                    h.split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect::<BTreeSet<_>>()
                });
                if hdr != *allowed {
                    return Err(format!("expected Allow header {:?}", allowed));
                }
            }
            Ok(())
        }
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Facets {
    pub allowed: bool,
    pub events: bool,
    pub values: bool,
}

pub fn compare(exp: &Expected, obs: &Obs, f: Facets) -> Result<(), String> {
    let (result, events) = match obs {
        Obs::Done { result, events } => (result, events),
        Obs::Panic(m) => return Err(format!("panicked: {}", m)),
        Obs::Stuck => return Err("decoding never finishes".into()),
        Obs::BadRequest(_) => return Ok(()),
    };
    match (&exp.result, result) {
        (Ok(v), Ok(w)) => {
            if f.values {
                if v != w {
                    return Err("decoded value differs".into());
                }
            } else if v.name() != w.name() {
                return Err("decoded variant differs".into());
            }
        }
        (Err(e), Err(o)) => err_matches(e, o, f.allowed)?,
        (Ok(_), Err(_)) => return Err("request must be accepted".into()),
        (Err(_), Ok(_)) => return Err("request must be refused".into()),
    }
    if f.events && exp.events != *events {
        return Err("guard/body events differ".into());
    }
    Ok(())
}
