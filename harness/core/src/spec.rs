//! Declarations under test as data: route patterns, variants, contexts.

use crate::form::QTy;
use crate::types::PathTy;
use serde::{Deserialize, Serialize};

pub const METHODS: [&str; 9] = [
    "GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH",
];

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Seg {
    Lit(String),
    Ph(String),
    Rest(String),
}

/// No segments means the pattern `*`.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub struct Pattern {
    pub segs: Vec<Seg>,
}

impl Pattern {
    pub fn star() -> Self {
        Pattern { segs: vec![] }
    }
    pub fn is_star(&self) -> bool {
        self.segs.is_empty()
    }
    pub fn render(&self) -> String {
        if self.is_star() {
            return "*".into();
        }
        let mut s = String::new();
        for seg in &self.segs {
            s.push('/');
            match seg {
                Seg::Lit(l) => s.push_str(l),
                Seg::Ph(n) => s.push_str(&format!("{{{}}}", n)),
                Seg::Rest(n) => s.push_str(&format!("{{{}...}}", n)),
            }
        }
        s
    }
    /// The pattern with placeholder names erased.
    pub fn key(&self) -> Pattern {
        Pattern {
            segs: self
                .segs
                .iter()
                .map(|s| match s {
                    Seg::Lit(l) => Seg::Lit(l.clone()),
                    Seg::Ph(_) => Seg::Ph(String::new()),
                    Seg::Rest(_) => Seg::Rest(String::new()),
                })
                .collect(),
        }
    }
    pub fn placeholders(&self) -> Vec<&str> {
        self.segs
            .iter()
            .filter_map(|s| match s {
                Seg::Lit(_) => None,
                Seg::Ph(n) | Seg::Rest(n) => Some(n.as_str()),
            })
            .collect()
    }
    /// Segment-wise matcher: the texts of the placeholders in path order.
    pub fn matches(&self, path: &str) -> Option<Vec<String>> {
        if self.is_star() {
            return if path == "*" { Some(vec![]) } else { None };
        }
        let rest = path.strip_prefix('/')?;
        let parts: Vec<&str> = rest.split('/').collect();
        let mut out = Vec::new();
        let mut i = 0;
        for seg in &self.segs {
            if i >= parts.len() {
                return None;
            }
            match seg {
                Seg::Lit(l) => {
                    if parts[i] != l {
                        return None;
                    }
                }
                Seg::Ph(_) => {
                    if parts[i].is_empty() {
                        return None;
                    }
                    out.push(parts[i].to_string());
                }
                Seg::Rest(_) => {
                    out.push(parts[i..].join("/"));
                    return Some(out);
                }
            }
            i += 1;
        }
        if i == parts.len() {
            Some(out)
        } else {
            None
        }
    }
    /// Whether some path is matched by both patterns.
    pub fn overlaps(&self, other: &Pattern) -> bool {
        match (self.is_star(), other.is_star()) {
            (true, true) => return true,
            (false, false) => {}
            _ => return false,
        }
        fn go(a: &[Seg], b: &[Seg]) -> bool {
            match (a.first(), b.first()) {
                (None, None) => true,
                (Some(Seg::Rest(_)), Some(_)) | (Some(_), Some(Seg::Rest(_))) => true,
                (Some(x), Some(y)) => {
                    let here = match (x, y) {
                        (Seg::Lit(l), Seg::Lit(m)) => l == m,
                        (Seg::Lit(l), _) | (_, Seg::Lit(l)) => !l.is_empty(),
                        _ => true,
                    };
                    here && go(&a[1..], &b[1..])
                }
                _ => false,
            }
        }
        go(&self.segs, &other.segs)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Route {
    pub method: usize,
    pub pattern: Pattern,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum CtxSel {
    None,
    Own,
    Field(usize),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum BodyTy {
    /// Collects the bytes, records the call and its context.
    Raw(CtxSel),
    /// Ignores the body, immediate result.
    Ignore(CtxSel),
    JsonVal,
    JsonPage,
    JsonReq,
    Form(QTy),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Fwd {
    Router(usize),
    Spy,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Kind {
    Path(PathTy),
    Query(QTy),
    Guard { id: u8, asy: bool, ctx: CtxSel },
    Body(BodyTy),
    Forward(Fwd),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Field {
    pub name: String,
    pub kind: Kind,
    /// Index of the type parameter this field's type is in a generic
    /// declaration.
    pub param: Option<usize>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Style {
    Named,
    /// No fields, written without braces.
    Unit,
    /// Only for variants that are never constructed.
    Tuple,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Variant {
    pub name: String,
    pub style: Style,
    pub routes: Vec<Route>,
    pub fields: Vec<Field>,
}

impl Variant {
    pub fn forward(&self) -> Option<&Field> {
        self.fields.iter().find(|f| matches!(f.kind, Kind::Forward(_)))
    }
    pub fn is_fallback(&self) -> bool {
        self.routes.is_empty() && self.forward().is_some()
    }
    pub fn path_ty(&self, name: &str) -> PathTy {
        match self.fields.iter().find(|f| f.name == name).map(|f| &f.kind) {
            Some(Kind::Path(t)) => *t,
            _ => PathTy::Str,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Router {
    pub name: String,
    pub is_struct: bool,
    pub variants: Vec<Variant>,
    /// Number of type parameters (0: not generic).
    pub params: usize,
    /// This router is another instantiation of the generic router at that
    /// index; only the field types differ.
    pub inst_of: Option<usize>,
    /// Add unrelated attributes, doc comments and where clauses.
    pub noise: u32,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum CtxShape {
    Named,
    Tuple,
    Unit,
    Enum,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum CtxTy {
    Leaf(u8),
    /// A leaf type that is itself generic: `hdv_rt::Lg<hdv_rt::L{n}>`
    GenLeaf(u8),
    Nested(Box<CtxSpec>),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct CtxField {
    pub name: String,
    pub ty: CtxTy,
    pub as_ref: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct CtxSpec {
    pub name: String,
    pub shape: CtxShape,
    pub fields: Vec<CtxField>,
    /// Adds a type parameter used by an extra unmarked field and by fields
    /// with `GenLeaf(7)`.
    pub generic: bool,
}

impl CtxTy {
    pub fn rust(&self) -> String {
        match self {
            CtxTy::Leaf(n) => format!("hdv_rt::L{}", n),
            CtxTy::GenLeaf(n) => format!("hdv_rt::Lg<hdv_rt::L{}>", n),
            CtxTy::Nested(c) => c.rust(),
        }
    }
    pub fn show(&self, path: &str) -> String {
        match self {
            CtxTy::Leaf(n) => format!("L{}[{}]", n, path),
            CtxTy::GenLeaf(n) => format!("Lg<L{}[{}]>", n, path),
            CtxTy::Nested(c) => c.show(path),
        }
    }
}

impl CtxSpec {
    /// The type of a field as written in the declaration.
    pub fn decl_ty(&self, f: &CtxField) -> String {
        match f.ty {
            CtxTy::GenLeaf(7) if self.generic => "hdv_rt::Lg<T>".into(),
            _ => f.ty.rust(),
        }
    }
    /// The concrete type as used in `#[context(..)]`.
    pub fn rust(&self) -> String {
        if self.generic {
            format!("{}<hdv_rt::L7>", self.name)
        } else {
            self.name.clone()
        }
    }
    pub fn show(&self, path: &str) -> String {
        if self.shape == CtxShape::Enum {
            return format!("{}[V{}]", self.name, path);
        }
        let fs: Vec<String> = self
            .fields
            .iter()
            .map(|f| f.ty.show(&format!("{}.{}", path, f.name)))
            .collect();
        format!("{}[{}]", self.name, fs.join(","))
    }
    pub fn show_sel(&self, seed: &str, sel: &CtxSel) -> String {
        match sel {
            CtxSel::None => "none".into(),
            CtxSel::Own => self.show(seed),
            CtxSel::Field(i) => self.fields[*i].ty.show(&format!("{}.{}", seed, self.fields[*i].name)),
        }
    }
}

/// A self-contained group of declarations; compiled as one module.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Family {
    pub name: String,
    pub edition: u32,
    pub ctx: Option<CtxSpec>,
    pub routers: Vec<Router>,
    /// Routers that requests are sent to.
    pub mains: Vec<usize>,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum UriForm {
    Origin,
    Absolute(String),
    /// `host:port` only; the path is empty.
    Authority(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct BodyCase {
    /// (number of not-ready polls before the chunk, chunk)
    pub chunks: Vec<(u8, Vec<u8>)>,
    /// Stream error after the chunks.
    pub fail: bool,
    pub end_pend: u8,
}

impl BodyCase {
    pub fn bytes(&self) -> Vec<u8> {
        self.chunks.iter().flat_map(|c| c.1.iter().copied()).collect()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ReqCase {
    /// Position in `Family::mains`.
    pub main: usize,
    pub method: String,
    pub form: UriForm,
    pub path: String,
    pub query: Option<String>,
    pub version: u8,
    pub headers: Vec<(String, String)>,
    pub body: BodyCase,
    pub ctx: String,
}

impl ReqCase {
    pub fn uri(&self) -> String {
        let q = match &self.query {
            Some(q) => format!("?{}", q),
            None => String::new(),
        };
        match &self.form {
            UriForm::Origin => format!("{}{}", self.path, q),
            UriForm::Absolute(a) => format!("http://{}{}{}", a, self.path, q),
            UriForm::Authority(a) => a.clone(),
        }
    }
    /// The request path the declarations are matched against.
    pub fn eff_path(&self) -> &str {
        match &self.form {
            UriForm::Authority(_) => "",
            UriForm::Absolute(_) if self.path.is_empty() => "/",
            _ => &self.path,
        }
    }
    pub fn eff_query(&self) -> &str {
        match &self.form {
            UriForm::Authority(_) => "",
            _ => self.query.as_deref().unwrap_or(""),
        }
    }
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|h| h.0 == name).map(|h| h.1.as_str())
    }
}

/// Decoded value as observed through the generated `Show` impls.
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum V {
    Leaf(String),
    Node(String, Vec<(String, V)>),
}

impl V {
    pub fn name(&self) -> &str {
        match self {
            V::Leaf(s) => s,
            V::Node(n, _) => n,
        }
    }
}
