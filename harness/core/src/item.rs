//! Declarations as editable items: rendering for crates that depend on
//! hyperdrive only, rule-breaking edits and rule-keeping decorations.

use crate::gen::gen_ctx;
use crate::render::{self, kind_ty, param};
use crate::spec::*;
use crate::tape::Tape;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Fld {
    pub attrs: Vec<String>,
    pub vis: String,
    pub name: String,
    pub ty: String,
}

#[derive(Clone, Debug)]
pub struct Var {
    pub attrs: Vec<String>,
    pub name: String,
    pub style: Style,
    pub fields: Vec<Fld>,
    pub tail: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Enum,
    Struct,
    Union,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub attrs: Vec<String>,
    pub what: What,
    pub name: String,
    pub params: Vec<String>,
    pub wher: Vec<String>,
    pub variants: Vec<Var>,
}

impl Item {
    fn fields(&self, s: &mut String, v: &Var) {
        match v.style {
            Style::Unit => {}
            Style::Named => {
                s.push_str(" {\n");
                for f in &v.fields {
                    for a in &f.attrs {
                        let _ = writeln!(s, "        {}", a);
                    }
                    let _ = writeln!(s, "        {}{}: {},", f.vis, f.name, f.ty);
                }
                s.push_str("    }");
            }
            Style::Tuple => {
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| format!("{}\n{}{}", f.attrs.join("\n"), f.vis, f.ty))
                    .collect();
                let _ = write!(s, "({})", fs.join(", "));
            }
        }
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        for a in &self.attrs {
            let _ = writeln!(s, "{}", a);
        }
        let g = if self.params.is_empty() {
            String::new()
        } else {
            format!("<{}>", self.params.join(", "))
        };
        let w = if self.wher.is_empty() {
            String::new()
        } else {
            format!(" where {}", self.wher.join(", "))
        };
        match self.what {
            What::Enum => {
                let _ = writeln!(s, "pub enum {}{}{} {{", self.name, g, w);
                for v in &self.variants {
                    for a in &v.attrs {
                        let _ = writeln!(s, "    {}", a);
                    }
                    let _ = write!(s, "    {}", v.name);
                    self.fields(&mut s, v);
                    let _ = writeln!(s, "{},", v.tail);
                }
                s.push_str("}\n");
            }
            What::Struct | What::Union => {
                let v = &self.variants[0];
                for a in &v.attrs {
                    let _ = writeln!(s, "{}", a);
                }
                let kw = if self.what == What::Struct { "struct" } else { "union" };
                let _ = write!(s, "pub {} {}{}", kw, self.name, g);
                if v.style != Style::Tuple {
                    s.push_str(&w);
                }
                self.fields(&mut s, v);
                if v.style == Style::Tuple {
                    s.push_str(&w);
                }
                s.push_str(if v.style == Style::Named { "\n" } else { ";\n" });
            }
        }
        s
    }
}

fn role(k: &Kind) -> Option<&'static str> {
    match k {
        Kind::Query(_) => Some("#[query_params]"),
        Kind::Body(_) => Some("#[body]"),
        Kind::Forward(_) => Some("#[forward]"),
        _ => None,
    }
}

pub fn route_attr(r: &Route) -> String {
    format!("#[{}({:?})]", METHODS[r.method].to_lowercase(), r.pattern.render())
}

pub fn item_of(fam: &Family, idx: usize) -> Item {
    let r = &fam.routers[idx];
    let mut attrs = vec!["#[derive(hyperdrive::FromRequest)]".to_string()];
    if let Some(c) = &fam.ctx {
        attrs.push(format!("#[context({})]", c.rust()));
    }
    Item {
        attrs,
        what: if r.is_struct { What::Struct } else { What::Enum },
        name: if r.params > 0 { format!("{}D", r.name) } else { r.name.clone() },
        params: (0..r.params).map(param).collect(),
        wher: vec![],
        variants: r
            .variants
            .iter()
            .map(|v| Var {
                attrs: v.routes.iter().map(route_attr).collect(),
                name: v.name.clone(),
                style: v.style,
                fields: v
                    .fields
                    .iter()
                    .map(|f| Fld {
                        attrs: role(&f.kind).map(|s| s.to_string()).into_iter().collect(),
                        vis: String::new(),
                        name: f.name.clone(),
                        ty: match f.param {
                            Some(p) => param(p),
                            None => kind_ty(fam, &f.kind),
                        },
                    })
                    .collect(),
                tail: String::new(),
            })
            .collect(),
    }
}

fn ctx_items(c: &CtxSpec, out: &mut Vec<Item>) {
    for f in &c.fields {
        if let CtxTy::Nested(n) = &f.ty {
            ctx_items(n, out);
        }
    }
    let mut fields: Vec<Fld> = c
        .fields
        .iter()
        .map(|f| Fld {
            attrs: if f.as_ref { vec!["#[as_ref]".into()] } else { vec![] },
            vis: String::new(),
            name: f.name.clone(),
            ty: c.decl_ty(f),
        })
        .collect();
    if c.generic && c.shape != CtxShape::Enum {
        fields.push(Fld {
            attrs: vec![],
            vis: String::new(),
            name: if c.shape == CtxShape::Tuple { c.fields.len().to_string() } else { "spare".into() },
            ty: "Option<T>".into(),
        });
    }
    let var = |name: &str, style: Style, fields: Vec<Fld>| Var {
        attrs: vec![],
        name: name.into(),
        style,
        fields,
        tail: String::new(),
    };
    let (what, variants) = match c.shape {
        CtxShape::Named => (What::Struct, vec![var("", Style::Named, fields)]),
        CtxShape::Tuple => (What::Struct, vec![var("", Style::Tuple, fields)]),
        CtxShape::Unit => (What::Struct, vec![var("", Style::Unit, vec![])]),
        CtxShape::Enum => {
            let f = |n: &str, t: &str| Fld {
                attrs: vec![],
                vis: String::new(),
                name: n.into(),
                ty: t.into(),
            };
            (
                What::Enum,
                vec![
                    var("W", Style::Unit, vec![]),
                    var("V", Style::Tuple, vec![f("0", "String")]),
                    var("X", Style::Named, if c.generic { vec![f("a", "u32"), f("t", "T")] } else { vec![f("a", "u32")] }),
                ],
            )
        }
    };
    out.push(Item {
        attrs: vec!["#[derive(Clone, hyperdrive::RequestContext)]".into()],
        what,
        name: c.name.clone(),
        params: if c.generic { vec!["T".into()] } else { vec![] },
        wher: vec![],
        variants,
    });
}

/// All items of a family; the last one is the main router.
pub struct Unit {
    pub ctxs: Vec<Item>,
    pub routers: Vec<Item>,
    pub tail: String,
    pub head: String,
}

pub fn unit_of(fam: &Family) -> Unit {
    let mut u = Unit {
        ctxs: vec![],
        routers: vec![],
        tail: String::new(),
        head: String::new(),
    };
    if let Some(c) = &fam.ctx {
        ctx_items(c, &mut u.ctxs);
    }
    for (i, r) in fam.routers.iter().enumerate() {
        if r.inst_of.is_none() && !(r.name.ends_with('M') && i > fam.mains[0]) {
            u.routers.push(item_of(fam, i));
            if r.params > 0 {
                let _ = writeln!(u.tail, "pub type {} = {}D{};", r.name, r.name, render::type_args(fam, i));
            }
            let _ = writeln!(u.tail, "fn check_{}() {{ hdv_rt::is::<{}>() }}", i, r.name);
        }
    }
    u
}

impl Unit {
    pub fn render(&self) -> String {
        let mut s = self.head.clone();
        for i in self.ctxs.iter().chain(&self.routers) {
            s.push_str(&i.render());
        }
        s.push_str(&self.tail);
        s.replace("hdv_rt::", "crate::pre::")
    }
    fn main(&mut self) -> &mut Item {
        self.routers.last_mut().expect("a router")
    }
}

// ------------------------------------------------------------ breaking edits

pub const MUTATIONS: &[&str] = &[
    "path-start",
    "bad-ident",
    "dup-placeholder",
    "unmatched-placeholder",
    "inconsistent-placeholders",
    "rest-not-last",
    "dup-role",
    "two-roles",
    "body-and-forward",
    "role-without-route",
    "two-fallbacks",
    "not-constructible",
    "misplaced-attr",
    "malformed-route",
    "malformed-role",
    "malformed-context",
    "two-contexts",
    "tuple",
    "union",
    "as-ref-misuse",
];

fn guard_ty(fam: &Family) -> String {
    let _ = fam;
    "hdv_rt::Gd<hyperdrive::NoContext, hdv_rt::I7>".into()
}
fn body_ty() -> String {
    "hdv_rt::Raw<hyperdrive::NoContext>".into()
}
fn query_ty() -> String {
    "Vec<(String, String)>".into()
}
fn spy_ty(fam: &Family) -> String {
    kind_ty(fam, &Kind::Forward(Fwd::Spy))
}
fn fld(attr: &[&str], name: &str, ty: String) -> Fld {
    Fld {
        attrs: attr.iter().map(|s| s.to_string()).collect(),
        vis: String::new(),
        name: name.into(),
        ty,
    }
}

fn set_path(v: &mut Var, k: usize, method: usize, path: &str) {
    v.attrs[k] = format!("#[{}({:?})]", METHODS[method].to_lowercase(), path);
}

fn add_field(t: &mut Tape, v: &mut Var, f: Fld) {
    if v.style == Style::Unit {
        v.style = Style::Named;
    }
    let at = t.below(v.fields.len() + 1);
    v.fields.insert(at, f);
}

/// Breaks the documented rule `rule` in the main router (or its context).
/// `None` if the family offers no place for it.
pub fn mutate(rule: &str, t: &mut Tape, fam: &Family, u: &mut Unit) -> Option<()> {
    let ridx = fam.mains[0];
    let r = &fam.routers[ridx];
    let routed: Vec<usize> = (0..r.variants.len()).filter(|i| !r.variants[*i].routes.is_empty()).collect();
    let some_routed = |t: &mut Tape| -> Option<usize> {
        if routed.is_empty() {
            None
        } else {
            Some(*t.pick(&routed))
        }
    };
    let has = |vi: usize, f: &dyn Fn(&Kind) -> bool| r.variants[vi].fields.iter().any(|x| f(&x.kind));
    let is_body = |k: &Kind| matches!(k, Kind::Body(_));
    let is_query = |k: &Kind| matches!(k, Kind::Query(_));
    let is_fwd = |k: &Kind| matches!(k, Kind::Forward(_));
    match rule {
        "path-start" => {
            let vi = some_routed(t)?;
            let k = t.below(r.variants[vi].routes.len());
            let rt = &r.variants[vi].routes[k];
            let p = rt.pattern.render();
            let bad = match t.below(4) {
                0 => format!("x{}", p),
                1 => format!(" {}", p),
                2 => format!("*{}", p),
                _ => {
                    let b = p.trim_start_matches('/').to_string();
                    if b == "*" {
                        "**".into()
                    } else {
                        b
                    }
                }
            };
            set_path(&mut u.main().variants[vi], k, rt.method, &bad);
        }
        "bad-ident" => {
            let vi = some_routed(t)?;
            let bad = *t.pick(&["0a", "", "a-b", "...", "_", "a b", "a.b", "a..", "{a}", "_...", "1...", "r#x", "a::b", "*", "a,b", "..."]);
            for (k, rt) in r.variants[vi].routes.iter().enumerate() {
                let p = rt.pattern.render();
                let p = if p == "*" { String::new() } else { p };
                // in front, so that no other rule is broken
                let p = format!("/{{{}}}{}", bad, p);
                set_path(&mut u.main().variants[vi], k, rt.method, &p);
            }
        }
        "dup-placeholder" => {
            let c: Vec<usize> = routed
                .iter()
                .copied()
                .filter(|i| !r.variants[*i].routes[0].pattern.placeholders().is_empty())
                .collect();
            if c.is_empty() {
                return None;
            }
            let vi = *t.pick(&c);
            let names = r.variants[vi].routes[0].pattern.placeholders();
            let n = t.pick(&names).to_string();
            for (k, rt) in r.variants[vi].routes.iter().enumerate() {
                let p = format!("/{{{}}}{}", n, rt.pattern.render());
                set_path(&mut u.main().variants[vi], k, rt.method, &p);
            }
        }
        "unmatched-placeholder" => {
            let vi = some_routed(t)?;
            for (k, rt) in r.variants[vi].routes.iter().enumerate() {
                let p = rt.pattern.render();
                let p = format!("/{{zz_none}}{}", if p == "*" { "" } else { &p });
                set_path(&mut u.main().variants[vi], k, rt.method, &p);
            }
        }
        "inconsistent-placeholders" => {
            let vi = some_routed(t)?;
            let rt = &r.variants[vi].routes[0];
            let names: Vec<String> = rt.pattern.placeholders().iter().map(|s| s.to_string()).collect();
            let v = &mut u.main().variants[vi];
            let m = METHODS[t.below(9)].to_lowercase();
            let path = match (names.len(), t.below(3)) {
                (0, _) => {
                    add_field(t, v, fld(&[], "zz_p", "String".into()));
                    "/zz9/{zz_p}".to_string()
                }
                (n, 0) if n >= 2 => format!(
                    "/zz9/{}",
                    names.iter().rev().map(|n| format!("{{{}}}", n)).collect::<Vec<_>>().join("/")
                ),
                (n, 1) if n >= 2 => format!("/zz9/{{{}}}", names[t.below(n)]),
                (_, 2) => {
                    add_field(t, v, fld(&[], "zz_p", "String".into()));
                    format!(
                        "/zz9/{}/{{zz_p}}",
                        names.iter().map(|n| format!("{{{}}}", n)).collect::<Vec<_>>().join("/")
                    )
                }
                _ => "/zz9".to_string(),
            };
            let at = if t.pct(50) { 0 } else { v.attrs.len() };
            v.attrs.insert(at, format!("#[{}({:?})]", m, path));
        }
        "rest-not-last" => {
            let mut c = Vec::new();
            for vi in &routed {
                for (k, rt) in r.variants[*vi].routes.iter().enumerate() {
                    for (i, s) in rt.pattern.segs.iter().enumerate() {
                        let last = i + 1 == rt.pattern.segs.len();
                        match s {
                            Seg::Ph(_) if !last => c.push((*vi, k, i)),
                            Seg::Rest(_) => c.push((*vi, k, i)),
                            _ => {}
                        }
                    }
                }
            }
            if c.is_empty() {
                return None;
            }
            let (vi, k, i) = *t.pick(&c);
            let rt = &r.variants[vi].routes[k];
            let mut p = rt.pattern.clone();
            match p.segs[i].clone() {
                Seg::Ph(n) => p.segs[i] = Seg::Rest(n),
                _ => p.segs.push(Seg::Lit(t.pick(&["", "x", "zz"]).to_string())),
            }
            set_path(&mut u.main().variants[vi], k, rt.method, &p.render());
        }
        "dup-role" => {
            let which = t.below(3);
            let c: Vec<usize> = (0..r.variants.len())
                .filter(|i| {
                    let v = &r.variants[*i];
                    if v.style == Style::Tuple {
                        return false;
                    }
                    match which {
                        0 => !v.routes.is_empty() && !has(*i, &is_fwd),
                        1 => !v.routes.is_empty(),
                        _ => (!v.routes.is_empty() || v.is_fallback()) && !has(*i, &is_body),
                    }
                })
                .collect();
            if c.is_empty() {
                return None;
            }
            let vi = *t.pick(&c);
            let (attr, ty, have) = match which {
                0 => ("#[body]", body_ty(), has(vi, &is_body)),
                1 => ("#[query_params]", query_ty(), has(vi, &is_query)),
                _ => ("#[forward]", spy_ty(fam), has(vi, &is_fwd)),
            };
            let v = &mut u.main().variants[vi];
            add_field(t, v, fld(&[attr], "zz_1", ty.clone()));
            if !have {
                add_field(t, v, fld(&[attr], "zz_2", ty));
            }
        }
        "two-roles" => {
            let mut c = Vec::new();
            for vi in &routed {
                for (fi, f) in r.variants[*vi].fields.iter().enumerate() {
                    if !matches!(f.kind, Kind::Guard { .. }) {
                        c.push((*vi, fi));
                    }
                }
            }
            if c.is_empty() {
                return None;
            }
            let (vi, fi) = *t.pick(&c);
            let add = *t.pick(&["#[body]", "#[query_params]", "#[forward]"]);
            let f = &mut u.main().variants[vi].fields[fi];
            let at = t.below(f.attrs.len() + 1);
            f.attrs.insert(at, add.into());
        }
        "body-and-forward" => {
            let c: Vec<usize> = routed.clone();
            if c.is_empty() {
                return None;
            }
            let vi = *t.pick(&c);
            let (hb, hf) = (has(vi, &is_body), has(vi, &is_fwd));
            let v = &mut u.main().variants[vi];
            if !hb {
                add_field(t, v, fld(&["#[body]"], "zz_1", body_ty()));
            }
            if !hf {
                add_field(t, v, fld(&["#[forward]"], "zz_2", spy_ty(fam)));
            }
        }
        "role-without-route" => {
            let c: Vec<usize> = (0..r.variants.len())
                .filter(|i| r.variants[*i].routes.is_empty() && r.variants[*i].style != Style::Tuple)
                .collect();
            let (attr, ty) = if t.pct(50) {
                ("#[body]", body_ty())
            } else {
                ("#[query_params]", query_ty())
            };
            if c.is_empty() {
                if r.is_struct {
                    return None;
                }
                let at = t.below(r.variants.len() + 1);
                u.main().variants.insert(
                    at,
                    Var {
                        attrs: vec![],
                        name: "Zz".into(),
                        style: Style::Named,
                        fields: vec![fld(&[attr], "zz", ty)],
                        tail: String::new(),
                    },
                );
            } else {
                let vi = *t.pick(&c);
                let v = &mut u.main().variants[vi];
                add_field(t, v, fld(&[attr], "zz", ty));
            }
        }
        "two-fallbacks" => {
            if r.is_struct {
                return None;
            }
            let have = r.variants.iter().filter(|v| v.is_fallback()).count();
            for i in have..2 {
                let at = t.below(u.main().variants.len() + 1);
                let ty = spy_ty(fam);
                u.main().variants.insert(
                    at,
                    Var {
                        attrs: vec![],
                        name: format!("Zz{}", i),
                        style: Style::Named,
                        fields: vec![fld(&["#[forward]"], "zz", ty)],
                        tail: String::new(),
                    },
                );
            }
        }
        "not-constructible" => {
            let m = u.main();
            m.wher.clear();
            if m.what == What::Enum && t.pct(20) {
                m.variants.clear();
                m.params.clear();
                u.tail = String::new();
            } else {
                for v in m.variants.iter_mut() {
                    v.attrs.clear();
                    v.fields.retain(|f| f.attrs.is_empty());
                }
                if !m.params.is_empty() {
                    // some parameters may now be unused, which is an error of its own
                    return None;
                }
            }
        }
        "misplaced-attr" => {
            let m = u.main();
            let is_struct = m.what == What::Struct;
            match t.below(5) {
                0 if !is_struct => {
                    let c = ctx_name(fam);
                    let vi = t.below(m.variants.len());
                    m.variants[vi].attrs.push(format!("#[context({})]", c));
                }
                1 => {
                    let a = *t.pick(&["#[get(\"/zz9\")]", "#[post(\"/zz9\")]", "#[context(hyperdrive::NoContext)]", "#[patch]"]);
                    let mut c = Vec::new();
                    for (vi, v) in m.variants.iter().enumerate() {
                        for fi in 0..v.fields.len() {
                            c.push((vi, fi));
                        }
                    }
                    if c.is_empty() {
                        return None;
                    }
                    let (vi, fi) = *t.pick(&c);
                    m.variants[vi].fields[fi].attrs.push(a.into());
                }
                2 if !is_struct => {
                    let a = *t.pick(&["#[get(\"/zz9\")]", "#[body]", "#[forward]", "#[query_params]", "#[delete(\"/\")]", "#[connect]"]);
                    m.attrs.push(a.into());
                }
                _ => {
                    let a = *t.pick(&["#[body]", "#[forward]", "#[query_params]", "#[body = \"\"]"]);
                    let vi = t.below(m.variants.len());
                    let at = t.below(m.variants[vi].attrs.len() + 1);
                    m.variants[vi].attrs.insert(at, a.into());
                }
            }
        }
        "malformed-route" => {
            let m = METHODS[t.below(9)].to_lowercase();
            let bad = *t.pick(&[
                "", " = \"/zz9\"", "()", "(5)", "(\"/zz9\", \"/zz8\")", "(path)", "(\"/zz9\", x)", "(b\"/zz9\")",
                "(path = \"/zz9\")", "(\"/zz9\")x", "('/')", "(true)",
            ]);
            if bad.ends_with(")x") {
                return None;
            }
            let main = u.main();
            let c: Vec<usize> = (0..main.variants.len()).filter(|i| main.variants[*i].style != Style::Tuple).collect();
            if c.is_empty() {
                return None;
            }
            let vi = *t.pick(&c);
            let v = &mut main.variants[vi];
            let at = t.below(v.attrs.len() + 1);
            v.attrs.insert(at, format!("#[{}{}]", m, bad));
        }
        "malformed-role" => {
            let mut c = Vec::new();
            for (vi, v) in r.variants.iter().enumerate() {
                for (fi, f) in v.fields.iter().enumerate() {
                    if role(&f.kind).is_some() {
                        c.push((vi, fi, role(&f.kind).unwrap()));
                    }
                }
            }
            if c.is_empty() {
                return None;
            }
            let (vi, fi, a) = *t.pick(&c);
            let a = &a[2..a.len() - 1];
            let bad = *t.pick(&["()", " = \"x\"", "(x)", "(\"x\")", "(a = 1)"]);
            u.main().variants[vi].fields[fi].attrs = vec![format!("#[{}{}]", a, bad)];
        }
        "malformed-context" => {
            let bad = *t.pick(&["#[context]", "#[context = \"X\"]", "#[context()]", "#[context(5)]", "#[context(\"C\")]", "#[context(zz_missing)]"]);
            let m = u.main();
            m.attrs.retain(|a| !a.starts_with("#[context"));
            m.attrs.push(bad.into());
        }
        "two-contexts" => {
            let c = ctx_name(fam);
            let m = u.main();
            m.attrs.retain(|a| !a.starts_with("#[context"));
            m.attrs.push(format!("#[context({})]", c));
            m.attrs.push(format!("#[context({})]", c));
        }
        "tuple" => {
            let g = guard_ty(fam);
            let s = spy_ty(fam);
            let pick = t.below(3);
            let c: Vec<usize> = (0..r.variants.len())
                .filter(|i| r.variants[*i].routes.iter().all(|p| p.pattern.placeholders().is_empty()))
                .filter(|i| !r.variants[*i].routes.is_empty())
                .collect();
            if c.is_empty() {
                return None;
            }
            let vi = *t.pick(&c);
            let m = u.main();
            if !m.params.is_empty() {
                return None;
            }
            let v = &mut m.variants[vi];
            v.style = Style::Tuple;
            v.fields = match pick {
                0 => vec![fld(&[], "0", g)],
                1 => vec![],
                _ => {
                    let attr = *t.pick(&["#[forward]", "#[body]", "#[query_params]"]);
                    vec![fld(&[attr], "0", match attr {
                        "#[forward]" => s,
                        "#[body]" => body_ty(),
                        _ => query_ty(),
                    })]
                }
            };
        }
        "union" => {
            let m = u.main();
            m.what = What::Union;
            m.params.clear();
            m.wher.clear();
            m.variants = vec![Var {
                attrs: if t.pct(50) { vec!["#[get(\"/\")]".into()] } else { vec![] },
                name: "".into(),
                style: Style::Named,
                fields: vec![fld(&[], "a", "u32".into())],
                tail: String::new(),
            }];
            u.tail = String::new();
        }
        "as-ref-misuse" => {
            if u.ctxs.is_empty() {
                ctx_items(&extra_ctx(t), &mut u.ctxs);
            }
            let mut c = Vec::new();
            for (i, x) in u.ctxs.iter().enumerate() {
                for k in 0..6 {
                    c.push((i, k));
                }
                let _ = x;
            }
            if c.is_empty() {
                return None;
            }
            let (i, k) = *t.pick(&c);
            let bad = *t.pick(&["#[as_ref = \"x\"]", "#[as_ref()]", "#[as_ref(x)]", "#[as_ref(\"x\")]"]);
            let it = &mut u.ctxs[i];
            match k {
                0 => it.attrs.push("#[as_ref]".into()),
                1 if it.what == What::Enum => {
                    let vi = t.below(it.variants.len());
                    it.variants[vi].attrs.push("#[as_ref]".into());
                }
                2 if it.what == What::Enum => {
                    it.variants[1].fields[0].attrs.push("#[as_ref]".into());
                }
                3 => {
                    // twice on one field
                    let f = it.variants[0].fields.first_mut()?;
                    if it.what == What::Enum {
                        return None;
                    }
                    f.attrs = vec!["#[as_ref]".into(), "#[as_ref]".into()];
                }
                4 if it.what == What::Struct => {
                    let n = it.variants[0].fields.len();
                    if n == 0 {
                        return None;
                    }
                    let fi = t.below(n);
                    it.variants[0].fields[fi].attrs = vec![bad.into()];
                }
                5 if it.what == What::Struct => {
                    // two references of the same type
                    let f = it.variants[0].fields.iter().find(|f| !f.attrs.is_empty())?.clone();
                    let mut g = f;
                    g.name = "zz".into();
                    it.variants[0].fields.push(g);
                }
                _ => return None,
            }
        }
        _ => return None,
    }
    Some(())
}

fn ctx_name(fam: &Family) -> String {
    fam.ctx.as_ref().map(|c| c.rust()).unwrap_or_else(|| "hyperdrive::NoContext".into())
}

// ------------------------------------------------------ harmless decorations

const FOREIGN: &[&str] = &[
    "/// Documented.",
    "#[allow(dead_code)]",
    "#[allow(clippy::all)]",
    "#[cfg(all())]",
    "#[cfg_attr(all(), allow(unused))]",
    "#[cfg_attr(any(), nonsense)]",
    "#[doc = \"text with \\\"quotes\\\" and {braces}\"]",
    "#[doc(hidden)]",
    "#[rustfmt::skip]",
    "#[allow(clippy::large_enum_variant, unused)]",
    "#[deprecated]",
    "#[deprecated(since = \"1\", note = \"n\")]",
    "#[doc = concat!(\"a\", \"b\")]",
    "#[doc(alias = \"get\")]",
    "/** block */",
];

/// Names the generated code might refer to.
const NAMES: &[&str] = &[
    "Error", "Guard", "FromBody", "FromRequest", "Regex", "RegexSet", "StatusCode", "Arc", "FromStr", "Future",
    "IntoFuture", "AsRef", "DefaultFuture", "BoxedError", "NoContext", "RequestContext", "Method", "Request", "Body",
    "Variant", "Uri", "Structure", "Cow",
];
const MODS: &[&str] = &["http", "hyper", "futures", "regex", "serde", "core", "body", "error", "query", "service", "alloc"];

fn is_word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// Whether `name` occurs in `text` other than behind `::`.
fn mentions(text: &str, name: &str) -> bool {
    text.match_indices(name).any(|(i, _)| {
        let (before, after) = (&text[..i], &text[i + name.len()..]);
        !before.ends_with(is_word) && !after.starts_with(is_word) && !before.trim_end().ends_with("::")
    })
}

fn replace_word(text: &str, name: &str, new: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(name) {
        let (before, after) = (&rest[..i], &rest[i + name.len()..]);
        out.push_str(before);
        let whole = !out.ends_with(is_word) && !after.starts_with(is_word) && !out.trim_end().ends_with("::");
        out.push_str(if whole { new } else { name });
        rest = after;
    }
    out.push_str(rest);
    out
}

/// The types and everything else of a unit that names something in scope.
fn scope_text(u: &Unit) -> String {
    let mut s = format!("{} {}", u.head, u.tail);
    for it in u.ctxs.iter().chain(&u.routers) {
        let _ = write!(s, " {} {} {} {}", it.attrs.join(" "), it.wher.join(" "), it.params.join(" "), it.name);
        for v in &it.variants {
            for f in &v.fields {
                let _ = write!(s, " {}", f.ty);
            }
        }
    }
    s
}

/// The caller's own types get names that also mean something to the crate.
fn shadow(t: &mut Tape, u: &mut Unit, edition: u32, local: bool, used: &mut Vec<&'static str>) {
    for _ in 0..1 + t.below(3) {
        let name = *t.pick(NAMES);
        let module = if !local && t.pct(35) { Some(*t.pick(MODS)) } else { None };
        let text = scope_text(u);
        let taken = mentions(&text, name) || module.map_or(false, |m| mentions(&text, m));
        let c = u.ctxs.len();
        let k = t.below(c + u.routers.len());
        let it = if k < c { &mut u.ctxs[k] } else { &mut u.routers[k - c] };
        let slots: Vec<(usize, usize)> = it
            .variants
            .iter()
            .enumerate()
            .flat_map(|(i, v)| (0..v.fields.len()).map(move |j| (i, j)))
            .collect();
        if taken || slots.is_empty() || !it.params.is_empty() {
            continue;
        }
        let (i, j) = *t.pick(&slots);
        let f = &mut it.variants[i].fields[j];
        let (head, ty) = match module {
            None => (format!("pub type {} = {};\n", name, f.ty), name.to_string()),
            Some(m) => (
                format!("pub mod {} {{ #[allow(unused)] use super::*; pub type {} = {}; }}\n", m, name, f.ty),
                if edition >= 2018 && t.pct(50) { format!("self::{}::{}", m, name) } else { format!("{}::{}", m, name) },
            ),
        };
        f.ty = ty;
        u.head.push_str(&head);
        used.push("type-names");
    }
    let text = scope_text(u);
    let m = u.routers.last_mut().unwrap();
    if !m.params.is_empty() && t.pct(40) {
        let name = *t.pick(NAMES);
        let old = m.params[0].split(|c| !is_word(c)).next().unwrap_or("").to_string();
        if !mentions(&text, name) {
            for x in m.params.iter_mut().chain(m.wher.iter_mut()) {
                *x = replace_word(x, &old, name);
            }
            for f in m.variants.iter_mut().flat_map(|v| v.fields.iter_mut()) {
                f.ty = replace_word(&f.ty, &old, name);
            }
            used.push("parameter-name");
        }
    }
    if !local && m.what == What::Enum && t.pct(40) && !m.variants.iter().any(|v| mentions(&text, &v.name)) {
        let extra: Vec<&str> = ["Ok", "Err", "None", "Some"]
            .iter()
            .filter(|n| !mentions(&text, n) && !m.variants.iter().any(|v| v.name == **n))
            .cloned()
            .collect();
        if !extra.is_empty() && t.pct(60) {
            m.variants.push(Var {
                attrs: vec![],
                name: t.pick(&extra).to_string(),
                style: Style::Unit,
                fields: vec![],
                tail: String::new(),
            });
        }
        let _ = writeln!(u.head, "#[allow(unused)] use self::{}::*;", m.name);
        used.push("variants-imported");
    }
}

/// The plain string literal of a route attribute.
fn route_literal(a: &str) -> Option<String> {
    let name = a.strip_prefix("#[")?;
    let i = name.find('(')?;
    if !hdv_methods(&name[..i]) || name.contains('\\') || name.matches('"').count() != 2 {
        return None;
    }
    let x = a.find('"')?;
    let y = a.rfind('"')?;
    if x == 0 || a[..x].ends_with(|c| c == 'r' || c == '#') || y == x + 1 {
        return None;
    }
    Some(a[x..=y].to_string())
}

fn hdv_methods(n: &str) -> bool {
    ["get", "post", "put", "head", "delete", "options", "connect", "patch", "trace"].contains(&n.trim())
}

/// Turns parts of the last router into macro fragments; the matcher and the arguments.
pub fn macroize(t: &mut Tape, u: &mut Unit) -> (String, String) {
    let (mut params, mut args) = (String::new(), String::new());
    let mut n = 0;
    let mut add = |what: &str, arg: &str| {
        n += 1;
        let _ = write!(params, "$hdv_m{}:{}; ", n, what);
        let _ = write!(args, "{}; ", arg);
        format!("$hdv_m{}", n)
    };
    let m = u.routers.last_mut().unwrap();
    for a in m.attrs.iter_mut().chain(m.variants.iter_mut().flat_map(|v| v.attrs.iter_mut())) {
        if let Some(lit) = route_literal(a) {
            if t.pct(60) {
                let x = add(t.pick(&["literal", "expr", "tt"]), &lit);
                *a = a.replacen(&lit, &x, 1);
            }
        }
    }
    let (named, isenum) = (t.pct(60), m.what == What::Enum);
    for v in m.variants.iter_mut() {
        if isenum && t.pct(50) {
            v.name = add("ident", &v.name);
        }
        for f in v.fields.iter_mut() {
            if v.style == Style::Named && named {
                f.name = add(t.pick(&["ident", "tt"]), &f.name);
            }
            if t.pct(60) {
                f.ty = add("ty", &f.ty);
            }
        }
    }
    (params, args.replace("hdv_rt::", "crate::pre::"))
}

/// Decorates every place with attributes of others and the like.
pub fn decorate(t: &mut Tape, fam: &Family, u: &mut Unit, edition: u32, local: bool) -> Vec<&'static str> {
    let mut used = Vec::new();
    let foreign = |t: &mut Tape, attrs: &mut Vec<String>, pct: u32| {
        if t.pct(pct) {
            let a = *t.pick(FOREIGN);
            if a.starts_with("#[deprecated") && attrs.iter().any(|b| b.starts_with("#[deprecated")) {
                return;
            }
            let at = t.below(attrs.len() + 1);
            attrs.insert(at, a.to_string());
        }
    };
    for it in u.ctxs.iter_mut().chain(u.routers.iter_mut()) {
        foreign(t, &mut it.attrs, 40);
        for v in it.variants.iter_mut() {
            if it.what == What::Enum {
                foreign(t, &mut v.attrs, 35);
            }
            for f in v.fields.iter_mut() {
                foreign(t, &mut f.attrs, 30);
                if it.what == What::Struct && t.pct(30) {
                    f.vis = t.pick(&["pub ", "pub(crate) ", "pub(super) "]).to_string();
                }
            }
        }
    }
    let ridx = fam.mains[0];
    let r = &fam.routers[ridx];
    let m = u.routers.last_mut().unwrap();
    if t.pct(25) {
        used.push("raw-identifier");
        // a field that is not a placeholder may have any name
        'outer: for (vi, v) in r.variants.iter().enumerate() {
            for (fi, f) in v.fields.iter().enumerate() {
                if v.style == Style::Named && !matches!(f.kind, Kind::Path(_)) {
                    m.variants[vi].fields[fi].name =
                        t.pick(&["r#type", "r#match", "r#fn", "r#async", "r#id2"]).to_string();
                    break 'outer;
                }
            }
        }
    }
    if m.what == What::Enum && t.pct(35) {
        used.push("unrouted-variant");
        let v = match t.below(4) {
            0 => Var {
                attrs: vec![],
                name: "Zunit".into(),
                style: Style::Unit,
                fields: vec![],
                tail: String::new(),
            },
            1 => Var {
                attrs: vec![],
                name: "Ztuple".into(),
                style: Style::Tuple,
                fields: vec![
                    fld(&[], "0", "Vec<u8>".into()),
                    fld(&["#[allow(unused)]"], "1", "Box<Fn() + Send>".into()),
                ],
                tail: String::new(),
            },
            2 => Var {
                attrs: vec![],
                name: "Znamed".into(),
                style: Style::Named,
                fields: vec![
                    fld(&[], "a", "[u8; 4]".into()),
                    fld(&[], "b", "fn(&str) -> u8".into()),
                    fld(&[], "c", "(u8, String)".into()),
                ],
                tail: String::new(),
            },
            _ => Var {
                attrs: vec![],
                name: "Zempty".into(),
                style: Style::Tuple,
                fields: vec![],
                tail: String::new(),
            },
        };
        let mut v = v;
        if edition >= 2021 {
            for f in v.fields.iter_mut() {
                f.ty = f.ty.replace("<Fn", "<dyn Fn");
            }
        }
        let at = t.below(m.variants.len() + 1);
        m.variants.insert(at, v);
    }
    if t.pct(15) {
        used.push("unused-import-names");
        u.head.push_str(
            t.pick(&[
                "type Result<T> = ::std::result::Result<T, u8>;\n",
                "struct Error; struct Request; struct Method;\n",
                "use hyperdrive::{http, hyper, futures};\n",
                "trait Guard {} trait Future {}\n",
                "mod http2 {} fn captures() {} fn path() {} fn request() {}\n",
            ]),
        );
    }
    let m = u.routers.last_mut().unwrap();
    if t.pct(20) && m.params.is_empty() && m.what == What::Enum && m.variants.iter().all(|v| v.style == Style::Unit) {
        used.push("discriminants");
        for (i, v) in m.variants.iter_mut().enumerate() {
            v.tail = format!(" = {}", 7 * i + 3);
        }
        m.attrs.push("#[repr(u16)]".into());
        m.attrs.push("#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]".into());
    }
    if !m.params.is_empty() && t.pct(60) {
        used.push("where-clause");
        let p = m.params[0].clone();
        if t.pct(50) {
            m.wher.push(format!("{}: Send", p));
        } else {
            m.params[0] = format!("{}: Send + 'static", p);
        }
    }
    if t.pct(35) {
        shadow(t, u, edition, local, &mut used);
    }
    let m = u.routers.last_mut().unwrap();
    if t.pct(15) {
        if t.pct(50) {
            if let Some(p) = m.params.last_mut() {
                used.push("default-parameter");
                p.push_str(" = ::std::vec::Vec<u8>");
            }
        } else {
            used.push("const-parameter");
            let first = m.params.is_empty();
            let decl = t.pick(&["const HDV_N: usize", "const HDV_B: bool", "const HDV_C: char"]).to_string();
            let arg = if decl.ends_with("usize") { "3" } else if decl.ends_with("bool") { "true" } else { "{ 'x' }" };
            m.params.push(decl);
            let n = m.name.clone();
            u.tail = if first {
                u.tail.replace(&format!("is::<{}>()", n), &format!("is::<{}<{}>>()", n, arg))
            } else {
                let lines: Vec<String> = u
                    .tail
                    .lines()
                    .map(|l| match l.strip_suffix(">;") {
                        Some(a) if l.contains(&format!(" = {}<", n)) => format!("{}, {}>;\n", a, arg),
                        _ => format!("{}\n", l),
                    })
                    .collect();
                lines.concat()
            };
        }
    }
    let m = u.routers.last_mut().unwrap();
    if fam.ctx.is_none() && t.pct(15) {
        used.push("no-context");
        let a = if edition >= 2018 && t.pct(30) { "#[context(::hyperdrive::NoContext)]" } else { "#[context(hyperdrive::NoContext)]" };
        let at = 1.max(t.below(m.attrs.len() + 1));
        m.attrs.insert(at, a.into());
    }
    if t.pct(20) {
        used.push("literal-form");
        let form = t.below(3);
        for a in m.attrs.iter_mut().chain(m.variants.iter_mut().flat_map(|v| v.attrs.iter_mut())) {
            if let Some(lit) = route_literal(a) {
                let inner = &lit[1..lit.len() - 1];
                let new = match form {
                    0 => format!("r{}", lit),
                    1 => format!("r#{}#", lit),
                    _ => match inner.char_indices().nth(t.below(inner.chars().count())) {
                        Some((i, c)) => {
                            format!("\"{}\\u{{{:x}}}{}\"", &inner[..i], c as u32, &inner[i + c.len_utf8()..])
                        }
                        None => lit.clone(),
                    },
                };
                *a = a.replacen(&lit, &new, 1);
            }
        }
    }
    if t.pct(20) {
        let mut n = 0;
        for f in m.variants.iter_mut().flat_map(|v| v.fields.iter_mut()) {
            if t.pct(40) && !mentions(&f.ty, "Self") {
                match t.below(3) {
                    0 => f.ty = format!("({})", f.ty),
                    1 => f.ty = format!("hdv_same!({})", f.ty),
                    _ => f.ty = format!("crate::pre::Same<{}>", f.ty),
                }
                n += 1;
            }
        }
        if n > 0 {
            used.push("type-forms");
        }
    }
    if t.pct(25) && fam.ctx.is_some() && !local {
        used.push("context-path");
        for a in m.attrs.iter_mut() {
            if a.starts_with("#[context(") {
                *a = a.replacen("#[context(", "#[context(self::", 1);
            }
        }
    }
    used
}

/// A context nobody uses, for as_ref rules.
pub fn extra_ctx(t: &mut Tape) -> CtxSpec {
    gen_ctx(t, "Ctx1", 0, false)
}
