//! Rust source text of generated declarations.

use crate::spec::*;
use std::fmt::Write;

const PARAMS: &[&str] = &[
    "T", "C", "U", "F", "S", "B", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "V", "W", "X", "Y", "Z",
];
pub fn param(i: usize) -> String {
    PARAMS
        .get(i)
        .map(|s| s.to_string())
        .unwrap_or_else(|| format!("T{}", i))
}

pub fn ctx_ty(fam: &Family, sel: &CtxSel) -> String {
    match (sel, &fam.ctx) {
        (CtxSel::Own, Some(c)) => c.rust(),
        (CtxSel::Field(i), Some(c)) => c.fields[*i].ty.rust(),
        _ => "hyperdrive::NoContext".into(),
    }
}

pub fn kind_ty(fam: &Family, k: &Kind) -> String {
    match k {
        Kind::Path(t) => t.rust().into(),
        Kind::Query(q) => q.rust().into(),
        Kind::Guard { id, asy, ctx } => format!(
            "hdv_rt::{}<{}, hdv_rt::I{}>",
            if *asy { "Ga" } else { "Gd" },
            ctx_ty(fam, ctx),
            id
        ),
        Kind::Body(b) => match b {
            BodyTy::Raw(c) => format!("hdv_rt::Raw<{}>", ctx_ty(fam, c)),
            BodyTy::Ignore(c) => format!("hdv_rt::Ignore<{}>", ctx_ty(fam, c)),
            BodyTy::JsonVal => "hyperdrive::body::Json<hdv_rt::Value>".into(),
            BodyTy::JsonPage => "hyperdrive::body::Json<hdv_rt::Page>".into(),
            BodyTy::JsonReq => "hyperdrive::body::Json<hdv_rt::Req>".into(),
            BodyTy::Form(q) => format!("hyperdrive::body::HtmlForm<{}>", q.rust()),
        },
        Kind::Forward(Fwd::Spy) => format!("hdv_rt::Spy<{}>", ctx_ty(fam, &CtxSel::Own)),
        Kind::Forward(Fwd::Router(i)) => fam.routers[*i].name.clone(),
    }
}

fn route_attr(r: &Route) -> String {
    format!("#[{}({:?})]", METHODS[r.method].to_lowercase(), r.pattern.render())
}

fn field_attr(k: &Kind) -> &'static str {
    match k {
        Kind::Query(_) => "#[query_params] ",
        Kind::Body(_) => "#[body] ",
        Kind::Forward(_) => "#[forward] ",
        _ => "",
    }
}

fn fields_src(fam: &Family, v: &Variant, generic: bool, noise: u32, vis: &str) -> String {
    let mut s = String::from("{\n");
    for (i, f) in v.fields.iter().enumerate() {
        if noise & 1 != 0 && i % 2 == 0 {
            s.push_str("        /// a field\n        #[allow(dead_code)]\n");
        }
        if noise & 2 != 0 {
            s.push_str("        #[allow(clippy::all)]\n");
        }
        let ty = match f.param {
            Some(p) if generic => param(p),
            _ => kind_ty(fam, &f.kind),
        };
        let _ = writeln!(s, "        {}{}{}: {},", field_attr(&f.kind), vis, f.name, ty);
        if noise & 4 != 0 && i == 0 {
            s.push_str("        // plain comment\n");
        }
    }
    s.push_str("    }");
    s
}

/// Type arguments of this instantiation.
pub fn type_args(fam: &Family, idx: usize) -> String {
    let r = &fam.routers[idx];
    let mut a = vec![String::new(); r.params];
    for v in &r.variants {
        for f in &v.fields {
            if let Some(p) = f.param {
                a[p] = kind_ty(fam, &f.kind);
            }
        }
    }
    if a.is_empty() {
        String::new()
    } else {
        format!("<{}>", a.join(", "))
    }
}

pub fn router_src(fam: &Family, idx: usize) -> String {
    let r = &fam.routers[idx];
    let mut s = String::new();
    let args = |_: &Router| type_args(fam, idx);
    if let Some(o) = r.inst_of {
        let _ = writeln!(s, "pub type {} = {}D{};", r.name, fam.routers[o].name, args(r));
        return s;
    }
    let generic = r.params > 0;
    let (decl, gparams) = if generic {
        let ps: Vec<String> = (0..r.params).map(param).collect();
        (format!("{}D", r.name), format!("<{}>", ps.join(", ")))
    } else {
        (r.name.clone(), String::new())
    };
    // the name the value reports for a struct is its variant name in the data
    if r.noise & 1 != 0 {
        s.push_str("/// Documented.\n");
    }
    if r.noise & 4 != 0 {
        s.push_str("#[derive(FromRequest)]\n");
    } else {
        s.push_str("#[derive(hyperdrive::FromRequest)]\n");
    }
    if r.noise & 2 != 0 {
        s.push_str("#[allow(clippy::large_enum_variant)]\n#[rustfmt::skip]\n");
    }
    if let Some(c) = &fam.ctx {
        let _ = writeln!(s, "#[context({})]", c.rust());
    }
    let wher = if generic && r.noise & 1 != 0 {
        format!(" where {}: Send", param(0))
    } else {
        String::new()
    };
    if r.is_struct {
        let v = &r.variants[0];
        for rt in &v.routes {
            let _ = writeln!(s, "{}", route_attr(rt));
        }
        if v.style == Style::Unit {
            let _ = writeln!(s, "pub struct {}{}{};", decl, gparams, wher);
        } else {
            let _ = writeln!(
                s,
                "pub struct {}{}{} {}",
                decl,
                gparams,
                wher,
                fields_src(fam, v, generic, r.noise, if r.noise & 4 != 0 { "pub " } else { "" })
            );
        }
    } else {
        let _ = writeln!(s, "pub enum {}{}{} {{", decl, gparams, wher);
        for v in &r.variants {
            if r.noise & 1 != 0 {
                s.push_str("    /// A variant.\n");
            }
            if r.noise & 2 != 0 {
                s.push_str("    #[allow(clippy::all)]\n");
            }
            for rt in &v.routes {
                let _ = writeln!(s, "    {}", route_attr(rt));
            }
            match v.style {
                Style::Unit => {
                    let _ = writeln!(s, "    {},", v.name);
                }
                Style::Named => {
                    let _ = writeln!(s, "    {} {},", v.name, fields_src(fam, v, generic, r.noise, ""));
                }
                Style::Tuple => {
                    let tys: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| match f.param {
                            Some(p) if generic => param(p),
                            _ => kind_ty(fam, &f.kind),
                        })
                        .collect();
                    let _ = writeln!(s, "    {}({}),", v.name, tys.join(", "));
                }
            }
        }
        s.push_str("}\n");
    }
    if generic {
        let _ = writeln!(s, "pub type {} = {}{};", r.name, decl, args(r));
    }
    // observation
    let bparams = if generic {
        let ps: Vec<String> = (0..r.params)
            .map(|i| format!("{}: hdv_rt::Show", param(i)))
            .collect();
        format!("<{}>", ps.join(", "))
    } else {
        String::new()
    };
    let _ = writeln!(
        s,
        "impl{} hdv_rt::Show for {}{}{} {{\n    fn show(&self) -> hdv_rt::V {{\n        match self {{",
        bparams, decl, gparams, wher
    );
    let mut all = true;
    for v in &r.variants {
        if v.routes.is_empty() && v.forward().is_none() {
            all = false;
            continue;
        }
        let pat: Vec<String> = v
            .fields
            .iter()
            .enumerate()
            .map(|(i, f)| format!("{}: ref hdv_b{}", f.name, i))
            .collect();
        let vals: Vec<String> = v
            .fields
            .iter()
            .enumerate()
            .map(|(i, f)| format!("({:?}.to_string(), hdv_rt::Show::show(hdv_b{}))", f.name, i))
            .collect();
        let path = if r.is_struct {
            decl.clone()
        } else {
            format!("{}::{}", decl, v.name)
        };
        let _ = writeln!(
            s,
            "            &{} {{ {} }} => hdv_rt::V::Node({:?}.to_string(), vec![{}]),",
            path,
            pat.join(", "),
            v.name,
            vals.join(", ")
        );
    }
    if !all {
        s.push_str("            _ => hdv_rt::V::Leaf(\"unrouted variant\".to_string()),\n");
    }
    s.push_str("        }\n    }\n}\n");
    s
}

pub fn ctx_src(c: &CtxSpec) -> String {
    let mut s = String::new();
    for f in &c.fields {
        if let CtxTy::Nested(n) = &f.ty {
            s.push_str(&ctx_src(n));
        }
    }
    let (gp, gi, gt) = if c.generic {
        (
            "<T>",
            "<T: hdv_rt::Ctx>",
            "<T>",
        )
    } else {
        ("", "", "")
    };
    s.push_str("#[derive(Clone, hyperdrive::RequestContext)]\n");
    let attr = |f: &CtxField| if f.as_ref { "#[as_ref] " } else { "" };
    match c.shape {
        CtxShape::Named => {
            let _ = writeln!(s, "pub struct {}{} {{", c.name, gp);
            if c.generic && c.fields.len() % 2 == 0 {
                s.push_str("    spare: Option<T>,\n");
            }
            for f in &c.fields {
                let _ = writeln!(s, "    {}{}: {},", attr(f), f.name, c.decl_ty(f));
            }
            if c.generic && c.fields.len() % 2 == 1 {
                s.push_str("    spare: Option<T>,\n");
            }
            s.push_str("}\n");
        }
        CtxShape::Tuple => {
            let mut fs: Vec<String> = c.fields.iter().map(|f| format!("{}{}", attr(f), c.decl_ty(f))).collect();
            if c.generic {
                fs.push("Option<T>".into());
            }
            let _ = writeln!(s, "pub struct {}{}({});", c.name, gp, fs.join(", "));
        }
        CtxShape::Unit => {
            let _ = writeln!(s, "pub struct {};", c.name);
        }
        CtxShape::Enum => {
            let spare = if c.generic { ", t: T" } else { "" };
            let _ = writeln!(s, "pub enum {}{} {{ W, V(String), X {{ a: u32{} }} }}", c.name, gp, spare);
        }
    }
    if c.fields.len() % 2 == 1 {
        // a decoy: only the traits count
        let other = c.fields.iter().find(|f| !f.as_ref && c.fields.iter().any(|g| g.as_ref && g.ty == f.ty));
        let (ty, val) = match other {
            Some(f) => (c.decl_ty(f), format!("&self.{}", f.name)),
            None => ("Self".to_string(), "self".to_string()),
        };
        let _ = writeln!(s, "impl{} {}{} {{ pub fn as_ref(&self) -> &{} {{ {} }} }}", gi, c.name, gt, ty, val);
    }
    let _ = writeln!(s, "impl{} hdv_rt::Ctx for {}{} {{", gi, c.name, gt);
    let mk = match c.shape {
        CtxShape::Named => {
            let mut fs: Vec<String> = c
                .fields
                .iter()
                .map(|f| format!("{}: hdv_rt::Ctx::mk(&format!(\"{{}}.{{}}\", p, {:?}))", f.name, f.name))
                .collect();
            if c.generic {
                fs.push("spare: None".into());
            }
            format!("{} {{ {} }}", c.name, fs.join(", "))
        }
        CtxShape::Tuple => {
            let mut fs: Vec<String> = c
                .fields
                .iter()
                .map(|f| format!("hdv_rt::Ctx::mk(&format!(\"{{}}.{{}}\", p, {:?}))", f.name))
                .collect();
            if c.generic {
                fs.push("None".into());
            }
            format!("{}({})", c.name, fs.join(", "))
        }
        CtxShape::Unit => c.name.clone(),
        CtxShape::Enum => format!("{}::V(p.to_string())", c.name),
    };
    let _ = writeln!(s, "    fn mk(p: &str) -> Self {{ let _ = p; {} }}", mk);
    let show = if c.shape == CtxShape::Enum {
        format!(
            "match self {{ {}::V(p) => format!(\"{}[V{{}}]\", p), _ => String::new() }}",
            c.name, c.name
        )
    } else {
        let fs: Vec<String> = c
            .fields
            .iter()
            .map(|f| format!("hdv_rt::Ctx::show_ctx(&self.{})", f.name))
            .collect();
        format!(
            "{{ let v: Vec<String> = vec![{}]; format!(\"{}[{{}}]\", v.join(\",\")) }}",
            fs.join(", "),
            c.name
        )
    };
    let _ = writeln!(s, "    fn show_ctx(&self) -> String {{ {} }}", show);
    s.push_str("    fn check(&self, out: &mut Vec<String>) {\n");
    let _ = writeln!(
        s,
        "        if !std::ptr::eq(AsRef::<Self>::as_ref(self), self) {{ out.push(\"{}: AsRef<Self>\".to_string()); }}",
        c.name
    );
    s.push_str("        let _: &hyperdrive::NoContext = AsRef::<hyperdrive::NoContext>::as_ref(self);\n");
    for f in &c.fields {
        if f.as_ref {
            let _ = writeln!(
                s,
                "        if !std::ptr::eq(AsRef::<{}>::as_ref(self), &self.{}) {{ out.push(\"{}: AsRef<{}> is not field {}\".to_string()); }}",
                c.decl_ty(f),
                f.name,
                c.name,
                f.ty.rust(),
                f.name
            );
        }
        let _ = writeln!(s, "        hdv_rt::Ctx::check(&self.{}, out);", f.name);
    }
    s.push_str("        let _ = out;\n    }\n}\n");
    s
}

pub fn family_src(fam: &Family) -> String {
    let mut s = String::from("#![allow(warnings)]\nuse hyperdrive::FromRequest;\n");
    if let Some(c) = &fam.ctx {
        s.push_str(&ctx_src(c));
    }
    for i in 0..fam.routers.len() {
        s.push_str(&router_src(fam, i));
    }
    let es: Vec<String> = fam
        .mains
        .iter()
        .map(|m| format!("hdv_rt::entry::<{}>()", fam.routers[*m].name))
        .collect();
    let _ = writeln!(
        s,
        "pub fn entries() -> Vec<hdv_rt::Entry> {{ vec![{}] }}",
        es.join(", ")
    );
    let _ = writeln!(
        s,
        "pub fn ctx_check() -> Vec<String> {{ let mut out = Vec::new(); {} out }}",
        match &fam.ctx {
            Some(c) => format!(
                "hdv_rt::Ctx::check(&<{} as hdv_rt::Ctx>::mk(\"z\"), &mut out);",
                c.rust()
            ),
            None => String::new(),
        }
    );
    s
}
