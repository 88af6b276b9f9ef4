//! Generator of declarations (families of routers and contexts).

use crate::form::*;
use crate::spec::*;
use crate::tape::Tape;
use crate::types::*;

#[derive(Debug, Clone)]
pub struct Knobs {
    pub variants: (usize, usize),
    pub path_tys: &'static [PathTy],
    pub struct_pct: u32,
    pub star_pct: u32,
    pub rest_pct: u32,
    /// weights for 0,1,2,3 placeholders
    pub ph_w: [u32; 4],
    /// weights for 1,2,3,4 routes per variant
    pub routes_w: [u32; 4],
    /// chance to reuse an existing pattern with another method
    pub share_pct: u32,
    /// chance that a method is GET / HEAD rather than uniform
    pub get_pct: u32,
    pub head_pct: u32,
    pub query_pct: u32,
    pub qtys: &'static [QTy],
    pub guard_w: [u32; 6],
    pub async_pct: u32,
    pub body_pct: u32,
    pub forward_pct: u32,
    pub fallback_pct: u32,
    pub spy_pct: u32,
    pub inner_routers: (usize, usize),
    pub ctx_pct: u32,
    pub unrouted_pct: u32,
    pub generic_pct: u32,
    pub noise: bool,
    pub weird_literals: u32,
    /// chance of a family that is large in some respect
    pub big_pct: u32,
    /// chance of a family with fields of all kinds
    pub rich_pct: u32,
    pub many_ph: bool,
    pub many_routes: bool,
    pub many_guards: bool,
    pub many_parts: bool,
}

pub const BASE: Knobs = Knobs {
    variants: (1, 6),
    path_tys: &[PathTy::Str],
    struct_pct: 8,
    star_pct: 4,
    rest_pct: 25,
    ph_w: [40, 35, 18, 7],
    routes_w: [60, 25, 10, 5],
    share_pct: 30,
    get_pct: 35,
    head_pct: 5,
    query_pct: 0,
    qtys: ALL_QTYS,
    guard_w: [1, 0, 0, 0, 0, 0],
    async_pct: 50,
    body_pct: 0,
    forward_pct: 0,
    fallback_pct: 0,
    spy_pct: 40,
    inner_routers: (0, 0),
    ctx_pct: 0,
    unrouted_pct: 10,
    generic_pct: 0,
    noise: true,
    weird_literals: 30,
    big_pct: 9,
    rich_pct: 25,
    many_ph: false,
    many_routes: false,
    many_guards: false,
    many_parts: false,
};

pub fn knobs_for(prop: &str) -> Knobs {
    let b = BASE;
    match prop {
        "C01" => Knobs {
            variants: (2, 8),
            routes_w: [50, 25, 15, 10],
            rest_pct: 30,
            star_pct: 8,
            weird_literals: 45,
            ..b
        },
        "C02" => Knobs {
            path_tys: ALL_PATH_TYS,
            ph_w: [4, 36, 36, 24],
            routes_w: [45, 30, 15, 10],
            rest_pct: 30,
            query_pct: 15,
            guard_w: [70, 20, 10, 0, 0, 0],
            body_pct: 8,
            ..b
        },
        "C03" => Knobs {
            path_tys: ALL_PATH_TYS,
            share_pct: 45,
            get_pct: 45,
            head_pct: 25,
            ph_w: [45, 40, 12, 3],
            guard_w: [80, 20, 0, 0, 0, 0],
            query_pct: 15,
            fallback_pct: 15,
            ..b
        },
        "C04" => Knobs {
            variants: (3, 8),
            path_tys: ALL_PATH_TYS,
            share_pct: 70,
            get_pct: 20,
            head_pct: 8,
            ph_w: [15, 45, 28, 12],
            guard_w: [85, 15, 0, 0, 0, 0],
            ..b
        },
        "C05" => Knobs {
            variants: (1, 4),
            path_tys: &[PathTy::Str, PathTy::U8, PathTy::Odd],
            forward_pct: 35,
            fallback_pct: 75,
            spy_pct: 35,
            inner_routers: (0, 3),
            guard_w: [60, 30, 10, 0, 0, 0],
            query_pct: 12,
            body_pct: 25,
            ctx_pct: 25,
            struct_pct: 20,
            share_pct: 40,
            unrouted_pct: 5,
            ..b
        },
        "C06" => Knobs {
            variants: (1, 4),
            path_tys: &[PathTy::Str, PathTy::U8],
            guard_w: [5, 15, 25, 25, 18, 12],
            query_pct: 20,
            body_pct: 35,
            forward_pct: 20,
            fallback_pct: 20,
            inner_routers: (0, 1),
            ctx_pct: 30,
            struct_pct: 20,
            ph_w: [55, 35, 10, 0],
            ..b
        },
        "C07" => Knobs {
            path_tys: &[PathTy::Str, PathTy::U8],
            query_pct: 92,
            guard_w: [70, 20, 10, 0, 0, 0],
            body_pct: 12,
            ph_w: [60, 30, 10, 0],
            ..b
        },
        "C08" => Knobs {
            variants: (1, 4),
            body_pct: 92,
            guard_w: [65, 25, 10, 0, 0, 0],
            ctx_pct: 20,
            ph_w: [70, 25, 5, 0],
            ..b
        },
        "C09" => Knobs {
            variants: (1, 4),
            ctx_pct: 100,
            guard_w: [10, 30, 30, 20, 10, 0],
            body_pct: 45,
            forward_pct: 20,
            fallback_pct: 20,
            inner_routers: (0, 2),
            struct_pct: 25,
            ph_w: [70, 25, 5, 0],
            ..b
        },
        "C10" => Knobs {
            variants: (3, 9),
            routes_w: [40, 25, 20, 15],
            rest_pct: 40,
            star_pct: 10,
            share_pct: 35,
            weird_literals: 40,
            ..b
        },
        "C11" => Knobs {
            variants: (1, 5),
            path_tys: ALL_PATH_TYS,
            query_pct: 30,
            guard_w: [45, 30, 20, 5, 0, 0],
            body_pct: 35,
            forward_pct: 30,
            fallback_pct: 35,
            inner_routers: (0, 1),
            ctx_pct: 50,
            struct_pct: 30,
            generic_pct: 25,
            unrouted_pct: 15,
            ..b
        },
        "C15" | "C17" | "C20" => Knobs {
            generic_pct: 12,
            variants: (1, 6),
            path_tys: ALL_PATH_TYS,
            query_pct: 25,
            guard_w: [45, 30, 15, 10, 0, 0],
            body_pct: 30,
            forward_pct: 20,
            fallback_pct: 30,
            inner_routers: (0, 2),
            ctx_pct: 30,
            share_pct: 45,
            ..b
        },
        "C18" => Knobs {
            variants: (1, 4),
            path_tys: ALL_PATH_TYS,
            query_pct: 25,
            guard_w: [40, 35, 25, 0, 0, 0],
            body_pct: 30,
            forward_pct: 25,
            fallback_pct: 30,
            inner_routers: (0, 1),
            ctx_pct: 25,
            struct_pct: 25,
            generic_pct: 100,
            unrouted_pct: 15,
            ..b
        },
        "C19" => Knobs {
            variants: (2, 6),
            path_tys: ALL_PATH_TYS,
            query_pct: 20,
            guard_w: [60, 30, 10, 0, 0, 0],
            body_pct: 40,
            share_pct: 45,
            ..b
        },
        _ => b,
    }
}

const VARIANT_NAMES: &[&str] = &[
    "A", "B", "C", "D", "E1", "F", "G", "H", "Ok", "Err", "None", "Some", "Box", "Vec", "Method",
    "String", "Option", "Result", "Variant", "Request", "Index", "Send", "HEAD",
];
const FIELD_NAMES: &[&str] = &[
    "id", "a", "b", "x", "name", "fld_a", "request", "body", "context", "path", "index", "captures",
    "method", "future", "regex", "var", "methods", "matches", "variant", "e", "v", "val",
    "raw_query", "_u", "x1", "tmp_request", "err", "our_methods", "inner_methods", "caps",
];
const PLAIN_LITS: &[&str] = &["a", "b", "users", "A", "aa", "ab", ""];
/// All of these can occur in a request path.
pub const WEIRD_LITS: &[&str] = &[
    "x.y", "a+b", "(a)", "[z]", "$", "^", "a|b", "*", ".", "..", "\\d", "a?", "%41", "a-b", "~", "b.c", ".*",
    "@", "a:b", "a=b", "a,b", "a;b", "a&b", "!", "'", "_", "0", "a*", "\\", "xx", "+", "^a$", "-",
    "(?i)a", "[^a]+", "%2F", "(.*)",
];
/// These never occur in a request path, but are legal in a declaration.
pub const ALIEN_LITS: &[&str] = &["{x", "x}", "p{x}", "é", "a b", "#", "\"", "<id>", "a{2}"];

pub fn lit(t: &mut Tape, weird: u32, pool: &[String]) -> String {
    // the per-router pool keeps literals colliding
    if !pool.is_empty() && t.pct(55) {
        return t.pick(pool).clone();
    }
    if t.pct(weird) {
        // '?' ends the path in a request; such literals simply never match
        if t.pct(12) {
            return t.pick(ALIEN_LITS).to_string();
        }
        return t.pick(WEIRD_LITS).to_string();
    }
    t.pick(PLAIN_LITS).to_string()
}

/// A pattern using exactly the given placeholder names in order.
pub fn pattern(t: &mut Tape, k: &Knobs, names: &[String], pool: &[String]) -> Pattern {
    if names.is_empty() && t.pct(k.star_pct) {
        return Pattern::star();
    }
    let mut segs = Vec::new();
    for (i, n) in names.iter().enumerate() {
        let lits = t.weighted(&[25, 55, 20]);
        for _ in 0..lits {
            segs.push(Seg::Lit(lit(t, k.weird_literals, pool)));
        }
        if i + 1 == names.len() && t.pct(k.rest_pct) {
            segs.push(Seg::Rest(n.clone()));
            return Pattern { segs };
        }
        segs.push(Seg::Ph(n.clone()));
    }
    let lits = if names.is_empty() {
        t.weighted(&[0, 50, 35, 15])
    } else {
        t.weighted(&[65, 25, 10])
    };
    for _ in 0..lits {
        segs.push(Seg::Lit(lit(t, k.weird_literals, pool)));
    }
    Pattern { segs }
}

fn distinct(t: &mut Tape, pool: &[&str], n: usize, used: &mut Vec<String>) -> Vec<String> {
    let mut out = Vec::new();
    for _ in 0..n {
        let mut name = None;
        for _ in 0..4 {
            let c = t.pick(pool).to_string();
            if !used.contains(&c) {
                name = Some(c);
                break;
            }
        }
        let name = name.unwrap_or_else(|| {
            pool.iter()
                .map(|s| s.to_string())
                .find(|s| !used.contains(s))
                .unwrap_or_else(|| format!("n{}", used.len()))
        });
        used.push(name.clone());
        out.push(name);
    }
    out
}

pub fn pick_method(t: &mut Tape, k: &Knobs) -> usize {
    if t.pct(k.get_pct) {
        0
    } else if t.pct(k.head_pct) {
        1
    } else {
        t.below(9)
    }
}

pub fn gen_ctx(t: &mut Tape, name: &str, depth: u32, many: bool) -> CtxSpec {
    let shape = match t.weighted(&[55, 30, 5, 10]) {
        0 => CtxShape::Named,
        1 => CtxShape::Tuple,
        2 => CtxShape::Unit,
        _ => CtxShape::Enum,
    };
    let mut fields = Vec::new();
    let mut marked: Vec<String> = Vec::new();
    if matches!(shape, CtxShape::Named | CtxShape::Tuple) {
        let n = if many { t.range(7, 18) } else { t.range(1, 6) };
        let names = ["a", "b", "inner", "db", "self_", "as_ref", "r#type"];
        for i in 0..n {
            let ty = match t.weighted(&[70, 15, if depth == 0 { 15 } else { 0 }]) {
                0 => CtxTy::Leaf(t.below(if many { 16 } else { 5 }) as u8),
                // 7 is kept for the parameter of generic contexts
                1 => CtxTy::GenLeaf(t.below(if many { 7 } else { 3 }) as u8),
                _ => CtxTy::Nested(Box::new(gen_ctx(t, &format!("{}N{}", name, i), depth + 1, false))),
            };
            let mut as_ref = t.pct(60);
            if marked.contains(&ty.rust()) {
                as_ref = false;
            }
            if as_ref {
                marked.push(ty.rust());
            }
            fields.push(CtxField {
                name: if shape == CtxShape::Tuple {
                    i.to_string()
                } else {
                    names.get(i).map(|n| n.to_string()).unwrap_or_else(|| format!("part{}", i))
                },
                ty,
                as_ref,
            });
        }
    }
    let generic = match shape {
        CtxShape::Named => t.pct(25),
        CtxShape::Tuple => t.pct(30),
        CtxShape::Enum => t.pct(30),
        CtxShape::Unit => false,
    };
    if generic {
        let is_lg = |f: &CtxField| matches!(f.ty, CtxTy::GenLeaf(_));
        if let Some(i) = fields.iter().position(is_lg) {
            if !marked.contains(&CtxTy::GenLeaf(7).rust()) {
                fields[i].ty = CtxTy::GenLeaf(7);
                if fields[i].as_ref {
                    // the others could be the same type
                    fields[i + 1..].iter_mut().filter(|f| is_lg(f)).for_each(|f| f.as_ref = false);
                }
            }
        }
    }
    CtxSpec {
        name: name.to_string(),
        generic,
        shape,
        fields,
    }
}

fn ctx_sel(t: &mut Tape, ctx: &Option<CtxSpec>) -> CtxSel {
    match ctx {
        None => CtxSel::None,
        Some(c) => {
            let marked: Vec<usize> = (0..c.fields.len()).filter(|i| c.fields[*i].as_ref).collect();
            match t.weighted(&[20, 25, if marked.is_empty() { 0 } else { 55 }]) {
                0 => CtxSel::None,
                1 => CtxSel::Own,
                _ => CtxSel::Field(*t.pick(&marked)),
            }
        }
    }
}

fn body_ty(t: &mut Tape, ctx: &Option<CtxSpec>) -> BodyTy {
    match t.weighted(&[35, 8, 20, 8, 9, 20]) {
        0 => BodyTy::Raw(ctx_sel(t, ctx)),
        1 => BodyTy::Ignore(ctx_sel(t, ctx)),
        2 => BodyTy::JsonVal,
        3 => BodyTy::JsonPage,
        4 => BodyTy::JsonReq,
        _ => BodyTy::Form(*t.pick(FORM_QTYS)),
    }
}

struct Fam<'a> {
    k: &'a Knobs,
    ctx: Option<CtxSpec>,
}

fn data_fields(t: &mut Tape, g: &Fam, used: &mut Vec<String>, with_body: bool) -> Vec<Field> {
    let k = g.k;
    let mut fields = Vec::new();
    let mut push = |t: &mut Tape, used: &mut Vec<String>, kind: Kind| {
        let name = distinct(t, FIELD_NAMES, 1, used).remove(0);
        fields.push(Field {
            name,
            kind,
            param: None,
        });
    };
    let ids: u8 = if k.many_guards { 16 } else { 8 };
    let n = if k.many_guards && t.pct(50) { t.range(6, 7) } else { t.weighted(&k.guard_w) };
    for _ in 0..n {
        let kind = Kind::Guard {
            id: t.below(ids as usize) as u8,
            asy: t.pct(k.async_pct),
            ctx: ctx_sel(t, &g.ctx),
        };
        push(t, used, kind);
    }
    // a variant's guards have distinct ids so that events identify them
    let mut seen = Vec::new();
    for f in fields.iter_mut() {
        if let Kind::Guard { id, .. } = &mut f.kind {
            while seen.contains(id) {
                *id = (*id + 1) % ids;
            }
            seen.push(*id);
        }
    }
    let mut push = |t: &mut Tape, used: &mut Vec<String>, kind: Kind| {
        let name = distinct(t, FIELD_NAMES, 1, used).remove(0);
        fields.push(Field {
            name,
            kind,
            param: None,
        });
    };
    if with_body && t.pct(k.query_pct) {
        let q = *t.pick(k.qtys);
        push(t, used, Kind::Query(q));
    }
    if with_body && t.pct(k.body_pct) {
        let b = body_ty(t, &g.ctx);
        push(t, used, Kind::Body(b));
    }
    fields
}

fn gen_router(t: &mut Tape, g: &Fam, name: &str, inner: &[usize], force_inner: bool) -> Router {
    let k = g.k;
    let is_struct = t.pct(k.struct_pct);
    let n = if is_struct {
        1
    } else {
        t.range(k.variants.0, k.variants.1)
    };
    let pool: Vec<String> = (0..3).map(|_| lit(t, k.weird_literals, &[])).collect();
    let mut variants: Vec<Variant> = Vec::new();
    let mut vnames = Vec::new();
    let mut have_fallback = false;
    let mut used_inner = false;
    let can_forward = !inner.is_empty() || k.spy_pct > 0;
    for i in 0..n {
        let last = i + 1 == n;
        let vname = if is_struct {
            name.to_string()
        } else {
            distinct(t, VARIANT_NAMES, 1, &mut vnames).remove(0)
        };
        let mut used = Vec::new();
        if !is_struct && !last && t.pct(k.unrouted_pct) {
            let style = match t.weighted(&[40, 25, 35]) {
                0 => Style::Unit,
                1 => Style::Named,
                _ => Style::Tuple,
            };
            let mut fields = Vec::new();
            if style != Style::Unit {
                for j in 0..t.range(1, 2) {
                    fields.push(Field {
                        name: if style == Style::Tuple {
                            j.to_string()
                        } else {
                            distinct(t, FIELD_NAMES, 1, &mut used).remove(0)
                        },
                        kind: Kind::Path(*t.pick(&[PathTy::U32, PathTy::Str, PathTy::Bool])),
                        param: None,
                    });
                }
            }
            variants.push(Variant {
                name: vname,
                style,
                routes: vec![],
                fields,
            });
            continue;
        }
        let want_fallback = can_forward
            && !have_fallback
            && (t.pct(k.fallback_pct / if is_struct { 1 } else { n as u32 }.max(1)) || (last && t.pct(k.fallback_pct)) || (last && force_inner && !used_inner));
        let forward = |t: &mut Tape, used: &mut Vec<String>, used_inner: &mut bool| {
            let to = if inner.is_empty() || (t.pct(k.spy_pct) && (*used_inner || !force_inner)) {
                Fwd::Spy
            } else {
                *used_inner = true;
                Fwd::Router(*t.pick(inner))
            };
            Field {
                name: distinct(t, FIELD_NAMES, 1, used).remove(0),
                kind: Kind::Forward(to),
                param: None,
            }
        };
        if want_fallback {
            have_fallback = true;
            let mut fields = data_fields(t, g, &mut used, false);
            let f = forward(t, &mut used, &mut used_inner);
            fields.push(f);
            t.shuffle(&mut fields);
            variants.push(Variant {
                name: vname,
                style: Style::Named,
                routes: vec![],
                fields,
            });
            continue;
        }
        // routed variant
        let nph = if k.many_ph && t.pct(60) { t.range(4, 13) } else { t.weighted(&k.ph_w) };
        let names = distinct(t, FIELD_NAMES, nph, &mut used);
        let mut routes: Vec<Route> = Vec::new();
        let want = if k.many_routes && t.pct(60) { t.range(5, 12) } else { 1 + t.weighted(&k.routes_w) };
        for _ in 0..want {
            for _try in 0..6 {
                let existing: Vec<Pattern> = variants
                    .iter()
                    .flat_map(|v| v.routes.iter())
                    .chain(routes.iter())
                    .map(|r| r.pattern.clone())
                    .collect();
                let fit: Vec<&Pattern> = existing
                    .iter()
                    .filter(|p| p.placeholders().len() == nph)
                    .collect();
                let pat = if !fit.is_empty() && t.pct(k.share_pct) {
                    let mut p = (*t.pick(&fit)).clone();
                    let mut it = names.iter();
                    for s in p.segs.iter_mut() {
                        match s {
                            Seg::Ph(n) | Seg::Rest(n) => *n = it.next().unwrap().clone(),
                            _ => {}
                        }
                    }
                    p
                } else {
                    pattern(t, k, &names, &pool)
                };
                let method = pick_method(t, k);
                let key = pat.key();
                let clash = variants
                    .iter()
                    .flat_map(|v| v.routes.iter())
                    .chain(routes.iter())
                    .any(|r| {
                        if r.pattern.key() == key {
                            r.method == method
                        } else {
                            r.pattern.overlaps(&pat)
                        }
                    });
                if !clash {
                    routes.push(Route {
                        method,
                        pattern: pat,
                    });
                    break;
                }
            }
        }
        if routes.is_empty() {
            // guaranteed fresh: a longer literal path
            let mut segs = vec![Seg::Lit(format!("zz{}", i))];
            for n in &names {
                segs.push(Seg::Ph(n.clone()));
            }
            let pat = Pattern { segs };
            let clash = variants
                .iter()
                .flat_map(|v| v.routes.iter())
                .any(|r| r.pattern.overlaps(&pat));
            if clash {
                vnames.pop();
                continue;
            }
            routes.push(Route {
                method: 0,
                pattern: pat,
            });
        }
        let mut fields: Vec<Field> = names
            .iter()
            .map(|n| Field {
                name: n.clone(),
                kind: Kind::Path(*t.pick(k.path_tys)),
                param: None,
            })
            .collect();
        let mut rest = data_fields(t, g, &mut used, true);
        let has_body = rest.iter().any(|f| matches!(f.kind, Kind::Body(_)));
        if !has_body && can_forward && t.pct(k.forward_pct) {
            let f = forward(t, &mut used, &mut used_inner);
            rest.push(f);
        }
        fields.append(&mut rest);
        t.shuffle(&mut fields);
        let style = if fields.is_empty() && t.pct(60) {
            Style::Unit
        } else {
            Style::Named
        };
        variants.push(Variant {
            name: vname,
            style,
            routes,
            fields,
        });
    }
    if !variants.iter().any(|v| !v.routes.is_empty() || v.forward().is_some()) {
        variants.push(Variant {
            name: if is_struct { name.into() } else { "Zed".into() },
            style: Style::Unit,
            routes: vec![Route {
                method: 0,
                pattern: Pattern {
                    segs: vec![Seg::Lit("".into())],
                },
            }],
            fields: vec![],
        });
    }
    Router {
        name: name.to_string(),
        is_struct,
        variants,
        params: 0,
        inst_of: None,
        noise: if k.noise { t.below(8) as u32 } else { 0 },
    }
}

/// Turns a router generic: assigns type parameters to fields.
fn make_generic(t: &mut Tape, r: &mut Router) {
    let mut params: Vec<Kind> = Vec::new();
    for v in r.variants.iter_mut() {
        for f in v.fields.iter_mut() {
            if !t.pct(65) {
                continue;
            }
            // same concrete type: sometimes the same parameter
            let same = params.iter().position(|k| *k == f.kind);
            match same {
                Some(i) if t.pct(60) => f.param = Some(i),
                _ => {
                    f.param = Some(params.len());
                    params.push(f.kind.clone());
                }
            }
        }
    }
    r.params = params.len();
}

fn reinstantiate(t: &mut Tape, r: &Router, orig: usize, name: &str, k: &Knobs, ctx: &Option<CtxSpec>) -> Router {
    let mut n = r.clone();
    n.name = name.to_string();
    n.inst_of = Some(orig);
    if n.is_struct {
        n.variants[0].name = r.variants[0].name.clone();
    }
    let mut map: Vec<Option<Kind>> = vec![None; r.params];
    for v in n.variants.iter_mut() {
        let unrouted = v.routes.is_empty() && v.forward().is_none();
        for f in v.fields.iter_mut() {
            if let Some(p) = f.param {
                if map[p].is_none() {
                    map[p] = Some(match &f.kind {
                        Kind::Path(_) if unrouted => f.kind.clone(),
                        Kind::Path(_) => Kind::Path(*t.pick(k.path_tys)),
                        Kind::Query(_) => Kind::Query(*t.pick(k.qtys)),
                        Kind::Guard { id, .. } => Kind::Guard {
                            id: *id,
                            asy: t.pct(50),
                            ctx: ctx_sel(t, ctx),
                        },
                        Kind::Body(_) => Kind::Body(body_ty(t, ctx)),
                        Kind::Forward(f) => Kind::Forward(if t.pct(50) { Fwd::Spy } else { f.clone() }),
                    });
                }
                f.kind = map[p].clone().unwrap();
            }
        }
    }
    n
}

/// Now and then something is much larger than usual.
fn scaled(t: &mut Tape, k: &Knobs) -> Knobs {
    let mut k = k.clone();
    if t.pct(k.big_pct) {
        if t.pct(45) {
            k.variants = (12, 36);
            k.struct_pct = 0;
        }
        k.many_ph = t.pct(35);
        k.many_routes = t.pct(35);
        // where there are guards at all
        k.many_guards = k.guard_w[0] < 60 && k.guard_w[1] > 0 && t.pct(45);
        k.many_parts = t.pct(45);
    }
    if t.pct(k.rich_pct) {
        // a bit of everything, whatever the property is about
        k.path_tys = ALL_PATH_TYS;
        k.query_pct = k.query_pct.max(18);
        if k.guard_w[0] > 60 || k.guard_w[1] == 0 {
            k.guard_w = [60, 22, 12, 6, 0, 0];
        }
        k.body_pct = k.body_pct.max(30);
        k.forward_pct = k.forward_pct.max(12);
        k.fallback_pct = k.fallback_pct.max(25);
        k.inner_routers = (k.inner_routers.0, k.inner_routers.1.max(1));
        k.ctx_pct = k.ctx_pct.max(25);
        k.generic_pct = k.generic_pct.max(12);
    }
    k
}

pub fn family(t: &mut Tape, k: &Knobs, name: &str, edition: u32) -> Family {
    let k = &scaled(t, k);
    let ctx = if t.pct(k.ctx_pct) {
        Some(gen_ctx(t, "Ctx0", 0, k.many_parts))
    } else {
        None
    };
    let g = Fam { k, ctx };
    let n_inner = t.range(k.inner_routers.0, k.inner_routers.1);
    let mut routers = Vec::new();
    for i in 0..n_inner {
        // inner routers may themselves forward to earlier ones
        let inner: Vec<usize> = (0..i).collect();
        routers.push(gen_router(t, &g, &format!("R{}", i), &inner, i > 0));
    }
    let inner: Vec<usize> = (0..n_inner).collect();
    let main = routers.len();
    // the most deeply nested one must be reachable to be worth anything
    let pick: Vec<usize> = if inner.is_empty() { vec![] } else { vec![n_inner - 1, t.below(n_inner)] };
    routers.push(gen_router(t, &g, &format!("R{}", main), &pick, n_inner > 0));
    let mut mains = vec![main];
    if t.pct(k.generic_pct) {
        make_generic(t, &mut routers[main]);
        if routers[main].params > 0 {
            let twin = {
                let mut r = routers[main].clone();
                r.params = 0;
                r.name = format!("R{}M", main);
                if r.is_struct {
                    // the value's name is compared with the generic one
                    r.variants[0].name = r.name.clone();
                }
                for v in r.variants.iter_mut() {
                    for f in v.fields.iter_mut() {
                        f.param = None;
                    }
                }
                r
            };
            let second = reinstantiate(t, &routers[main], main, &format!("R{}B", main), k, &g.ctx);
            routers.push(second);
            mains.push(routers.len() - 1);
            routers.push(twin);
            mains.push(routers.len() - 1);
        }
    }
    Family {
        name: name.to_string(),
        edition,
        ctx: g.ctx,
        routers,
        mains,
    }
}
