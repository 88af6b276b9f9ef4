//! Properties decided by whether generated declarations compile.

use crate::driver::*;
use crate::gen;
use crate::item::{self, Unit};
use crate::prog;
use crate::report::*;
use crate::spec::*;
use crate::tape::{self, Tape};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

const PRELUDE: &str = include_str!("prelude.rs");
const DECL_EDITIONS: [u32; JOBS] = [2015, 2018, 2021, 2018, 2024, 2021, 2015, 2024];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Decl {
    pub text: String,
    pub edition: u32,
    pub accept: bool,
    /// The rule it breaks, or how it was made.
    pub rule: String,
}

fn module(d: &Decl) -> String {
    let uses = if d.edition == 2015 { "use hyperdrive;\nuse std;\n" } else { "" };
    format!("{}{}", uses, d.text)
}

/// Compiles declarations (all of one edition); `None`: accepted.
fn compile_decls(libs: &Libs, dir: &Path, ds: &[(usize, &Decl)]) -> Result<Vec<(usize, Option<String>)>, String> {
    let mut out: BTreeMap<usize, Option<String>> = BTreeMap::new();
    let mut live: BTreeSet<usize> = ds.iter().map(|d| d.0).collect();
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    fs::write(dir.join("pre.rs"), PRELUDE).map_err(|e| e.to_string())?;
    let edition = ds[0].1.edition;
    for (i, d) in ds {
        fs::write(dir.join(format!("d{}.rs", i)), module(d)).map_err(|e| e.to_string())?;
    }
    let meta = dir.join("out.rmeta");
    for _ in 0..40 {
        let mut main = String::from("#![allow(warnings)]\nextern crate hyperdrive;\nmacro_rules! hdv_same { ($($t:tt)*) => { $($t)* } }\nmod pre;\n");
        for i in &live {
            main.push_str(&format!("mod d{};\n", i));
        }
        fs::write(dir.join("main.rs"), main).map_err(|e| e.to_string())?;
        let r = rustc(
            libs,
            &dir.join("main.rs"),
            edition,
            &["--crate-name", "decls", "--crate-type", "lib", "--emit=metadata"],
            false,
            &meta,
        );
        let diags = match r {
            Ok(()) => {
                for i in &live {
                    out.insert(*i, None);
                }
                let _ = fs::remove_dir_all(dir);
                return Ok(out.into_iter().collect());
            }
            Err(d) => d,
        };
        let mut any = false;
        for d in &diags {
            let stem = Path::new(&d.file)
                .file_stem()
                .map(|s| s.to_string_lossy().to_string())
                .unwrap_or_default();
            let i = match stem.strip_prefix('d').and_then(|s| s.parse::<usize>().ok()) {
                Some(i) if live.contains(&i) || out.contains_key(&i) => i,
                _ => continue,
            };
            any = true;
            live.remove(&i);
            out.entry(i).or_insert_with(|| Some(d.message.clone()));
        }
        if !any {
            return Err(format!("errors outside of the declarations: {:?}", &diags[..diags.len().min(3)]));
        }
    }
    Err("compilation does not settle".into())
}

/// Verdicts in order; `None`: accepted, `Some`: the first error.
pub fn verdicts(libs: &Libs, dir: &Path, ds: &[Decl]) -> Result<Vec<Option<String>>, String> {
    let mut groups: BTreeMap<(u32, usize), Vec<(usize, &Decl)>> = BTreeMap::new();
    let mut seen: BTreeMap<u32, usize> = BTreeMap::new();
    for (i, d) in ds.iter().enumerate() {
        let n = seen.entry(d.edition).or_insert(0);
        // two groups per edition and 400 declarations
        let g = (*n % 2) + 2 * (*n / 800);
        *n += 1;
        groups.entry((d.edition, g)).or_default().push((i, d));
    }
    let work: Vec<_> = groups.into_iter().collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results: Vec<Result<Vec<(usize, Option<String>)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..JOBS)
            .map(|_| {
                let (work, next) = (&work, &next);
                sc.spawn(move || {
                    let mut all = Vec::new();
                    loop {
                        let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if k >= work.len() {
                            return Ok(all);
                        }
                        let ((e, g), list) = &work[k];
                        all.extend(compile_decls(libs, &dir.join(format!("e{}_{}", e, g)), list)?);
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("compile thread")).collect()
    });
    let mut out = vec![None; ds.len()];
    for r in results {
        for (i, v) in r? {
            out[i] = v;
        }
    }
    Ok(out)
}

fn finding(prop: &str, d: &Decl, got: &Option<String>, n: usize) -> Finding {
    let message = if d.accept {
        format!("a well-formed declaration is rejected ({}; {} of the generated ones)", d.rule, n)
    } else {
        format!("a malformed declaration is accepted ({}; {} of the generated ones)", d.rule, n)
    };
    Finding {
        property: prop.into(),
        kind: "decl".into(),
        signature: format!("decl:{}:{}", d.accept, d.rule),
        message,
        detail: json!({
            "compiler": got.clone().unwrap_or_else(|| "accepted".into()),
            "declaration": d.text,
            "edition": d.edition,
            "decl": d,
        }),
    }
}

pub fn replay(env: &Env, libs: &Libs, f: &Finding) -> Result<Option<Finding>, String> {
    let d: Decl = serde_json::from_value(f.detail["decl"].clone()).map_err(|e| e.to_string())?;
    let v = verdicts(libs, &env.work.join("d"), &[d.clone()])?.remove(0);
    Ok(if v.is_none() == d.accept { None } else { Some(finding(&f.property, &d, &v, 1)) })
}

/// A finished declaration made from a family; `None` if it can't be made.
type Make<'a> = &'a dyn Fn(&Family) -> Option<Decl>;

const REDUCE_S: f64 = 60.0;

fn reduce(env: &Env, libs: &Libs, fam: &Family, d: &Decl, got: &Option<String>, make: Make) -> (Decl, Option<String>) {
    let t0 = env.elapsed();
    let mut fam = fam.clone();
    let mut best = (d.clone(), got.clone());
    let mut round = 0;
    while env.elapsed() - t0 < REDUCE_S {
        round += 1;
        let mut cands: Vec<(Family, Decl)> = Vec::new();
        for f in prog::reductions(&fam) {
            if let Some(mut m) = make(&f) {
                m.edition = d.edition;
                if m.text.len() < best.0.text.len() {
                    cands.push((f, m));
                }
            }
            if cands.len() >= 64 {
                break;
            }
        }
        if cands.is_empty() {
            break;
        }
        let ds: Vec<Decl> = cands.iter().map(|c| c.1.clone()).collect();
        let vs = match verdicts(libs, &env.work.join(format!("red{}", round)), &ds) {
            Ok(v) => v,
            Err(_) => break,
        };
        let mut hit: Vec<usize> = (0..ds.len()).filter(|i| vs[*i].is_none() != ds[*i].accept).collect();
        hit.sort_by_key(|i| ds[*i].text.len());
        match hit.first() {
            Some(i) => {
                fam = cands[*i].0.clone();
                best = (ds[*i].clone(), vs[*i].clone());
            }
            None => break,
        }
    }
    best
}

// ------------------------------------------------------------------ C11

struct Made {
    fam: Family,
    rule: Option<&'static str>,
    tape: Vec<u32>,
    decl: Decl,
}

fn base_unit(fam: &Family) -> Unit {
    item::unit_of(fam)
}

fn make(fam: &Family, rule: Option<&str>, tp: &[u32], edition: u32) -> Option<Decl> {
    let mut t = Tape::new(tp);
    let mut u = base_unit(fam);
    let wrap = t.below(10);
    let rule_name;
    match rule {
        None => {
            let used = item::decorate(&mut t, fam, &mut u, edition, wrap == 8);
            rule_name = if used.is_empty() { "well-formed".into() } else { format!("well-formed, {}", used.join(", ")) };
        }
        Some(r) => {
            item::mutate(r, &mut t, fam, &mut u)?;
            rule_name = r.to_string();
        }
    }
    let fragments = if rule.is_none() && wrap == 7 { Some(item::macroize(&mut t, &mut u)) } else { None };
    let mut text = u.render();
    let mut name = rule_name;
    if rule.is_none() {
        match wrap {
            7 => {
                let (params, args) = fragments.unwrap();
                text = format!(
                    "macro_rules! hdv_make {{ ({}) => {{\n{}}} }}\nhdv_make! {{ {} }}\n",
                    params, text, args
                );
                name.push_str(", from a macro's arguments");
            }
            8 => {
                text = format!("pub fn local() {{\n{}}}\n", text);
                name.push_str(", inside a function");
            }
            9 => {
                text = format!(
                    "macro_rules! hdv_make {{ ($($hdv_t:tt)*) => {{ $($hdv_t)* }} }}\nhdv_make! {{\n{}}}\n",
                    text
                );
                name.push_str(", inside a macro");
            }
            _ => {}
        }
    }
    Some(Decl {
        text,
        edition,
        accept: rule.is_none(),
        rule: name,
    })
}

fn c11_round(env: &Env, round: u64, n: usize) -> Vec<Made> {
    let k = gen::knobs_for("C11");
    let mut out = Vec::new();
    for i in 0..n {
        let tag = round << 32 | i as u64;
        let tp = tape::fixed_tape(env.seed, "C11/programs", tag, 3000);
        let edition = DECL_EDITIONS[i % JOBS];
        let fam = gen::family(&mut Tape::new(&tp), &k, "m", edition);
        let dt = tape::fixed_tape(env.seed, "C11/edits", tag, 1200);
        if let Some(d) = make(&fam, None, &dt, edition) {
            out.push(Made {
                fam: fam.clone(),
                rule: None,
                tape: dt.clone(),
                decl: d,
            });
        }
        // several broken rules per declaration
        for j in 0..5 {
            let rule = item::MUTATIONS[(i * 5 + j) % item::MUTATIONS.len()];
            let mt = tape::fixed_tape(env.seed, "C11/mutations", tag << 4 | j as u64, 60);
            if let Some(d) = make(&fam, Some(rule), &mt, edition) {
                out.push(Made {
                    fam: fam.clone(),
                    rule: Some(rule),
                    tape: mt,
                    decl: d,
                });
            }
        }
    }
    out
}

pub fn c11(env: &Env, libs: &Libs) -> Result<Report, String> {
    let mut rep = Report {
        rule: "one case = one generated declaration compiled with rustc, well-formed (from a grammar, decorated) or with exactly \
               one documented rule broken; non-trivial: distinct text with at least one route, role field or context"
            .into(),
        assumptions: vec![
            "acceptance is observed as: rustc compiles the module to metadata".into(),
            "declarations outside the generator's grammar and edits are not covered".into(),
        ],
        ..Report::default()
    };
    let budget = if env.thorough { 600.0 } else { 0.0 };
    let mut seen = BTreeSet::new();
    let mut round = 0;
    loop {
        let made = c11_round(env, round, 900);
        let ds: Vec<Decl> = made.iter().map(|m| m.decl.clone()).collect();
        let vs = verdicts(libs, &env.work.join(format!("r{}", round)), &ds)?;
        let mut bad: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (i, m) in made.iter().enumerate() {
            rep.evaluations += 1;
            if seen.insert(tape::hash64(&ds[i].text)) {
                rep.distinct += 1;
            }
            let label = match (&m.rule, &vs[i]) {
                (None, _) => format!("well-formed edition {}", m.decl.edition),
                (Some(r), Some(v)) if v.contains("panicked") => format!("{}: derive", r),
                (Some(r), _) => format!("{}: compiler", r),
            };
            *rep.labels.entry(label).or_insert(0) += 1;
            if vs[i].is_none() != m.decl.accept {
                bad.entry(m.rule.unwrap_or("").to_string()).or_default().push(i);
            }
            if rep.samples.len() < 6 && i % 700 == 5 {
                rep.samples.push(json!({"declaration": m.decl.text, "expected": if m.decl.accept {"accepted"} else {"rejected"}, "rule": m.decl.rule, "compiler": vs[i]}));
            }
        }
        if std::env::var("HDV_VERBOSE").is_ok() {
            eprintln!("round {}: {:.1}", round, env.elapsed());
            for (r, l) in &bad {
                for i in l.iter().take(4) {
                    eprintln!("== {:?} {:?}\n{}", r, vs[*i], ds[*i].text);
                }
                eprintln!("{:?}: {}", r, l.len());
            }
        }
        for (_, mut l) in bad.into_iter().take(3) {
            l.sort_by_key(|i| ds[*i].text.len());
            let m = &made[l[0]];
            let mk = |f: &Family| make(f, m.rule, &m.tape, m.decl.edition);
            let (d, got) = reduce(env, libs, &m.fam, &m.decl, &vs[l[0]], &mk);
            rep.violations.push(finding("C11", &d, &got, l.len()));
        }
        round += 1;
        if !rep.violations.is_empty() || env.elapsed() > budget {
            break;
        }
    }
    rep.extra.insert("rounds".into(), json!(round));
    Ok(rep)
}

// ------------------------------------------------------------------ C10

fn clash(a: &Route, b: &Route) -> bool {
    if a.pattern.key() == b.pattern.key() {
        a.method == b.method
    } else {
        a.pattern.overlaps(&b.pattern)
    }
}

/// Routes grouped into variants (or a struct when `None`).
fn routes_decl(vars: &[Vec<Route>], edition: u32, rule: &str) -> Decl {
    let all: Vec<&Route> = vars.iter().flatten().collect();
    let mut ok = true;
    for (i, a) in all.iter().enumerate() {
        for b in &all[..i] {
            ok &= !clash(a, b);
        }
    }
    let single = vars.len() == 1 && vars[0].len() % 2 == 0;
    let fields = |v: &Vec<Route>| {
        let ns = v[0].pattern.placeholders();
        if ns.is_empty() {
            String::new()
        } else {
            let fs: Vec<String> = ns.iter().map(|n| format!("{}: String", n)).collect();
            format!(" {{ {} }}", fs.join(", "))
        }
    };
    let mut s = String::from("#[derive(hyperdrive::FromRequest)]\n");
    if single {
        for r in &vars[0] {
            s.push_str(&format!("{}\n", item::route_attr(r)));
        }
        let f = fields(&vars[0]);
        s.push_str(&format!("pub struct R{}{}\n", f, if f.is_empty() { ";" } else { "" }));
    } else {
        s.push_str("pub enum R {\n");
        for (i, v) in vars.iter().enumerate() {
            for r in v {
                s.push_str(&format!("    {}\n", item::route_attr(r)));
            }
            s.push_str(&format!("    V{}{},\n", i, fields(v)));
        }
        s.push_str("}\n");
    }
    Decl {
        text: s,
        edition,
        accept: ok,
        rule: rule.into(),
    }
}

fn all_patterns(max: usize, lits: &[&str]) -> Vec<Pattern> {
    let mut out = vec![Pattern::star()];
    let mut level: Vec<Vec<Seg>> = vec![vec![]];
    for depth in 0..max {
        let mut next = Vec::new();
        for p in &level {
            let mut r = p.clone();
            r.push(Seg::Rest(format!("p{}", depth)));
            out.push(Pattern { segs: r });
            for l in lits {
                let mut q = p.clone();
                q.push(Seg::Lit(l.to_string()));
                next.push(q);
            }
            let mut q = p.clone();
            q.push(Seg::Ph(format!("p{}", depth)));
            next.push(q);
        }
        out.extend(next.iter().map(|s| Pattern { segs: s.clone() }));
        level = next;
    }
    out
}

fn rename(p: &Pattern, names: &[String]) -> Pattern {
    let mut p = p.clone();
    let mut it = names.iter().cycle();
    for s in p.segs.iter_mut() {
        match s {
            Seg::Ph(n) | Seg::Rest(n) => *n = it.next().cloned().unwrap_or_default(),
            _ => {}
        }
    }
    p
}

/// A set of routes biased towards near misses.
fn random_set(t: &mut Tape) -> Vec<Vec<Route>> {
    let k = gen::Knobs {
        ph_w: [35, 40, 20, 5],
        rest_pct: 30,
        star_pct: 8,
        weird_literals: 35,
        ..gen::BASE
    };
    let names: Vec<String> = ["a", "b", "id", "x"].iter().map(|s| s.to_string()).collect();
    let pool: Vec<String> = (0..2).map(|_| gen::lit(t, k.weird_literals, &[])).collect();
    let nv = t.range(1, 4);
    let mut pats: Vec<Pattern> = Vec::new();
    let mut out: Vec<Vec<Route>> = Vec::new();
    let want_ok = t.pct(60);
    for _ in 0..nv {
        let mut v: Vec<Route> = Vec::new();
        let nr = 1 + t.weighted(&[55, 30, 15]);
        for _ in 0..nr {
            for _try in 0..8 {
                let mut pat = if !pats.is_empty() && t.pct(60) {
                    // an edit of an earlier pattern
                    let mut p = t.pick(&pats).clone();
                    if p.is_star() {
                        p.segs.push(Seg::Lit("*".into()));
                    }
                    let at = t.below(p.segs.len());
                    match t.below(6) {
                        0 => {}
                        1 => p.segs[at] = Seg::Lit(gen::lit(t, 30, &pool)),
                        2 => p.segs[at] = Seg::Ph("x".into()),
                        3 => {
                            p.segs.truncate(at);
                            p.segs.push(Seg::Rest("x".into()));
                        }
                        4 => {
                            p.segs.insert(at, Seg::Lit(gen::lit(t, 30, &pool)));
                        }
                        _ => {
                            if p.segs.len() > 1 {
                                p.segs.remove(at);
                            }
                        }
                    }
                    p
                } else {
                    let n = t.weighted(&k.ph_w);
                    gen::pattern(t, &k, &names[..n], &pool)
                };
                // literals that no request path can contain are left out:
                // whether they overlap is not observable
                if pat.segs.iter().any(|s| matches!(s, Seg::Lit(l) if gen::ALIEN_LITS.contains(&l.as_str()))) {
                    continue;
                }
                let n = pat.placeholders().len();
                if n > names.len() || v.first().map_or(false, |f| f.pattern.placeholders().len() != n) {
                    continue;
                }
                pat = rename(&pat, &names);
                let r = Route {
                    method: if t.pct(60) { t.below(3) } else { t.below(9) },
                    pattern: pat.clone(),
                };
                let bad = out.iter().flatten().chain(&v).any(|o| clash(o, &r));
                if bad && want_ok {
                    continue;
                }
                pats.push(pat);
                v.push(r);
                break;
            }
        }
        if !v.is_empty() {
            out.push(v);
        }
    }
    if out.is_empty() {
        out.push(vec![Route {
            method: 0,
            pattern: Pattern {
                segs: vec![Seg::Lit("".into())],
            },
        }]);
    }
    out
}

fn shrink_set(env: &Env, libs: &Libs, vars: &[Vec<Route>], edition: u32, rule: &str) -> (Decl, Option<String>, bool) {
    let mut cur = vars.to_vec();
    let mut best = (routes_decl(&cur, edition, rule), None, false);
    for round in 0..12 {
        let mut cands: Vec<Vec<Vec<Route>>> = Vec::new();
        for i in 0..cur.len() {
            if cur.len() > 1 {
                let mut c = cur.clone();
                c.remove(i);
                cands.push(c);
            }
            for j in 0..cur[i].len() {
                if cur[i].len() > 1 {
                    let mut c = cur.clone();
                    c[i].remove(j);
                    cands.push(c);
                }
            }
        }
        if round == 0 {
            cands.push(cur.clone());
        }
        if cands.is_empty() {
            break;
        }
        let ds: Vec<Decl> = cands.iter().map(|c| routes_decl(c, edition, rule)).collect();
        let vs = match verdicts(libs, &env.work.join(format!("sh{}", round)), &ds) {
            Ok(v) => v,
            Err(_) => break,
        };
        match (0..ds.len())
            .filter(|i| vs[*i].is_none() != ds[*i].accept)
            .min_by_key(|i| ds[*i].text.len())
        {
            Some(i) if !best.2 || ds[i].text.len() < best.0.text.len() => {
                cur = cands[i].clone();
                best = (ds[i].clone(), vs[i].clone(), true);
            }
            _ => break,
        }
    }
    best
}

pub fn c10(env: &Env, libs: &Libs) -> Result<Report, String> {
    let mut rep = Report {
        rule: "one case = one set of routes compiled with rustc (rejection expected exactly when two routes clash by the model), \
               or one request sent to an accepted router; non-trivial: distinct declarations with at least two routes"
            .into(),
        assumptions: vec![
            "literals that cannot occur in a request path are left out".into(),
            "the overlap model (harness/core/src/spec.rs Pattern::overlaps) is segment-wise".into(),
        ],
        ..Report::default()
    };
    // every ordered pair over a small alphabet
    let (max, lits): (usize, &[&str]) = if env.thorough { (3, &["", "a", "b"]) } else { (2, &["", "a", "b", "."]) };
    let pats = all_patterns(max, lits);
    let mut sets: Vec<(Vec<Vec<Route>>, String)> = Vec::new();
    for (i, a) in pats.iter().enumerate() {
        for (j, b) in pats.iter().enumerate() {
            let q: Vec<String> = (0..4).map(|i| format!("q{}", i)).collect();
            let b2 = rename(b, &q);
            let same = a.key() == b.key();
            // the second method only matters for equal patterns
            for (k, m) in [(0, 0), (0, 1), (2, 0)].iter().enumerate() {
                if k > 0 && !same && (i + j) % 3 != k - 1 {
                    continue;
                }
                let r0 = Route { method: m.0, pattern: a.clone() };
                let r1 = Route { method: m.1, pattern: b2.clone() };
                sets.push((vec![vec![r0], vec![r1]], "pair of patterns".into()));
            }
            if a.placeholders() == b.placeholders() && i != j {
                let r0 = Route { method: 0, pattern: a.clone() };
                let r1 = Route { method: 0, pattern: b.clone() };
                sets.push((vec![vec![r0, r1]], "pair of patterns on one item".into()));
            }
        }
    }
    let pairs = sets.len();
    let n = if env.thorough { 30000 } else { 5000 };
    for i in 0..n {
        let tp = tape::fixed_tape(env.seed, "C10/sets", i, 300);
        sets.push((random_set(&mut Tape::new(&tp)), "set of routes".into()));
    }
    let mut seen = BTreeSet::new();
    let chunk = 16000;
    for (c, part) in sets.chunks(chunk).enumerate() {
        let ds: Vec<Decl> = part
            .iter()
            .enumerate()
            .map(|(i, (s, r))| routes_decl(s, DECL_EDITIONS[(i + c * chunk) % JOBS], r))
            .collect();
        let vs = verdicts(libs, &env.work.join(format!("c{}", c)), &ds)?;
        let mut bad = [Vec::new(), Vec::new()];
        for (i, d) in ds.iter().enumerate() {
            rep.evaluations += 1;
            if part[i].0.iter().flatten().count() > 1 && seen.insert(tape::hash64(&d.text)) {
                rep.distinct += 1;
            }
            let l = format!("{}: {}", d.rule, if d.accept { "disjoint" } else { "clashing" });
            *rep.labels.entry(l).or_insert(0) += 1;
            if vs[i].is_none() != d.accept {
                bad[d.accept as usize].push(i);
            }
            if rep.samples.len() < 5 && i % 2903 == 77 {
                rep.samples.push(json!({"declaration": d.text, "expected": if d.accept {"accepted"} else {"rejected"}, "compiler": vs[i]}));
            }
        }
        if std::env::var("HDV_VERBOSE").is_ok() {
            eprintln!("chunk {}: {:.1}", c, env.elapsed());
        }
        for mut l in bad {
            if l.is_empty() {
                continue;
            }
            l.sort_by_key(|i| ds[*i].text.len());
            let i = l[0];
            let (d, got, ok) = shrink_set(env, libs, &part[i].0, ds[i].edition, &ds[i].rule);
            let (d, got) = if ok { (d, got) } else { (ds[i].clone(), vs[i].clone()) };
            rep.violations.push(finding("C10", &d, &got, l.len()));
        }
        if !rep.violations.is_empty() {
            break;
        }
    }
    rep.extra.insert("ordered_pairs_enumerated".into(), json!(pairs));
    rep.extra.insert("pair_patterns".into(), json!(pats.len()));
    if rep.violations.is_empty() {
        let r = prog::check(env, libs)?;
        rep.evaluations += r.evaluations;
        rep.distinct += r.distinct;
        for (k, v) in r.labels {
            *rep.labels.entry(format!("request: {}", k)).or_insert(0) += v;
        }
        rep.samples.extend(r.samples.into_iter().take(2));
        rep.violations.extend(r.violations);
        rep.extra.extend(r.extra);
    }
    Ok(rep)
}
