//! Building hyperdrive and the runtime crate from /repo's working tree,
//! compiling generated programs with rustc and running them.

use crate::render;
use crate::spec::Family;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant, SystemTime};

#[derive(Clone)]
pub struct Env {
    pub root: PathBuf,
    pub repo: PathBuf,
    pub target: PathBuf,
    pub prop: String,
    pub work: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
}

pub const JOBS: usize = 8;
pub const EDITIONS: [u32; JOBS] = [2018, 2021, 2018, 2024, 2021, 2018, 2021, 2024];

impl Env {
    pub fn new(prop: &str) -> Env {
        let root = PathBuf::from(std::env::var("HDV_ROOT").unwrap_or_else(|_| "/verif".into()));
        let work = root.join("work").join(prop);
        Env {
            repo: PathBuf::from("/repo"),
            target: root.join("target"),
            work,
            prop: prop.into(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
            start: Instant::now(),
            root,
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn fresh_work(&self) {
        let _ = fs::remove_dir_all(&self.work);
        fs::create_dir_all(&self.work).expect("work directory");
    }
}

#[derive(Clone, Debug)]
pub struct Libs {
    pub hyperdrive: PathBuf,
    pub rt: PathBuf,
    pub deps: PathBuf,
    pub bins: BTreeMap<String, PathBuf>,
}

fn hash_dir(dir: &Path, h: &mut u64) {
    let mut es: Vec<PathBuf> = match fs::read_dir(dir) {
        Ok(r) => r.filter_map(|e| e.ok().map(|e| e.path())).collect(),
        Err(_) => return,
    };
    es.sort();
    for p in es {
        let name = p.file_name().unwrap().to_string_lossy().to_string();
        if name == "target" || name == ".git" || name == "Cargo.lock" {
            continue;
        }
        let mix = |h: &mut u64, b: &[u8]| {
            for x in b {
                *h ^= *x as u64;
                *h = h.wrapping_mul(0x100000001b3);
            }
        };
        mix(h, name.as_bytes());
        if p.is_dir() {
            hash_dir(&p, h);
        } else if let Ok(b) = fs::read(&p) {
            mix(h, &b);
        }
    }
}

/// Builds everything that depends on /repo. `Err` carries compiler output.
pub fn build(env: &Env) -> Result<Libs, String> {
    build_some(env, &[])
}

/// Only hyperdrive itself.
pub fn build_only(env: &Env) -> Result<Libs, String> {
    build_some(env, &["-p", "hyperdrive"])
}

fn build_some(env: &Env, only: &[&str]) -> Result<Libs, String> {
    let mut h = 0xcbf29ce484222325u64;
    hash_dir(&env.repo, &mut h);
    let stamp = env.target.join("repo.stamp");
    let manifest = env.root.join("harness/rt/Cargo.toml");
    let now = format!("{:016x}", h);
    if fs::read_to_string(&stamp).ok().as_deref() != Some(&now) {
        // never rely on time stamps to notice a change
        let _ = Command::new("cargo")
            .args(["clean", "--offline", "-q", "-p", "hyperdrive", "-p", "hyperderive", "-p", "hdv-rt"])
            .arg("--manifest-path")
            .arg(&manifest)
            .arg("--target-dir")
            .arg(&env.target)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
    }
    let out = Command::new("cargo")
        .args(["build", "--offline", "--message-format=json-render-diagnostics"])
        .args(only)
        .arg("--manifest-path")
        .arg(&manifest)
        .arg("--target-dir")
        .arg(&env.target)
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).to_string());
    }
    let mut libs = Libs {
        hyperdrive: PathBuf::new(),
        rt: PathBuf::new(),
        deps: env.target.join("debug/deps"),
        bins: BTreeMap::new(),
    };
    for line in String::from_utf8_lossy(&out.stdout).lines() {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => continue,
        };
        if v["reason"] != "compiler-artifact" {
            continue;
        }
        let name = v["target"]["name"].as_str().unwrap_or("").to_string();
        if let Some(exe) = v["executable"].as_str() {
            libs.bins.insert(name.clone(), exe.into());
        }
        for f in v["filenames"].as_array().into_iter().flatten() {
            let f = f.as_str().unwrap_or("");
            if f.ends_with(".rlib") {
                match name.as_str() {
                    "hyperdrive" => libs.hyperdrive = f.into(),
                    "hdv_rt" => libs.rt = f.into(),
                    _ => {}
                }
            }
        }
    }
    if libs.hyperdrive.as_os_str().is_empty() || only.is_empty() && libs.rt.as_os_str().is_empty() {
        return Err("cargo did not report the libraries".into());
    }
    if only.is_empty() {
        let _ = fs::write(&stamp, now);
    }
    Ok(libs)
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Diag {
    pub file: String,
    pub line: usize,
    pub message: String,
}

/// Runs rustc; returns the errors (empty: success).
pub fn rustc(libs: &Libs, src: &Path, edition: u32, extra: &[&str], with_rt: bool, out: &Path) -> Result<(), Vec<Diag>> {
    let mut c = Command::new("rustc");
    c.arg(src)
        .arg("--edition")
        .arg(edition.to_string())
        .args(["--error-format=json", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "opt-level=0"])
        .args(extra)
        .arg("-L")
        .arg(format!("dependency={}", libs.deps.display()))
        .arg("--extern")
        .arg(format!("hyperdrive={}", libs.hyperdrive.display()))
        .arg("-o")
        .arg(out)
        .env("RUST_BACKTRACE", "0");
    if with_rt {
        c.arg("--extern").arg(format!("hdv_rt={}", libs.rt.display()));
    }
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => {
            return Err(vec![Diag {
                file: String::new(),
                line: 0,
                message: e.to_string(),
            }])
        }
    };
    if o.status.success() {
        return Ok(());
    }
    let text = String::from_utf8_lossy(&o.stderr).to_string();
    let mut ds = Vec::new();
    for line in text.lines() {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => continue,
        };
        if v["level"] != "error" {
            continue;
        }
        let mut message = v["message"].as_str().unwrap_or("").to_string();
        for ch in v["children"].as_array().into_iter().flatten() {
            if ch["level"] == "help" || ch["level"] == "note" {
                let m = ch["message"].as_str().unwrap_or("");
                if m.starts_with("message: ") {
                    message = format!("{}: {}", message, m);
                }
            }
        }
        let spans = v["spans"].as_array().cloned().unwrap_or_default();
        let mut any = false;
        for s in &spans {
            if s["is_primary"] == true {
                let (f, l) = outermost(s);
                any = true;
                ds.push(Diag {
                    file: f,
                    line: l,
                    message: message.clone(),
                });
            }
        }
        if !any && !message.starts_with("aborting due to") {
            ds.push(Diag {
                file: String::new(),
                line: 0,
                message,
            });
        }
    }
    if ds.is_empty() {
        ds.push(Diag {
            file: String::new(),
            line: 0,
            message: format!("rustc: {} {}", o.status, text.chars().take(2000).collect::<String>()),
        });
    }
    Err(ds)
}

/// The place in our source a span (possibly inside an expansion) belongs to.
fn outermost(s: &Value) -> (String, usize) {
    let mut cur = s.clone();
    loop {
        let next = cur["expansion"]["span"].clone();
        if next.is_object() {
            cur = next;
        } else {
            return (
                cur["file_name"].as_str().unwrap_or("").to_string(),
                cur["line_start"].as_u64().unwrap_or(0) as usize,
            );
        }
    }
}

pub struct Shard {
    pub dir: PathBuf,
    pub edition: u32,
    pub families: Vec<Family>,
    pub bin: Option<PathBuf>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CompileFail {
    pub family: Family,
    pub messages: Vec<String>,
}

fn write_shard(s: &Shard) {
    let _ = fs::remove_dir_all(&s.dir);
    fs::create_dir_all(&s.dir).expect("shard dir");
    let mut main = String::from("#![allow(warnings)]\n");
    for f in &s.families {
        fs::write(s.dir.join(format!("{}.rs", f.name)), render::family_src(f)).expect("write family");
        main.push_str(&format!("mod {};\n", f.name));
    }
    main.push_str("fn main() { hdv_rt::shard::shard_main(&[\n");
    for f in &s.families {
        main.push_str(&format!(
            "    hdv_rt::shard::Module {{ name: {:?}, entries: {}::entries, ctx_check: {}::ctx_check }},\n",
            f.name, f.name, f.name
        ));
    }
    main.push_str("]) }\n");
    fs::write(s.dir.join("main.rs"), main).expect("write shard");
}

/// Compiles a shard, dropping families that do not compile.
pub fn compile_shard(libs: &Libs, s: &mut Shard) -> Result<Vec<CompileFail>, String> {
    let mut fails = Vec::new();
    let bin = s.dir.join("shard.bin");
    loop {
        if s.families.is_empty() {
            return Ok(fails);
        }
        write_shard(s);
        match rustc(libs, &s.dir.join("main.rs"), s.edition, &["--crate-name", "shard"], true, &bin) {
            Ok(()) => {
                s.bin = Some(bin);
                return Ok(fails);
            }
            Err(ds) => {
                let mut bad: BTreeMap<String, Vec<String>> = BTreeMap::new();
                let mut stray = Vec::new();
                for d in ds {
                    let stem = Path::new(&d.file)
                        .file_stem()
                        .map(|s| s.to_string_lossy().to_string())
                        .unwrap_or_default();
                    if s.families.iter().any(|f| f.name == stem) {
                        bad.entry(stem).or_default().push(format!("{}:{}: {}", d.file, d.line, d.message));
                    } else {
                        stray.push(d);
                    }
                }
                if bad.is_empty() {
                    return Err(format!("{:?}", stray));
                }
                let (out, keep): (Vec<Family>, Vec<Family>) =
                    s.families.drain(..).partition(|f| bad.contains_key(&f.name));
                s.families = keep;
                for f in out {
                    let messages = bad.remove(&f.name).unwrap_or_default();
                    fails.push(CompileFail { family: f, messages });
                }
            }
        }
    }
}

/// Compiles families in parallel shards below `dir`.
pub fn compile(libs: &Libs, dir: &Path, fams: Vec<Family>) -> Result<(Vec<Shard>, Vec<CompileFail>), String> {
    let mut shards: Vec<Shard> = Vec::new();
    let mut by_edition: BTreeMap<usize, Vec<Family>> = BTreeMap::new();
    // families carry their edition; spread them over the shards having it
    let mut rr: BTreeMap<u32, usize> = BTreeMap::new();
    for f in fams {
        let slots: Vec<usize> = (0..JOBS).filter(|i| EDITIONS[*i] == f.edition).collect();
        let n = rr.entry(f.edition).or_insert(0);
        let slot = if slots.is_empty() { JOBS } else { slots[*n % slots.len()] };
        *n += 1;
        by_edition.entry(slot).or_default().push(f);
    }
    for (slot, families) in by_edition {
        shards.push(Shard {
            dir: dir.join(format!("s{}", slot)),
            edition: families[0].edition,
            families,
            bin: None,
        });
    }
    let results: Vec<Result<(Shard, Vec<CompileFail>), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = shards
            .into_iter()
            .map(|mut s| {
                sc.spawn(move || {
                    let f = compile_shard(libs, &mut s)?;
                    Ok((s, f))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("compile thread")).collect()
    });
    let mut out = Vec::new();
    let mut fails = Vec::new();
    for r in results {
        let (s, f) = r?;
        if s.bin.is_some() {
            out.push(s);
        }
        fails.extend(f);
    }
    Ok((out, fails))
}

pub enum RunEnd {
    Done,
    /// Exited abnormally.
    Died(String),
    /// No progress for a long time.
    Hung,
}

pub const STALL: u64 = 60;

/// Runs a program, watching the progress file it touches before every case.
pub fn run_watched(mut c: Command, progress: &Path, err: &Path) -> Result<RunEnd, String> {
    let ef = fs::File::create(err).map_err(|e| e.to_string())?;
    let mut child = c
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(ef)
        .spawn()
        .map_err(|e| e.to_string())?;
    let begin = SystemTime::now();
    loop {
        if let Some(st) = child.try_wait().map_err(|e| e.to_string())? {
            return Ok(if st.success() {
                RunEnd::Done
            } else {
                RunEnd::Died(format!(
                    "{} {}",
                    st,
                    fs::read_to_string(err).unwrap_or_default().chars().take(400).collect::<String>()
                ))
            });
        }
        let last = fs::metadata(progress).and_then(|m| m.modified()).unwrap_or(begin).max(begin);
        if SystemTime::now().duration_since(last).map_or(false, |d| d > Duration::from_secs(STALL)) {
            let _ = child.kill();
            let _ = child.wait();
            return Ok(RunEnd::Hung);
        }
        std::thread::sleep(Duration::from_millis(15));
    }
}
