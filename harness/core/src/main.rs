use hdv_core::driver::{self, Env};
use hdv_core::report::{self, Finding};
use hdv_core::{api, decl, libprog, prog, report::Report};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("replay") => replay(&args[2]),
        Some("build") => match driver::build(&Env::new("setup")).and_then(|_| libprog::build(&Env::new("setup"))) {
            Ok(_) => 0,
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        Some("api") => {
            let env = Env::new("api");
            env.fresh_work();
            let code = api::selftest(&env);
            let _ = std::fs::remove_dir_all(&env.work);
            code
        }
        Some("programs") => {
            prog::show_programs(&args[2], 1, 16, std::path::Path::new(&args[3]));
            0
        }
        _ => {
            eprintln!("usage: hdv check <property> | hdv replay <file>");
            2
        }
    };
    std::process::exit(code);
}

fn check(prop: &str) -> i32 {
    let env = Env::new(prop);
    env.fresh_work();
    let libs = match driver::build(&env) {
        Ok(l) => l,
        Err(e) => {
            eprintln!("cannot build: {}", e);
            return match api::explain(&env) {
                Some(r) => report::finish(&env, r),
                None => 2,
            };
        }
    };
    let r: Result<Report, String> = match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C15" | "C17" | "C18" | "C19" | "C20" => {
            prog::check(&env, &libs)
        }
        "C08" => prog::check(&env, &libs).and_then(|mut r| {
            if r.violations.is_empty() {
                r.rule = format!("{}; or {}", r.rule, libprog::rule(prop));
                libprog::check(&env, &mut r)?;
            }
            Ok(r)
        }),
        "C12" | "C13" | "C14" | "C16" => {
            let mut r = Report {
                rule: format!("one case = {}", libprog::rule(prop)),
                ..Report::default()
            };
            libprog::check(&env, &mut r).map(|()| r)
        }
        "C10" => decl::c10(&env, &libs),
        "C11" => decl::c11(&env, &libs),
        _ => Err(format!("no check for {}", prop)),
    };
    let code = match r {
        Ok(r) => report::finish(&env, r),
        Err(e) => {
            eprintln!("check failed to run: {}", e);
            match api::explain(&env) {
                Some(r) => report::finish(&env, r),
                None => 2,
            }
        }
    };
    let _ = std::fs::remove_dir_all(&env.work);
    code
}

fn replay(file: &str) -> i32 {
    let f: Finding = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay");
    let mut env = Env::new(&f.property);
    env.work = env.root.join("work").join(format!("{}-replay", f.property));
    env.fresh_work();
    let built = if f.kind == "api" { driver::build_only(&env) } else { driver::build(&env) };
    let libs = match built {
        Ok(l) => l,
        Err(e) => {
            eprintln!("cannot build: {}", e);
            return 2;
        }
    };
    let r = match f.kind.as_str() {
        "compile" | "run" => prog::replay(&env, &libs, &f),
        "lib" => libprog::replay(&env, &f),
        "api" => api::replay(&env, &f),
        "decl" => decl::replay(&env, &libs, &f),
        k => Err(format!("unknown kind {}", k)),
    };
    let _ = std::fs::remove_dir_all(&env.work);
    match r {
        Ok(None) => {
            println!("{}: holds on this case", f.property);
            0
        }
        Ok(Some(v)) => {
            println!("{}: {}", v.property, v.message);
            println!("VIOLATION property={} replay={}", v.property, file);
            1
        }
        Err(e) => {
            eprintln!("replay failed to run: {}", e);
            2
        }
    }
}
