#![allow(dead_code)]
mod case;
mod clicheck;
mod diag;
mod enrich;
mod flat;
mod gen_patch;
mod gen_svd;
mod inccheck;
mod glob;
mod model;
mod patchcheck;
mod props;
mod pycheck;
mod runner;
mod src;

fn main() {
    // the code under test prints; keep the results apart
    use std::os::fd::FromRawFd;
    unsafe {
        let saved = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        *runner::OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(saved));
    }
    if std::env::var("PBT_PANICS").is_err() {
        runner::quiet_panics();
    }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let code = match args.first().map(|s| s.as_str()) {
        Some("replay") => replay(&args[1]),
        Some(id) => match props::property(id) {
            Some(p) if std::env::var_os("PBT_CHILD").is_some() => runner::run(&root, &p, seed, thorough),
            Some(p) => runner::supervise(&root, &p, seed),
            None => {
                runner::say(&format!("no check for {id}"));
                2
            }
        },
        None => 2,
    };
    std::process::exit(code);
}

fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let c: case::Case = serde_json::from_value(v["case"].clone()).unwrap();
    let p = props::property(&c.property).unwrap();
    let sub = p.subs.into_iter().find(|s| s.name == c.sub).unwrap();
    let id = c.property.clone();
    runner::elsewhere();
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let v = runner::guarded(sub.eval, &c);
            for (n, t) in c.yaml.iter().chain(&c.svd) {
                runner::say(&format!("--- {n}\n{t}"));
            }
            runner::say(&format!("{:?}\n{v:?}", c.opts));
            v.fail.is_some()
        })
        .unwrap()
        .join()
        .unwrap();
    runner::cleanup();
    if r {
        runner::say(&format!("VIOLATION property={id} replay={path}"));
        1
    } else {
        0
    }
}
