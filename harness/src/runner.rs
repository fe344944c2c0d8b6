//! Runs generated cases on all cores, shrinks a failure, writes the evidence.
use crate::case::{simpler, Case};
use crate::src::Src;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Gen {
    pub case: Case,
    pub nontrivial: bool,
    pub tags: Vec<String>,
}
#[derive(Default, Debug)]
pub struct Verdict {
    pub fail: Option<String>,
    pub skip: Option<String>,
    /// overrides what the generator said
    pub nontrivial: Option<bool>,
    pub tags: Vec<String>,
    /// recorded findings (see known_findings.txt) this case runs into
    pub known: Vec<String>,
}
impl Verdict {
    pub fn ok() -> Self {
        Self::default()
    }
    pub fn skip(s: impl Into<String>) -> Self {
        Verdict {
            skip: Some(s.into()),
            ..Self::default()
        }
    }
    pub fn fail(s: impl Into<String>) -> Self {
        Verdict {
            fail: Some(s.into()),
            ..Self::default()
        }
    }
    pub fn nontrivial(mut self, b: bool) -> Self {
        self.nontrivial = Some(b);
        self
    }
}
pub struct Sub {
    pub name: &'static str,
    pub gen: Box<dyn Fn(&mut Src) -> Option<Gen> + Sync + Send>,
    pub eval: fn(&Case) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Sub>,
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    skipped: BTreeMap<String, u64>,
    tags: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    ungenerated: u64,
    samples: BTreeMap<u64, Value>,
}

pub static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub fn say(s: &str) {
    if let Some(f) = OUT.lock().unwrap().as_mut() {
        let _ = writeln!(f, "{s}");
        let _ = f.flush();
    }
}

thread_local!(pub static SCRATCH: std::path::PathBuf = {
    static N: AtomicU64 = AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!(
        "svdpbt-{}/{}",
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    ));
    std::fs::create_dir_all(&p).unwrap();
    p.canonicalize().unwrap()
});
/// An empty directory of the calling thread.
pub fn scratch() -> std::path::PathBuf {
    SCRATCH.with(|p| {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let q = e.path();
                if q.is_dir() {
                    let _ = std::fs::remove_dir_all(&q);
                } else {
                    let _ = std::fs::remove_file(&q);
                }
            }
        }
        p.clone()
    })
}
/// Nothing is to be found from the current directory of the process: run in one that has other
/// files of the names that the generated rule files use.
pub fn elsewhere() {
    let top = std::env::temp_dir().join(format!("svdpbt-{}/cwd", std::process::id()));
    let at = top.join("x");
    let mut rel: Vec<String> = ["nothere.yaml", "../no.yaml", "nodir/x.yaml", "f0.yaml", "device.svd", "other.svd", "sub/other.svd"].map(String::from).into();
    for d in ["rules", "rules/sub", "rules/sub/deep", "common", "common/v2", "sub", "sub/deep", "deep", "v2", "."] {
        rel.extend(["common.yaml", "main.yaml", "f.yml"].map(|n| format!("{d}/{n}")));
        rel.extend((1..8).flat_map(|i| ["yaml", "yml"].map(|e| format!("{d}/f{i}.{e}"))));
    }
    for r in rel {
        let p = at.join(&r);
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        let _ = std::fs::write(p, if r.ends_with("svd") { DECOY_SVD } else { DECOY_YAML });
    }
    let _ = std::env::set_current_dir(at);
}
pub const DECOY_YAML: &str = "DECOY:\n  _delete: DECOY\n";
pub const DECOY_SVD: &str = "<device><name>DECOY</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals><peripheral><name>DECOY</name><baseAddress>0</baseAddress></peripheral></peripherals></device>";
pub fn cleanup() {
    let p = std::env::temp_dir().join(format!("svdpbt-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(p);
}

thread_local!(static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
/// Keep the place of a panic instead of printing it.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// The recorded findings: `known: property=<id> key=<key> <what fails>`.
static KNOWN: std::sync::OnceLock<BTreeMap<String, String>> = std::sync::OnceLock::new();
fn known() -> &'static BTreeMap<String, String> {
    KNOWN.get_or_init(|| {
        let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
        let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
        t.lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: ")?;
                let k = l.split_whitespace().find_map(|w| w.strip_prefix("key="))?;
                Some((k.to_string(), l.to_string()))
            })
            .collect()
    })
}

thread_local! {
    /// the signal that ended a run of the tool
    pub static KILLED: std::cell::Cell<i32> = const { std::cell::Cell::new(0) };
}

pub fn guarded(eval: fn(&Case) -> Verdict, c: &Case) -> Verdict {
    KILLED.with(|k| k.set(0));
    let v = guarded_eval(eval, c);
    match KILLED.with(|k| k.get()) {
        0 => v,
        libc::SIGXCPU => Verdict::fail("the tool does not end".to_string()),
        n => Verdict::fail(format!("the tool is ended by signal {n}")),
    }
}
fn guarded_eval(eval: fn(&Case) -> Verdict, c: &Case) -> Verdict {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(c))) {
        Ok(mut v) => {
            if v.fail.is_none() {
                if let Some(k) = v.known.iter().find(|k| !known().contains_key(*k)) {
                    v.fail = Some(format!("{k} (not among the recorded findings)"));
                }
            }
            v
        }
        // a fault of the check itself, never of the code under test
        Err(_) => Verdict::skip(format!("internal: {}", last_panic())),
    }
}

/// The tags of a message that compares two lines of a file: smaller cases have to differ in the
/// same way, as they may leave what the generator keeps to.
fn shape(m: &str) -> String {
    if !m.starts_with("patch: line") {
        return String::new();
    }
    let mut inside = false;
    m.chars()
        .filter(|c| {
            inside = (inside || *c == '<') && *c != '>';
            inside
        })
        .collect()
}

/// The simplest failing case found within the limit, even when the code under
/// test does not return for one of the candidates.
pub fn shrink(eval: fn(&Case) -> Verdict, case: Case, msg: String, limit: Duration) -> (Case, String, u64) {
    use std::sync::Arc;
    let best = Arc::new(Mutex::new((case, msg, 0u64)));
    let (tx, rx) = std::sync::mpsc::channel();
    let shared = best.clone();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let t0 = Instant::now();
            let mut cur = shared.lock().unwrap().0.clone();
            'outer: loop {
                for c in simpler(&cur) {
                    if t0.elapsed() > limit {
                        break 'outer;
                    }
                    let f = guarded(eval, &c).fail;
                    let mut b = shared.lock().unwrap();
                    b.2 += 1;
                    if let Some(m) = f.filter(|m| shape(m) == shape(&b.1)) {
                        b.0 = c.clone();
                        b.1 = m;
                        cur = c;
                        continue 'outer;
                    }
                }
                break;
            }
            let _ = tx.send(());
        })
        .unwrap();
    let _ = rx.recv_timeout(limit + Duration::from_secs(20));
    let b = best.lock().unwrap();
    b.clone()
}

/// What each thread is working on, kept where it survives a crash.
static SLOTS: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
fn note(t: usize, sub: u64, index: u64) {
    use std::os::unix::fs::FileExt;
    let f = SLOTS.get_or_init(|| {
        let p = std::env::var_os("PBT_SLOTS")?;
        std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()
    });
    if let Some(f) = f {
        let mut b = sub.to_le_bytes().to_vec();
        b.extend(index.to_le_bytes());
        let _ = f.write_all_at(&b, 16 * t as u64);
    }
}

fn limit_memory(gb: u64) {
    let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

/// Runs the check in a process of its own, so that a crash of the code under
/// test (stack overflow, exhausted memory, abort) is a violation with a replay
/// file too.
pub fn supervise(root: &std::path::Path, p: &Property, seed: u64) -> i32 {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let slots = std::env::temp_dir().join(format!("svdpbt-slots-{}", std::process::id()));
    let child = |args: &[&str]| {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.args(args).env("PBT_CHILD", "1").env("PBT_SLOTS", &slots);
        if let Some(f) = OUT.lock().unwrap().as_ref() {
            c.stdout(f.try_clone().unwrap());
        }
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                limit_memory(24);
                Ok(())
            })
        };
        let mut c = c.spawn().unwrap();
        let id = c.id();
        let st = c.wait().unwrap();
        let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("svdpbt-{id}")));
        st
    };
    let st = child(&[p.id]);
    let busy = std::fs::read(&slots).unwrap_or_default();
    let mut code = st.code().unwrap_or(2);
    if st.signal().is_some() {
        say(&format!("the check was ended by signal {}", st.signal().unwrap()));
        for b in busy.chunks_exact(16) {
            let si = u64::from_le_bytes(b[..8].try_into().unwrap());
            let i = u64::from_le_bytes(b[8..].try_into().unwrap());
            let Some(sub) = p.subs.get(si as usize) else { continue };
            let mut s = Src::new(seed, &format!("{}/{}", p.id, sub.name), i);
            let Ok(Some(mut g)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.gen)(&mut s))) else {
                continue;
            };
            g.case.property = p.id.into();
            g.case.sub = sub.name.into();
            let path = save(root, &g.case, "the code under test crashes", seed);
            if child(&["replay", &path]).signal().is_some() {
                say(&format!("VIOLATION property={} replay={path}", p.id));
                say("  the code under test crashes");
                code = 1;
                break;
            }
            let _ = std::fs::remove_file(path);
        }
    }
    let _ = std::fs::remove_file(&slots);
    code
}

pub fn run(root: &std::path::Path, p: &Property, seed: u64, thorough: bool) -> i32 {
    elsewhere();
    let t0 = Instant::now();
    let limit = Duration::from_secs(
        std::env::var("PBT_LIMIT")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 3000 } else { 300 }),
    );
    let stats = Mutex::new(Stats::default());
    let fails: Mutex<Vec<(u64, Case, String, usize)>> = Mutex::new(vec![]);
    let only = std::env::var("PBT_SUB").ok();
    let factor: f64 = std::env::var("PBT_FACTOR").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let keep_going = std::env::var("PBT_KEEP").is_ok();
    let mut per_sub = BTreeMap::new();
    for (si, sub) in p.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != sub.name) {
            continue;
        }
        let total = (factor * if thorough { sub.thorough } else { sub.quick } as f64) as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let label = format!("{}/{}", p.id, sub.name);
        let done = AtomicU64::new(0);
        let threads = 8;
        let busy: Vec<Mutex<Option<(Instant, Case)>>> =
            (0..threads).map(|_| Mutex::new(None)).collect();
        let running = AtomicU64::new(threads as u64);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop, stats, fails, label, done, busy, running) =
                    (&next, &stop, &stats, &fails, &label, &done, &busy, &running);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut st = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= total || stop.load(Ordering::SeqCst) || t0.elapsed() > limit {
                                break;
                            }
                            let mut s = Src::new(seed, label, i);
                            let g = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                (sub.gen)(&mut s)
                            }));
                            let mut g = match g {
                                Ok(Some(g)) => g,
                                Ok(None) => {
                                    st.ungenerated += 1;
                                    continue;
                                }
                                Err(_) => {
                                    let w = format!("internal: generator panic {}", last_panic());
                                    *st.skipped.entry(w).or_default() += 1;
                                    continue;
                                }
                            };
                            g.case.property = p.id.into();
                            g.case.sub = sub.name.into();
                            note(t, si as u64, i);
                            *busy[t].lock().unwrap() = Some((Instant::now(), g.case.clone()));
                            let v = guarded(sub.eval, &g.case);
                            *busy[t].lock().unwrap() = None;
                            note(t, u64::MAX, 0);
                            st.evaluations += 1;
                            done.fetch_add(1, Ordering::SeqCst);
                            for t in g.tags.iter().chain(&v.tags) {
                                *st.tags.entry(t.clone()).or_default() += 1;
                            }
                            for k in v.known.iter().collect::<HashSet<_>>() {
                                *st.known.entry(k.clone()).or_default() += 1;
                            }
                            if let Some(k) = v.skip {
                                *st.skipped.entry(k.chars().take(90).collect()).or_default() += 1;
                                continue;
                            }
                            if let Some(m) = v.fail {
                                fails.lock().unwrap().push((i, g.case, m, si));
                                if !keep_going {
                                    stop.store(true, Ordering::SeqCst);
                                }
                                continue;
                            }
                            if v.nontrivial.unwrap_or(g.nontrivial) {
                                st.nontrivial.insert(g.case.hash());
                                if st.samples.len() < 2 {
                                    st.samples.insert(
                                        (si as u64) << 40 | i,
                                        json!({"index": i, "sub": sub.name, "case": brief(&g.case)}),
                                    );
                                }
                            }
                        }
                        let mut all = stats.lock().unwrap();
                        all.evaluations += st.evaluations;
                        all.ungenerated += st.ungenerated;
                        for (k, v) in st.tags {
                            *all.tags.entry(k).or_default() += v;
                        }
                        for (k, v) in st.known {
                            *all.known.entry(k).or_default() += v;
                        }
                        for (k, v) in st.skipped {
                            *all.skipped.entry(k).or_default() += v;
                        }
                        all.nontrivial.extend(st.nontrivial);
                        all.samples.extend(st.samples);
                        drop(all);
                        running.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // a case that does not end is a violation too
            let (busy, running) = (&busy, &running);
            sc.spawn(move || {
                while running.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(100));
                    for b in busy.iter() {
                        let hung = match &*b.lock().unwrap() {
                            Some((t, c)) if t.elapsed() > Duration::from_secs(240) => Some(c.clone()),
                            _ => None,
                        };
                        if let Some(c) = hung {
                            let path = save(root, &c, "no answer within 240 s", 0);
                            say(&format!("VIOLATION property={} replay={path}", p.id));
                            say("no answer within 240 s");
                            cleanup();
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        per_sub.insert(sub.name, done.load(Ordering::SeqCst));
        if !fails.lock().unwrap().is_empty() && !keep_going {
            break;
        }
    }
    let st = stats.into_inner().unwrap();
    let mut samples = st.samples;
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| (f.3, f.0));
    let nf = fails.len();
    let mut code = 0;
    let show = if keep_going {
        // one of each kind of message
        let mut seen = HashSet::new();
        fails
            .into_iter()
            .filter(|f| seen.insert(f.2.chars().take(40).collect::<String>()))
            .take(12)
            .collect::<Vec<_>>()
    } else {
        fails.into_iter().take(1).collect()
    };
    for (i, case, msg, si) in show {
        code = 1;
        let sub = &p.subs[si];
        // should shrinking crash, the case as found is reported
        note(0, si as u64, i);
        let time = if std::env::var("PBT_NOSHRINK").is_ok() { 0 } else { 60 };
        let (small, msg, steps) = shrink(sub.eval, case, msg, Duration::from_secs(time));
        let path = save(root, &small, &msg, seed);
        say(&format!("VIOLATION property={} replay={path}", p.id));
        say(&format!("  sub-check {}, case {i}, {steps} shrink steps: {msg}", sub.name));
        if std::env::var("PBT_SHOW").is_ok() {
            for (n, t) in small.yaml.iter().chain(&small.svd) {
                say(&format!("--- {n}\n{t}"));
            }
            say(&format!("{:?}", small.opts));
        }
    }
    let internal: u64 = st
        .skipped
        .iter()
        .filter(|(k, _)| k.starts_with("internal"))
        .map(|(_, v)| v)
        .sum();
    while samples.len() > 4 {
        let k = *samples.keys().last().unwrap();
        samples.remove(&k);
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": p.rule,
            "samples": samples.into_values().collect::<Vec<_>>(),
            "evaluations_per_subcheck": per_sub,
            "skipped_unspecified": &st.skipped,
            "not_generated": st.ungenerated,
            "tags": st.tags,
            "known_findings_met": &st.known,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nf,
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    );
    say(&format!(
        "{}: {} cases, {} distinct non-trivial, {} skipped, {nf} failing, {:.1} s",
        p.id,
        st.evaluations,
        st.nontrivial.len(),
        st.skipped.values().sum::<u64>(),
        t0.elapsed().as_secs_f64()
    ));
    for (k, n) in &st.known {
        if let Some(l) = known().get(k) {
            say(&format!("KNOWN-FINDING: {l} ({n} cases)"));
        }
    }
    cleanup();
    if internal > 0 {
        say(&format!("faults of the check itself, counted as skipped: {internal}"));
        for (k, n) in st.skipped.iter().filter(|(k, _)| k.starts_with("internal")) {
            say(&format!("  {n} x {k}"));
        }
    }
    if code == 0 && st.evaluations == 0 {
        say("nothing evaluated");
        return 3;
    }
    code
}
fn sub_eval(e: fn(&Case) -> Verdict) -> fn(&Case) -> Verdict {
    e
}

fn cut(s: &str) -> String {
    if s.len() > 3000 {
        let mut n = 3000;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}... ({} bytes)", &s[..n], s.len())
    } else {
        s.into()
    }
}
fn brief(c: &Case) -> Value {
    json!({
        "svd": c.svd.iter().map(|(n, t)| (n.clone(), cut(t))).collect::<Vec<_>>(),
        "yaml": c.yaml.iter().map(|(n, t)| (n.clone(), cut(t))).collect::<Vec<_>>(),
        "opts": c.opts,
    })
}

fn save(root: &std::path::Path, c: &Case, msg: &str, seed: u64) -> String {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:016x}.json", c.property, c.sub, c.hash()));
    let v = json!({"message": msg, "seed": seed, "case": c});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path.display().to_string()
}
