//! The Python version of the tool against the Rust one, on what both support.
use crate::case::*;
use crate::clicheck::{self, cli, write};
use crate::enrich::{self, Rich};
use crate::gen_patch::{ins, list, mp, st};
use crate::gen_svd::{self, DevOpt};
use crate::glob;
use crate::inccheck::{file_map, place_files};
use crate::model::*;
use crate::patchcheck::{first_diff, implementation, plain_ranges};
use crate::runner::*;
use crate::src::Src;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const NO: ValidateLevel = ValidateLevel::Disabled;

// ------------------------------------------------------------------ worker

struct Worker {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn start() -> Result<Worker, String> {
    let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()));
    let repo = root
        .join("../repo")
        .canonicalize()
        .map_err(|e| e.to_string())?;
    let mut child = Command::new("/opt/vp/pyvenv/bin/python")
        .arg(root.join("tools/pyworker.py"))
        .arg(repo)
        .env("PYTHONDONTWRITEBYTECODE", "1")
        .env("PYTHONUTF8", "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    Ok(Worker {
        to: child.stdin.take().unwrap(),
        from: BufReader::new(child.stdout.take().unwrap()),
        child,
    })
}
thread_local!(static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) });

/// What the Python version answers; an error it raised is `Ok` with an "error" entry.
pub fn python(q: &Value) -> Value {
    let once = |w: &mut Worker| -> Option<Value> {
        writeln!(w.to, "{q}").ok()?;
        w.to.flush().ok()?;
        let mut l = String::new();
        w.from.read_line(&mut l).ok()?;
        serde_json::from_str(&l).ok()
    };
    WORKER.with(|cell| {
        let mut cell = cell.borrow_mut();
        for _ in 0..2 {
            if cell.is_none() {
                match start() {
                    Ok(w) => *cell = Some(w),
                    Err(e) => return json!({"error": format!("no interpreter: {e}")}),
                }
            }
            if let Some(v) = once(cell.as_mut().unwrap()) {
                return v;
            }
            *cell = None;
        }
        json!({"error": "the package does not load, or the interpreter ends"})
    })
}
fn run_tool(
    dir: &Path,
    args: &[&str],
    read: Option<&Path>,
) -> Result<(String, Option<String>), String> {
    let v = python(&json!({"cwd": dir, "args": args, "read": read}));
    if let Some(e) = v["error"].as_str() {
        return Err(e.into());
    }
    if v["code"] != 0 {
        return Err(format!(
            "exit status {}: {}",
            v["code"],
            v["out"].as_str().unwrap_or("")
        ));
    }
    Ok((
        v["out"].as_str().unwrap_or("").into(),
        v["file"].as_str().map(|s| s.into()),
    ))
}

// ----------------------------------------------------------------- devices

fn text(s: &mut Src) -> String {
    gen_svd::text(s, 6)
}
fn described(s: &mut Src, d: &mut Option<String>) {
    if d.as_ref().is_none_or(|t| t.trim().is_empty()) {
        *d = Some(
            Some(text(s))
                .filter(|t| !t.trim().is_empty())
                .unwrap_or("text".into()),
        );
    }
}
fn kids_mut(p: &mut Peripheral) -> &mut Vec<RegisterCluster> {
    p.registers.get_or_insert_with(Vec::new)
}
fn few(a: Option<Access>) -> Option<Access> {
    a.map(|a| match a {
        Access::WriteOnce => Access::WriteOnly,
        Access::ReadWriteOnce => Access::ReadWrite,
        a => a,
    })
}
/// What the Python version can describe: descriptions everywhere, unlike names, one level of clusters.
fn tame(s: &mut Src, dev: &mut Device, report: bool) {
    let mut numbers = BTreeSet::new();
    let mut irqs = HashSet::new();
    let derived: HashSet<String> = dev
        .peripherals
        .iter()
        .filter_map(|p| p.derived_from.clone())
        .collect();
    dev.default_register_properties.access = few(dev.default_register_properties.access);
    for p in &mut dev.peripherals {
        p.base_address |= 0x1000_0000;
        p.display_name = None;
        if report || p.derived_from.is_none() {
            described(s, &mut p.description);
        }
        p.default_register_properties.access = few(p.default_register_properties.access);
        p.interrupt
            .retain(|i| irqs.insert(i.name.clone()) && numbers.insert(i.value));
        for i in &mut p.interrupt {
            described(s, &mut i.description);
        }
        if p.derived_from.is_some() {
            p.registers = None;
            continue;
        }
        let base = derived.contains(&p.name);
        if let Some(k) = &mut p.registers {
            let mut used = HashSet::new();
            k.retain_mut(|x| match x {
                RegisterCluster::Register(r) => {
                    used.insert(r.name.clone()) && tame_reg(s, r, report)
                }
                RegisterCluster::Cluster(c) => {
                    described(s, &mut c.description);
                    c.default_register_properties.access =
                        few(c.default_register_properties.access);
                    if c.derived_from.is_some()
                        || !used.insert(c.name.clone())
                        || report && (base || c.is_single() || c.name.contains("[%s]"))
                    {
                        return false;
                    }
                    if let MaybeArray::Array(_, d) = c {
                        numeric(d);
                    }
                    let mut used = HashSet::new();
                    c.children.retain_mut(|x| match x {
                        RegisterCluster::Register(r) => {
                            (!report || r.is_single())
                                && used.insert(r.name.clone())
                                && tame_reg(s, r, report)
                        }
                        _ => false,
                    });
                    !c.children.is_empty()
                }
            });
            if report {
                // no two elements of one name after expansion
                let mut seen = HashSet::new();
                k.retain(|x| match x {
                    RegisterCluster::Register(r) => names(r).into_iter().all(|n| seen.insert(n)),
                    RegisterCluster::Cluster(c) => {
                        let MaybeArray::Array(ci, d) = c else {
                            return false;
                        };
                        d.indexes().all(|i| {
                            ci.children.iter().all(|x| match x {
                                RegisterCluster::Register(r) => {
                                    seen.insert(format!("{}{i}", r.name))
                                }
                                _ => false,
                            })
                        })
                    }
                });
            }
            if k.is_empty() {
                p.registers = None;
            }
        }
    }
}
fn names(r: &Register) -> Vec<String> {
    match r {
        MaybeArray::Single(r) => vec![r.name.clone()],
        MaybeArray::Array(r, d) => d.indexes().map(|i| r.name.replace("%s", &i)).collect(),
    }
}
fn numeric(d: &mut DimElement) {
    if d.dim_index
        .as_ref()
        .is_some_and(|v| v.iter().any(|i| i.parse::<u32>().is_err()) || v.len() == 1)
    {
        d.dim_index = None;
    }
}
fn tame_reg(s: &mut Src, r: &mut Register, report: bool) -> bool {
    described(s, &mut r.description);
    r.display_name = r.display_name.take().filter(|t| !t.trim().is_empty());
    r.properties.access = few(r.properties.access);
    if let MaybeArray::Array(r, d) = r {
        numeric(d);
        if r.name.contains("[%s]") {
            return false;
        }
    }
    if let Some(fs) = &mut r.fields {
        let mut used = HashSet::new();
        fs.retain_mut(|f| {
            described(s, &mut f.description);
            f.access = few(f.access);
            for e in &mut f.enumerated_values {
                if e.derived_from.is_some() {
                    return false;
                }
            }
            match f {
                MaybeArray::Single(f) => used.insert(f.name.clone()),
                MaybeArray::Array(f, d) => {
                    if !report {
                        return false;
                    }
                    numeric(d);
                    f.bit_range =
                        BitRange::from_offset_width(f.bit_range.offset, f.bit_range.width);
                    !f.name.contains("[%s]")
                        && d.indexes().all(|i| used.insert(f.name.replace("%s", &i)))
                }
            }
        });
        if fs.is_empty() {
            r.fields = None;
        }
    }
    true
}
fn options() -> DevOpt {
    DevOpt {
        plain: true,
        odd_text: 6,
        ..DevOpt::default()
    }
}
fn encode(dev: &Device) -> Option<String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| encode_svd(dev)))
        .ok()?
        .ok()
}
/// Numbers, bit positions and accesses in the other ways that SVD has for them.
fn respell(s: &mut Src, xml: &str) -> String {
    let between = |l: &str, tag: &str| -> Option<String> {
        Some(
            l.trim()
                .strip_prefix(&format!("<{tag}>"))?
                .strip_suffix(&format!("</{tag}>"))?
                .to_string(),
        )
    };
    let ls: Vec<&str> = xml.lines().collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < ls.len() {
        let l = ls[i];
        let pad = &l[..l.len() - l.trim_start().len()];
        if let (Some(o), Some(w)) = (
            between(l, "bitOffset"),
            ls.get(i + 1).and_then(|l| between(l, "bitWidth")),
        ) {
            let in_array = out
                .iter()
                .rev()
                .take_while(|x| x.trim() != "<field>")
                .any(|x| x.contains("<dim>"));
            if let (Ok(o), Ok(w), false) = (o.parse::<u32>(), w.parse::<u32>(), in_array) {
                match s.below(4) {
                    0 => {
                        out.push(format!("{pad}<lsb>{o}</lsb>"));
                        out.push(format!("{pad}<msb>{}</msb>", o + w - 1));
                        i += 2;
                        continue;
                    }
                    1 => {
                        out.push(format!("{pad}<bitRange>[{}:{o}]</bitRange>", o + w - 1));
                        i += 2;
                        continue;
                    }
                    _ => {}
                }
            }
        }
        let mut done = false;
        for tag in ["baseAddress", "addressOffset"] {
            if let Some(n) =
                between(l, tag).and_then(|n| u64::from_str_radix(n.strip_prefix("0x")?, 16).ok())
            {
                let t = match s.below(4) {
                    0 => n.to_string(),
                    1 => format!("0x{n:08x}"),
                    _ => format!("0x{n:X}"),
                };
                out.push(format!("{pad}<{tag}>{t}</{tag}>"));
                done = true;
            }
        }
        if !done {
            out.push(l.to_string());
        }
        i += 1;
    }
    out.join("\n") + "\n"
}

// ----------------------------------------------------------------- reports

/// Arrays whose elements overlap or lie apart, with indexes in any order.
fn spread(s: &mut Src, dev: &mut Device) {
    fn one(s: &mut Src, d: &mut DimElement, unit: usize) {
        if s.chance(30) {
            d.dim_increment = (s.range(1, 6) * unit) as u32;
        }
        if s.chance(25) && d.dim > 1 {
            let mut i: Vec<String> = (0..d.dim).map(|i| (i * 2 + 1).to_string()).collect();
            s.shuffle(&mut i);
            d.dim_index = Some(i);
        }
    }
    fn level(s: &mut Src, l: &mut [RegisterCluster]) {
        for x in l {
            match x {
                RegisterCluster::Register(r) => {
                    if let Register::Array(_, d) = r {
                        one(s, d, 2);
                    }
                    for f in r.fields.iter_mut().flatten() {
                        if let Field::Array(_, d) = f {
                            one(s, d, 1);
                        }
                    }
                }
                RegisterCluster::Cluster(c) => {
                    if let Cluster::Array(_, d) = c {
                        one(s, d, 4);
                    }
                    level(s, &mut c.children);
                }
            }
        }
    }
    for p in &mut dev.peripherals {
        level(s, p.registers.as_deref_mut().unwrap_or(&mut []));
    }
}
fn gen_mmap(s: &mut Src) -> Option<Gen> {
    let mut o = options();
    o.regs = (1, 6);
    o.field_arrays = 30;
    let mut dev = gen_svd::device(s, &o);
    enrich::enrich(
        s,
        &mut dev,
        &Rich {
            chains: 0,
            own: 0,
            clusters: 0,
            regs: 20,
            fields: 20,
            enums: 20,
            lines: 20,
            interrupts: 60,
        },
    );
    spread(s, &mut dev);
    tame(s, &mut dev, true);
    if dev.peripherals.is_empty() {
        return None;
    }
    let xml = respell(s, &encode(&dev)?);
    let dev = clicheck::parse_weak(&xml).ok()?;
    let mut case = Case::default();
    case.svd.push(("device.svd".into(), xml));
    Some(Gen {
        nontrivial: dev.peripherals.iter().any(|p| p.registers.is_some()),
        case,
        tags: vec![],
    })
}
/// The parts of a device which the Python report can express, as `gen_mmap` makes them.
fn tamed(dev: &Device, report: bool) -> bool {
    let mut d = dev.clone();
    let mut s = Src::new(0, "", 0);
    tame(&mut s, &mut d, report);
    *dev == d
}
fn eval_mmap(c: &Case) -> Verdict {
    match clicheck::parse_weak(&c.svd[0].1) {
        Ok(d) if tamed(&d, true) => {}
        _ => return Verdict::skip("outside what both versions report"),
    }
    let dir = scratch();
    write(&dir, "device.svd", &c.svd[0].1);
    let r = cli(&dir, &["mmap", "device.svd"]);
    if r.code != 0 {
        return Verdict::skip("the Rust version refuses the file");
    }
    match run_tool(&dir, &["mmap", "device.svd"], None) {
        Err(e) => Verdict::fail(format!("mmap fails: {e}")),
        Ok((out, _)) if out.trim_end() == r.out.trim_end() => Verdict::ok(),
        Ok((out, _)) => Verdict::fail(format!("mmap: {}", first_diff(&r.out, &out))),
    }
}
fn gen_interrupts(s: &mut Src) -> Option<Gen> {
    let mut o = options();
    o.regs = (0, 1);
    let mut dev = gen_svd::device(s, &o);
    enrich::interrupts(s, &mut dev);
    let mut used = HashSet::new();
    for p in &mut dev.peripherals {
        p.interrupt
            .retain(|i| i.value < 3000 && used.insert(i.value));
    }
    let xml = encode(&dev)?;
    let mut case = Case::default();
    case.svd.push(("device.svd".into(), xml));
    case.set("gaps", s.s(&["yes", "no", "default"]));
    Some(Gen {
        nontrivial: used.len() > 1,
        case,
        tags: vec![],
    })
}
fn eval_interrupts(c: &Case) -> Verdict {
    let Ok(dev) = clicheck::parse_weak(&c.svd[0].1) else {
        return Verdict::skip("invalid SVD");
    };
    let mut used = HashSet::new();
    if !dev
        .peripherals
        .iter()
        .all(|p| p.interrupt.iter().all(|i| used.insert(i.value)))
    {
        return Verdict::skip("one number twice");
    }
    let dir = scratch();
    write(&dir, "device.svd", &c.svd[0].1);
    let mut args = vec!["interrupts", "device.svd"];
    let mut pargs = args.clone();
    match c.opt("gaps") {
        "no" => {
            args.push("--no-gaps");
            pargs.push("--no-gaps");
        }
        "yes" => pargs.push("--gaps"),
        _ => {}
    }
    let r = cli(&dir, &args);
    if r.code != 0 {
        return Verdict::skip("the Rust version refuses the file");
    }
    let tidy = |t: &str| {
        t.trim_end()
            .lines()
            .map(clicheck::words)
            .collect::<Vec<_>>()
            .join("\n")
    };
    match run_tool(&dir, &pargs, None) {
        Err(e) => Verdict::fail(format!("interrupts fails: {e}")),
        Ok((out, _)) if tidy(&out) == tidy(&r.out) => Verdict::ok(),
        Ok((out, _)) => Verdict::fail(format!(
            "interrupts: {}",
            first_diff(&tidy(&r.out), &tidy(&out))
        )),
    }
}

// ---------------------------------------------------------------- includes

/// A section or a register or field rule, with keys that have one kind of value each.
fn rules(s: &mut Src, depth: usize) -> Hash {
    let mut h = Hash::new();
    for _ in 0..s.range(1, 4) {
        match s.below(7) {
            0 | 1 => {
                let k = s.s(&["_delete", "_strip", "_strip_end", "_clear"]);
                let n = s.range(1, 3);
                let v = (0..n)
                    .map(|_| s.s(&["CR1", "CR?", "SR", "TIM*", "DR"]))
                    .collect();
                h.insert(st(k), list(v));
            }
            2 => {
                let k = s.s(&["description", "name", "_svd"]);
                let v = s.s(&["one", "two", "three", "12", "on", "0x10"]);
                h.insert(st(k), st(v));
            }
            3 if depth > 1 => {
                let k = s.s(&["addressOffset", "size"]);
                h.insert(st(k), Yaml::Integer(s.below(40) as i64));
            }
            4 if depth < 3 => {
                let k = s.s(&["_modify", "_add", "_array"]);
                h.insert(st(k), Yaml::Hash(rules(s, depth + 1)));
            }
            _ if depth < 3 => {
                let k = s.s(&["TIM1", "TIM?", "GPIO*", "CR1", "EN,IE"]);
                h.insert(st(k), Yaml::Hash(rules(s, depth + 1)));
            }
            _ => {}
        }
    }
    h
}
fn gen_includes(s: &mut Src) -> Option<Gen> {
    let n = s.range(1, 5);
    let dirs = ["", "rules/", "rules/sub/", "common/"];
    let mut files: Vec<(String, Hash)> = vec![];
    for i in 0..=n {
        let d = if i == 0 { "rules/" } else { dirs[s.below(4)] };
        let nm = if i == 0 {
            "main.yaml".to_string()
        } else {
            format!("f{i}.{}", s.s(&["yaml", "yml"]))
        };
        // files of one name in several directories
        let nm = match s.chance(30) && i > 0 && !files.iter().any(|f| f.0 == format!("{d}same.yaml")) {
            true => "same.yaml".to_string(),
            false => nm,
        };
        let mut h = rules(s, 0);
        if i == 0 && s.chance(20) {
            h.insert(st("plain"), list(vec!["x".into()]));
        }
        files.push((format!("{d}{nm}"), h));
    }
    let mut includes = 0;
    for i in 1..=n {
        for _ in 0..1 + s.chance(12) as usize {
            let from = s.below(i);
            let rel = {
                let f: Vec<&str> = files[from].0.split('/').collect();
                let mut up = "../".repeat(f.len() - 1);
                if up.is_empty() && s.chance(30) {
                    up = "./".into();
                }
                format!("{up}{}", files[i].0)
            };
            let h = &mut files[from].1;
            let section: Vec<Yaml> = h
                .iter()
                .filter(|(k, v)| {
                    matches!(v, Yaml::Hash(_)) && !k.as_str().unwrap().starts_with('_')
                })
                .map(|x| x.0.clone())
                .collect();
            let at = if !section.is_empty() && s.chance(40) {
                match h.get_mut(s.pick(&section)) {
                    Some(Yaml::Hash(x)) => x,
                    _ => unreachable!(),
                }
            } else {
                h
            };
            includes += 1;
            let k = st("_include");
            match at.get_mut(&k) {
                Some(Yaml::Array(a)) => a.push(st(rel)),
                Some(old) => *old = Yaml::Array(vec![old.clone(), st(rel)]),
                None if s.chance(30) => {
                    at.insert(k, st(rel));
                }
                None => {
                    at.insert(k, list(vec![rel]));
                }
            }
        }
    }
    let mut c = Case::default();
    for (n, h) in files {
        let mut h = h;
        if !h.contains_key(&st("_include")) && h.is_empty() {
            h.insert(st("_delete"), list(vec!["X".into()]));
        }
        c.yaml.push((n, emit_yaml(&Yaml::Hash(h))));
    }
    c.set("at", s.s(&["root", "rules"]));
    Some(Gen {
        case: c,
        nontrivial: includes > 1,
        tags: vec![],
    })
}
fn from_json(v: &Value) -> Yaml {
    match v {
        Value::Null => Yaml::Null,
        Value::Bool(b) => Yaml::Boolean(*b),
        Value::Number(n) => n.as_i64().map_or(Yaml::Real(n.to_string()), Yaml::Integer),
        Value::String(t) => st(t),
        Value::Array(a) => Yaml::Array(a.iter().map(from_json).collect()),
        Value::Object(o) => {
            let mut h = Hash::new();
            for e in o["map"].as_array().unwrap() {
                h.insert(from_json(&e[0]), from_json(&e[1]));
            }
            Yaml::Hash(h)
        }
    }
}
/// Without the bookkeeping; a rule that is listed twice counts once.
fn merged(y: &Yaml) -> Yaml {
    match y {
        Yaml::Hash(h) => {
            let mut o = Hash::new();
            for (k, v) in h {
                if !["_path", "_include"].contains(&k.as_str().unwrap_or("")) {
                    o.insert(k.clone(), merged(v));
                }
            }
            Yaml::Hash(o)
        }
        Yaml::Array(a) => {
            let mut o: Vec<Yaml> = vec![];
            for x in a.iter().map(merged) {
                if !o.contains(&x) {
                    o.push(x);
                }
            }
            Yaml::Array(o)
        }
        y => y.clone(),
    }
}
fn eval_includes(c: &Case) -> Verdict {
    if c.yaml.is_empty() {
        return Verdict::skip("no file");
    }
    let loaded = match crate::inccheck::load(&file_map(c), &c.yaml[0].0) {
        Ok(l) => l,
        Err(crate::inccheck::L::Unspec(w)) => return Verdict::skip(w),
        Err(crate::inccheck::L::Fail(w)) => return Verdict::skip(w),
    };
    let dir = place_files(c);
    let main = &c.yaml[0].0;
    // the merged rules
    let v = python(&json!({"merge": dir.join(main)}));
    if let Some(e) = v["error"].as_str() {
        return Verdict::fail(format!("not loaded: {e}"));
    }
    if let Some(d) = crate::inccheck::yaml_diff(
        &merged(&Yaml::Hash(loaded.rules)),
        &merged(&from_json(&v["rules"])),
        "",
    ) {
        return Verdict::fail(format!("merged rules: {d}"));
    }
    // makedeps
    let (cwd, arg) = match c.opt("at") {
        "rules" if main.starts_with("rules/") => (dir.join("rules"), main[6..].to_string()),
        _ => (dir.clone(), main.clone()),
    };
    let r = cli(&cwd, &["makedeps", &arg, "deps.d"]);
    if r.code != 0 {
        return Verdict::skip("the Rust version refuses the file");
    }
    let deps = |t: &str| -> Result<(String, Vec<String>), String> {
        let (a, b) = t.split_once(':').ok_or("no colon")?;
        let mut v: Vec<String> = b
            .split_whitespace()
            .map(|p| cwd.join(p).to_str().unwrap().to_string())
            .collect();
        v.sort();
        v.dedup();
        Ok((a.trim().into(), v))
    };
    let file = cwd.join("deps.d");
    let want = deps(&std::fs::read_to_string(&file).unwrap_or_default());
    let _ = std::fs::remove_file(&file);
    match (
        want,
        run_tool(&cwd, &["makedeps", &arg, "deps.d"], Some(&file)),
    ) {
        (Err(_), _) => Verdict::skip("no dependency file of the Rust version"),
        (_, Err(e)) => Verdict::fail(format!("makedeps fails: {e}")),
        (Ok(w), Ok((_, f))) => match deps(&f.unwrap_or_default()) {
            Ok(g) if g == w => Verdict::ok(),
            g => Verdict::fail(format!("makedeps: expected {w:?}, got {g:?}")),
        },
    }
}

// ------------------------------------------------------------------- patch

/// One form for what the versions write differently: order, usage of enumerated values, dimIndex.
pub fn normal(dev: &mut Device) {
    plain_ranges(dev);
    fn dims(d: &mut DimElement) {
        let v: Vec<String> = d.indexes().map(|x| x.to_string()).collect();
        d.dim_index = Some(v);
        if d.dim == 1 {
            // says nothing
            d.dim_increment = 0;
        }
        d.dim_name = None;
    }
    fn reg(r: &mut Register) {
        if let MaybeArray::Array(i, d) = r {
            dims(d);
            // the Python version keeps the one of the first register
            i.display_name = None;
        }
        let racc = r.properties.access;
        // values that others of the register are derived from, by the name of the values or of the field:
        // which of the fields holds them is not compared
        let mut used: HashSet<String> = r
            .fields
            .iter()
            .flatten()
            .flat_map(|f| {
                f.enumerated_values
                    .iter()
                    .filter_map(|e| e.derived_from.clone())
            })
            .collect();
        let mut seen = HashSet::new();
        for n in r
            .fields
            .iter()
            .flatten()
            .flat_map(|f| f.enumerated_values.iter().filter_map(|e| e.name.clone()))
        {
            // the same values again, in another field at the same place
            if !seen.insert(n.clone()) {
                used.insert(n);
            }
        }
        let mut sources: Vec<(Vec<String>, Vec<EnumeratedValue>)> = vec![];
        for f in r.fields.iter().flatten() {
            for e in &f.enumerated_values {
                let names: Vec<String> = e
                    .name
                    .iter()
                    .chain([&f.name])
                    .filter(|n| used.contains(*n))
                    .cloned()
                    .collect();
                if e.derived_from.is_none() && !names.is_empty() {
                    sources.push((names, e.values.clone()));
                }
            }
        }
        if let Some(fs) = &mut r.fields {
            for f in fs.iter_mut() {
                if let MaybeArray::Array(_, d) = f {
                    dims(d);
                }
                let acc = f.access.or(racc).unwrap_or_default();
                if f.modified_write_values == Some(ModifiedWriteValues::Modify) {
                    f.modified_write_values = None;
                }
                for e in &mut f.enumerated_values {
                    let implied = match acc {
                        Access::ReadOnly => Usage::Read,
                        Access::WriteOnly | Access::WriteOnce => Usage::Write,
                        _ => Usage::ReadWrite,
                    };
                    if e.usage == Some(Usage::ReadWrite) || e.usage == Some(implied) {
                        e.usage = None;
                    }
                    e.values
                        .sort_by(|a, b| (a.value, &a.name).cmp(&(b.value, &b.name)));
                }
                for e in &mut f.enumerated_values {
                    let from = e
                        .derived_from
                        .as_deref()
                        .or(e.name.as_deref())
                        .map(|n| n.to_string());
                    if let Some((_, v)) =
                        from.and_then(|n| sources.iter().find(|s| s.0.contains(&n)))
                    {
                        e.values = v.clone();
                        e.derived_from = None;
                        e.name = None;
                    }
                    e.values
                        .sort_by(|a, b| (a.value, &a.name).cmp(&(b.value, &b.name)));
                }
                f.enumerated_values
                    .sort_by_key(|e| format!("{:?} {:?}", e.name, e.derived_from));
            }
            fs.sort_by(|a, b| (a.bit_range.offset, &a.name).cmp(&(b.bit_range.offset, &b.name)));
            if fs.is_empty() {
                r.fields = None;
            }
        }
    }
    fn children(k: &mut Vec<RegisterCluster>) {
        for x in k.iter_mut() {
            match x {
                RegisterCluster::Register(r) => reg(r),
                RegisterCluster::Cluster(c) => {
                    if let MaybeArray::Array(_, d) = c {
                        dims(d);
                    }
                    children(&mut c.children);
                }
            }
        }
        k.sort_by_key(|x| match x {
            RegisterCluster::Register(r) => (1, r.name.clone(), r.address_offset),
            RegisterCluster::Cluster(c) => (0, c.name.clone(), c.address_offset),
        });
    }
    for p in &mut dev.peripherals {
        if let Some(k) = &mut p.registers {
            children(k);
            if k.is_empty() {
                p.registers = None;
            }
        }
        p.interrupt
            .sort_by(|a, b| (a.value, &a.name).cmp(&(b.value, &b.name)));
        if let Some(b) = &mut p.address_block {
            b.sort_by_key(|b| (b.offset, b.size));
        }
    }
    dev.peripherals.sort_by(|a, b| a.name.cmp(&b.name));
}
fn apply(xml: &str, doc: &Hash, dir: Option<&Path>) -> Result<Device, String> {
    let mut d = doc.clone();
    if let Some(p) = dir {
        d.insert(st("_path"), st(p.join("patch.yaml").to_str().unwrap()));
    }
    let t = implementation(xml, &Yaml::Hash(d), "enum")?;
    parse_svd(&t)
}
/// The rules of which the versions differ in what they ask for are not there.
fn stated(xml: &str, doc: &Hash) -> bool {
    let Ok(d) = parse_svd(xml) else { return false };
    let of = |k: &str| {
        doc.get(&st(k))
            .and_then(|y| y.as_hash())
            .into_iter()
            .flatten()
    };
    let copies = of("_copy").all(|(n, v)| {
        let Some(n) = n.as_str() else { return false };
        v["from"].as_str().is_some_and(|f| f.contains(':'))
            || d.peripherals.iter().any(|p| p.name == n)
    });
    let rebases = of("_rebase").all(|(_, old)| {
        d.peripherals
            .iter()
            .any(|p| Some(p.name.as_str()) == old.as_str() && p.derived_from.is_none())
    });
    copies && rebases
}
/// Names which the Python version does not take for sections.
/// Names like a directive, empty ones, names that several elements of a level share (or values of a register), and fields
/// that start at the same bit: the order of such is not specified.
fn odd_name(d: &Device) -> bool {
    fn odd<'a>(names: impl Iterator<Item = &'a String>) -> bool {
        let mut seen = HashSet::new();
        names
            .into_iter()
            .any(|n| n.starts_with('_') || n.is_empty() || !seen.insert(n.as_str()))
    }
    fn name(x: &RegisterCluster) -> &String {
        match x {
            RegisterCluster::Register(r) => &r.name,
            RegisterCluster::Cluster(c) => &c.name,
        }
    }
    fn level(l: &[RegisterCluster]) -> bool {
        odd(l.iter().map(name))
            || l.iter().any(|x| match x {
                RegisterCluster::Register(r) => {
                    let mut at = HashSet::new();
                    odd(r.fields.iter().flatten().map(|f| &f.name))
                        || odd(r.fields.iter().flatten().flat_map(|f| {
                            f.enumerated_values.iter().filter_map(|e| e.name.as_ref())
                        }))
                        || r.fields
                            .iter()
                            .flatten()
                            .any(|f| !at.insert(f.bit_range.offset))
                }
                RegisterCluster::Cluster(c) => level(&c.children),
            })
    }
    odd(d.peripherals.iter().map(|p| &p.name))
        || d.peripherals
            .iter()
            .any(|p| level(p.registers.as_deref().unwrap_or(&[])))
}
fn put_others(c: &Case, dir: &Path) {
    for (n, x) in &c.svd {
        write(dir, n, x);
    }
}
fn eval_patch(c: &Case) -> Verdict {
    let Ok(Yaml::Hash(doc)) = parse_yaml(&c.yaml[0].1) else {
        return Verdict::skip("no rules");
    };
    for (_, x) in &c.svd {
        match parse_svd(x) {
            Ok(d) if tamed(&d, false) => {}
            _ => return Verdict::skip("outside what both versions describe"),
        }
    }
    if !stated(&c.svd[0].1, &doc) {
        return Verdict::skip("outside what both versions describe");
    }
    let dir = scratch();
    put_others(c, &dir);
    let mut want = match apply(&c.svd[0].1, &doc, Some(&dir)) {
        Ok(d) => d,
        Err(_) => return Verdict::skip("the Rust version refuses the rules"),
    };
    // the same rules, to be found as a file
    let mut h = doc.clone();
    h.insert(st("_svd"), st("device.svd"));
    write(&dir, "patch.yaml", &emit_yaml(&Yaml::Hash(h)));
    let out = dir.join("device.svd.patched");
    let got = match run_tool(&dir, &["patch", "patch.yaml"], Some(&out)) {
        Err(e) => return Verdict::fail(format!("patch fails: {e}")),
        Ok((_, None)) => return Verdict::fail("no patched file"),
        Ok((_, Some(f))) => f,
    };
    let mut got = match parse_svd(&got) {
        Ok(d) => d,
        Err(e) => return Verdict::fail(format!("patch: the result is not valid SVD: {e}")),
    };
    normal(&mut want);
    normal(&mut got);
    if odd_name(&want) {
        return Verdict::skip("a name like a directive");
    }
    if want == got {
        return Verdict::ok();
    }
    let show = |d: &Device| encode(d).unwrap_or_default();
    let (a, b) = (show(&want), show(&got));
    Verdict::fail(if a != b {
        format!("patch: {}", first_diff(&a, &b))
    } else {
        format!("patch: expected {want:?}, got {got:?}")
    })
}

struct P<'a> {
    s: &'a mut Src,
    cur: Device,
    other: Option<Device>,
    doc: Hash,
    /// register sections so far: block path, spec, the registers it names
    sections: Vec<(Vec<String>, String, HashSet<String>)>,
}
fn plain_names(k: &[RegisterCluster], f: impl Fn(&Register) -> bool) -> Vec<String> {
    k.iter()
        .filter_map(|x| match x {
            RegisterCluster::Register(r) if f(r) => Some(r.name.clone()),
            _ => None,
        })
        .collect()
}
impl P<'_> {
    fn pers(&self, f: impl Fn(&Peripheral) -> bool) -> Vec<String> {
        self.cur
            .peripherals
            .iter()
            .filter(|p| f(p))
            .map(|p| p.name.clone())
            .collect()
    }
    fn per(&self, n: &str) -> &Peripheral {
        self.cur.peripherals.iter().find(|p| p.name == n).unwrap()
    }
    /// A pattern that names some of `good` and nothing else of `all`.
    fn spec(&mut self, good: &[String], all: &[String]) -> Option<String> {
        if good.is_empty() {
            return None;
        }
        let a = self.s.pick(good).clone();
        let b = self.s.pick(good).clone();
        let p = match self.s.below(9) {
            0 if a.len() > 1 => format!("{}*", &a[..a.len() - 1]),
            1 if a.len() > 1 => format!("{}?", &a[..a.len() - 1]),
            2 => format!("{a},{b}"),
            3 => format!("{{{a},{b}}}"),
            4 if a.len() > 1 => {
                let l = a.chars().last().unwrap();
                format!("{}[{l}{}]", &a[..a.len() - 1], b.chars().last().unwrap())
            }
            5 if a.len() > 1 => format!("*{}", &a[1..]),
            6 => "*".into(),
            _ => a.clone(),
        };
        if p.contains("[]") || p.contains("[!") || p.contains("%") {
            return None;
        }
        let hits: Vec<&String> = all
            .iter()
            .filter(|n| glob::matches(n, &p).unwrap_or(false))
            .collect();
        (!hits.is_empty() && hits.iter().all(|h| good.contains(h))).then_some(p)
    }
    fn access(&mut self) -> String {
        self.s.s(&["read-only", "read-write", "write-only"])
    }
    fn text(&mut self) -> String {
        let t = text(self.s);
        // both versions keep other characters as they are, but for the space around
        t.trim().to_string()
    }
    fn num(&mut self, v: u64) -> Yaml {
        Yaml::Integer(v as i64)
    }
    /// section of a peripheral that has registers of its own
    fn section(&mut self) -> Option<String> {
        let all = self.pers(|_| true);
        let good =
            self.pers(|p| p.derived_from.is_none() && p.registers.is_some() && p.is_single());
        if good.is_empty() {
            return None;
        }
        // mostly one peripheral, by its name
        let known: Vec<String> = self
            .doc
            .keys()
            .filter_map(|k| k.as_str())
            .filter(|k| !k.starts_with('_'))
            .map(String::from)
            .collect();
        if !known.is_empty() && self.s.chance(60) {
            let k = self.s.pick(&known).clone();
            if good.contains(&k) {
                return Some(k);
            }
        }
        let p = if self.s.chance(75) {
            self.s.pick(&good).clone()
        } else {
            self.spec(&good, &all)?
        };
        // sections must not share a peripheral
        let hit = |spec: &str| -> Vec<String> {
            all.iter()
                .filter(|n| glob::matches(n, spec).unwrap_or(false))
                .cloned()
                .collect()
        };
        let mine = hit(&p);
        for k in &known {
            if *k != p && hit(k).iter().any(|n| mine.contains(n)) {
                return None;
            }
        }
        Some(p)
    }
    /// the one peripheral of a section, or nothing
    fn only(&self, sec: &str) -> Option<Peripheral> {
        let v: Vec<&Peripheral> = self
            .cur
            .peripherals
            .iter()
            .filter(|p| glob::matches(&p.name, sec).unwrap_or(false))
            .collect();
        (v.len() == 1).then(|| v[0].clone())
    }
    fn field_body(&mut self, new: bool) -> Hash {
        let mut h = Hash::new();
        if new || self.s.chance(60) {
            h.insert(st("description"), st(self.text()));
        }
        if self.s.chance(35) {
            h.insert(st("access"), st(self.access()));
        }
        if new || self.s.chance(25) {
            let (o, w) = (self.s.below(24) as u64, self.s.range(1, 8) as u64);
            h.insert(st("bitOffset"), self.num(o));
            h.insert(st("bitWidth"), self.num(w));
        }
        if self.s.chance(12) {
            let v = self.s.s(&["oneToClear", "zeroToSet", "clear"]);
            h.insert(st("modifiedWriteValues"), st(v));
        }
        if self.s.chance(12) {
            let v = self.s.s(&["clear", "set", "modifyExternal"]);
            h.insert(st("readAction"), st(v));
        }
        h
    }
    fn reg_body(&mut self, new: bool) -> Hash {
        let mut h = Hash::new();
        if new || self.s.chance(50) {
            h.insert(st("description"), st(self.text()));
        }
        if new || self.s.chance(25) {
            let o = self.s.below(64) as u64 * 4;
            h.insert(st("addressOffset"), self.num(o));
        }
        if self.s.chance(25) {
            let t = self.s.s(&["CR1", "Shown", "NAME_X"]);
            h.insert(st("displayName"), st(t));
        }
        if self.s.chance(25) {
            h.insert(st("access"), st(self.access()));
        }
        if self.s.chance(20) {
            let n = *self.s.pick(&[8, 16, 32]);
            h.insert(st("size"), self.num(n));
        }
        if self.s.chance(20) {
            let n = self.s.below(200) as u64;
            h.insert(st("resetValue"), self.num(n));
        }
        if self.s.chance(10) {
            let n = self.s.below(200) as u64;
            h.insert(st("resetMask"), self.num(n));
        }
        if self.s.chance(10) {
            let n = self.s.s(gen_svd::REG_NAMES);
            h.insert(st("alternateRegister"), st(n));
        }
        if !new && h.is_empty() {
            h.insert(st("description"), st(self.text()));
        }
        if new && self.s.chance(50) {
            let mut fs = Hash::new();
            for n in ["FA", "FB"] {
                if self.s.chance(60) {
                    fs.insert(st(n), Yaml::Hash(self.field_body(true)));
                }
            }
            if !fs.is_empty() {
                h.insert(st("fields"), Yaml::Hash(fs));
            }
        }
        h
    }
    fn irq_body(&mut self) -> Hash {
        let mut h = Hash::new();
        let n = self.s.range(20, 60) as u64;
        h.insert(st("value"), self.num(n));
        if self.s.chance(70) {
            h.insert(st("description"), st(self.text()));
        }
        h
    }
    fn values(&mut self, w: u32) -> Hash {
        let mut h = Hash::new();
        let n = self.s.range(1, 1 << w.min(2));
        for i in 0..n {
            let name = ["Off", "On2", "Div4", "High"][i];
            let d = self.text();
            let v = if i + 1 == n && n > 1 && self.s.chance(10) {
                -1
            } else {
                i as i64
            };
            h.insert(st(name), Yaml::Array(vec![Yaml::Integer(v), st(d)]));
        }
        h
    }
    fn fresh_reg(&mut self, p: &Peripheral) -> String {
        let used: Vec<String> = p
            .registers
            .iter()
            .flatten()
            .map(|x| x.name().to_string())
            .collect();
        gen_svd::fresh(self.s, &used, &["NEWR", "ADDR1", "CR3", "CR7"])
    }
    /// Path of a register section and one register it names (the only one, if `one`).
    fn reg_section(
        &mut self,
        one: bool,
        f: &dyn Fn(&Register) -> bool,
    ) -> Option<(Vec<String>, Register)> {
        let sec = self.section()?;
        let p = self.only(&sec)?;
        let k = p.registers.as_deref().unwrap_or(&[]);
        let all = plain_names(k, |_| true);
        let good = plain_names(k, |r| r.is_single() && r.derived_from.is_none() && f(r));
        if good.is_empty() {
            return None;
        }
        let spec = if one || self.s.chance(60) {
            self.s.pick(&good).clone()
        } else {
            self.spec(&good, &all)?
        };
        let hits: HashSet<String> = all
            .iter()
            .filter(|n| glob::matches(n, &spec).unwrap_or(false))
            .cloned()
            .collect();
        let path = vec![sec.clone()];
        for (at, sp, names) in &self.sections {
            if *at == path && *sp != spec && !names.is_disjoint(&hits) {
                return None;
            }
        }
        let name = hits.iter().min()?.clone();
        let r = k.iter().find_map(|x| match x {
            RegisterCluster::Register(r) if r.name == name => Some(r.clone()),
            _ => None,
        })?;
        if !one && hits.len() > 1 {
            // several registers: the rule must be valid for all of them, which is tried
        }
        self.sections.push((path.clone(), spec.clone(), hits));
        Some((vec![sec, spec], r))
    }

    /// Add a rule of the kind; None if there is nothing to apply it to.
    fn rule(&mut self, kind: &str) -> Option<()> {
        let root: Vec<String> = vec![];
        let all = self.pers(|_| true);
        match kind {
            "d.delete" => {
                if all.len() < 3 {
                    return None;
                }
                let based: Vec<String> = self
                    .cur
                    .peripherals
                    .iter()
                    .filter_map(|p| p.derived_from.clone())
                    .collect();
                let good = self.pers(|p| !based.contains(&p.name));
                let p = self.spec(&good, &all)?;
                ins(&mut self.doc, &root, "_delete", list(vec![p]));
            }
            "d.copy" => {
                let good = self.pers(|p| p.derived_from.is_none());
                if good.is_empty() || all.len() < 2 {
                    return None;
                }
                let src = self.s.pick(&good).clone();
                let dst = self.s.pick(&all).clone();
                let used = self
                    .doc
                    .get(&st("_copy"))
                    .is_some_and(|h| h.as_hash().unwrap().contains_key(&st(dst.as_str())));
                if src == dst || used {
                    return None;
                }
                let v = mp(vec![("from".into(), st(src))]);
                ins(&mut self.doc, &["_copy".into()], &dst, v);
            }
            "d.copyfile" => {
                let o = self.other.as_ref()?;
                let good: Vec<String> = o
                    .peripherals
                    .iter()
                    .filter(|p| p.derived_from.is_none())
                    .map(|p| p.name.clone())
                    .collect();
                if good.is_empty() {
                    return None;
                }
                let src = self.s.pick(&good).clone();
                let dst = gen_svd::fresh(self.s, &all, &["FRESH1", "FRESH2", "TIM7"]);
                let v = mp(vec![("from".into(), st(format!("other.svd:{src}")))]);
                ins(&mut self.doc, &["_copy".into()], &dst, v);
            }
            "d.modify" => {
                let (k, v) = match self.s.below(4) {
                    0 => ("name", st(self.s.s(&["DEV2", "STM32"]))),
                    1 => ("version", st(self.s.s(&["1.2", "2"]))),
                    2 => ("description", st(self.text())),
                    _ => {
                        let k = self.s.s(&["addressUnitBits", "width"]);
                        let n = *self.s.pick(&[8, 16, 32]);
                        let n = self.num(n);
                        ins(&mut self.doc, &["_modify".into()], &k, n);
                        return Some(());
                    }
                };
                ins(&mut self.doc, &["_modify".into()], k, v);
            }
            "d.cpu" => {
                let p = ["_modify".to_string(), "cpu".to_string()];
                if self.cur.cpu.is_none() {
                    for (k, v) in [
                        ("name", st("CM0")),
                        ("revision", st("r1p0")),
                        ("endian", st("little")),
                    ] {
                        ins(&mut self.doc, &p, k, v);
                    }
                    ins(&mut self.doc, &p, "mpuPresent", st("true"));
                    ins(&mut self.doc, &p, "fpuPresent", st("false"));
                    ins(&mut self.doc, &p, "vendorSystickConfig", st("false"));
                }
                let n = self.s.range(2, 8) as u64;
                let n = self.num(n);
                ins(&mut self.doc, &p, "nvicPrioBits", n);
                if self.s.chance(50) {
                    let v = self.s.s(&["r0p2", "r2p1"]);
                    ins(&mut self.doc, &p, "revision", st(v));
                }
                if self.s.chance(40) {
                    let n = self.s.range(10, 90) as u64;
                    let n = self.num(n);
                    ins(&mut self.doc, &p, "deviceNumInterrupts", n);
                }
                if self.s.chance(40) {
                    let v = self.s.s(&["CM3", "CM7"]);
                    ins(&mut self.doc, &p, "name", st(v));
                }
            }
            "d.modper" => {
                let good = self.pers(|p| p.derived_from.is_none());
                let mut h = Hash::new();
                if self.s.chance(50) {
                    h.insert(st("description"), st(self.text()));
                }
                if self.s.chance(40) {
                    h.insert(st("groupName"), st(self.s.s(&["GRP", "TIMERS"])));
                }
                let mut one = false;
                if self.s.chance(30) {
                    let b = 0x5000_0000u64 + self.s.below(64) as u64 * 0x400;
                    h.insert(st("baseAddress"), self.num(b));
                    one = true;
                }
                let block = |me: &mut Self| {
                    mp(vec![
                        ("offset".into(), {
                            let n = me.s.below(8) as u64 * 16;
                            me.num(n)
                        }),
                        ("size".into(), {
                            let n = me.s.range(1, 64) as u64 * 16;
                            me.num(n)
                        }),
                        (
                            "usage".into(),
                            st(me.s.s(&["registers", "buffer", "reserved"])),
                        ),
                    ])
                };
                let mut good = good;
                if self.s.chance(25) {
                    if self.s.chance(50) {
                        good = self.pers(|p| {
                            p.derived_from.is_none()
                                && p.address_block.as_ref().is_some_and(|b| b.len() == 1)
                        });
                        let b = block(self);
                        h.insert(st("addressBlock"), b);
                    } else {
                        let n = self.s.range(1, 3);
                        let b = (0..n).map(|_| block(self)).collect();
                        h.insert(st("addressBlocks"), Yaml::Array(b));
                    }
                }
                if self.s.chance(25) && !good.is_empty() {
                    let n = gen_svd::fresh(self.s, &all, &["RENAMED", "TIM8", "GPIOX"]);
                    // the name last: what is derived from the peripheral follows it
                    h.insert(st("name"), st(n));
                    one = true;
                }
                if h.is_empty() {
                    return None;
                }
                let p = if one {
                    if good.is_empty() {
                        return None;
                    }
                    self.s.pick(&good).clone()
                } else {
                    self.spec(&good, &all)?
                };
                let twice = ["addressBlock", "addressBlocks"]
                    .iter()
                    .any(|k| h.contains_key(&st(*k)))
                    && format!("{:?}", self.doc.get(&st("_modify"))).contains("addressBlock");
                if twice {
                    return None;
                }
                let at: Vec<String> = if self.s.chance(50) {
                    vec!["_modify".into()]
                } else {
                    vec!["_modify".into(), "_peripherals".into()]
                };
                ins(&mut self.doc, &at, &p, Yaml::Hash(h));
            }
            "d.clear" => {
                let has_clusters = |p: &Peripheral| {
                    p.registers
                        .iter()
                        .flatten()
                        .any(|x| matches!(x, RegisterCluster::Cluster(_)))
                };
                let good = self.pers(|p| !has_clusters(p));
                let p = self.spec(&good, &all)?;
                ins(&mut self.doc, &root, "_clear_fields", list(vec![p]));
            }
            "d.add" => {
                let n = gen_svd::fresh(self.s, &all, &["NEWP", "TIM15", "CRC"]);
                let mut h = Hash::new();
                let bases = self.pers(|p| p.derived_from.is_none());
                let derived = !bases.is_empty() && self.s.chance(35);
                if derived {
                    h.insert(st("derivedFrom"), st(self.s.pick(&bases).clone()));
                } else {
                    h.insert(st("description"), st(self.text()));
                    if self.s.chance(50) {
                        h.insert(st("groupName"), st("NEW"));
                    }
                }
                let b = 0x5000_0000u64 + self.s.below(64) as u64 * 0x400;
                h.insert(st("baseAddress"), self.num(b));
                let block = |me: &mut Self, o: u64| {
                    mp(vec![
                        ("offset".into(), me.num(o)),
                        ("size".into(), me.num(0x100)),
                        ("usage".into(), st("registers")),
                    ])
                };
                if !derived {
                    match self.s.below(3) {
                        0 => {
                            let b = block(self, 0);
                            h.insert(st("addressBlock"), b);
                        }
                        1 => {
                            let (a, b) = (block(self, 0), block(self, 0x200));
                            h.insert(st("addressBlocks"), Yaml::Array(vec![a, b]));
                        }
                        _ => {}
                    }
                    if self.s.chance(70) {
                        let mut rs = Hash::new();
                        for n in ["RA", "RB"] {
                            if self.s.chance(70) {
                                rs.insert(st(n), Yaml::Hash(self.reg_body(true)));
                            }
                        }
                        if !rs.is_empty() {
                            h.insert(st("registers"), Yaml::Hash(rs));
                        }
                    }
                }
                if self.s.chance(50) {
                    let mut is = Hash::new();
                    is.insert(st("NEWIRQ"), Yaml::Hash(self.irq_body()));
                    h.insert(st("interrupts"), Yaml::Hash(is));
                }
                ins(&mut self.doc, &["_add".into()], &n, Yaml::Hash(h));
            }
            "d.derive" => {
                // what the versions keep of the peripheral is the same without these
                let based: Vec<String> = self
                    .cur
                    .peripherals
                    .iter()
                    .filter_map(|p| p.derived_from.clone())
                    .collect();
                let good = self.pers(|p| {
                    p.derived_from.is_none()
                        && p.version.is_none()
                        && p.group_name.is_none()
                        && p.display_name.is_none()
                        && p.header_struct_name.is_none()
                });
                let bases = self.pers(|p| p.derived_from.is_none());
                if good.is_empty() {
                    return None;
                }
                let (a, b) = (self.s.pick(&good).clone(), self.s.pick(&bases).clone());
                if a == b || based.contains(&a) && self.s.chance(30) {
                    return None;
                }
                let v = if self.s.chance(60) {
                    st(b)
                } else {
                    let mut h = vec![("_from".to_string(), st(b))];
                    if self.s.chance(50) {
                        h.push(("description".into(), st(self.text())));
                    }
                    if self.s.chance(50) {
                        let n = 0x5000_0000u64 + self.s.below(64) as u64 * 0x400;
                        h.push(("baseAddress".into(), self.num(n)));
                    }
                    mp(h)
                };
                if self.s.chance(20) {
                    let a = gen_svd::fresh(self.s, &all, &["NEWD1", "NEWD2", "NEWD3"]);
                    let n = 0x5000_0000u64 + self.s.below(64) as u64 * 0x400;
                    let b = self.s.pick(&bases).clone();
                    let v = mp(vec![
                        ("_from".to_string(), st(b)),
                        ("baseAddress".into(), self.num(n)),
                    ]);
                    ins(&mut self.doc, &["_derive".into()], &a, v);
                    return Some(());
                }
                ins(&mut self.doc, &["_derive".into()], &a, v);
            }
            "d.rebase" => {
                let good: Vec<(String, String)> = self
                    .cur
                    .peripherals
                    .iter()
                    .filter(|p| {
                        p.description.is_none()
                            && p.group_name.is_none()
                            && p.version.is_none()
                            && p.display_name.is_none()
                    })
                    .filter_map(|p| Some((p.name.clone(), p.derived_from.clone()?)))
                    .collect();
                if good.is_empty() {
                    return None;
                }
                let (new, old) = self.s.pick(&good).clone();
                ins(&mut self.doc, &["_rebase".into()], &new, st(old));
            }
            // -------------------------------------------------- peripheral
            "p.irq" => {
                // also of derived peripherals
                let good = self.pers(|p| p.derived_from.is_some() || p.registers.is_some());
                if good.is_empty() {
                    return None;
                }
                let n = self.s.pick(&good).clone();
                let known: Vec<String> = self
                    .doc
                    .keys()
                    .filter_map(|k| k.as_str())
                    .filter(|k| !k.starts_with('_') && **k != n)
                    .map(String::from)
                    .collect();
                if known.iter().any(|k| glob::matches(&n, k).unwrap_or(true)) {
                    return None;
                }
                let irqs: Vec<String> = self
                    .per(&n)
                    .interrupt
                    .iter()
                    .map(|i| i.name.clone())
                    .collect();
                match self.s.below(3) {
                    0 => {
                        let p = self.spec(&irqs, &irqs)?;
                        let at = [n.clone(), "_delete".into()];
                        if matches!(self.doc.get(&st(n.as_str())), Some(Yaml::Hash(h)) if matches!(h.get(&st("_delete")), Some(Yaml::Array(_))))
                        {
                            return None;
                        }
                        ins(&mut self.doc, &at, "_interrupts", list(vec![p]));
                    }
                    1 => {
                        let p = self.spec(&irqs, &irqs)?;
                        let mut h = Hash::new();
                        match self.s.below(3) {
                            0 => {
                                let n = self.s.range(20, 60) as u64;
                                h.insert(st("value"), self.num(n));
                            }
                            1 if self
                                .per(&n)
                                .interrupt
                                .iter()
                                .all(|i| i.description.is_some()) =>
                            {
                                h.insert(st("description"), st(self.text()));
                            }
                            _ if irqs.contains(&p) => {
                                h.insert(st("name"), st(self.s.s(&["IRQ_X", "IRQ_Y"])));
                            }
                            _ => return None,
                        }
                        ins(
                            &mut self.doc,
                            &[n, "_modify".into(), "_interrupts".into()],
                            &p,
                            Yaml::Hash(h),
                        );
                    }
                    _ => {
                        let i = gen_svd::fresh(self.s, &irqs, &["IRQ_N", "IRQ_M"]);
                        let h = self.irq_body();
                        ins(
                            &mut self.doc,
                            &[n, "_add".into(), "_interrupts".into()],
                            &i,
                            Yaml::Hash(h),
                        );
                    }
                }
            }
            "p.delete" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let k = p.registers.as_deref().unwrap_or(&[]);
                let regs = plain_names(k, |_| true);
                let from: HashSet<String> = k
                    .iter()
                    .filter_map(|x| match x {
                        RegisterCluster::Register(r) => r.derived_from.clone(),
                        _ => None,
                    })
                    .collect();
                let good = plain_names(k, |r| !from.contains(&r.name));
                let spec = self.spec(&good, &[regs, clusters(k)].concat())?;
                let old = match self.doc.get(&st(sec.as_str())) {
                    Some(Yaml::Hash(h)) => h.get(&st("_delete")).cloned(),
                    _ => None,
                };
                if matches!(old, Some(Yaml::Hash(_))) || old.is_none() && self.s.chance(40) {
                    ins(
                        &mut self.doc,
                        &[sec, "_delete".into()],
                        "_registers",
                        list(vec![spec]),
                    );
                } else {
                    ins(&mut self.doc, &[sec], "_delete", list(vec![spec]));
                }
            }
            "p.copy" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let src = plain_names(p.registers.as_deref().unwrap_or(&[]), |r| r.is_single());
                if src.is_empty() {
                    return None;
                }
                let n = self.fresh_reg(&p);
                let mut h = vec![("_from".to_string(), st(self.s.pick(&src).clone()))];
                if self.s.chance(70) {
                    let o = self.s.below(64) as u64 * 4;
                    h.push(("addressOffset".into(), self.num(o)));
                }
                if self.s.chance(50) {
                    h.push(("description".into(), st(self.text())));
                }
                ins(&mut self.doc, &[sec, "_copy".into()], &n, mp(h));
            }
            "p.strip" | "p.strip_end" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let k = p.registers.as_deref().unwrap_or(&[]);
                let regs = plain_names(k, |r| r.is_single());
                if regs.is_empty() || !clusters(k).is_empty() {
                    return None;
                }
                let n = self.s.pick(&regs).clone();
                let c = self.s.range(1, n.len().min(4));
                let (key, t) = if kind == "p.strip" {
                    ("_strip", n[..c].to_string())
                } else {
                    ("_strip_end", n[n.len() - c..].to_string())
                };
                if t.contains('%') || t.contains('[') {
                    return None;
                }
                ins(&mut self.doc, &[sec], key, list(vec![t]));
            }
            "p.modify" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let k = p.registers.as_deref().unwrap_or(&[]);
                let all = [plain_names(k, |_| true), clusters(k)].concat();
                let good = plain_names(k, |r| r.derived_from.is_none());
                let mut h = self.reg_body(false);
                let spec = if self.s.chance(25) && !good.is_empty() {
                    let from: HashSet<String> = k
                        .iter()
                        .filter_map(|x| match x {
                            RegisterCluster::Register(r) => r.derived_from.clone(),
                            _ => None,
                        })
                        .collect();
                    let r = self.s.pick(&good).clone();
                    if from.contains(&r) || r.contains("%s") {
                        return None;
                    }
                    h.insert(st("name"), st(self.fresh_reg(&p)));
                    r
                } else {
                    self.spec(&good, &all)?
                };
                if self.s.chance(12) {
                    h.insert(st("displayName"), st(""));
                }
                let at: Vec<String> = if self.s.chance(60) {
                    vec![sec, "_modify".into()]
                } else {
                    vec![sec, "_modify".into(), "_registers".into()]
                };
                ins(&mut self.doc, &at, &spec, Yaml::Hash(h));
            }
            "p.clear" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let k = p.registers.as_deref().unwrap_or(&[]);
                if !clusters(k).is_empty() {
                    return None;
                }
                let regs = plain_names(k, |_| true);
                let spec = self.spec(&regs, &regs)?;
                ins(&mut self.doc, &[sec], "_clear_fields", list(vec![spec]));
            }
            "p.add" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let n = self.fresh_reg(&p);
                let h = self.reg_body(true);
                let at: Vec<String> = if self.s.chance(60) {
                    vec![sec, "_add".into()]
                } else {
                    vec![sec, "_add".into(), "_registers".into()]
                };
                ins(&mut self.doc, &at, &n, Yaml::Hash(h));
            }
            "p.addfirst" => {
                // a register for a peripheral that has none
                let good = self.pers(|p| p.derived_from.is_none() && p.registers.is_none());
                let known: Vec<String> = self
                    .doc
                    .keys()
                    .filter_map(|k| k.as_str())
                    .filter(|k| !k.starts_with('_'))
                    .map(String::from)
                    .collect();
                if good.is_empty() {
                    return None;
                }
                let sec = self.s.pick(&good).clone();
                if known
                    .iter()
                    .any(|k| *k != sec && glob::matches(&sec, k).unwrap_or(true))
                {
                    return None;
                }
                let h = self.reg_body(true);
                ins(&mut self.doc, &[sec, "_add".into()], "NEWR", Yaml::Hash(h));
            }
            "p.addcl" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let used = clusters(p.registers.as_deref().unwrap_or(&[]));
                let n = gen_svd::fresh(self.s, &used, &["NEWC", "ADDC"]);
                let o = self.s.below(64) as u64 * 4;
                let mut h = vec![("addressOffset".to_string(), self.num(o))];
                for r in ["RA", "RB"] {
                    if r == "RA" || self.s.chance(50) {
                        h.push((r.into(), Yaml::Hash(self.reg_body(true))));
                    }
                }
                ins(
                    &mut self.doc,
                    &[sec, "_add".into(), "_clusters".into()],
                    &n,
                    mp(h),
                );
            }
            "p.derive" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let k = p.registers.as_deref().unwrap_or(&[]);
                let based: HashSet<String> = k
                    .iter()
                    .filter_map(|x| match x {
                        RegisterCluster::Register(r) => r.derived_from.clone(),
                        _ => None,
                    })
                    .collect();
                let src = plain_names(k, |r| r.is_single() && r.derived_from.is_none());
                let good = plain_names(k, |r| {
                    r.is_single()
                        && r.derived_from.is_none()
                        && r.display_name.is_none()
                        && r.alternate_group.is_none()
                        && r.alternate_register.is_none()
                        && r.read_action.is_none()
                });
                if good.is_empty() {
                    return None;
                }
                let (a, b) = (self.s.pick(&good).clone(), self.s.pick(&src).clone());
                if a == b || based.contains(&a) && self.s.chance(30) {
                    return None;
                }
                let (a, fresh) = if self.s.chance(25) {
                    (self.fresh_reg(&p), true)
                } else {
                    (a, false)
                };
                let v = if !fresh && self.s.chance(60) {
                    st(b)
                } else {
                    let mut h = vec![("_from".to_string(), st(b))];
                    if !fresh && self.s.chance(50) {
                        h.push(("description".into(), st(self.text())));
                    }
                    if fresh || self.s.chance(50) {
                        let n = self.s.range(1, 60) as u64 * 4;
                        h.push(("addressOffset".into(), self.num(n)));
                    }
                    mp(h)
                };
                let at: Vec<String> = if self.s.chance(60) {
                    vec![sec, "_derive".into()]
                } else {
                    vec![sec, "_derive".into(), "_registers".into()]
                };
                ins(&mut self.doc, &at, &a, v);
            }
            "p.array" | "p.cluster" => {
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let k = p.registers.as_deref().unwrap_or(&[]);
                let all = plain_names(k, |_| true);
                let singles = plain_names(k, |r| r.is_single() && r.derived_from.is_none());
                let least = if kind == "p.array" && self.s.chance(20) { 1 } else { 2 };
                let fam = families_of(&singles, least);
                if fam.is_empty() {
                    return None;
                }
                let (pre, post, idx) = self.s.pick(&fam).clone();
                let tok = token(self.s, &idx);
                let spec = format!("{pre}{tok}{post}");
                let hits: Vec<&String> = all
                    .iter()
                    .filter(|n| glob::matches(n, &spec).unwrap_or(false))
                    .collect();
                if hits.len() < least || hits.iter().any(|h| !singles.contains(h)) {
                    return None;
                }
                if kind == "p.array" {
                    let mut h = vec![];
                    let d = if self.s.chance(30) {
                        "_original".to_string()
                    } else {
                        self.text()
                    };
                    h.push(("description".to_string(), st(d)));
                    if self.s.chance(40) {
                        h.push(("name".into(), st(format!("{pre}X%s{post}"))));
                    }
                    if self.s.chance(25) {
                        h.push(("_start_from_zero".into(), Yaml::Boolean(self.s.chance(70))));
                    }
                    ins(&mut self.doc, &[sec, "_array".into()], &spec, mp(h));
                } else {
                    let mut h = vec![];
                    if self.s.chance(70) {
                        h.push(("description".to_string(), st(self.text())));
                    }
                    let mut group: Vec<_> = fam
                        .iter()
                        .filter(|f| f.0 == pre && f.2.len() == idx.len())
                        .cloned()
                        .collect();
                    self.s.shuffle(&mut group);
                    let n = self.s.range(1, group.len());
                    for (_, post, _) in group.into_iter().take(n) {
                        let mut e = vec![];
                        let nm = if post.len() > 1 {
                            format!("R{post}")
                        } else {
                            self.s.s(&["REGA", "REGB"])
                        };
                        // alternatives of which more than one matches: the first one counts
                        let both = post.is_empty() && pre.len() > 1 && self.s.chance(15);
                        if both || post.len() < 2 || self.s.chance(60) {
                            e.push(("name".to_string(), st(nm)));
                        }
                        if self.s.chance(40) {
                            e.push(("description".into(), st(self.text())));
                        }
                        let key = match both {
                            false => format!("{pre}{tok}{post}"),
                            true => {
                                let short = &pre[..pre.len() - 1];
                                match self.s.chance(50) {
                                    true => format!("{short}*,{pre}*"),
                                    false => format!("{pre}*,{short}*"),
                                }
                            }
                        };
                        let found = all.iter().filter(|n| glob::matches(n, &key).unwrap_or(false));
                        if both && found.clone().any(|n| !n.starts_with(&pre)) {
                            return None;
                        }
                        let e = if e.is_empty() {
                            Yaml::Hash(Hash::new())
                        } else {
                            mp(e)
                        };
                        h.push((key, e));
                    }
                    // each register in at most one of them
                    let two = |n: &&String| {
                        h.iter()
                            .filter(|x| glob::matches(n, &x.0).unwrap_or(false))
                            .count()
                            > 1
                    };
                    if all.iter().any(|n| two(&n)) {
                        return None;
                    }
                    let used = clusters(k);
                    let n = gen_svd::fresh(self.s, &used, &["CLN%s", "CLM%s"]);
                    ins(&mut self.doc, &[sec, "_cluster".into()], &n, mp(h));
                }
            }
            "c.any" => {
                // rules for the registers of a cluster
                let sec = self.section()?;
                let p = self.only(&sec)?;
                let k = p.registers.as_deref().unwrap_or(&[]);
                let cl = clusters(k);
                if cl.is_empty() {
                    return None;
                }
                let cn = self.s.pick(&cl).clone();
                let kids = k.iter().find_map(|x| match x {
                    RegisterCluster::Cluster(c) if c.name == cn => Some(c.children.clone()),
                    _ => None,
                })?;
                let regs = plain_names(&kids, |_| true);
                let cspec = cn.replace("[%s]", "*").replace("%s", "*");
                if cl
                    .iter()
                    .filter(|n| glob::matches(n, &cspec).unwrap_or(false))
                    .count()
                    != 1
                {
                    return None;
                }
                let at = [sec, "_clusters".to_string(), cspec];
                let stage = self.s.below(4);
                match stage {
                    0 => {
                        if regs.len() < 2 {
                            return None;
                        }
                        let r = self.s.pick(&regs).clone();
                        if r.contains('%') {
                            return None;
                        }
                        ins(&mut self.doc, &at, "_delete", list(vec![r]));
                    }
                    1 => {
                        let r = self.s.pick(&regs).clone();
                        let n = self.s.range(1, r.len().min(3));
                        let (key, t) = if self.s.chance(50) {
                            ("_strip", r[..n].to_string())
                        } else {
                            ("_strip_end", r[r.len() - n..].to_string())
                        };
                        if t.contains('%') || t.contains('[') || t.len() >= r.len() {
                            return None;
                        }
                        ins(&mut self.doc, &at, key, list(vec![t]));
                    }
                    2 => {
                        let spec =
                            self.spec(&plain_names(&kids, |r| r.derived_from.is_none()), &regs)?;
                        let h = self.reg_body(false);
                        let mut at = at.to_vec();
                        at.push("_modify".into());
                        ins(&mut self.doc, &at, &spec, Yaml::Hash(h));
                    }
                    _ => {
                        let n = gen_svd::fresh(self.s, &regs, &["NEWR", "CR9"]);
                        let h = self.reg_body(true);
                        let mut at = at.to_vec();
                        at.push("_add".into());
                        ins(&mut self.doc, &at, &n, Yaml::Hash(h));
                    }
                }
            }
            // ---------------------------------------------------- register
            k if k.starts_with("r.") => return self.reg_rule(&k[2..]),
            _ => return None,
        }
        Some(())
    }
    fn reg_rule(&mut self, kind: &str) -> Option<()> {
        let many = matches!(kind, "delete" | "strip" | "clear" | "modify" | "add");
        let (path, r) = self.reg_section(!many, &|r| {
            kind == "add" || r.fields.as_ref().is_some_and(|f| !f.is_empty())
        })?;
        let fs: Vec<FieldInfo> = r
            .fields
            .iter()
            .flatten()
            .map(|f| crate::flat::info(f).clone())
            .collect();
        let all: Vec<String> = fs.iter().map(|f| f.name.clone()).collect();
        let pick = |f: &dyn Fn(&FieldInfo) -> bool| -> Vec<String> {
            fs.iter().filter(|x| f(x)).map(|x| x.name.clone()).collect()
        };
        let based: HashSet<String> = fs.iter().filter_map(|f| f.derived_from.clone()).collect();
        let free = |f: &FieldInfo| f.derived_from.is_none();
        let w = |n: &str| {
            fs.iter()
                .find(|f| f.name == n)
                .map_or(1, |f| f.bit_range.width)
        };
        let sub = |k: &str| -> Vec<String> { [&path[..], &[k.to_string()]].concat() };
        match kind {
            "delete" => {
                let good = pick(&|f| !based.contains(&f.name));
                let p = self.spec(&good, &all)?;
                ins(&mut self.doc, &path, "_delete", list(vec![p]));
            }
            "strip" => {
                if !based.is_empty() {
                    return None;
                }
                let n = self.s.pick(&all).clone();
                let c = self.s.range(1, n.len().min(3));
                let (k, t) = if self.s.chance(50) {
                    ("_strip", &n[..c])
                } else {
                    ("_strip_end", &n[n.len() - c..])
                };
                if t.contains('%') || t.contains('[') || all.iter().any(|a| a == t) {
                    return None;
                }
                ins(&mut self.doc, &path, k, list(vec![t.to_string()]));
            }
            "clear" => {
                let p = self.spec(&all, &all)?;
                ins(&mut self.doc, &path, "_clear", list(vec![p]));
            }
            "modify" => {
                let good = pick(&free);
                let mut h = self.field_body(false);
                let spec = if self.s.chance(20) {
                    let good = pick(&|f| free(f) && !based.contains(&f.name));
                    if good.is_empty() {
                        return None;
                    }
                    let n = gen_svd::fresh(self.s, &all, &["RENF", "FNEW"]);
                    h.insert(st("name"), st(n));
                    self.s.pick(&good).clone()
                } else {
                    self.spec(&good, &all)?
                };
                if self.s.chance(30) {
                    let v = match self.s.below(3) {
                        0 => st("none"),
                        1 => st("enum"),
                        _ => {
                            let (a, b) = (self.s.below(4) as i64, self.s.range(4, 200) as i64);
                            Yaml::Array(vec![Yaml::Integer(a), Yaml::Integer(b)])
                        }
                    };
                    h.insert(st("_write_constraint"), v);
                }
                if h.is_empty() {
                    return None;
                }
                ins(&mut self.doc, &sub("_modify"), &spec, Yaml::Hash(h));
            }
            "add" => {
                let n = gen_svd::fresh(self.s, &all, &["ADDF", "NEWF"]);
                let h = self.field_body(true);
                ins(&mut self.doc, &sub("_add"), &n, Yaml::Hash(h));
            }
            "merge" => {
                let bare = |f: &FieldInfo| {
                    free(f)
                        && f.access.is_none()
                        && f.enumerated_values.is_empty()
                        && f.write_constraint.is_none()
                        && f.modified_write_values.is_none()
                        && f.read_action.is_none()
                        && !based.contains(&f.name)
                };
                let good = pick(&bare);
                let fam = families(&good);
                if fam.is_empty() {
                    return None;
                }
                let (pre, post, idx) = self.s.pick(&fam).clone();
                let spec = format!("{pre}{}{post}", token(self.s, &idx));
                let hits: Vec<&String> = all
                    .iter()
                    .filter(|n| glob::matches(n, &spec).unwrap_or(false))
                    .collect();
                if hits.len() < 2 || hits.iter().any(|h| !good.contains(h)) {
                    return None;
                }
                let mut at = Some(&self.doc);
                for k in sub("_merge") {
                    at = at.and_then(|h| h.get(&st(k))).and_then(|y| y.as_hash());
                }
                if at.is_some() {
                    // one merge per register
                    return None;
                }
                match self.s.below(3) {
                    0 => ins(&mut self.doc, &path, "_merge", list(vec![spec])),
                    1 => ins(&mut self.doc, &sub("_merge"), "MERGED", st(spec)),
                    _ => {
                        let two = hits.iter().take(2).map(|s| s.to_string()).collect();
                        ins(&mut self.doc, &sub("_merge"), "MERGED", list(two))
                    }
                }
            }
            "split" => {
                let good = pick(&|f| {
                    free(f)
                        && f.access.is_none()
                        && f.enumerated_values.is_empty()
                        && f.write_constraint.is_none()
                        && f.modified_write_values.is_none()
                        && f.read_action.is_none()
                        && !based.contains(&f.name)
                        && f.bit_range.width > 1
                });
                if good.is_empty() {
                    return None;
                }
                let n = self.s.pick(&good).clone();
                if self.s.chance(50) {
                    ins(&mut self.doc, &path, "_split", list(vec![n]));
                } else {
                    let mut h = vec![("name".to_string(), st(self.s.s(&["BIT%s", "S%s_X"])))];
                    if self.s.chance(60) {
                        h.push(("description".into(), st("Bit %s of it")));
                    }
                    ins(&mut self.doc, &sub("_split"), &n, mp(h));
                }
            }
            "enum" => {
                let good = pick(&|f| free(f) && f.enumerated_values.is_empty());
                let p = self.spec(&good, &all)?;
                let first = all
                    .iter()
                    .find(|n| glob::matches(n, &p).unwrap_or(false))?
                    .clone();
                let mut v = self.values(w(&first));
                let mut at = Some(&self.doc);
                for k in sub(&p) {
                    at = at.and_then(|h| h.get(&st(k))).and_then(|y| y.as_hash());
                }
                let reads = |k: &str| k.starts_with("_r") || k.starts_with("_R");
                let given: Option<Vec<bool>> =
                    at.map(|h| h.keys().map(|k| reads(k.as_str().unwrap_or(""))).collect());
                if given.is_none() && self.s.chance(15) {
                    v.insert(st("_name"), st(self.s.s(&["NAMED", "OtherName"])));
                    ins(&mut self.doc, &path, &p, Yaml::Hash(v));
                } else if self.s.chance(40) {
                    let racc = r.properties.access;
                    let rw = |n: &String| {
                        let f = fs.iter().find(|f| &f.name == n).unwrap();
                        f.access.or(racc).unwrap_or_default() == Access::ReadWrite
                    };
                    if !all
                        .iter()
                        .filter(|n| glob::matches(n, &p).unwrap_or(false))
                        .all(rw)
                    {
                        return None;
                    }
                    let k = self.s.s(&[
                        "_read", "_write", "_RS", "_RC", "_RME", "_W1S", "_W0C", "_W1C", "_W0S",
                        "_W1T", "_W0T", "_WS", "_WC", "_WM", "_RM",
                    ]);
                    if given.is_some_and(|g| g.contains(&reads(&k))) {
                        // one rule for reading and one for writing
                        return None;
                    }
                    let v = if !["_read", "_write"].contains(&k.as_str()) && self.s.chance(40) {
                        Hash::new()
                    } else {
                        v
                    };
                    ins(&mut self.doc, &sub(&p), &k, Yaml::Hash(v));
                } else if given.is_some() {
                    return None;
                } else {
                    ins(&mut self.doc, &path, &p, Yaml::Hash(v));
                }
            }
            "replace" => {
                let good = pick(&|f| {
                    free(f)
                        && f.enumerated_values.len() == 1
                        && f.enumerated_values[0].derived_from.is_none()
                        && f.enumerated_values[0].usage.unwrap_or_default() == Usage::ReadWrite
                });
                if good.is_empty() || r.properties.access.is_some_and(|a| a != Access::ReadWrite) {
                    return None;
                }
                let n = self.s.pick(&good).clone();
                if fs
                    .iter()
                    .any(|f| f.name == n && f.access.is_some_and(|a| a != Access::ReadWrite))
                {
                    return None;
                }
                let v = self.values(w(&n));
                let stated = fs.iter().any(|f| f.name == n && f.enumerated_values[0].usage.is_some());
                let mut at = sub(&n);
                if stated && self.s.chance(50) {
                    at.push(self.s.s(&["_read", "_write", "_RC", "_W1C"]));
                }
                ins(&mut self.doc, &at, "_replace_enum", Yaml::Hash(v));
            }
            "enumfrom" => {
                let named: Vec<String> = fs
                    .iter()
                    .flat_map(|f| {
                        f.enumerated_values
                            .iter()
                            .filter(|e| e.derived_from.is_none())
                            .filter_map(|e| e.name.clone())
                    })
                    .collect();
                let good = pick(&|f| free(f) && f.enumerated_values.is_empty());
                if named.is_empty() {
                    return None;
                }
                let p = self.spec(&good, &all)?;
                let v = mp(vec![(
                    "_derivedFrom".into(),
                    st(self.s.pick(&named).clone()),
                )]);
                ins(&mut self.doc, &path, &p, v);
            }
            "range" => {
                let good = pick(&|f| free(f) && f.write_constraint.is_none());
                let p = self.spec(&good, &all)?;
                let (a, b) = (self.s.below(4) as i64, self.s.range(4, 200) as i64);
                if matches!(self.doc.get(&st(path[0].as_str())), Some(Yaml::Hash(h)) if matches!(h.get(&st(path[1].as_str())), Some(Yaml::Hash(h)) if h.contains_key(&st(p.as_str()))))
                {
                    return None;
                }
                ins(
                    &mut self.doc,
                    &path,
                    &p,
                    Yaml::Array(vec![Yaml::Integer(a), Yaml::Integer(b)]),
                );
            }
            "array" => {
                let good = pick(&|f| free(f) && !based.contains(&f.name));
                let fam = families(&good);
                if fam.is_empty() {
                    return None;
                }
                let (pre, post, idx) = self.s.pick(&fam).clone();
                let spec = format!("{pre}{}{post}", token(self.s, &idx));
                let hits: Vec<&String> = all
                    .iter()
                    .filter(|n| glob::matches(n, &spec).unwrap_or(false))
                    .collect();
                if hits.len() < 2 || hits.iter().any(|h| !good.contains(h)) {
                    return None;
                }
                let mut h = vec![(
                    "description".to_string(),
                    st(if self.s.chance(30) {
                        "_original".into()
                    } else {
                        self.text()
                    }),
                )];
                if self.s.chance(40) {
                    h.push(("name".into(), st(format!("{pre}X%s{post}"))));
                }
                if self.s.chance(25) {
                    h.push(("_start_from_zero".into(), Yaml::Boolean(self.s.chance(70))));
                }
                ins(&mut self.doc, &sub("_array"), &spec, mp(h));
            }
            _ => return None,
        }
        Some(())
    }
}
fn clusters(k: &[RegisterCluster]) -> Vec<String> {
    k.iter()
        .filter_map(|x| match x {
            RegisterCluster::Cluster(c) => Some(c.name.clone()),
            _ => None,
        })
        .collect()
}
/// Names that differ in one number: (before, after, the numbers)
fn families(names: &[String]) -> Vec<(String, String, Vec<String>)> {
    families_of(names, 2)
}
fn families_of(names: &[String], least: usize) -> Vec<(String, String, Vec<String>)> {
    let mut m: BTreeMap<(String, String), Vec<String>> = BTreeMap::new();
    for n in names {
        let b = n.as_bytes();
        let Some(i) = b.iter().position(|c| c.is_ascii_digit()) else {
            continue;
        };
        let j = (i..b.len())
            .find(|j| !b[*j].is_ascii_digit())
            .unwrap_or(b.len());
        if i > 0 && !n.contains('%') {
            m.entry((n[..i].into(), n[j..].into()))
                .or_default()
                .push(n[i..j].into());
        }
    }
    m.into_iter()
        .filter(|(_, v)| v.len() >= least)
        .map(|((a, b), v)| (a, b, v))
        .collect()
}
fn token(s: &mut Src, idx: &[String]) -> String {
    if idx.iter().any(|i| i.len() != 1) {
        return "*".into();
    }
    match s.below(4) {
        0 => "*".into(),
        1 => format!("[{}]", idx.concat()),
        _ => "?".into(),
    }
}

const KINDS: &[(&str, u32, u32)] = &[
    // kind, phase, weight
    ("d.delete", 0, 4),
    ("d.copy", 1, 5),
    ("d.copyfile", 1, 4),
    ("d.modify", 2, 4),
    ("d.cpu", 2, 3),
    ("d.modper", 2, 8),
    ("d.clear", 3, 3),
    ("d.add", 4, 8),
    ("d.derive", 5, 6),
    ("d.rebase", 6, 5),
    ("p.delete", 10, 6),
    ("p.copy", 11, 6),
    ("p.strip", 12, 4),
    ("p.strip_end", 13, 4),
    ("p.modify", 14, 8),
    ("p.clear", 15, 3),
    ("p.irq", 16, 6),
    ("p.add", 16, 7),
    ("p.addfirst", 16, 3),
    ("p.addcl", 16, 5),
    ("p.derive", 17, 7),
    ("r.delete", 20, 5),
    ("r.strip", 21, 4),
    ("r.clear", 23, 4),
    ("r.modify", 24, 8),
    ("r.add", 25, 6),
    ("r.merge", 26, 6),
    ("r.split", 27, 6),
    ("r.enum", 28, 14),
    ("r.replace", 28, 5),
    ("r.enumfrom", 28, 5),
    ("r.range", 28, 6),
    ("r.array", 29, 7),
    ("p.array", 30, 8),
    ("p.cluster", 31, 8),
    ("c.any", 32, 8),
];
fn gen_patch(s: &mut Src) -> Option<Gen> {
    let mut o = options();
    o.periphs = (1, 4);
    o.regs = (1, 6);
    o.field_arrays = 0;
    o.reg_arrays = 8;
    o.derived = 30;
    o.families = 90;
    let mut dev = gen_svd::device(s, &o);
    tame(s, &mut dev, false);
    let xml = encode(&dev)?;
    let mut case = Case::default();
    case.svd.push(("device.svd".into(), xml.clone()));
    let mut other = None;
    if s.chance(25) {
        let mut d = gen_svd::device(s, &o);
        tame(s, &mut d, false);
        case.svd.push(("other.svd".into(), encode(&d)?));
        other = Some(d);
    }
    let dir = scratch();
    put_others(&case, &dir);
    let cur = parse_svd(&xml).ok()?;
    if odd_name(&cur) {
        return None;
    }
    let mut kinds: Vec<(&str, u32)> = (0..s.range(1, 6))
        .map(|_| {
            let k = KINDS[s.weighted(&KINDS.iter().map(|k| k.2).collect::<Vec<_>>())];
            (k.0, k.1)
        })
        .collect();
    kinds.sort_by_key(|k| k.1);
    let mut p = P {
        s,
        cur,
        other,
        doc: Hash::new(),
        sections: vec![],
    };
    let mut tags = vec![];
    for (k, _) in kinds {
        for _ in 0..4 {
            let (doc, sections) = (p.doc.clone(), p.sections.clone());
            if p.rule(k).is_some() && p.doc != doc {
                if let Ok(d) = apply(&xml, &p.doc, Some(&dir)) {
                    if odd_name(&d) {
                        p.doc = doc;
                        p.sections = sections;
                        continue;
                    }
                    if d != p.cur {
                        tags.push(format!("effective {k}"));
                        p.cur = d;
                    }
                    break;
                }
            }
            p.doc = doc;
            p.sections = sections;
        }
    }
    if p.doc.is_empty() {
        return None;
    }
    case.yaml
        .push(("patch.yaml".into(), emit_yaml(&Yaml::Hash(p.doc))));
    Some(Gen {
        nontrivial: !tags.is_empty(),
        case,
        tags,
    })
}

/// Paths of the keys and texts of a rule file that name elements.
fn naming(y: &Yaml, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if let Yaml::Hash(h) = y {
        for (k, v) in h {
            let Some(k) = k.as_str() else { continue };
            at.push(k.to_string());
            let parent = at
                .len()
                .checked_sub(2)
                .map_or("", |i| at[i].as_str())
                .to_string();
            // New names, and names for which the Python version takes no match for nothing to do.
            let other = at
                .iter()
                .rev()
                .skip(1)
                .any(|x| ["_add", "_derive", "_copy", "_cluster"].contains(&x.as_str()))
                || at.iter().any(|x| x == "_modify");
            let empty = v.as_hash().is_some_and(|h| {
                h.values()
                    .all(|v| v.as_hash().is_some_and(|h| h.is_empty()))
            });
            if !k.starts_with('_')
                && !other
                && !empty
                && !["_interrupts"].contains(&parent.as_str())
                && matches!(v, Yaml::Hash(_) | Yaml::Array(_))
            {
                out.push(at.clone());
            }
            if ["_from", "from"].contains(&k)
                || ["_rebase", "_derive"].contains(&parent.as_str()) && v.as_str().is_some()
            {
                out.push(at.iter().cloned().chain(["".into()]).collect());
            }
            naming(v, at, out);
            at.pop();
        }
    }
}
/// The rules with the name at the path replaced by one that no element has.
fn misname(y: &Yaml, path: &[String], to: &str) -> Yaml {
    match y {
        Yaml::Hash(h) => {
            let mut o = Hash::new();
            for (k, v) in h {
                if k.as_str() != Some(&path[0]) {
                    o.insert(k.clone(), v.clone());
                } else if path.len() == 1 {
                    o.insert(st(to), v.clone());
                } else if path.len() == 2 && path[1].is_empty() {
                    o.insert(k.clone(), st(to));
                } else {
                    o.insert(k.clone(), misname(v, &path[1..], to));
                }
            }
            Yaml::Hash(o)
        }
        y => y.clone(),
    }
}
fn gen_reject(s: &mut Src) -> Option<Gen> {
    let mut g = gen_patch(s)?;
    let y = parse_yaml(&g.case.yaml[0].1).ok()?;
    let mut names = vec![];
    naming(&y, &mut vec![], &mut names);
    if names.is_empty() {
        return None;
    }
    let at = s.pick(&names).clone();
    let to = s.s(&["ZZ_NOPE", "ZZ?", "ZZ_[12]", "ZZ_NOPE,ZZ1"]);
    let to = if at.last().is_some_and(|x| x.is_empty()) {
        "ZZ_NOPE".to_string()
    } else {
        to
    };
    g.case.yaml[0].1 = emit_yaml(&misname(&y, &at, &to));
    g.case.set("misnamed", at.join("/"));
    g.tags = vec![];
    g.nontrivial = true;
    Some(g)
}
fn eval_reject(c: &Case) -> Verdict {
    let Ok(Yaml::Hash(doc)) = parse_yaml(&c.yaml[0].1) else {
        return Verdict::skip("no rules");
    };
    for (_, x) in &c.svd {
        match parse_svd(x) {
            Ok(d) if tamed(&d, false) => {}
            _ => return Verdict::skip("outside what both versions describe"),
        }
    }
    let dir = scratch();
    put_others(c, &dir);
    if !c.yaml[0].1.contains("ZZ") || apply(&c.svd[0].1, &doc, Some(&dir)).is_ok() {
        return Verdict::skip("the Rust version accepts the rules");
    }
    let mut h = doc.clone();
    h.insert(st("_svd"), st("device.svd"));
    write(&dir, "patch.yaml", &emit_yaml(&Yaml::Hash(h)));
    match run_tool(&dir, &["patch", "patch.yaml"], None) {
        Err(_) => Verdict::ok(),
        Ok(_) => Verdict::fail(format!(
            "accepted although nothing is called as the rule at {} says",
            c.opt("misnamed")
        )),
    }
}

pub fn subs(id: &str) -> Option<(&'static str, &'static str, Vec<&'static str>, Vec<Sub>)> {
    let sub = |name, gen: fn(&mut Src) -> Option<Gen>, eval, quick, thorough| Sub {
        name,
        gen: Box::new(gen),
        eval,
        quick,
        thorough,
    };
    if id != "C33" {
        return None;
    }
    Some((
        "C33",
        "the rules change the device (patch), the device has registers (mmap), more than one interrupt (interrupts), or more than one include (includes)",
        vec!["what both versions support, as the statement lists it; the Rust version is judged by the other properties"],
        vec![
            sub("patch", gen_patch, eval_patch, 24_000, 400_000),
            sub("reject", gen_reject, eval_reject, 6000, 100_000),
            sub("mmap", gen_mmap, eval_mmap, 6000, 150_000),
            sub("interrupts", gen_interrupts, eval_interrupts, 3000, 60_000),
            sub("includes", gen_includes, eval_includes, 6000, 150_000),
        ],
    ))
}
#[allow(unused)]
fn unused() -> ValidateLevel {
    NO
}
