//! C34: what a failing patch says; C35: the name printed by `info`.
use crate::case::*;
use crate::clicheck::{cli, gen_device, parse_weak, write};
use crate::enrich::Rich;
use crate::gen_patch::{st, PatchOpt};
use crate::gen_svd::DevOpt;
use crate::inccheck::*;
use crate::model::*;
use crate::patchcheck::*;
use crate::runner::*;
use crate::src::Src;
use svd_rs::{Device, RegisterCluster};
use yaml_rust::yaml::Hash;
use yaml_rust::Yaml;

fn map(v: Vec<(&str, Yaml)>) -> Yaml {
    let mut h = Hash::new();
    for (k, x) in v {
        h.insert(st(k), x);
    }
    Yaml::Hash(h)
}
fn list(v: &[&str]) -> Yaml {
    Yaml::Array(v.iter().map(|x| st(*x)).collect())
}
/// `value` at a path of keys, unless something is there already.
fn put(h: &mut Hash, path: &[String], value: Yaml) -> bool {
    let k = st(&path[0]);
    if path.len() == 1 {
        if h.contains_key(&k) {
            return false;
        }
        h.insert(k, value);
        return true;
    }
    let e = h.entry(k).or_insert_with(|| Yaml::Hash(Hash::new()));
    match e {
        Yaml::Hash(h) => put(h, &path[1..], value),
        _ => false,
    }
}
/// Takes the entry at a path away; the first `keep` keys stay even when nothing is left in them.
fn take(h: &mut Hash, path: &[&str], keep: usize) -> Option<Yaml> {
    let k = st(path[0]);
    if path.len() == 1 {
        return h.remove(&k);
    }
    let Some(Yaml::Hash(x)) = h.get_mut(&k) else { return None };
    let v = take(x, &path[1..], keep.saturating_sub(1));
    if x.is_empty() && keep == 0 {
        h.remove(&k);
    }
    v
}
const TOKENS: &[&str] = &["ZZ_NOPE", "ZZ_NOPE", "ZZ_[AB]*", "ZZ_?", "ZZ_NOPE,ZZ_X", "zz_nope"];

fn name_of(x: &RegisterCluster) -> String {
    match x {
        RegisterCluster::Register(r) => r.name.clone(),
        RegisterCluster::Cluster(c) => c.name.clone(),
    }
}
/// A pattern that matches the name and no other one of `all`, where there is one.
fn pattern(s: &mut Src, want: bool, name: &str, all: &[String]) -> String {
    let n: Vec<char> = name.chars().collect();
    if !want || n.len() < 2 || !s.chance(75) || name.contains(['[', ']', ',']) {
        return name.into();
    }
    let i = s.range(1, n.len() - 1);
    let mut p: String = n[..i].iter().collect();
    match s.below(4) {
        0 => p.push('?'),
        1 => p += &format!("[{}]", n[i]),
        2 => p += &format!("[!~{}]", if n[i] == 'x' { 'y' } else { 'x' }),
        _ => {
            p.push('*');
            return if all.iter().filter(|a| crate::glob::matches(a, &p).unwrap_or(true)).count() == 1 { p } else { name.into() };
        }
    }
    p.extend(&n[i + 1..]);
    if all.iter().filter(|a| crate::glob::matches(a, &p).unwrap_or(true)).count() == 1 {
        p
    } else {
        name.into()
    }
}
fn gen_diag(s: &mut Src) -> Option<Gen> {
    // sections named by a pattern, where no other rule changes what it matches
    let pats = s.chance(35);
    let po = PatchOpt {
        keep_err: 0,
        rules: if pats { (0, 0) } else { (0, 3) },
        ..Default::default()
    };
    let o = DevOpt {
        regs: (1, 5),
        periphs: (1, 3),
        clusters: 30,
        ..Default::default()
    };
    let mut g = gen_spread(s, &po, &o)?;
    let dev: Device = parse_weak(&g.case.svd[0].1).ok()?;
    let p = s.pick(&dev.peripherals).clone();
    let mut t = s.s(TOKENS);
    let single = s.s(&["ZZ_NOPE", "ZZ_X1"]);
    // section keys on the way
    let mut at: Vec<String> = vec![];
    let mut keys: Vec<String> = vec![];
    let depth = if pats { s.range(1, 3) } else { s.below(4) };
    let mut block: Vec<RegisterCluster> = p.registers.clone().unwrap_or_default();
    if depth > 0 {
        at.push(p.name.clone());
        let all: Vec<String> = dev.peripherals.iter().map(|p| p.name.clone()).collect();
        keys.push(pattern(s, pats, &p.name, &all));
    }
    if depth > 1 {
        let mut reg = None;
        for _ in 0..4 {
            if block.is_empty() {
                break;
            }
            let all: Vec<String> = block.iter().map(name_of).collect();
            match s.pick(&block).clone() {
                RegisterCluster::Register(r) => {
                    if depth == 3 {
                        keys.push(pattern(s, pats, &r.name, &all));
                    }
                    reg = Some(r);
                    break;
                }
                RegisterCluster::Cluster(c) => {
                    at.push(c.name.clone());
                    keys.push(pattern(s, pats, &c.name, &all));
                    block = c.children.clone();
                }
            }
        }
        if depth == 3 {
            let r = reg?;
            at.push(r.name.clone());
            let f = match &r.fields {
                Some(f) if !f.is_empty() => s.pick(f).name.clone(),
                _ => return None,
            };
            let (sub, v): (Vec<String>, Yaml) = match s.below(11) {
                0 => (vec!["_modify".into(), t.clone()], map(vec![("description", st("x"))])),
                1 => {
                    t = single;
                    (vec!["_derive".into(), t.clone()], st(&f))
                }
                2 => (vec!["_merge".into()], list(&[&t])),
                3 => (vec!["_split".into()], list(&[&t])),
                4 => (vec!["_array".into(), t.clone()], map(vec![])),
                5 => (vec![t.clone()], Yaml::Array(vec![Yaml::Integer(0), Yaml::Integer(3)])),
                6 => (vec![t.clone()], map(vec![("A", Yaml::Array(vec![Yaml::Integer(0), st("d")]))])),
                7 => (vec![t.clone()], map(vec![("_read", map(vec![("A", Yaml::Array(vec![Yaml::Integer(0), st("d")]))]))])),
                8 => {
                    t = single;
                    at.push(f);
                    (vec!["_derivedFrom".into()], st(&t))
                }
                9 => {
                    t = single;
                    (vec!["_split".into(), t.clone()], map(vec![("name", st("B%s"))]))
                }
                _ => {
                    t = single;
                    (vec!["_modify".into(), f, "bitWidth".into()], st(&t))
                }
            };
            let path: Vec<String> = keys.iter().chain(at.iter().skip(keys.len())).cloned().chain(sub).collect();
            return finish(s, g, path, at, t, v);
        }
    }
    let regs: Vec<String> = block
        .iter()
        .filter_map(|x| match x {
            RegisterCluster::Register(r) => Some(r.name.clone()),
            _ => None,
        })
        .collect();
    let r = match regs.is_empty() {
        true if depth > 0 => return None,
        true => String::new(),
        false => s.pick(&regs).clone(),
    };
    let (sub, v) = if depth == 0 {
        match s.below(6) {
            0 => {
                t = single;
                (vec!["_copy".to_string(), "PER_NEW".into()], map(vec![("from", st(&t))]))
            }
            1 => {
                t = single;
                (vec!["_derive".into(), t.clone()], st(&p.name))
            }
            2 => {
                t = single;
                (vec!["_rebase".into(), t.clone()], st(&p.name))
            }
            3 => {
                t = single;
                (vec!["_rebase".into(), p.name.clone()], st(&t))
            }
            4 => {
                t = single;
                (vec!["_modify".into(), "size".into()], st(&t))
            }
            _ => (vec![t.clone()], map(vec![("REG", map(vec![("FLD", Yaml::Array(vec![Yaml::Integer(0), Yaml::Integer(3)]))]))])),
        }
    } else {
        match s.below(9) {
            0 => {
                t = single;
                (vec!["_copy".to_string(), "REG_NEW".into()], map(vec![("from", st(&t))]))
            }
            1 => (vec!["_modify".into(), t.clone()], map(vec![("description", st("x"))])),
            2 => {
                t = single;
                (vec!["_derive".into(), r], st(&t))
            }
            3 => (vec!["_array".into(), t.clone()], map(vec![])),
            4 => {
                let v = map(vec![(t.as_str(), map(vec![]))]);
                t = "CLU_NEW%s".into();
                (vec!["_cluster".into(), t.clone()], v)
            }
            5 => (vec!["_expand_array".into(), t.clone()], map(vec![])),
            6 => {
                t = single;
                (vec!["_modify".into(), r, "size".into()], st(&t))
            }
            7 => (vec!["_expand_cluster".into(), t.clone()], map(vec![])),
            _ => (vec![t.clone()], map(vec![("FLD", Yaml::Array(vec![Yaml::Integer(0), Yaml::Integer(3)]))])),
        }
    };
    let path: Vec<String> = keys.iter().cloned().chain(sub).collect();
    g.tags.clear();
    finish(s, g, path, at, t, v)
}
fn finish(s: &mut Src, mut g: Gen, path: Vec<String>, at: Vec<String>, t: String, v: Yaml) -> Option<Gen> {
    let Ok(Yaml::Hash(mut h)) = parse_yaml(&g.case.yaml[0].1) else {
        return None;
    };
    if !put(&mut h, &path, v) {
        return None;
    }
    h.insert(st("_svd"), st("device.svd"));
    g.case.yaml[0].1 = emit_yaml(&Yaml::Hash(h));
    if let Some(n) = path.iter().rev().find(|k| !k.starts_with('_') && **k != t) {
        if path.len() > at.len() + 1 || path.last().is_some_and(|x| x == "_derivedFrom") {
            let n = if path.last().is_some_and(|x| x == "size" || x == "bitWidth") { &path[path.len() - 2] } else { n };
            g.case.set("named", n);
        }
    }
    g.case.set("path", path.join("\n"));
    g.case.set("token", t);
    g.case.set("at", at.join("\n"));
    if s.chance(50) {
        g.case.set("show", 1);
    }
    let n = at.len();
    let rule = path.get(n).map(|k| if k.starts_with('_') { k.as_str() } else { "section" });
    g.tags = vec![format!("{} {}", ["device", "peripheral", "inner", "inner", "inner"][n.min(4)], rule.unwrap_or(""))];
    g.nontrivial = true;
    Some(g)
}
fn eval_diag(c: &Case) -> Verdict {
    let rules = match load(&file_map(c), &c.yaml[0].0) {
        Err(L::Unspec(u)) => return Verdict::skip(u),
        Err(L::Fail(f)) => return Verdict::skip(f),
        Ok(l) => Yaml::Hash(l.rules),
    };
    // without the added rule, its sections left in place, the patch works
    let Yaml::Hash(mut rest) = rules.clone() else { unreachable!() };
    let path: Vec<&str> = c.opt("path").split('\n').collect();
    let mut keep = c.opt("at").split('\n').filter(|x| !x.is_empty()).count();
    if path.last() == Some(&"_derivedFrom") {
        keep -= 1;
    }
    let rule = take(&mut rest, &path, keep);
    let in_path = path.contains(&c.opt("token"));
    if !rule.is_some_and(|r| in_path || emit_yaml(&r).contains(c.opt("token"))) || !rest.contains_key(&st("_svd")) {
        return Verdict::skip("no added rule");
    }
    match expected(c, &Yaml::Hash(rest)) {
        Ok(_) => {}
        _ => return Verdict::skip("another rule fails"),
    }
    match expected(c, &rules) {
        Err(E::Err(_)) => {}
        Err(E::Unspec(w)) => return Verdict::skip(w),
        Ok(_) => return Verdict::skip("the added rule does not fail"),
    }
    let dir = place_files(c);
    let main = c.yaml[0].0.clone();
    let base = dir_of(&main).join("/");
    write(&dir, &join(&base, "device.svd"), &c.svd[0].1);
    let Ok(dev) = parse_weak(&c.svd[0].1) else {
        return Verdict::skip("invalid SVD");
    };
    let mut args = vec!["patch".to_string(), main, "out.svd".into()];
    if c.opt("show") == "1" {
        args.push("--show-patch-on-error".into());
    }
    args.extend(derive_arg(c));
    let o = cli(&dir, &args);
    if o.code == 0 {
        return Verdict::fail("accepted although a rule fails");
    }
    // the message without the rules that may be shown in it
    let mut shown: Option<String> = None;
    let mut message = String::new();
    let mut lines = o.err.lines().peekable();
    while let Some(l) = lines.next() {
        message.push_str(l);
        message.push('\n');
        if l.ends_with("Patches looks like:") && shown.is_none() {
            let mut t = String::new();
            while let Some(n) = lines.next_if(|n| n.starts_with("           ") || n.trim().is_empty()) {
                t.push_str(n.get(11..).unwrap_or(""));
                t.push('\n');
            }
            shown = Some(t);
        }
    }
    // the rules may have given the device another name
    let renamed = rules["_modify"]["name"].as_str().map(|n| n.to_string());
    if !message.contains(&dev.name) && !renamed.is_some_and(|n| message.contains(&n)) {
        return Verdict::fail(format!("the message does not name the device {}: {}", dev.name, o.last()));
    }
    let must: Vec<String> = c.opt("at").split('\n').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    // the rule by its pattern, or by the element beside it where that is missing
    if !message.contains(c.opt("token")) && !c.opts.get("named").is_some_and(|n| message.contains(n)) {
        return Verdict::fail(format!("the message does not name {:?}: {}", c.opt("token"), o.last()));
    }
    if let Some(m) = must.iter().find(|m| !message.contains(m.as_str())) {
        return Verdict::fail(format!("the message does not name {m:?}: {}", o.last()));
    }
    match (c.opt("show") == "1", shown) {
        (false, None) => {}
        (false, Some(_)) => return Verdict::fail("shows the rules without being asked"),
        (true, None) => return Verdict::fail("does not show the rules"),
        (true, Some(t)) => match parse_yaml(&t) {
            Err(e) => return Verdict::fail(format!("the rules shown are not YAML: {e}\n{t}")),
            Ok(d) => {
                if let Some(x) = yaml_diff(&rules, &no_paths(&d), "") {
                    if yaml_diff(&octal(&rules), &no_paths(&d), "").is_some() {
                        return Verdict::fail(format!("the rules shown: {x}"));
                    }
                }
            }
        },
    }
    Verdict::ok()
}

// ------------------------------------------------------------------ C35

fn gen_info(s: &mut Src) -> Option<Gen> {
    let o = DevOpt {
        regs: (0, 3),
        periphs: (1, 2),
        odd_text: 10,
        ..Default::default()
    };
    let (mut d, _) = gen_device(s, &o, &Rich::default())?;
    d.name = if s.chance(40) {
        s.s(&["STM32F4x2", "dev", "A", "Chip_1_rev", "nRF52", "R7FA-2", "X.Y", "LPC 11", "true", "0x10", "1e3", "null", "~", "a:b", "#1"])
    } else {
        let edge: Vec<char> = ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("_-.%[]()+/*&<>\"'Äµ".chars()).collect();
        let n = s.range(1, 12);
        (0..n)
            .map(|i| if i > 0 && i + 1 < n && s.chance(5) { ' ' } else { *s.pick(&edge) })
            .collect::<String>()
            .replace("  ", " ")
    };
    let xml = svd_encoder::encode(&d).ok()?;
    let mut c = Case::default();
    c.svd.push(("device.svd".into(), xml));
    c.set("file", s.s(&["in.svd", "in.svd", "in.xml", "in.SVD", "in.json", "in.yaml", "in.yml", "in.dat", "in", "d/in.v2.svd"]));
    c.set("as", s.s(&["", "", "", "xml", "json", "yaml"]));
    c.set("request", s.s(&["device-name", "device-name", "device-name", "device-name", "device_name", "name", ""]));
    if s.chance(25) {
        c.set("bad", s.s(&["missing", "cut"]));
    }
    Some(Gen {
        nontrivial: true,
        case: c,
        tags: vec![],
    })
}
fn eval_info(c: &Case) -> Verdict {
    let Ok(dev) = parse_weak(&c.svd[0].1) else {
        return Verdict::skip("invalid SVD");
    };
    let file = c.opt("file");
    let ext = std::path::Path::new(file).extension().map(|e| e.to_string_lossy().into_owned());
    let by_name = match ext.as_deref() {
        Some("svd" | "xml" | "SVD" | "XML") => Some("xml"),
        Some("yml" | "yaml" | "YML" | "YAML") => Some("yaml"),
        Some("json" | "JSON") => Some("json"),
        _ => None,
    };
    // the content is what the name says, where it says something
    let content = by_name.unwrap_or(if c.opt("as").is_empty() { "xml" } else { c.opt("as") });
    let format = if c.opt("as").is_empty() { by_name } else { Some(c.opt("as")) };
    let text = match content {
        "json" => serde_json::to_string(&dev).unwrap(),
        "yaml" => serde_yaml::to_string(&dev).unwrap(),
        _ => c.svd[0].1.clone(),
    };
    let dir = scratch();
    std::fs::create_dir_all(dir.join("d")).unwrap();
    match c.opt("bad") {
        "missing" => {}
        "cut" => write(&dir, file, &text.chars().take(text.len() / 3).collect::<String>()),
        _ => write(&dir, file, &text),
    }
    let mut args = vec!["info".to_string(), file.to_string(), c.opt("request").to_string()];
    if !c.opt("as").is_empty() {
        args.push(format!("--input-format={}", c.opt("as")));
    }
    let o = cli(&dir, &args);
    if format == Some("yaml") && content == "json" && c.opt("bad").is_empty() {
        // JSON is YAML as well
        return Verdict::skip("JSON read as YAML");
    }
    if c.opt("bad") == "cut" && content == "yaml" {
        return Verdict::skip("a part of a YAML file may be a device");
    }
    let good = c.opt("request") == "device-name" && c.opt("bad").is_empty() && format == Some(content);
    if good && o.code != 0 {
        return Verdict::fail(format!("{args:?} fails: {}", o.last()));
    }
    if !good && o.code == 0 {
        return Verdict::fail(format!("{args:?}: exit 0"));
    }
    let want = if good { dev.name.as_str() } else { "" };
    if o.out.trim_end_matches('\n') != want {
        return Verdict::fail(format!("{args:?}: printed {:?} instead of {want:?}", o.out));
    }
    Verdict::ok()
}
pub fn subs(id: &str) -> Option<(&'static str, &'static str, Vec<&'static str>, Vec<Sub>)> {
    Some(match id {
        "C34" => (
            "C34",
            "distinct by content; every case is a patch that fails by a rule added to one that does not",
            vec!["the reference model says that the rules fail; cases it leaves open are skipped and counted"],
            vec![Sub {
                name: "messages",
                gen: Box::new(gen_diag),
                eval: eval_diag,
                quick: 6000,
                thorough: 250_000,
            }],
        ),
        "C35" => (
            "C35",
            "distinct by content and options",
            vec!["the svd-rs serialization writes JSON and YAML correctly"],
            vec![Sub {
                name: "info",
                gen: Box::new(gen_info),
                eval: eval_info,
                quick: 4000,
                thorough: 100_000,
            }],
        ),
        _ => return None,
    })
}
