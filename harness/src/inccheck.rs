//! Checks of whole command runs on trees of rule files: includes, expansion,
//! dependencies, failures, output locations.
use crate::case::*;
use crate::clicheck::{cli, format_config, parse_weak, stale, write, Out};
use crate::gen_patch::{st, PatchOpt};
use crate::gen_svd::DevOpt;
use crate::model::*;
use crate::patchcheck::*;
use crate::runner::*;
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use yaml_rust::yaml::Hash;

// ------------------------------------------------------------ model of loading

#[derive(Debug)]
pub enum L {
    /// loading must fail
    Fail(String),
    /// nothing is said about this input
    Unspec(String),
}

pub fn dir_of(p: &str) -> Vec<&str> {
    let mut v: Vec<&str> = p.split('/').collect();
    v.pop();
    v
}
/// `rel` seen from the file `from`; both below the scratch directory.
fn resolve(files: &BTreeMap<String, String>, from: &str, rel: &str) -> Result<String, L> {
    let dirs: BTreeSet<String> = files
        .keys()
        .flat_map(|f| {
            let d = dir_of(f);
            (0..=d.len()).map(|n| d[..n].join("/")).collect::<Vec<_>>()
        })
        .collect();
    let mut at = dir_of(from);
    let parts: Vec<&str> = rel.split('/').collect();
    if rel.is_empty() || rel.starts_with('/') {
        return Err(L::Unspec("odd include path".into()));
    }
    for p in &parts[..parts.len() - 1] {
        match *p {
            "." | "" => {}
            ".." => {
                if at.pop().is_none() {
                    return Err(L::Unspec("outside".into()));
                }
            }
            p => at.push(p),
        }
        if !dirs.contains(&at.join("/")) {
            return Err(L::Fail(format!("no directory for {rel}")));
        }
    }
    at.push(parts[parts.len() - 1]);
    let p = at.join("/");
    if files.contains_key(&p) {
        Ok(p)
    } else {
        Err(L::Fail(format!("{rel} does not exist")))
    }
}

pub struct Loaded {
    pub rules: Hash,
    /// every file read, in the order of reading
    pub deps: Vec<String>,
}
/// The rules of a file with those of all included files.
pub fn load(files: &BTreeMap<String, String>, path: &str) -> Result<Loaded, L> {
    let text = files.get(path).ok_or(L::Fail("no rule file".into()))?;
    let docs = yaml_rust::YamlLoader::load_from_str(text).map_err(|e| L::Fail(e.to_string()))?;
    match docs.into_iter().next() {
        None => Err(L::Unspec("empty rule file".into())),
        Some(Yaml::Hash(h)) => with_includes(files, path, h, 0),
        Some(_) => Err(L::Fail("not a mapping".into())),
    }
}
fn listed(h: &Hash) -> Result<Vec<String>, L> {
    match h.get(&st("_include")) {
        None => Ok(vec![]),
        Some(Yaml::String(s)) => Ok(vec![s.clone()]),
        Some(Yaml::Array(a)) => a
            .iter()
            .map(|x| match x {
                Yaml::String(s) => Ok(s.clone()),
                _ => Err(L::Unspec("include of something else than a path".into())),
            })
            .collect(),
        Some(_) => Err(L::Unspec("include of something else than paths".into())),
    }
}
fn with_includes(files: &BTreeMap<String, String>, path: &str, h: Hash, depth: usize) -> Result<Loaded, L> {
    if depth > 12 {
        return Err(L::Unspec("includes itself".into()));
    }
    let mut deps = vec![];
    let mut below = vec![];
    let mut rules = Hash::new();
    for (k, v) in &h {
        let Yaml::String(name) = k else {
            return Err(L::Unspec("key is not text".into()));
        };
        match v {
            Yaml::Hash(m) if !name.starts_with('_') && m.contains_key(&st("_include")) => {
                let l = with_includes(files, path, m.clone(), depth + 1)?;
                below.extend(l.deps);
                rules.insert(k.clone(), Yaml::Hash(l.rules));
            }
            _ if name == "_include" || name == "_path" => {}
            _ => {
                rules.insert(k.clone(), v.clone());
            }
        }
    }
    let mut here: Vec<String> = vec![];
    for rel in listed(&h)? {
        let p = resolve(files, path, &rel)?;
        if below.contains(&p) {
            return Err(L::Unspec("one file included at two levels".into()));
        }
        if here.contains(&p) {
            continue;
        }
        here.push(p.clone());
        let docs = yaml_rust::YamlLoader::load_from_str(&files[&p]).map_err(|e| L::Fail(e.to_string()))?;
        match docs.into_iter().next() {
            None => {}
            Some(Yaml::Hash(c)) => {
                let l = with_includes(files, &p, c, depth + 1)?;
                if l.deps.iter().any(|d| below.contains(d)) {
                    return Err(L::Unspec("one file included at two levels".into()));
                }
                here.extend(l.deps);
                merge(&mut rules, &l.rules)?;
            }
            Some(_) => return Err(L::Fail("included file is not a mapping".into())),
        }
    }
    deps.extend(below);
    deps.extend(here);
    Ok(Loaded { rules, deps })
}
/// Add the rules of an included file.
fn merge(into: &mut Hash, from: &Hash) -> Result<(), L> {
    for (k, v) in from {
        if *k == st("_include") || *k == st("_path") {
            continue;
        }
        let Some(mine) = into.get(k).cloned() else {
            into.insert(k.clone(), v.clone());
            continue;
        };
        let new = match (mine, v) {
            (a, b) if a == *b => a,
            (Yaml::Hash(mut a), Yaml::Hash(b)) => {
                merge(&mut a, b)?;
                Yaml::Hash(a)
            }
            (Yaml::Hash(_), _) => return Err(L::Unspec("a mapping and something else".into())),
            (Yaml::Array(mut a), Yaml::Array(b)) => {
                a.extend(b.iter().cloned());
                Yaml::Array(a)
            }
            (Yaml::Array(mut a), b @ Yaml::String(_)) => {
                if !a.contains(b) {
                    a.push(b.clone());
                }
                Yaml::Array(a)
            }
            (a @ Yaml::String(_), Yaml::Array(b)) => {
                let mut l = vec![a.clone()];
                l.extend(b.iter().filter(|x| **x != a).cloned());
                Yaml::Array(l)
            }
            (a, _) => a,
        };
        *into.get_mut(k).unwrap() = new;
    }
    Ok(())
}
/// Without the tool's own bookkeeping.
pub fn no_paths(y: &Yaml) -> Yaml {
    match y {
        Yaml::Hash(h) => {
            let mut n = Hash::new();
            for (k, v) in h {
                if *k != st("_path") {
                    n.insert(k.clone(), no_paths(v));
                }
            }
            Yaml::Hash(n)
        }
        Yaml::Array(a) => Yaml::Array(a.iter().map(no_paths).collect()),
        y => y.clone(),
    }
}
fn has_key(y: &Yaml, key: &str) -> bool {
    match y {
        Yaml::Hash(h) => h.iter().any(|(k, v)| *k == st(key) || has_key(v, key)),
        Yaml::Array(a) => a.iter().any(|y| has_key(y, key)),
        _ => false,
    }
}
pub fn yaml_diff(want: &Yaml, got: &Yaml, at: &str) -> Option<String> {
    match (want, got) {
        (Yaml::Hash(a), Yaml::Hash(b)) => {
            for (k, v) in a {
                let n = format!("{at}.{}", emit_yaml(k).trim());
                match b.get(k) {
                    None => return Some(format!("{n} is lost")),
                    Some(w) => {
                        if let Some(d) = yaml_diff(v, w, &n) {
                            return Some(d);
                        }
                    }
                }
            }
            if let Some(k) = b.keys().find(|k| !a.contains_key(k)) {
                return Some(format!("{at}.{} appears", emit_yaml(k).trim()));
            }
            // sections apply in file order
            let secs = |h: &Hash| -> Vec<Yaml> { h.iter().filter(|(_, v)| v.as_hash().is_some()).map(|(k, _)| k.clone()).collect() };
            let (ka, kb) = (secs(a), secs(b));
            (ka != kb).then(|| format!("{at}: keys {ka:?} are ordered {kb:?}"))
        }
        (a, b) if a == b => None,
        (a, b) => Some(format!("{at} is {} instead of {}", emit_yaml(b).trim(), emit_yaml(a).trim())),
    }
}

// ------------------------------------------------------------ trees of rule files

const DIRS: &[&str] = &["rules", "rules/sub", "rules/sub/deep", "common", "common/v2", ""];
pub fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() {
        name.into()
    } else {
        format!("{dir}/{name}")
    }
}
fn relative(s: &mut Src, from: &str, to: &str) -> String {
    let a = dir_of(from);
    let b: Vec<&str> = to.split('/').collect();
    let mut n = 0;
    while n < a.len() && n + 1 < b.len() && a[n] == b[n] {
        n += 1;
    }
    let mut p: Vec<&str> = vec![".."; a.len() - n];
    p.extend(&b[n..]);
    let p = p.join("/");
    match s.below(12) {
        0 => format!("./{p}"),
        1 if !a.is_empty() => format!("../{}/{p}", a[a.len() - 1]),
        2 if p.starts_with("../") => format!("./{p}"),
        _ => p,
    }
}
fn put_include(s: &mut Src, h: &mut Hash, rel: String) {
    match h.get_mut(&st("_include")) {
        Some(Yaml::Array(a)) => {
            a.push(Yaml::String(rel));
            return;
        }
        Some(x @ Yaml::String(_)) => {
            let one = x.clone();
            *x = Yaml::Array(vec![one, Yaml::String(rel)]);
            return;
        }
        _ => {}
    }
    let v = if s.chance(50) {
        Yaml::String(rel)
    } else {
        Yaml::Array(vec![Yaml::String(rel)])
    };
    if s.chance(50) {
        h.insert(st("_include"), v);
    } else {
        let old = std::mem::take(h);
        h.insert(st("_include"), v);
        for (k, v) in old {
            h.insert(k, v);
        }
    }
}
struct Tree {
    paths: Vec<String>,
    files: Vec<Hash>,
}
impl Tree {
    fn new(main: Hash, path: &str) -> Self {
        Tree {
            paths: vec![path.into()],
            files: vec![main],
        }
    }
    fn add(&mut self, s: &mut Src, h: Hash) -> usize {
        let n = self.files.len();
        let mut name = format!("f{n}.{}", s.pick(&["yaml", "yml"]));
        let d = *s.pick(DIRS);
        if s.chance(35) {
            // the same name in several directories
            let shared = s.s(&["common.yaml", "main.yaml", "f.yml"]);
            if !self.paths.contains(&join(d, &shared)) {
                name = shared;
            }
        }
        self.paths.push(join(d, &name));
        self.files.push(h);
        n
    }
    fn rel(&self, s: &mut Src, from: usize, to: usize) -> String {
        relative(s, &self.paths[from], &self.paths[to])
    }
    fn out(&self) -> Vec<(String, String)> {
        self.paths
            .iter()
            .zip(&self.files)
            .map(|(p, h)| (p.clone(), if h.is_empty() { "{}\n".into() } else { emit_yaml(&Yaml::Hash(h.clone())) }))
            .collect()
    }
}

fn value(s: &mut Src, depth: usize) -> Yaml {
    let txt = |s: &mut Src| {
        st(&s.s(&[
            "a", "b", "ARR*", "TIM[12]?", "?~CR1", "0x10", "10", "true", "no", "~", "", "two words", "a: b", "# x", "{x,y}", "- q", "x\ny", "µ", "'", "\"", "&a", "*", "!t", "%", "@", "`p`",
            "1.0", "1e3", "null", "0b11", "lead ", " trail", "a,b", "a #b", "yes", "0o7",
        ]))
    };
    match s.below(if depth > 2 { 6 } else { 9 }) {
        0 | 1 => txt(s),
        2 => Yaml::Integer(s.below(4) as i64),
        3 => Yaml::Boolean(s.chance(50)),
        4 | 5 => {
            let n = s.below(4);
            Yaml::Array(
                (0..n)
                    .map(|_| {
                        if s.chance(70) {
                            txt(s)
                        } else if s.chance(50) {
                            Yaml::Integer(s.below(3) as i64 - 1)
                        } else {
                            mapping(s, depth + 2)
                        }
                    })
                    .collect(),
            )
        }
        _ => mapping(s, depth + 1),
    }
}
fn mapping(s: &mut Src, depth: usize) -> Yaml {
    let mut h = Hash::new();
    for _ in 0..s.below(4) {
        let k = if depth > 0 && s.chance(8) {
            Yaml::Integer(s.below(3) as i64)
        } else {
            st(&s.s(&["A", "B", "C", "_d", "_e", "TIM*", "?~x", "f g", "A", "B", "{A,B}", "*", "[AB]?"]))
        };
        let v = value(s, depth);
        h.insert(k, v);
    }
    Yaml::Hash(h)
}

/// A tree of files with arbitrary small contents.
fn gen_tree(s: &mut Src) -> Option<Gen> {
    let top = |s: &mut Src| match mapping(s, 0) {
        Yaml::Hash(mut h) => {
            if s.chance(60) {
                // more of the same keys
                if let Yaml::Hash(m) = mapping(s, 0) {
                    for (k, v) in m {
                        h.insert(k, v);
                    }
                }
            }
            h
        }
        _ => unreachable!(),
    };
    let h = top(s);
    let mut t = Tree::new(h, if s.chance(80) { "rules/main.yaml" } else { "main.yaml" });
    // the level of a file: 0 included at top level, 1 inside a section, 2 inside a section of such a file
    let mut level = vec![0];
    let n = s.below(7);
    for _ in 0..n {
        let h = top(s);
        let me = t.add(s, h);
        let from = s.below(me);
        // section levels grow downwards
        let lv = if level[from] < 2 && s.chance(35) { level[from] + 1 } else { level[from] };
        level.push(lv);
        let rel = t.rel(s, from, me);
        if lv == level[from] {
            put_include(s, &mut t.files[from], rel);
        } else {
            in_section(s, &mut t.files[from], rel);
        }
        // shared by another file
        if me > 1 && s.chance(25) {
            let other = s.below(me);
            let rel = t.rel(s, other, me);
            if level[other] == lv {
                put_include(s, &mut t.files[other], rel);
            } else if level[other] + 1 == lv {
                in_section(s, &mut t.files[other], rel);
            }
        }
    }
    let missing = s.chance(7);
    if missing {
        let i = s.below(t.files.len());
        let rel = s.s(&["nothere.yaml", "../no.yaml", "nodir/x.yaml", "f0.yaml"]);
        if s.chance(70) {
            put_include(s, &mut t.files[i], rel);
        } else {
            in_section(s, &mut t.files[i], rel);
        }
    }
    if s.chance(10) {
        // not a section: the key stays what it is
        let i = s.below(t.files.len());
        let rel = if s.chance(50) { t.rel(s, i, 0) } else { s.s(&["nothere.yaml", "f1.yaml"]) };
        let k = st(&s.s(&["_d", "_modify", "_add", "_"]));
        if !t.files[i].contains_key(&k) {
            let mut m = Hash::new();
            put_include(s, &mut m, rel);
            t.files[i].insert(k, Yaml::Hash(m));
        }
    }
    let mut c = Case {
        yaml: t.out(),
        ..Default::default()
    };
    if s.chance(10) && c.yaml.len() > 1 {
        let i = s.range(1, c.yaml.len() - 1);
        c.yaml[i].1 = s.s(&["", "# nothing\n", "\n\n"]);
    }
    let overlap = {
        let mut seen = BTreeSet::new();
        t.files.iter().flat_map(|h| h.keys()).any(|k| *k != st("_include") && !seen.insert(k.clone()))
    };
    c.set("out", s.s(&["deps.d", "out/deps.d", "rules/x.d"]));
    c.set("at", s.s(&["root", "root", "rules", "abs"]));
    let mut tags = vec![format!("{} files", t.files.len())];
    if missing {
        tags.push("missing file".into());
    }
    Some(Gen {
        nontrivial: t.files.len() > 1 && overlap,
        case: c,
        tags,
    })
}
fn in_section(s: &mut Src, h: &mut Hash, rel: String) {
    let k = st(&s.s(&["A", "B", "C", "TIM*", "A", "B", "{A,B}", "[AB]?", "*", "A,B", "?~x", "?A", "a b"]));
    if !matches!(h.get(&k), Some(Yaml::Hash(_))) {
        h.insert(k.clone(), Yaml::Hash(Hash::new()));
    }
    if let Some(Yaml::Hash(m)) = h.get_mut(&k) {
        put_include(s, m, rel);
    }
}

/// Spread the rules of a document over several files.
fn spread(s: &mut Src, h: &Hash, n: usize, depth: usize) -> Vec<Hash> {
    let mut out = vec![Hash::new(); n];
    for (k, v) in h {
        match v {
            Yaml::Hash(m) if depth < 4 && m.len() > 1 && s.chance(55) => {
                for (i, p) in spread(s, m, n, depth + 1).into_iter().enumerate() {
                    if !p.is_empty() || s.chance(5) {
                        out[i].insert(k.clone(), Yaml::Hash(p));
                    }
                }
            }
            Yaml::Array(a) if a.len() > 1 && s.chance(40) => {
                let cut = s.range(1, a.len() - 1);
                let (i, j) = (s.below(n), s.below(n));
                if i == j {
                    out[i].insert(k.clone(), v.clone());
                } else {
                    out[i].insert(k.clone(), Yaml::Array(a[..cut].to_vec()));
                    let rest = &a[cut..];
                    let one = rest.len() == 1 && matches!(rest[0], Yaml::String(_)) && s.chance(50);
                    out[j].insert(k.clone(), if one { rest[0].clone() } else { Yaml::Array(rest.to_vec()) });
                }
            }
            v => {
                let i = s.below(n);
                out[i].insert(k.clone(), v.clone());
                if s.chance(12) {
                    let j = s.below(n);
                    let other = match v {
                        v if s.chance(40) => v.clone(),
                        Yaml::String(t) => Yaml::String(s.s(&["other", "read-only", "CR1", &format!("{t}x")])),
                        Yaml::Integer(i) => Yaml::Integer(i.wrapping_add(1)),
                        Yaml::Boolean(b) => Yaml::Boolean(!b),
                        v => v.clone(),
                    };
                    if i != j {
                        out[j].insert(k.clone(), other);
                    }
                }
            }
        }
    }
    out
}
/// A rule document for a device, spread over a tree of files.
pub fn gen_spread(s: &mut Src, po: &PatchOpt, o: &DevOpt) -> Option<Gen> {
    let g = gen_case(s, po, o)?;
    let Ok(Yaml::Hash(doc)) = parse_yaml(&g.case.yaml[0].1) else {
        return None;
    };
    let n = *s.pick(&[1, 2, 2, 3, 3, 4, 5]);
    let parts = spread(s, &doc, n, 0);
    let mut parts = parts.into_iter();
    let mut t = Tree::new(parts.next().unwrap(), if s.chance(80) { "rules/main.yaml" } else { "main.yaml" });
    let mut lists: Vec<usize> = vec![0];
    for h in parts {
        let me = t.add(s, h);
        let from = *s.pick(&lists);
        let rel = t.rel(s, from, me);
        put_include(s, &mut t.files[from], rel);
        if lists.len() > 1 && s.chance(12) {
            let from = *s.pick(&lists);
            let rel = t.rel(s, from, me);
            put_include(s, &mut t.files[from], rel);
        }
        lists.push(me);
    }
    // parts of sections in files of their own
    for i in lists {
        let keys: Vec<Yaml> = t.files[i]
            .iter()
            .filter(|(k, v)| k.as_str().is_some_and(|k| !k.starts_with('_')) && v.as_hash().is_some())
            .map(|(k, _)| k.clone())
            .collect();
        for k in keys {
            if !s.chance(35) {
                continue;
            }
            let m = t.files[i][&k].as_hash().unwrap().clone();
            let mut p = spread(s, &m, 2, 2);
            let there = p.pop().unwrap();
            let mut here = p.pop().unwrap();
            let me = t.add(s, there);
            let rel = t.rel(s, i, me);
            put_include(s, &mut here, rel);
            *t.files[i].get_mut(&k).unwrap() = Yaml::Hash(here);
        }
    }
    let mut c = g.case;
    c.yaml = t.out();
    let nontrivial = c.yaml.len() > 1 && g.nontrivial;
    Some(Gen {
        case: c,
        nontrivial,
        tags: g.tags.into_iter().filter(|t| t.starts_with("patch")).collect(),
    })
}

pub fn file_map(c: &Case) -> BTreeMap<String, String> {
    c.yaml.iter().cloned().collect()
}
pub fn place_files(c: &Case) -> PathBuf {
    let dir = scratch();
    for (n, t) in &c.yaml {
        write(&dir, n, t);
    }
    let base = dir_of(&c.yaml[0].0).join("/");
    for (n, x) in c.svd.iter().skip(1) {
        write(&dir, &join(&base, n), x);
    }
    dir
}
fn tool_load(p: &Path) -> Result<Yaml, String> {
    match catch_unwind(AssertUnwindSafe(|| svdtools::patch::load_patch(p))) {
        Ok(Ok(y)) => Ok(y),
        Ok(Err(e)) => Err(format!("{e:#}")),
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}

// ------------------------------------------------------------------ C05

fn eval_merge(c: &Case) -> Verdict {
    if c.yaml.is_empty() {
        return Verdict::skip("no file");
    }
    let want = match load(&file_map(c), &c.yaml[0].0) {
        Err(L::Unspec(u)) => return Verdict::skip(u),
        Err(L::Fail(f)) => Err(f),
        Ok(l) => Ok(Yaml::Hash(l.rules)),
    };
    let dir = place_files(c);
    let got = tool_load(&dir.join(&c.yaml[0].0));
    match (want, got) {
        (Err(_), Err(_)) => Verdict::ok(),
        (Err(f), Ok(_)) => Verdict::fail(format!("loaded although {f}")),
        (Ok(_), Err(e)) => Verdict::fail(format!("not loaded: {e}")),
        (Ok(w), Ok(g)) => match yaml_diff(&w, &no_paths(&g), "") {
            None => Verdict::ok(),
            Some(d) => Verdict::fail(d),
        },
    }
}
fn eval_spread(c: &Case) -> Verdict {
    let rules = match load(&file_map(c), &c.yaml[0].0) {
        Err(L::Unspec(u)) => return Verdict::skip(u),
        Err(L::Fail(f)) => return Verdict::skip(f),
        Ok(l) => Yaml::Hash(l.rules),
    };
    let want = match expected(c, &rules) {
        Err(E::Unspec(w)) => return Verdict::skip(w),
        Err(E::Err(e)) => Err(e),
        Ok(x) => Ok(x),
    };
    let dir = place_files(c);
    let doc = match tool_load(&dir.join(&c.yaml[0].0)) {
        Ok(d) => d,
        Err(e) => return Verdict::fail(format!("not loaded: {e}")),
    };
    if let Some(d) = yaml_diff(&rules, &no_paths(&doc), "") {
        return Verdict::fail(d);
    }
    match (want, implementation(&c.svd[0].1, &doc, c.opt("derive"))) {
        (Ok(w), Ok(g)) => match compare(&w, &g) {
            None => Verdict::ok(),
            Some(d) => Verdict::fail(format!("result differs: {d}")),
        },
        (Ok(_), Err(e)) => Verdict::fail(format!("rejected although the rules apply: {e}")),
        (Err(e), Ok(_)) => Verdict::fail(format!("accepted although: {e}")),
        (Err(_), Err(_)) => Verdict::ok(),
    }
}

// ------------------------------------------------------------------ C06

pub fn derive_arg(c: &Case) -> Vec<String> {
    match c.opt("derive") {
        "" => vec![],
        d => vec!["--enum-derive".into(), d.into()],
    }
}
fn eval_expanded(c: &Case) -> Verdict {
    let rules = match load(&file_map(c), &c.yaml[0].0) {
        Err(L::Unspec(u)) => return Verdict::skip(u),
        Err(L::Fail(f)) => Err(f),
        Ok(l) => Ok(l.rules),
    };
    let dir = place_files(c);
    let main = c.yaml[0].0.clone();
    let base = dir_of(&main).join("/");
    let ex = join(&base, "expanded.yaml");
    stale(c, &dir, &ex);
    include_decoys(c, &dir, &dir);
    let o = cli(&dir, &["expand-patch", &main, &ex]);
    let rules = match rules {
        Err(f) => {
            return if o.code == 0 {
                Verdict::fail(format!("expanded although {f}"))
            } else {
                Verdict::ok()
            }
        }
        Ok(r) => Yaml::Hash(r),
    };
    if o.code != 0 {
        return Verdict::fail(format!("expand-patch fails: {}", o.last()));
    }
    let text = std::fs::read_to_string(dir.join(&ex)).unwrap_or_default();
    let doc = match parse_yaml(&text) {
        Ok(d) => d,
        Err(e) => return Verdict::fail(format!("the expanded rules are not YAML: {e}")),
    };
    let loaded = matches!(&doc, Yaml::Hash(h) if h.contains_key(&st("_include")))
        || matches!(&doc, Yaml::Hash(h) if h.iter().any(|(k, v)| k.as_str().is_some_and(|k| !k.starts_with('_')) && v.as_hash().is_some_and(|h| h.contains_key(&st("_include")))));
    if loaded {
        return Verdict::fail("the expanded rules still include files");
    }
    if let Some(d) = yaml_diff(&rules, &no_paths(&doc), "") {
        if yaml_diff(&octal(&rules), &no_paths(&doc), "").is_none() {
            return Verdict {
                known: vec!["C06-octal".into()],
                ..Verdict::ok()
            };
        }
        return Verdict::fail(format!("expanded rules: {d}"));
    }
    // printed instead of written
    if c.opt("stdout") == "1" {
        let o = cli(&dir, &["expand-patch", &main]);
        match (o.code, printed(&o.out)) {
            (0, Ok(d)) if yaml_diff(&doc, &d, "").is_none() => {}
            (code, r) => return Verdict::fail(format!("printed rules differ from the written ones ({code}, {})", r.err().unwrap_or_default())),
        }
    }
    let again = join(&base, "again.yaml");
    stale(c, &dir, &again);
    let o = cli(&dir, &["expand-patch", &ex, &again]);
    let doc2 = parse_yaml(&std::fs::read_to_string(dir.join(&again)).unwrap_or_default());
    match doc2 {
        Ok(d) if o.code == 0 => {
            if let Some(d) = yaml_diff(&rules, &no_paths(&d), "") {
                return Verdict::fail(format!("expanding again: {d}"));
            }
        }
        _ => return Verdict::fail(format!("expanding again fails: {}", o.last())),
    }
    if c.svd.is_empty() {
        return Verdict::ok();
    }
    write(&dir, &join(&base, "device.svd"), &c.svd[0].1);
    let run = |y: &str, out: &str| -> (Out, Option<String>) {
        let mut a = vec!["patch".to_string(), y.into(), out.into()];
        a.extend(derive_arg(c));
        let o = cli(&dir, &a);
        (o, std::fs::read_to_string(dir.join(out)).ok())
    };
    let (o1, t1) = run(&main, "a.svd");
    let (o2, t2) = run(&ex, "b.svd");
    if (o1.code == 0) != (o2.code == 0) {
        return Verdict::fail(format!(
            "the original {}, the expanded rules {}: {}",
            if o1.code == 0 { "is accepted" } else { "is rejected" },
            if o2.code == 0 { "are accepted" } else { "are rejected" },
            if o1.code == 0 { o2.last() } else { o1.last() }
        ));
    }
    if t1 != t2 {
        return Verdict::fail(format!("patched files differ: {}", first_diff(&t1.unwrap_or_default(), &t2.unwrap_or_default())));
    }
    if o1.code == 0 && t1.is_none() {
        return Verdict::fail("no output");
    }
    Verdict::ok().nontrivial(o1.code == 0 && c.yaml.len() > 1)
}
/// What the known loss makes of a document: texts like `0o7` become numbers.
pub fn octal(y: &Yaml) -> Yaml {
    match y {
        Yaml::String(t) => match t.strip_prefix("0o").and_then(|t| i64::from_str_radix(t, 8).ok()) {
            Some(n) => Yaml::Integer(n),
            None => y.clone(),
        },
        Yaml::Array(a) => Yaml::Array(a.iter().map(octal).collect()),
        Yaml::Hash(h) => {
            let mut n = Hash::new();
            for (k, v) in h {
                n.insert(octal(k), octal(v));
            }
            Yaml::Hash(n)
        }
        y => y.clone(),
    }
}
/// The document among what expand-patch prints (messages about rules come first).
fn printed(out: &str) -> Result<Yaml, String> {
    let at = if out.starts_with("---") { 0 } else { out.find("\n---\n").map(|i| i + 1).ok_or("no document")? };
    parse_yaml(&out[at..])
}

// ------------------------------------------------------------------ C07

fn eval_deps(c: &Case) -> Verdict {
    if c.yaml.is_empty() {
        return Verdict::skip("no file");
    }
    let want = match load(&file_map(c), &c.yaml[0].0) {
        Err(L::Unspec(u)) => return Verdict::skip(u),
        Err(L::Fail(f)) => Err(f),
        Ok(l) => Ok(l.deps),
    };
    let dir = place_files(c);
    let main = &c.yaml[0].0;
    let out = c.opt("out");
    std::fs::create_dir_all(dir.join("out")).unwrap();
    std::fs::create_dir_all(dir.join("rules")).unwrap();
    let (cwd, a, b) = seen_from(&dir, c.opt("at"), main, out);
    let old = stale(c, &dir, out);
    include_decoys(c, &dir, &cwd);
    let o = cli(&cwd, &["makedeps", &a, &b]);
    let text = std::fs::read_to_string(dir.join(out)).ok();
    match want {
        Err(f) => {
            if o.code == 0 {
                Verdict::fail(format!("makedeps succeeds although {f}"))
            } else if text.is_some() && !old {
                Verdict::fail("makedeps fails but writes the dependencies")
            } else {
                Verdict::ok()
            }
        }
        Ok(deps) => {
            let Some(text) = text.filter(|_| o.code == 0) else {
                return Verdict::fail(format!("makedeps fails: {}", o.last()));
            };
            let Some(rest) = text.strip_prefix(&format!("{b}:")) else {
                return Verdict::fail(format!("target of {text:?} is not {b}"));
            };
            let want: BTreeSet<String> = deps.iter().map(|d| dir.join(d).display().to_string()).collect();
            let got: BTreeSet<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
            if rest.trim_end_matches('\n').contains('\n') {
                return Verdict::fail("more than one line");
            }
            if let Some(d) = want.difference(&got).next() {
                return Verdict::fail(format!("{d} is not listed"));
            }
            if let Some(d) = got.difference(&want).next() {
                return Verdict::fail(format!("{d} is listed but not included"));
            }
            Verdict::ok().nontrivial(want.len() > 1)
        }
    }
}
/// Working directory and the paths as given on the command line.
fn seen_from(dir: &Path, at: &str, a: &str, b: &str) -> (PathBuf, String, String) {
    match at {
        "rules" => {
            let rel = |p: &str| match p.strip_prefix("rules/") {
                Some(p) => p.to_string(),
                None => format!("../{p}"),
            };
            std::fs::create_dir_all(dir.join("rules")).unwrap();
            (dir.join("rules"), rel(a), rel(b))
        }
        "abs" => {
            let p = |p: &str| dir.join(p).display().to_string();
            (dir.to_path_buf(), p(a), p(b))
        }
        _ => (dir.to_path_buf(), a.into(), b.into()),
    }
}

/// Other files at the places where the given relative paths lead from the current directory
/// `cwd` of the tool (which are relative to the file that names them). Only where nothing is
/// and where none of `used` (paths below `dir`) is expected.
pub fn decoys(dir: &Path, cwd: &Path, rels: &[String], used: &BTreeSet<String>, text: &str) {
    let root = dir.canonicalize().unwrap();
    for r in rels {
        let p = cwd.join(r);
        let (Some(d), Some(n)) = (p.parent().and_then(|d| d.canonicalize().ok()), p.file_name()) else {
            continue;
        };
        let Ok(at) = d.strip_prefix(&root) else { continue };
        let name = at.join(n).display().to_string();
        if !root.join(&name).exists() && !used.contains(&name) {
            std::fs::write(root.join(&name), text).unwrap();
        }
    }
}
/// `rel` as seen from the file `from`, by text alone.
fn lexical(from: &str, rel: &str) -> String {
    let mut at = dir_of(from);
    for p in rel.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                at.pop();
            }
            p => at.push(p),
        }
    }
    at.join("/")
}
/// Decoys for everything that any of the rule files includes.
fn include_decoys(c: &Case, dir: &Path, cwd: &Path) {
    fn go(y: &Yaml, out: &mut Vec<String>) {
        match y {
            Yaml::Hash(h) => {
                for (k, v) in h {
                    match (k.as_str(), v) {
                        (Some("_include"), Yaml::String(s)) => out.push(s.clone()),
                        (Some("_include"), Yaml::Array(a)) => out.extend(a.iter().filter_map(|s| s.as_str().map(String::from))),
                        _ => go(v, out),
                    }
                }
            }
            Yaml::Array(a) => a.iter().for_each(|y| go(y, out)),
            _ => {}
        }
    }
    let mut rels = vec![];
    let mut used = BTreeSet::new();
    for (n, t) in &c.yaml {
        let at = rels.len();
        if let Ok(y) = parse_yaml(t) {
            go(&y, &mut rels);
        }
        used.extend(rels[at..].iter().map(|r| lexical(n, r)));
    }
    decoys(dir, cwd, &rels, &used, DECOY_YAML);
}

// ------------------------------------------------------------------ C32

fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(d: &Path, root: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                go(&p, root, out);
            } else {
                out.insert(p.strip_prefix(root).unwrap().display().to_string(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, dir, &mut out);
    out
}
fn config_pairs(name: &str, text: &str) -> BTreeMap<String, String> {
    if name.ends_with("json") || name.ends_with("JSON") {
        serde_json::from_str(text).unwrap_or_default()
    } else {
        serde_yaml::from_str(text).unwrap_or_default()
    }
}
fn gen_place(s: &mut Src) -> Option<Gen> {
    let po = PatchOpt {
        keep_err: 10,
        rules: (0, 4),
        others: true,
        ..Default::default()
    };
    let o = DevOpt {
        regs: (1, 4),
        periphs: (1, 3),
        odd_text: 6,
        ..Default::default()
    };
    let mut g = gen_case(s, &po, &o)?;
    let c = &mut g.case;
    let yaml = s.s(&["rules/main.yaml", "main.yaml", "rules/sub/main.yml", "rules/main.yaml"]);
    let svd = s.s(&["svd/dev.svd", "dev.svd", "rules/dev.svd", "svd/v2/dev.xml", "svd/chip.v1.svd", "svd/dev"]);
    let rel = relative(s, &yaml, &svd);
    c.yaml[0].0 = yaml;
    c.set("svd", &svd);
    c.set("rel", rel);
    c.set("at", s.s(&["root", "root", "rules", "abs"]));
    c.set("out", s.s(&["", "", "out.svd", "out/x.svd", "rules/y.svd", "svd/o.svd", "out/no-ext"]));
    if s.chance(45) {
        let yaml = s.chance(50);
        let text = format_config(s, yaml);
        let name = if yaml { s.s(&["fmt.yaml", "fmt.yml", "rules/fmt.YAML"]) } else { s.s(&["fmt.json", "rules/fmt.JSON"]) };
        c.yaml.push((name, text));
    }
    if s.chance(40) {
        c.set("post", 1);
    }
    if s.chance(25) {
        c.set("show", 1);
    }
    if c.opt("derive") == "enum" && s.chance(50) {
        c.set("derive", "");
    }
    if s.chance(20) {
        c.set("again", 1);
    }
    Some(g)
}
/// A register whose fields are all gone has an empty list of fields in memory, which the strict
/// validation rejects, although the encoder leaves it out; nothing is said about such results.
const EMPTY_LIST: &str = "have `fields` tag, but it is empty";
fn strictly_valid(xml: &str) -> Result<bool, String> {
    Ok(parse_svd(xml)?.validate_all(ValidateLevel::Strict).is_ok())
}
fn eval_place(c: &Case) -> Verdict {
    let Ok(Yaml::Hash(mut doc)) = parse_yaml(&c.yaml[0].1) else {
        return Verdict::skip("not a mapping");
    };
    let want = match expected(c, &Yaml::Hash(doc.clone())) {
        Err(E::Unspec(w)) => return Verdict::skip(w),
        Err(E::Err(e)) => Err(e),
        Ok(x) => Ok(x),
    };
    let want = match want {
        Ok(x) if c.opt("post") == "1" => match strictly_valid(&x) {
            Ok(true) => Ok(x),
            Ok(false) => Err("the result breaks the SVD rules".into()),
            Err(_) => return Verdict::skip("result is not readable"),
        },
        w => w,
    };
    let dir = scratch();
    doc.insert(st("_svd"), st(c.opt("rel")));
    let main = &c.yaml[0].0;
    write(&dir, main, &emit_yaml(&Yaml::Hash(doc)));
    write(&dir, c.opt("svd"), &c.svd[0].1);
    for d in ["out", "rules", "svd"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    let base = dir_of(main).join("/");
    for (n, x) in c.svd.iter().skip(1) {
        write(&dir, &join(&base, n), x);
    }
    let mut args = vec!["patch".to_string()];
    let out = match c.opt("out") {
        "" => format!("{}.patched", c.opt("svd")),
        o => o.to_string(),
    };
    let (cwd, a, b) = seen_from(&dir, c.opt("at"), main, &out);
    args.push(a);
    if !c.opt("out").is_empty() {
        args.push(b);
    }
    let cfg = c.yaml.get(1);
    if let Some((n, t)) = cfg {
        write(&dir, n, t);
        let (_, n, _) = seen_from(&dir, c.opt("at"), n, n);
        args.extend(["--format-config".to_string(), n]);
    }
    if c.opt("post") == "1" {
        args.push("--post-validate".into());
    }
    if c.opt("show") == "1" {
        args.push("--show-patch-on-error".into());
    }
    args.extend(derive_arg(c));
    let old = stale(c, &dir, &out);
    let rels: Vec<String> = std::iter::once(c.opt("rel").to_string()).chain(c.svd.iter().skip(1).map(|(n, _)| n.clone())).collect();
    decoys(&dir, &cwd, &rels, &BTreeSet::from([out.clone()]), DECOY_SVD);
    let before = snapshot(&dir);
    let mut o = cli(&cwd, &args);
    if c.opt("again") == "1" && o.code == 0 {
        o = cli(&cwd, &args);
    }
    let mut after = snapshot(&dir);
    let made = after.remove(&out);
    if let Some(f) = before.iter().find(|(n, t)| **n != out && after.get(*n) != Some(t)) {
        return Verdict::fail(format!("{args:?} changed or removed {}", f.0));
    }
    if let Some(f) = after.keys().find(|n| !before.contains_key(*n)) {
        return Verdict::fail(format!("{args:?} made {f}"));
    }
    let want = match want {
        Err(e) => {
            return if o.code == 0 {
                Verdict::fail(format!("{args:?} succeeds although {e}"))
            } else if made.is_some() != old || old && made.as_ref() != before.get(&out) {
                Verdict::fail(format!("{args:?} fails but writes or removes {out}"))
            } else {
                Verdict::ok()
            }
        }
        Ok(w) => w,
    };
    if o.code != 0 {
        if c.opt("post") == "1" && o.err.contains(EMPTY_LIST) {
            return Verdict::skip("register left with an empty list of fields");
        }
        return Verdict::fail(format!("{args:?} fails: {}", o.last()));
    }
    let Some(made) = made else {
        return Verdict::fail(format!("{args:?} does not write {out}"));
    };
    let made = String::from_utf8_lossy(&made).into_owned();
    if let Some(d) = compare(&want, &made) {
        return Verdict::fail(format!("{args:?}: {d}"));
    }
    // the configured notation, wherever the default output is the expected text
    if let Some((n, t)) = cfg {
        let same = matches!(implementation(&c.svd[0].1, &place(c, &parse_yaml(&c.yaml[0].1).unwrap()), c.opt("derive")), Ok(g) if g == want);
        if let (true, Ok(d)) = (same, parse_svd(&want)) {
            if encode_svd(&d).as_ref() == Ok(&want) {
                let mut conf = svd_encoder::Config::default();
                for (k, v) in config_pairs(n, t) {
                    conf.update(&k, &v);
                }
                if let Ok(w) = svd_encoder::encode_with_config(&d, &conf) {
                    if w != made {
                        return Verdict::fail(format!("{args:?}: notation: {}", first_diff(&w, &made)));
                    }
                }
            }
        }
    }
    Verdict::ok()
}

// ------------------------------------------------------------------ C04

const BAD_YAML: &[&str] = &["a: [1, 2\n", "a: b: c\n", "\"open\n", "a: {b\n", "a:\n\t- b\n", "- a\nb: c\n"];

fn gen_fault(s: &mut Src) -> Option<Gen> {
    let cmd = *s.pick(&["patch", "patch", "expand-patch", "makedeps", "convert"]);
    let po = PatchOpt {
        keep_err: 30,
        rules: (0, 4),
        ..Default::default()
    };
    let o = DevOpt {
        regs: (1, 4),
        periphs: (1, 2),
        ..Default::default()
    };
    let mut g = gen_spread(s, &po, &o)?;
    let c = &mut g.case;
    c.set("cmd", cmd);
    let faults: &[&str] = match cmd {
        "convert" => &["in-missing", "in-cut", "in-cut", "in-flip", "in-format", "out-format", "cfg-missing", "cfg-bad", "cfg-ext", "cfg-value", "out-nodir", "out-isdir", "out-full"],
        "patch" => &[
            "yaml-missing", "yaml-bad", "yaml-cut", "yaml-list", "inc-missing", "inc-bad", "inc-list", "inc-add", "svd-missing", "svd-cut", "svd-cut", "svd-flip", "svd-nokey", "rule", "rule", "validate", "cfg-missing",
            "cfg-bad", "cfg-ext", "cfg-value", "out-nodir", "out-isdir", "out-full",
        ],
        _ => &["yaml-missing", "yaml-bad", "yaml-cut", "yaml-list", "inc-missing", "inc-bad", "inc-list", "inc-add", "out-nodir", "out-isdir", "out-full"],
    };
    let fault = if s.chance(25) { "none" } else { *s.pick(faults) };
    c.set("fault", fault);
    c.set("n", s.u64() % 1_000_000);
    c.set("old", s.s(&["absent", "short", "long", "long", "empty"]));
    c.set("ext", s.s(&["svd", "json", "yaml"]));
    c.set("inext", s.s(&["svd", "svd", "json"]));
    c.set("inplace", if s.chance(10) { "1" } else { "0" });
    c.set("cfg", if s.chance(25) || fault.starts_with("cfg") { s.s(&["yaml", "json"]) } else { String::new() });
    g.tags = vec![format!("{cmd} {fault}")];
    g.nontrivial = fault != "none";
    Some(g)
}
fn eval_fault(c: &Case) -> Verdict {
    let cmd = c.opt("cmd");
    let n: usize = c.opt("n").parse().unwrap_or(0);
    let (fault, mut must_fail) = (c.opt("fault"), false);
    let mut args: Vec<String> = vec![cmd.into()];
    let mut files = file_map(c);
    let main = c.yaml[0].0.clone();
    let base = dir_of(&main).join("/");
    let mut svd = Some(c.svd[0].1.clone());
    let svd_path = join(&base, "device.svd");
    // what can be said about the run when nothing is broken
    let mut fails: Option<bool> = None;
    let mut want: Option<String> = None;
    let reach = match load(&files, &main) {
        Err(L::Fail(_)) => {
            fails = Some(true);
            vec![]
        }
        Err(L::Unspec(u)) => return Verdict::skip(u),
        Ok(l) => {
            if cmd == "patch" {
                match expected(c, &Yaml::Hash(l.rules)) {
                    Err(E::Unspec(_)) => {}
                    Err(E::Err(_)) => fails = Some(true),
                    Ok(x) => {
                        fails = Some(false);
                        want = Some(x);
                    }
                }
            } else {
                fails = Some(false);
            }
            l.deps
        }
    };
    if cmd == "convert" {
        if parse_weak(&c.svd[0].1).is_err() {
            return Verdict::skip("invalid SVD");
        }
        fails = Some(false);
    }
    let cut = |t: &str, n: usize| -> String {
        let t = t.trim_end();
        let mut i = n % t.len().max(1);
        while !t.is_char_boundary(i) {
            i -= 1;
        }
        t[..i].to_string()
    };
    let flip = |t: &str, n: usize| -> String {
        let mut v: Vec<char> = t.chars().collect();
        let i = n % v.len();
        v[i] = *['<', '>', '/', '"', 'x', '0', ' ', '&'].get(n / 7 % 8).unwrap();
        v.into_iter().collect()
    };
    match fault {
        "yaml-missing" => {
            files.remove(&main);
            must_fail = true;
        }
        "yaml-bad" | "yaml-list" => {
            let t = if fault == "yaml-bad" { BAD_YAML[n % BAD_YAML.len()] } else { "- a\n- b\n" };
            files.insert(main.clone(), t.into());
            must_fail = true;
        }
        "yaml-cut" => {
            let t = cut(&files[&main], n);
            files.insert(main.clone(), t);
            fails = None;
        }
        "inc-missing" | "inc-bad" | "inc-list" => {
            let Some(f) = reach.get(n % reach.len().max(1)).cloned() else {
                return Verdict::skip("includes nothing");
            };
            match fault {
                "inc-missing" => {
                    files.remove(&f);
                }
                "inc-bad" => {
                    files.insert(f, BAD_YAML[n / 3 % BAD_YAML.len()].into());
                }
                _ => {
                    files.insert(f, "- a\n- b\n".into());
                }
            }
            must_fail = true;
        }
        "inc-add" => {
            let Some(Ok(Yaml::Hash(mut h))) = files.get(&main).map(|t| parse_yaml(t)) else {
                return Verdict::skip("not a mapping");
            };
            h.insert(st("_include"), st("not/there.yaml"));
            files.insert(main.clone(), emit_yaml(&Yaml::Hash(h)));
            must_fail = true;
        }
        "svd-missing" => {
            svd = None;
            must_fail = true;
        }
        "svd-cut" => {
            svd = svd.map(|t| cut(&t, n));
            must_fail = true;
        }
        "svd-flip" => {
            svd = svd.map(|t| flip(&t, n));
            fails = None;
        }
        "svd-nokey" | "validate" | "rule" | "none" | "in-missing" | "in-cut" | "in-flip" => {}
        "in-format" | "out-format" => must_fail = true,
        _ => {}
    }
    if cmd == "patch" && fault != "svd-nokey" {
        // where the device is
        if let Some(Ok(Yaml::Hash(mut h))) = files.get(&main).map(|t| parse_yaml(t)) {
            h.insert(st("_svd"), st("device.svd"));
            files.insert(main.clone(), emit_yaml(&Yaml::Hash(h)));
        }
    }
    must_fail |= fault == "svd-nokey";
    if fault == "rule" {
        let Some(Ok(Yaml::Hash(mut h))) = files.get(&main).map(|t| parse_yaml(t)) else {
            return Verdict::skip("not a mapping");
        };
        let mut r = Hash::new();
        r.insert(st("NO_REG"), Yaml::Hash({
            let mut f = Hash::new();
            f.insert(st("NO_FIELD"), Yaml::Array(vec![Yaml::Integer(0), Yaml::Integer(1)]));
            f
        }));
        h.insert(st("NO_SUCH_PERIPHERAL"), Yaml::Hash(r));
        files.insert(main.clone(), emit_yaml(&Yaml::Hash(h)));
        must_fail = true;
    }
    let dir = scratch();
    for (n, t) in &files {
        write(&dir, n, t);
    }
    // directories of removed files stay
    for (n, _) in &c.yaml {
        std::fs::create_dir_all(dir.join(n).parent().unwrap()).unwrap();
    }
    let mut input = main.clone();
    let mut out = match cmd {
        "patch" => "out.svd".to_string(),
        "expand-patch" => "out.yaml".into(),
        "makedeps" => "out.d".into(),
        _ => format!("out.{}", c.opt("ext")),
    };
    if cmd == "patch" {
        if let Some(x) = &svd {
            write(&dir, &svd_path, x);
        }
        if c.opt("inplace") == "1" && fault != "out-full" {
            out = svd_path.clone();
        }
    }
    if cmd == "convert" {
        input = format!("in.{}", c.opt("inext"));
        let mut text = c.svd[0].1.clone();
        if c.opt("inext") == "json" {
            let d = parse_weak(&text).unwrap();
            text = serde_json::to_string_pretty(&d).unwrap();
        }
        match fault {
            "in-cut" => {
                text = cut(&text, n);
                must_fail = true;
            }
            "in-flip" => {
                text = flip(&text, n);
                fails = None;
            }
            "in-format" => {
                if n % 2 == 0 {
                    input = "in.dat".into();
                } else {
                    args.push("--input-format=csv".into());
                }
            }
            "out-format" => {
                if n % 2 == 0 {
                    out = "out.dat".into();
                } else {
                    args.push("--output-format=csv".into());
                }
            }
            _ => {}
        }
        if fault != "in-missing" {
            write(&dir, &input, &text);
        } else {
            must_fail = true;
        }
        if c.opt("inplace") == "1" && fault == "none" && c.opt("ext") == c.opt("inext") {
            out = input.clone();
        }
    }
    if !c.opt("cfg").is_empty() && (cmd == "patch" || cmd == "convert") {
        let mut name = format!("fmt.{}", c.opt("cfg"));
        let json = c.opt("cfg") == "json";
        let mut text = if json { "{\"register_size\": \"UpperHex\"}".to_string() } else { "register_size: UpperHex\n".into() };
        match fault {
            "cfg-bad" => text = if json { "{\"register_size\": " } else { "a: [b\n" }.into(),
            "cfg-ext" => name = s_ext(n),
            "cfg-value" => text = text.replace("UpperHex", "Roman"),
            _ => {}
        }
        if fault != "cfg-missing" {
            write(&dir, &name, &text);
        }
        args.push(format!("--format-config={name}"));
        must_fail |= fault.starts_with("cfg");
        // a wrong notation only matters where the configuration is read, which is everywhere
    }
    if fault == "validate" {
        args.push("--post-validate".into());
        fails = match (&want, fails) {
            (Some(w), Some(false)) => match strictly_valid(w) {
                Ok(v) => Some(!v),
                Err(_) => return Verdict::skip("result is not readable"),
            },
            (_, f) => f,
        };
    }
    if cmd == "patch" {
        args.extend(derive_arg(c));
    }
    args.push(input.clone());
    let run = |out: &str| {
        let mut a = args.clone();
        a.push(out.into());
        cli(&dir, &a)
    };
    match fault {
        "out-nodir" => {
            let o = run("nodir/out.svd");
            return if o.code == 0 || dir.join("nodir").exists() {
                Verdict::fail(format!("{args:?}: exit {} with an output in a missing directory", o.code))
            } else {
                Verdict::ok()
            };
        }
        "out-isdir" => {
            std::fs::create_dir_all(dir.join("place.svd")).unwrap();
            let o = run("place.svd");
            return if o.code == 0 {
                Verdict::fail(format!("{args:?}: exit 0 although the output is a directory"))
            } else {
                Verdict::ok()
            };
        }
        "out-full" => {
            if cmd == "convert" {
                args.push("--output-format=json".into());
            }
            let mut a = args.clone();
            a.push("/dev/full".into());
            let o = cli(&dir, &a);
            return if o.code == 0 {
                Verdict::fail(format!("{args:?}: exit 0 although nothing can be written"))
            } else {
                Verdict::ok()
            };
        }
        _ => {}
    }
    // a run without an old output tells what a new one has to be
    let inplace = dir.join(&out).exists();
    let fresh_name = if inplace { format!("fresh.{}", out.rsplit('.').next().unwrap()) } else { out.clone() };
    let fresh = run(&fresh_name);
    let fresh_path = dir.join(&fresh_name);
    let made = std::fs::read(&fresh_path).ok();
    let code_ok = fresh.code == 0;
    if must_fail && code_ok {
        return Verdict::fail(format!("{args:?}: exit 0 in spite of {fault}"));
    }
    if !must_fail {
        if let Some(f) = fails {
            if f == code_ok && !(fault == "validate" && fresh.err.contains(EMPTY_LIST)) {
                return Verdict::fail(format!("{args:?}: exit {} ({})", fresh.code, fresh.last()));
            }
        }
    }
    if !code_ok && made.is_some() {
        return Verdict::fail(format!("{args:?} fails but makes {fresh_name}: {}", fresh.last()));
    }
    if code_ok && made.is_none() {
        return Verdict::fail(format!("{args:?}: exit 0 without an output"));
    }
    if let (true, Some(w), Some(g), "patch") = (code_ok && fails.is_some(), &want, &made, cmd) {
        if let Some(d) = compare(w, &String::from_utf8_lossy(g)) {
            return Verdict::fail(format!("{args:?}: {d}"));
        }
    }
    let _ = std::fs::remove_file(&fresh_path);
    let size = made.as_ref().map_or(300, |m| m.len());
    let old: Option<Vec<u8>> = if inplace {
        std::fs::read(dir.join(&out)).ok()
    } else {
        match c.opt("old") {
            "absent" => None,
            "empty" => Some(vec![]),
            "short" => Some(b"old".to_vec()),
            _ => Some(b"old text of the output\n".repeat(size / 20 + 10)),
        }
    };
    if let Some(o) = &old {
        std::fs::write(dir.join(&out), o).unwrap();
    }
    let o = run(&out);
    let now = std::fs::read(dir.join(&out)).ok();
    if (o.code == 0) != code_ok {
        return Verdict::fail(format!("{args:?}: exit {} with an old output and {} without", o.code, fresh.code));
    }
    let want = if code_ok { &made } else { &old };
    let same = match (want, &now) {
        (Some(a), Some(b)) if cmd == "makedeps" && inplace => a.len() == b.len(),
        (a, b) => a.as_ref() == b.as_ref(),
    };
    if !same {
        return Verdict::fail(if code_ok {
            format!("{args:?}: the output depends on what {out} held before")
        } else {
            format!("{args:?} fails ({}) but {out} changes", o.last())
        });
    }
    Verdict::ok().nontrivial(!code_ok || old.is_some())
}
fn s_ext(n: usize) -> String {
    ["fmt.toml", "fmt", "fmt.txt"][n % 3].into()
}

pub fn subs(id: &str) -> Option<(&'static str, &'static str, Vec<&'static str>, Vec<Sub>)> {
    let mk = |name, gen, eval, quick, thorough| Sub {
        name,
        gen,
        eval,
        quick,
        thorough,
    };
    let po = PatchOpt {
        others: true,
        rules: (2, 7),
        ..Default::default()
    };
    let spread = move |s: &mut Src| gen_spread(s, &po, &DevOpt::default());
    let files = vec![
        "the harness's own loader of rule files (harness/src/inccheck.rs) says how files combine; trees with one file at two levels or a mapping against a plain value are skipped and counted",
        "the yaml-rust2 parser reads YAML correctly",
    ];
    Some(match id {
        "C04" => (
            "C04",
            "distinct by content, command, fault and old output; non-trivial: the command fails, or there was an old output",
            vec!["whether a damaged input must be rejected is known for the listed faults only; for others the relation between exit status and output is checked"],
            vec![mk("faults", Box::new(gen_fault), eval_fault, 6000, 250_000)],
        ),
        "C05" => (
            "C05",
            "distinct by content; non-trivial: several files with a key in common, or rules spread over several files that change the device",
            files,
            vec![
                mk("trees", Box::new(gen_tree), eval_merge, 20_000, 800_000),
                mk("rules", Box::new(spread), eval_spread, 8000, 300_000),
            ],
        ),
        "C06" => (
            "C06",
            "distinct by content; non-trivial: several files and the patch is accepted, or several files with a key in common",
            files,
            vec![
                mk(
                    "rules",
                    Box::new(move |s| {
                        let mut g = spread(s)?;
                        let Ok(Yaml::Hash(mut h)) = parse_yaml(&g.case.yaml[0].1) else {
                            return None;
                        };
                        h.insert(st("_svd"), st("device.svd"));
                        g.case.yaml[0].1 = emit_yaml(&Yaml::Hash(h));
                        g.case.set("stdout", s.below(2));
                        Some(g)
                    }),
                    eval_expanded,
                    3000,
                    120_000,
                ),
                mk(
                    "trees",
                    Box::new(|s| {
                        let mut g = gen_tree(s)?;
                        g.case.set("stdout", s.below(2));
                        Some(g)
                    }),
                    eval_expanded,
                    3000,
                    120_000,
                ),
            ],
        ),
        "C07" => (
            "C07",
            "distinct by content; non-trivial: at least two included files",
            files,
            vec![mk("trees", Box::new(gen_tree), eval_deps, 8000, 300_000)],
        ),
        "C32" => (
            "C32",
            "distinct by content and options; non-trivial: at least one rule changed the device or was rejected",
            vec!["the svd-rs validation says which results break the SVD rules"],
            vec![mk("places", Box::new(gen_place), eval_place, 6000, 250_000)],
        ),
        _ => return None,
    })
}
