//! Random rule files for a device.
use crate::gen_svd::{self, DevOpt};
use crate::model::{self, *};
use crate::src::Src;

pub type Weights = Vec<(&'static str, u32)>;

#[derive(Clone, Debug)]
pub struct PatchOpt {
    /// rule kinds the property is about, and others mixed in
    pub focus: Weights,
    pub noise: Weights,
    pub noise_pct: u32,
    pub rules: (usize, usize),
    /// chance of `?~`, of a target that does not exist, of a number as text,
    /// of a placeholder in a text, of a pattern instead of a plain name, of a
    /// wrongly typed value
    pub optional: u32,
    pub missing: u32,
    pub text_num: u32,
    pub placeholders: u32,
    pub wild: u32,
    pub badtype: u32,
    /// chance to keep a rule that makes the patch fail
    pub keep_err: u32,
    /// chance to address derived elements
    pub derived: u32,
    /// chance to pick a block inside a cluster
    pub deep: u32,
    /// chance to stay with the section of the rule before
    pub sticky: u32,
    pub others: bool,
}

pub const ALL_KINDS: &[&str] = &[
    "d.delete", "d.copy", "d.modify", "d.cpu", "d.periph", "d.clear", "d.add", "d.derive",
    "d.rebase", "b.delete", "b.copy", "b.strip", "b.affix", "b.modreg", "b.modcl", "b.modint",
    "b.delint", "b.addint", "b.clear", "b.addreg", "b.addcl", "b.derive", "b.expand_array",
    "b.array", "b.cluster", "b.cluster1", "b.expand_cluster", "r.delete", "r.strip", "r.affix",
    "r.clear", "r.modify", "r.add", "r.derive", "r.merge", "r.split", "r.enum", "r.range",
    "r.action", "r.array",
];
pub fn all() -> Weights {
    ALL_KINDS.iter().map(|k| (*k, 10)).collect()
}

impl Default for PatchOpt {
    fn default() -> Self {
        PatchOpt {
            focus: all(),
            noise: all(),
            noise_pct: 30,
            rules: (1, 6),
            optional: 8,
            missing: 3,
            text_num: 15,
            placeholders: 15,
            wild: 40,
            badtype: 0,
            keep_err: 12,
            derived: 8,
            deep: 30,
            sticky: 20,
            others: false,
        }
    }
}

pub fn st(s: impl Into<String>) -> Yaml {
    Yaml::String(s.into())
}
pub fn list(v: Vec<String>) -> Yaml {
    Yaml::Array(v.into_iter().map(Yaml::String).collect())
}
pub fn mp(v: Vec<(String, Yaml)>) -> Yaml {
    let mut h = Hash::new();
    for (k, v) in v {
        h.insert(Yaml::String(k), v);
    }
    Yaml::Hash(h)
}

/// Enter (creating) a path of mappings and add `val` under `key`.
pub fn ins(doc: &mut Hash, path: &[String], key: &str, val: Yaml) {
    let mut h = doc;
    for k in path {
        let k = st(k.as_str());
        if !matches!(h.get(&k), Some(Yaml::Hash(_))) {
            h.insert(k.clone(), Yaml::Hash(Hash::new()));
        }
        h = match h.get_mut(&k) {
            Some(Yaml::Hash(x)) => x,
            _ => unreachable!(),
        };
    }
    let k = st(key);
    match (h.get_mut(&k), val) {
        (Some(Yaml::Hash(old)), Yaml::Hash(new)) => {
            for (k, v) in new {
                old.insert(k, v);
            }
        }
        (Some(Yaml::Array(a)), Yaml::Array(b)) if key != "_write_constraint" => a.extend(b),
        (Some(Yaml::Array(a)), s @ Yaml::String(_)) => a.push(s),
        (Some(old @ Yaml::String(_)), Yaml::Array(mut b)) if key.starts_with('_') => {
            b.insert(0, old.clone());
            *old = Yaml::Array(b);
        }
        (_, v) => {
            h.insert(k, v);
        }
    }
}

pub struct Patch {
    pub doc: Yaml,
    /// kinds whose rule changed the outcome (or made the patch fail)
    pub effective: Vec<&'static str>,
    pub out: R<Device>,
}

#[derive(Clone)]
struct Blk {
    path: Vec<String>,
    periph: String,
    chain: Vec<String>,
    kids: Vec<RegisterCluster>,
    ints: Vec<String>,
}

struct G<'a> {
    s: &'a mut Src,
    o: &'a PatchOpt,
    init: &'a Device,
    cur: Device,
    others: &'a [(String, Device)],
    last: Option<Blk>,
    last_reg: Option<(Vec<String>, Vec<String>, String)>,
}

pub fn patch(
    s: &mut Src,
    o: &PatchOpt,
    dev: &Device,
    others: &[(String, Device)],
    derive: EnumDerive,
) -> Patch {
    let mut g = G {
        s,
        o,
        init: dev,
        cur: dev.clone(),
        others,
        last: None,
        last_reg: None,
    };
    let lookup = |f: &str| match others.iter().find(|(n, _)| n == f) {
        Some((_, d)) => Ok(d.clone()),
        None => err("no such file"),
    };
    let ctx = Ctx {
        derive,
        others: &lookup,
    };
    let mut doc = Hash::new();
    let mut effective = vec![];
    let mut out: R<Device> = Ok(dev.clone());
    let n = g.s.range(o.rules.0, o.rules.1);
    let mut i = 0;
    let mut tries = 0;
    while i < n && tries < n * 6 + 8 {
        tries += 1;
        let noise = !o.noise.is_empty() && (i > 0 || g.s.chance(30)) && g.s.chance(o.noise_pct);
        let w = if noise { &o.noise } else { &o.focus };
        let kind = w[g.s.weighted(&w.iter().map(|x| x.1).collect::<Vec<_>>())].0;
        let mut new = doc.clone();
        if g.rule(kind, &mut new).is_none() || new == doc {
            continue;
        }
        let y = Yaml::Hash(new.clone());
        let mut d = dev.clone();
        match model::device::patch(&mut d, &y, &ctx) {
            Ok(()) => {
                if d != g.cur {
                    effective.push(kind);
                }
                g.cur = d.clone();
                out = Ok(d);
                doc = new;
                i += 1;
            }
            Err(e @ E::Err(_)) => {
                if g.s.chance(o.keep_err) {
                    effective.push(kind);
                    out = Err(e);
                    doc = new;
                    break;
                }
            }
            Err(E::Unspec(_)) => {
                if g.s.chance(1) {
                    out = err("unspecified");
                    doc = new;
                    break;
                }
            }
        }
    }
    let mut doc = Yaml::Hash(doc);
    if g.s.chance(o.badtype) {
        spoil(g.s, &mut doc);
        let mut d = dev.clone();
        out = model::device::patch(&mut d, &doc, &ctx).map(|_| d);
        effective.push("badtype");
    }
    Patch {
        doc,
        effective,
        out,
    }
}

fn leaves(y: &Yaml) -> usize {
    match y {
        Yaml::Hash(h) => h.iter().map(|(_, v)| leaves(v)).sum(),
        Yaml::Array(a) => a.iter().map(leaves).sum(),
        _ => 1,
    }
}
/// Replace one plain value by something else.
fn spoil(s: &mut Src, y: &mut Yaml) {
    fn go(y: &mut Yaml, n: &mut usize, f: &mut dyn FnMut(&mut Yaml)) {
        match y {
            Yaml::Hash(h) => {
                for (_, v) in h.iter_mut() {
                    go(v, n, f)
                }
            }
            Yaml::Array(a) => {
                for v in a {
                    go(v, n, f)
                }
            }
            y => {
                if *n == 0 {
                    f(y);
                }
                *n = n.wrapping_sub(1);
            }
        }
    }
    let total = leaves(y);
    if total == 0 {
        return;
    }
    let mut n = s.below(total);
    let k = s.below(12);
    go(y, &mut n, &mut |y| {
        *y = match (k, &*y) {
            (0, _) => Yaml::Boolean(true),
            (1, _) => Yaml::Real("1.5".into()),
            (2, _) => Yaml::Array(vec![]),
            (3, _) => st("0x"),
            (4, _) => st("12ab"),
            (5, _) => st("0xFG"),
            (6, _) => st("#12"),
            (7, _) => st("0b12"),
            (8, Yaml::Integer(_)) => st("ten"),
            (9, Yaml::Integer(_)) => st(""),
            (10, Yaml::Integer(_)) => st("1 2"),
            (_, Yaml::Integer(_)) => st("-"),
            _ => Yaml::Integer(5),
        }
    });
}

/// Families of names that differ in one index: (prefix, suffix, indexes)
fn families<'a>(names: impl Iterator<Item = &'a str>) -> Vec<(String, String, Vec<String>)> {
    let mut out: Vec<(String, String, Vec<String>)> = vec![];
    for n in names {
        if n.contains("[%s]") {
            continue;
        }
        let b = n.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && i > 0 {
                let mut j = i;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                let (p, x, q) = (&n[..i], &n[i..j], &n[j..]);
                match out.iter_mut().find(|(a, c, _)| a == p && c == q) {
                    Some(f) => f.2.push(x.into()),
                    None => out.push((p.into(), q.into(), vec![x.into()])),
                }
                i = j;
            } else {
                i += 1;
            }
        }
        // letter index after a known prefix
        for base in ["CH", "CCR", "F", "MB"] {
            if let Some(r) = n.strip_prefix(base) {
                if let Some(c) = r.chars().next().filter(|c| ('A'..='H').contains(c)) {
                    let q = &r[1..];
                    match out.iter_mut().find(|(a, x, _)| a == base && x == q) {
                        Some(f) => f.2.push(c.into()),
                        None => out.push((base.into(), q.into(), vec![c.into()])),
                    }
                }
            }
        }
    }
    out
}

fn uniq(mut v: Vec<String>) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
fn reg_names(k: &[RegisterCluster]) -> Vec<String> {
    k.iter()
        .filter_map(|x| match x {
            RegisterCluster::Register(r) => Some(r.name.clone()),
            _ => None,
        })
        .collect()
}
fn cl_names(k: &[RegisterCluster]) -> Vec<String> {
    k.iter()
        .filter_map(|x| match x {
            RegisterCluster::Cluster(r) => Some(r.name.clone()),
            _ => None,
        })
        .collect()
}

impl G<'_> {
    fn num(&mut self, v: i64) -> Yaml {
        if v < 0 || !self.s.chance(self.o.text_num) {
            return Yaml::Integer(v);
        }
        st(number_text(self.s, v as u64))
    }
    fn boolean(&mut self, b: bool) -> Yaml {
        if !self.s.chance(self.o.text_num * 2) {
            return Yaml::Boolean(b);
        }
        match self.s.below(3) {
            0 => Yaml::Integer(b as i64),
            1 => st(if b { "true" } else { "false" }),
            _ => st(if b { "True" } else { "False" }),
        }
    }
    fn text(&mut self) -> String {
        gen_svd::text(self.s, 8)
    }
    /// text that may hold placeholders
    fn ptext(&mut self) -> String {
        let mut t = self.text();
        if self.s.chance(self.o.placeholders) {
            let n = self.s.range(1, 2);
            for _ in 0..n {
                t += &self.s.s(&[
                    " `peripheral`", " `block_path`", " `register`", "`register_path`.X",
                    " `register_path`", " `peripheral", " `unknown`", "``block_path``",
                ]);
            }
        }
        t
    }

    /// A pattern that matches `target` (usually).
    fn pat(&mut self, target: &str, all: &[String]) -> String {
        if self.s.chance(self.o.missing) {
            return match self.s.below(6) {
                0 => format!("{target}X"),
                1 => target.to_lowercase(),
                2 => target.chars().skip(1).collect(),
                3 => format!("{target}?"),
                4 => format!("?{target}"),
                _ => "NOSUCH".into(),
            };
        }
        if target.contains("[%s]") {
            let cut = target.find('[').unwrap();
            let pre = target[..cut].to_string();
            return match self.s.below(4) {
                0 => format!("{pre}*"),
                1 => format!("{pre}[[]%s]"),
                2 => format!("{pre}?%s]"),
                _ => format!("{pre}\\[%s\\]"),
            };
        }
        if !self.s.chance(self.o.wild) || target.is_empty() {
            return target.to_string();
        }
        let c: Vec<char> = target.chars().collect();
        let i = self.s.below(c.len());
        let with = |r: &str| -> String {
            let mut o: String = c[..i].iter().collect();
            o += r;
            o.extend(&c[i + 1..]);
            o
        };
        match self.s.below(14) {
            0 => with("?"),
            1 | 2 => format!("{}*", c[..i].iter().collect::<String>()),
            3 => format!("*{}", c[i..].iter().collect::<String>()),
            4 => with(&format!("[{}x]", c[i])),
            5 if c[i].is_ascii_digit() => with("[0-9]"),
            5 => with("[A-Z]"),
            6 => with("[!Q]"),
            7 => {
                let mut v = vec![target.to_string()];
                for _ in 0..self.s.range(1, 2) {
                    v.push(self.s.pick(all).clone());
                }
                self.s.shuffle(&mut v);
                if v.iter().any(|x| x.contains("[%s]")) {
                    return target.into();
                }
                format!("{{{}}}", uniq(v).join(","))
            }
            8 | 9 => {
                let mut v = vec![target.to_string()];
                let n = *self.s.pick(&[1, 1, 2, 2, 3, 4]);
                for _ in 0..n {
                    let x = self.s.pick(all).clone();
                    v.push(x);
                }
                self.s.shuffle(&mut v);
                if v.iter().any(|x| x.contains("[%s]")) {
                    return target.into();
                }
                uniq(v).join(",")
            }
            10 => "*".into(),
            11 => with("*"),
            12 => format!("{}{{{},Q}}", c[..i].iter().collect::<String>(), c[i..].iter().collect::<String>()),
            _ => "?".repeat(c.len()),
        }
    }
    fn opt(&mut self, p: String) -> String {
        if self.s.chance(self.o.optional) {
            format!("?~{p}")
        } else {
            p
        }
    }
    /// a pattern for one of `names`
    fn any(&mut self, names: &[String]) -> Option<String> {
        if names.is_empty() {
            if self.s.chance(self.o.missing.max(3)) {
                return Some("NONE".into());
            }
            return None;
        }
        let t = self.s.pick(names).clone();
        Some(self.pat(&t, names))
    }
    /// one or several patterns, as string or list
    fn specs(&mut self, names: &[String]) -> Option<Yaml> {
        let a = self.any(names)?;
        match self.s.below(4) {
            0 => {
                let b = self.any(names)?;
                Some(list(vec![a, b]))
            }
            1 => Some(list(vec![a])),
            _ => Some(st(a)),
        }
    }

    fn dev(&mut self) -> Device {
        if self.s.chance(60) {
            self.init.clone()
        } else {
            self.cur.clone()
        }
    }
    fn periphs(&mut self) -> Vec<String> {
        let mut v: Vec<String> = self.init.peripherals.iter().map(|p| p.name.clone()).collect();
        v.extend(self.cur.peripherals.iter().map(|p| p.name.clone()));
        uniq(v)
    }

    fn block(&mut self) -> Option<Blk> {
        if self.last.is_some() && self.s.chance(self.o.sticky) {
            let mut b = self.last.clone().unwrap();
            if self.s.chance(50) {
                // what the section holds by now
                if let Some(p) = self.cur.peripherals.iter().find(|p| p.name == b.periph) {
                    let mut kids = p.registers.clone().unwrap_or_default();
                    let found = b.chain.iter().all(|n| {
                        let c = kids.iter().find_map(|x| match x {
                            RegisterCluster::Cluster(c) if c.name == *n => Some(c.children.clone()),
                            _ => None,
                        });
                        c.map(|c| kids = c).is_some()
                    });
                    if found {
                        b.kids = kids;
                    }
                }
            }
            return Some(b);
        }
        let b = self.new_block()?;
        self.last = Some(b.clone());
        Some(b)
    }
    fn new_block(&mut self) -> Option<Blk> {
        let d = self.dev();
        let want_derived = self.s.chance(self.o.derived);
        let all: Vec<String> = d.peripherals.iter().map(|p| p.name.clone()).collect();
        let c: Vec<&Peripheral> = d
            .peripherals
            .iter()
            .filter(|p| p.derived_from.is_some() == want_derived)
            .collect();
        if c.is_empty() {
            return None;
        }
        let p = (*self.s.pick(&c)).clone();
        let pat = self.pat(&p.name, &all);
        let mut b = Blk {
            path: vec![self.opt(pat)],
            periph: p.name.clone(),
            chain: vec![],
            kids: p.registers.clone().unwrap_or_default(),
            ints: p.interrupt.iter().map(|i| i.name.clone()).collect(),
        };
        while b.chain.len() < 3 {
            let cls: Vec<Cluster> = b
                .kids
                .iter()
                .filter_map(|x| match x {
                    RegisterCluster::Cluster(c) => Some(c.clone()),
                    _ => None,
                })
                .collect();
            if cls.is_empty() || !self.s.chance(self.o.deep) {
                break;
            }
            let c = self.s.pick(&cls).clone();
            let names = cl_names(&b.kids);
            let pat = self.pat(&c.name, &names);
            let pat = self.opt(pat);
            if self.s.chance(60) {
                b.path.push("_clusters".into());
            }
            b.path.push(pat);
            b.chain.push(c.name.clone());
            b.kids = c.children.clone();
        }
        Some(b)
    }
    fn reg(&mut self, b: &Blk, need_fields: bool) -> Option<(Vec<String>, Register)> {
        let want_derived = self.s.chance(self.o.derived);
        let rs: Vec<Register> = b
            .kids
            .iter()
            .filter_map(|x| match x {
                RegisterCluster::Register(r)
                    if r.derived_from.is_some() == want_derived
                        && (!need_fields || r.fields.as_ref().is_some_and(|f| !f.is_empty())) =>
                {
                    Some(r.clone())
                }
                _ => None,
            })
            .collect();
        if let Some((block, path, name)) = &self.last_reg {
            if *block == b.path {
                if let Some(r) = rs.iter().find(|r| r.name == *name) {
                    if self.s.chance(self.o.sticky) {
                        return Some((path.clone(), r.clone()));
                    }
                }
            }
        }
        if rs.is_empty() {
            return None;
        }
        let r = self.s.pick(&rs).clone();
        let names = reg_names(&b.kids);
        let pat = self.pat(&r.name, &names);
        let mut path = b.path.clone();
        path.push(self.opt(pat));
        self.last_reg = Some((b.path.clone(), path.clone(), r.name.clone()));
        Some((path, r))
    }

    // -------------------------------------------------- property bags
    fn rprops(&mut self, h: &mut Vec<(String, Yaml)>, p: u32) {
        if self.s.chance(p) {
            let v = *self.s.pick(&[32, 16, 8, 64]);
            h.push(("size".into(), self.num(v)));
        }
        if self.s.chance(p) {
            let a = if self.s.chance(12) {
                String::new()
            } else {
                self.access()
            };
            h.push(("access".into(), st(a)));
        }
        if self.s.chance(p) {
            let v = *self.s.pick(&[0, 1, 0x55, 0xFF, 0x8000_0000, 0x1234, 0x1_0000_0001, i64::MAX]);
            h.push(("resetValue".into(), self.num(v)));
        }
        if self.s.chance(p / 2) {
            let v = *self.s.pick(&[0xFF, 0xF0, 0xFFFF_FFFF, 0, 0xFF_0000_0000]);
            h.push(("resetMask".into(), self.num(v)));
        }
    }
    fn access(&mut self) -> String {
        self.s.s(&["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"])
    }
    fn wc(&mut self, h: &mut Vec<(String, Yaml)>, p: u32) {
        if self.s.chance(p) {
            let k = self.s.s(&["_write_constraint", "writeConstraint"]);
            let v = match self.s.below(4) {
                0 => st("none"),
                1 => st("enum"),
                _ => {
                    let (a, b) = (self.s.below(3) as i64, self.s.range(3, 300) as i64);
                    let b = if self.s.chance(10) { *self.s.pick(&[0xFFFF_FFFF, 0x1_0000_0010, i64::MAX]) } else { b };
                    Yaml::Array(vec![self.num(a), self.num(b)])
                }
            };
            h.push((k, v));
        }
    }
    fn dimprops(&mut self, h: &mut Vec<(String, Yaml)>, p: u32, inc: i64) {
        if !self.s.chance(p) {
            return;
        }
        let most = if self.s.chance(8) { 13 } else { 3 };
        let n = self.s.range(1, most) as i64;
        if self.s.chance(85) {
            h.push(("dim".into(), self.num(n)));
        }
        if self.s.chance(85) {
            let far = n <= 2 && inc > 1 && self.s.chance(6);
            h.push(("dimIncrement".into(), self.num(if far { 0x8000_0000 + inc } else { inc })));
        }
        if self.s.chance(50) {
            let from = self.s.below(4) as i64;
            let mut idx: Vec<String> = match self.s.below(4) {
                0 => (0..n).map(|i| ((b'A' + i as u8) as char).to_string()).collect(),
                1 => (0..n).map(|i| (from + 3 * i).to_string()).collect(),
                _ => (0..n).map(|i| (i + 1).to_string()).collect(),
            };
            if self.s.chance(15) {
                self.s.shuffle(&mut idx);
            }
            let v = match self.s.below(6) {
                0 | 1 => list(idx),
                2 | 3 => st(idx.join(",")),
                4 => st(format!("{from}-{}", from + n - 1)),
                _ => st(format!("0-{}", n - 1)),
            };
            h.push(("dimIndex".into(), v));
        }
        if self.s.chance(10) {
            h.push(("dimName".into(), st("DimName")));
        }
        if self.s.chance(8) {
            let mut e = vec![];
            if self.s.chance(70) {
                e.push(("headerEnumName".to_string(), st("EnumName")));
            }
            for i in 0..n.min(self.s.range(0, 4) as i64) {
                let v = self.num(i);
                let d = st(self.text());
                e.push((format!("{}{i}", ["First", "other", "X_"][i as usize % 3]), Yaml::Array(vec![v, d])));
            }
            h.push(("dimArrayIndex".into(), mp(e)));
        }
    }
    fn field_props(&mut self, new: bool, b: Option<&Blk>, r: Option<&Register>) -> Yaml {
        let mut h = vec![];
        let s = if new { 70 } else { 35 };
        if !new && self.s.chance(20) {
            h.push(("name".into(), st(self.s.s(gen_svd::FIELD_NAMES))));
        }
        if self.s.chance(s) {
            let t = if !new && self.s.chance(10) { String::new() } else { self.ptext() };
            h.push(("description".into(), st(t)));
        }
        if self.s.chance(30) {
            let a = if self.s.chance(15) { String::new() } else { self.access() };
            h.push(("access".into(), st(a)));
        }
        self.wc(&mut h, 20);
        if self.s.chance(15) {
            let v = self.s.s(&["oneToClear", "zeroToSet", "modify", "clear"]);
            h.push(("modifiedWriteValues".into(), st(v)));
        }
        if self.s.chance(15) {
            let v = self.s.s(&["clear", "set", "modify", "modifyExternal"]);
            h.push(("readAction".into(), st(v)));
        }
        if self.s.chance(if new { 8 } else { 6 }) {
            let f = self.s.s(&["MODE", "`register_path`.EN", "`block_path`.CR1.EN", "EN", ""]);
            let _ = (b, r);
            h.push(("derivedFrom".into(), st(f)));
        }
        if self.s.chance(if new { 96 } else { 30 }) {
            let (o, w) = (self.s.below(24) as i64, self.s.range(1, 8) as i64);
            match self.s.below(5) {
                0 => {
                    h.push(("msb".into(), self.num(o + w - 1)));
                    h.push(("lsb".into(), self.num(o)));
                    if self.s.chance(25) {
                        // both ways of giving the position: msb and lsb count
                        h.push(("bitRange".into(), st(format!("[{}:{}]", o + w, o + 1))));
                    }
                }
                1 => {
                    h.push(("bitRange".into(), st(format!("[{}:{o}]", o + w - 1))));
                    if self.s.chance(15) {
                        h.push(("bitOffset".into(), self.num(o + 1)));
                        h.push(("bitWidth".into(), self.num(w)));
                    }
                }
                _ => {
                    if new || self.s.chance(70) {
                        h.push(("bitOffset".into(), self.num(o)));
                    }
                    if new || self.s.chance(60) {
                        h.push(("bitWidth".into(), self.num(w)));
                    }
                }
            }
        }
        self.dimprops(&mut h, 6, 8);
        self.s.shuffle(&mut h);
        mp(h)
    }
    fn reg_props(&mut self, new: bool, b: &Blk) -> Yaml {
        let mut h = vec![];
        if !new && self.s.chance(15) {
            h.push(("name".into(), st(self.s.s(gen_svd::REG_NAMES))));
        }
        if self.s.chance(if new { 70 } else { 35 }) {
            let t = if !new && self.s.chance(10) { String::new() } else { self.ptext() };
            h.push(("description".into(), st(t)));
        }
        if self.s.chance(25) {
            let t = if self.s.chance(15) { String::new() } else { self.text() };
            h.push(("displayName".into(), st(t)));
        }
        if self.s.chance(12) {
            h.push(("alternateGroup".into(), st(self.s.s(&["GRP", "G2", ""]))));
        }
        if self.s.chance(12) {
            h.push(("alternateRegister".into(), st(self.s.s(gen_svd::REG_NAMES))));
        }
        self.rprops(&mut h, 30);
        self.wc(&mut h, 10);
        if self.s.chance(if new { 97 } else { 25 }) {
            let off = 4 * self.s.below(16) as i64;
            h.push(("addressOffset".into(), self.num(off)));
        }
        if self.s.chance(if new { 8 } else { 4 }) {
            let names = reg_names(&b.kids);
            let f = if names.is_empty() || self.s.chance(30) {
                self.s.s(&["`block_path`.CR1", "`peripheral`.CR1", ""])
            } else {
                self.s.pick(&names).clone()
            };
            h.push(("derivedFrom".into(), st(f)));
        }
        if self.s.chance(if new { 55 } else { 8 }) {
            let mut fs = vec![];
            let mut used = vec![];
            let most = if self.s.chance(5) { 12 } else { 3 };
            for _ in 0..self.s.range(0, most) {
                let n = gen_svd::fresh(self.s, &used, gen_svd::FIELD_NAMES);
                used.push(n.clone());
                fs.push((n, self.field_props(true, None, None)));
            }
            h.push(("fields".into(), mp(fs)));
        }
        self.dimprops(&mut h, 7, 4);
        self.s.shuffle(&mut h);
        mp(h)
    }
    fn regs_bag(&mut self, b: &Blk) -> Yaml {
        let mut rs = vec![];
        let mut used = vec![];
        for _ in 0..self.s.range(0, 3) {
            let n = gen_svd::fresh(self.s, &used, gen_svd::REG_NAMES);
            used.push(n.clone());
            rs.push((n, self.reg_props(true, b)));
        }
        mp(rs)
    }
    fn cl_props(&mut self, new: bool, b: &Blk) -> Yaml {
        let mut h = vec![];
        if !new && self.s.chance(20) {
            h.push(("name".into(), st(self.s.s(&["NCL", "NCL2", "BLK"]))));
        }
        if self.s.chance(55) {
            let t = if !new && self.s.chance(10) { String::new() } else { self.ptext() };
            h.push(("description".into(), st(t)));
        }
        self.rprops(&mut h, 15);
        if self.s.chance(if new { 97 } else { 30 }) {
            let off = 4 * self.s.below(16) as i64;
            h.push(("addressOffset".into(), self.num(off)));
        }
        if self.s.chance(if new { 6 } else { 4 }) {
            h.push(("derivedFrom".into(), st(self.s.s(&["BLK", "`peripheral`.BLK"]))));
        }
        if self.s.chance(if new { 90 } else { 10 }) {
            h.push(("registers".into(), self.regs_bag(b)));
        }
        self.dimprops(&mut h, if new { 15 } else { 8 }, 0x20);
        self.s.shuffle(&mut h);
        mp(h)
    }
    fn int_props(&mut self, new: bool) -> Yaml {
        let mut h = vec![];
        if !new && self.s.chance(25) {
            h.push(("name".into(), st("RENAMED")));
        }
        if self.s.chance(60) {
            h.push(("description".into(), st(self.text())));
        }
        if self.s.chance(if new { 95 } else { 50 }) {
            let v = self.s.below(40) as i64;
            h.push(("value".into(), self.num(v)));
        }
        mp(h)
    }
    fn ablock(&mut self, full: bool) -> Yaml {
        let mut h = vec![];
        if full || self.s.chance(50) {
            let v = *self.s.pick(&[0, 0x400]);
            h.push(("offset".into(), self.num(v)));
        }
        if full || self.s.chance(60) {
            let v = *self.s.pick(&[0x400, 0x1000, 0x20]);
            h.push(("size".into(), self.num(v)));
        }
        if full || self.s.chance(40) {
            h.push(("usage".into(), st(self.s.s(&["registers", "buffer", "reserved"]))));
        }
        mp(h)
    }
    fn periph_props(&mut self, new: bool) -> Yaml {
        let mut h = vec![];
        if !new && self.s.chance(20) {
            h.push(("name".into(), st(self.s.s(&["RENAMED", "TIM9", "GPIOZ"]))));
        }
        for (k, p) in [("displayName", 15), ("version", 20), ("description", 50), ("groupName", 25)] {
            if self.s.chance(p) {
                let t = if self.s.chance(10) { String::new() } else { self.text() };
                h.push((k.into(), st(t)));
            }
        }
        if self.s.chance(if new { 97 } else { 25 }) {
            let v = 0x4000_0000 + 0x800 * self.s.below(10) as i64 + if self.s.chance(4) { 1 << 32 } else { 0 };
            h.push(("baseAddress".into(), self.num(v)));
        }
        if self.s.chance(if new { 12 } else { 5 }) {
            let v = self.periphs();
            if !v.is_empty() {
                let f = self.s.pick(&v).clone();
                h.push(("derivedFrom".into(), st(f)));
            }
        }
        self.rprops(&mut h, 10);
        if self.s.chance(if new { 50 } else { 25 }) {
            if self.s.chance(60) {
                let full = new || self.s.chance(60);
                h.push(("addressBlock".into(), self.ablock(full)));
            } else {
                let n = self.s.range(0, 2);
                let v = (0..n).map(|_| self.ablock(true)).collect();
                h.push(("addressBlocks".into(), Yaml::Array(v)));
            }
        }
        if self.s.chance(if new { 30 } else { 15 }) {
            let mut v = vec![];
            for _ in 0..self.s.range(1, 2) {
                let names: Vec<String> = self
                    .init
                    .peripherals
                    .iter()
                    .flat_map(|p| p.interrupt.iter().map(|i| i.name.clone()))
                    .collect();
                let n = if !new && !names.is_empty() && self.s.chance(80) {
                    self.s.pick(&names).clone()
                } else {
                    self.s.s(&["NEWINT", "NEWINT2"])
                };
                v.push((n, self.int_props(new)));
            }
            h.push(("interrupts".into(), mp(v)));
        }
        if self.s.chance(if new { 65 } else { 8 }) {
            let b = Blk {
                path: vec![],
                periph: String::new(),
                chain: vec![],
                kids: vec![],
                ints: vec![],
            };
            h.push(("registers".into(), self.regs_bag(&b)));
        }
        self.dimprops(&mut h, 3, 0x100);
        self.s.shuffle(&mut h);
        mp(h)
    }
    fn cpu_props(&mut self) -> Yaml {
        let mut h = vec![];
        for k in [
            "mpuPresent", "fpuPresent", "vendorSystickConfig", "fpuDP", "dspPresent", "icachePresent",
            "dcachePresent", "itcmPresent", "dtcmPresent", "vtorPresent",
        ] {
            if self.s.chance(30) {
                let v = self.s.chance(50);
                h.push((k.to_string(), self.boolean(v)));
            }
        }
        for (k, m) in [("nvicPrioBits", 8), ("deviceNumInterrupts", 200), ("sauNumRegions", 8)] {
            if self.s.chance(35) {
                let v = self.s.below(m) as i64;
                h.push((k.to_string(), self.num(v)));
            }
        }
        if self.s.chance(40) {
            h.push(("name".into(), st(self.s.s(&["CM0", "CM7", "other"]))));
        }
        if self.s.chance(40) {
            h.push(("revision".into(), st("r1p2")));
        }
        if self.s.chance(40) {
            h.push(("endian".into(), st(self.s.s(&["little", "big", "selectable", "other"]))));
        }
        mp(h)
    }
    fn values(&mut self, h: &mut Vec<(String, Yaml)>, width: u32) {
        let many = self.s.chance(6);
        let max = 1usize << width.min(if many { 5 } else { 3 });
        let mut vals: Vec<i64> = (0..max as i64).collect();
        self.s.shuffle(&mut vals);
        let n = self.s.range(1, max.min(if many { 20 } else { 4 }));
        vals.truncate(n);
        if self.s.chance(12) {
            vals[n - 1] = -1;
        }
        if self.s.chance(3) {
            vals.push(vals[0]);
        }
        if self.s.chance(3) {
            vals.push(1 << width.min(16));
        }
        if self.s.chance(3) {
            // the same but for what lies above 8, 16 or 32 bits
            let sh = *self.s.pick(&[8, 16, 32]);
            vals.push(vals[0].max(0) + (1 << sh));
        }
        if self.s.chance(2) {
            vals.push(-2 - self.s.below(3) as i64);
        }
        let mut used = vec![];
        for v in vals {
            let pool: &[&str] = if self.s.chance(2) {
                &["1st", "2"]
            } else {
                &["Off", "On", "Div2", "Div4", "A", "B", "Zz", "x1"]
            };
            let n = gen_svd::fresh(self.s, &used, pool);
            used.push(n.clone());
            let d = self.text();
            let v = if v < 0 { Yaml::Integer(v) } else { self.num(v) };
            h.push((n, Yaml::Array(vec![v, st(d)])));
        }
    }
    fn enum_body(&mut self, r: &Register, width: u32, allow_derive: bool) -> Vec<(String, Yaml)> {
        let mut h = vec![];
        let sources: Vec<String> = r
            .fields
            .iter()
            .flatten()
            .flat_map(|f| f.enumerated_values.iter().filter_map(|e| e.name.clone()))
            .collect();
        if allow_derive && self.s.chance(if sources.is_empty() { 2 } else { 25 }) {
            let n = if sources.is_empty() || self.s.chance(8) {
                "NOENUM".to_string()
            } else {
                self.s.pick(&sources).clone()
            };
            h.push(("_derivedFrom".into(), st(n)));
            return h;
        }
        if self.s.chance(25) {
            h.push(("_name".into(), st(self.s.s(&["ENUMN", "MODE_E", "X"]))));
        }
        self.values(&mut h, width);
        h
    }
    /// field pattern, a field it was made for
    fn fieldpat(&mut self, r: &Register) -> Option<(String, Field)> {
        let fs: Vec<Field> = r.fields.iter().flatten().cloned().collect();
        if fs.is_empty() {
            return None;
        }
        // often a numbered family as a whole
        let fam: Vec<_> = families(fs.iter().map(|f| f.name.as_str()))
            .into_iter()
            .filter(|f| f.2.len() > 1)
            .collect();
        if !fam.is_empty() && self.s.chance(45) {
            let (a, b, idx) = self.s.pick(&fam).clone();
            let f = fs.iter().find(|f| f.name == format!("{a}{}{b}", idx[0]))?.clone();
            let t = self.token(&idx);
            let p = format!("{a}{t}{b}");
            return Some((self.opt(p), f));
        }
        let f = self.s.pick(&fs).clone();
        let names: Vec<String> = fs.iter().map(|f| f.name.clone()).collect();
        let p = self.pat(&f.name, &names);
        Some((self.opt(p), f))
    }
    fn token(&mut self, idx: &[String]) -> String {
        let one = idx.iter().all(|i| i.len() == 1);
        match self.s.below(6) {
            0 | 1 if one => "?".into(),
            2 => "*".into(),
            3 if one && idx[0].starts_with(|c: char| c.is_ascii_digit()) => "[0-9]".into(),
            3 if one => "[A-H]".into(),
            4 if one => format!("[{}]", uniq(idx.to_vec()).concat()),
            5 if one && idx.len() > 2 => format!("[{}]", uniq(idx[1..].to_vec()).concat()),
            _ => "*".into(),
        }
    }
    fn field_rules(&mut self, r: &Register, h: &mut Vec<(String, Yaml)>) {
        if let Some((p, f)) = self.fieldpat(r) {
            match self.s.below(3) {
                0 => h.push(("_modify".into(), mp(vec![(p, mp(vec![("description".into(), st(self.text()))]))]))),
                1 => {
                    let b = self.enum_body(r, f.bit_range.width, true);
                    h.push((p, mp(b)));
                }
                _ => h.push((p, Yaml::Array(vec![Yaml::Integer(0), Yaml::Integer(1)]))),
            }
        }
    }

    // -------------------------------------------------- rules
    fn rule(&mut self, kind: &'static str, doc: &mut Hash) -> Option<()> {
        let (level, what) = kind.split_once('.').unwrap();
        match level {
            "d" => self.drule(what, doc),
            "b" => self.brule(what, doc),
            _ => self.rrule(what, doc),
        }
    }
    fn drule(&mut self, what: &str, doc: &mut Hash) -> Option<()> {
        let names = self.periphs();
        match what {
            "delete" => {
                let v = self.specs(&names)?;
                ins(doc, &[], "_delete", v)
            }
            "clear" => {
                let v = self.specs(&names)?;
                ins(doc, &[], "_clear_fields", v)
            }
            "copy" => {
                let to = if self.s.chance(50) {
                    self.s.s(&["COPY1", "COPY2"])
                } else {
                    self.s.pick(&names).clone()
                };
                let mut from = if self.s.chance(self.o.missing) {
                    "NOSUCH".to_string()
                } else {
                    self.s.pick(&names).clone()
                };
                if !self.others.is_empty() && self.s.chance(60) {
                    let (f, d) = self.s.pick(self.others).clone();
                    if !d.peripherals.is_empty() && self.s.chance(90) {
                        from = self.s.pick(&d.peripherals).name.clone();
                    }
                    from = format!("{f}:{from}");
                }
                if from == to {
                    return None;
                }
                ins(doc, &[], "_copy", mp(vec![(to, mp(vec![("from".into(), st(from))]))]))
            }
            "modify" => {
                let mut h = vec![];
                for k in [
                    "vendor", "vendorID", "name", "series", "version", "description", "licenseText",
                    "headerSystemFilename", "headerDefinitionsPrefix",
                ] {
                    if self.s.chance(20) {
                        let t = if k.contains("Descr") || k.contains("description") || k == "licenseText" {
                            self.text()
                        } else {
                            self.s.s(&["NEW", "N2", "v_3"])
                        };
                        h.push((k.to_string(), st(t)));
                    }
                }
                for (k, v) in [("addressUnitBits", 16), ("width", 64)] {
                    if self.s.chance(15) {
                        h.push((k.to_string(), self.num(v)));
                    }
                }
                self.rprops(&mut h, 15);
                self.s.shuffle(&mut h);
                ins(doc, &[], "_modify", mp(h))
            }
            "cpu" => {
                let v = self.cpu_props();
                ins(doc, &["_modify".into()], "cpu", v)
            }
            "periph" => {
                let p = self.any(&names)?;
                let v = self.periph_props(false);
                let path: Vec<String> = if self.s.chance(35) {
                    vec!["_modify".into(), "_peripherals".into()]
                } else {
                    vec!["_modify".into()]
                };
                ins(doc, &path, &p, v)
            }
            "add" => {
                let n = if self.s.chance(95) {
                    gen_svd::fresh(self.s, &names, &["NEWP", "ADDED", "UART9"])
                } else {
                    self.s.pick(&names).clone()
                };
                let v = self.periph_props(true);
                ins(doc, &["_add".into()], &n, v)
            }
            "derive" => {
                let n = if self.s.chance(75) {
                    self.s.pick(&names).clone()
                } else {
                    self.s.s(&["NEWD", "NEWE"])
                };
                let src = if self.s.chance(self.o.missing) {
                    "NOSUCH".to_string()
                } else {
                    self.s.pick(&names).clone()
                };
                let existing = names.contains(&n);
                let v = if existing && self.s.chance(60) {
                    st(src)
                } else {
                    let Yaml::Hash(mut h) = self.periph_props(!existing) else {
                        unreachable!()
                    };
                    h.remove(&st("derivedFrom"));
                    h.remove(&st("name"));
                    h.insert(st("_from"), st(src));
                    Yaml::Hash(h)
                };
                ins(doc, &["_derive".into()], &n, v)
            }
            "rebase" => {
                // prefer elements that derive from another
                let d = self.dev();
                let pairs: Vec<(String, String)> = d
                    .peripherals
                    .iter()
                    .filter_map(|p| p.derived_from.clone().map(|f| (p.name.clone(), f)))
                    .collect();
                let (new, old) = if !pairs.is_empty() && self.s.chance(70) {
                    self.s.pick(&pairs).clone()
                } else {
                    (self.s.pick(&names).clone(), self.s.pick(&names).clone())
                };
                if new == old {
                    return None;
                }
                ins(doc, &["_rebase".into()], &new, st(old))
            }
            _ => unreachable!(),
        }
        Some(())
    }

    fn entry(&mut self, b: &Blk, rule: &str, kind: &str, typed_pct: u32) -> Vec<String> {
        let mut p = b.path.clone();
        p.push(rule.into());
        if self.s.chance(typed_pct) {
            p.push(format!("_{kind}"));
        }
        p
    }

    fn brule(&mut self, what: &str, doc: &mut Hash) -> Option<()> {
        let b = self.block()?;
        let regs = reg_names(&b.kids);
        let cls = cl_names(&b.kids);
        let both: Vec<String> = regs.iter().chain(&cls).cloned().collect();
        match what {
            "delete" => {
                if self.s.chance(60) {
                    let v = self.specs(&both)?;
                    ins(doc, &b.path, "_delete", v);
                } else {
                    let mut p = b.path.clone();
                    p.push("_delete".into());
                    if cls.is_empty() || self.s.chance(50) {
                        let from = if self.s.chance(80) { &regs } else { &both };
                        let v = self.specs(from)?;
                        ins(doc, &p, "_registers", v);
                    } else {
                        let from = if self.s.chance(80) { &cls } else { &both };
                        let v = self.any(from)?;
                        let v = self.opt(v);
                        ins(doc, &p, "_clusters", if self.s.chance(50) { st(v) } else { list(vec![v]) });
                    }
                }
            }
            "delint" => {
                let mut p = b.path.clone();
                p.push("_delete".into());
                let v = self.specs(&b.ints)?;
                ins(doc, &p, "_interrupts", v);
            }
            "modint" => {
                let mut p = b.path.clone();
                p.push("_modify".into());
                p.push("_interrupts".into());
                let k = self.any(&b.ints)?;
                let v = self.int_props(false);
                ins(doc, &p, &k, v);
            }
            "addint" => {
                let mut p = b.path.clone();
                p.push("_add".into());
                p.push("_interrupts".into());
                let k = if self.s.chance(90) || b.ints.is_empty() {
                    gen_svd::fresh(self.s, &b.ints, &["IRQX", "IRQY", "TIM1_UP"])
                } else {
                    self.s.pick(&b.ints).clone()
                };
                let v = self.int_props(true);
                ins(doc, &p, &k, v);
            }
            "copy" => {
                let src = if self.s.chance(self.o.missing) || regs.is_empty() {
                    "NOSUCH".to_string()
                } else {
                    self.s.pick(&regs).clone()
                };
                let to = if self.s.chance(60) || regs.is_empty() {
                    gen_svd::fresh(self.s, &regs, &["CPY", "CPZ", "CR2"])
                } else {
                    self.s.pick(&regs).clone()
                };
                let Yaml::Hash(mut h) = self.reg_props(false, &b) else {
                    unreachable!()
                };
                for k in ["name", "derivedFrom", "displayName"] {
                    if !self.s.chance(3) {
                        h.remove(&st(k));
                    }
                }
                h.insert(st("_from"), st(src));
                let p = self.entry(&b, "_copy", "registers", 30);
                ins(doc, &p, &to, Yaml::Hash(h));
            }
            "strip" => {
                if both.is_empty() {
                    return None;
                }
                let t = self.s.pick(&both).clone();
                if t.is_empty() {
                    return None;
                }
                let end = self.s.chance(45);
                let n = self.s.range(1, 4.min(t.chars().count()));
                let c: Vec<char> = t.chars().collect();
                let mut p: Vec<char> = if end { c[c.len() - n..].to_vec() } else { c[..n].to_vec() };
                let v = if self.s.chance(15) {
                    // text that affixes add
                    if end { self.s.s(&["_S", "S", "_REG", "R"]) } else { self.s.s(&["P_", "P", "TIM_", "X"]) }
                } else if self.s.chance(12) {
                    match self.s.below(3) {
                        0 => "NOSUCH".to_string(),
                        1 => p.iter().collect::<String>().to_lowercase(),
                        _ => format!("{}Z", p.iter().collect::<String>()),
                    }
                } else if self.s.chance(self.o.wild / 2) {
                    let i = self.s.below(p.len());
                    p[i] = *self.s.pick(&['?', '*', '?']);
                    p.iter().collect()
                } else {
                    p.iter().collect()
                };
                if v.contains(['[', ']']) {
                    return None;
                }
                let y = if self.s.chance(50) { st(v) } else { list(vec![v]) };
                ins(doc, &b.path, if end { "_strip_end" } else { "_strip" }, y);
            }
            "affix" => {
                let (k, v) = if self.s.chance(50) {
                    ("_prefix", self.s.s(&["P_", "TIM_", "X"]))
                } else {
                    ("_suffix", self.s.s(&["_S", "_REG", "R"]))
                };
                ins(doc, &b.path, k, st(v));
            }
            "modreg" => {
                let t = self.any(&regs)?;
                let t = self.opt(t);
                let v = self.reg_props(false, &b);
                let p = self.entry(&b, "_modify", "registers", 25);
                ins(doc, &p, &t, v);
            }
            "modcl" => {
                let t = self.any(&cls)?;
                let t = self.opt(t);
                let v = self.cl_props(false, &b);
                let p = self.entry(&b, "_modify", "clusters", 50);
                ins(doc, &p, &t, v);
            }
            "clear" => {
                let v = if self.s.chance(30) {
                    st("*")
                } else {
                    let mut names = regs.clone();
                    for x in &b.kids {
                        if let RegisterCluster::Cluster(c) = x {
                            names.extend(reg_names(&c.children));
                        }
                    }
                    self.specs(&names)?
                };
                ins(doc, &b.path, "_clear_fields", v);
            }
            "addreg" => {
                let n = if self.s.chance(93) || regs.is_empty() {
                    gen_svd::fresh(self.s, &regs, &["NEWR", "ADDR1", "CR3", "NEWA%s", "NEWB[%s]"])
                } else {
                    self.s.pick(&regs).clone()
                };
                let Yaml::Hash(mut h) = self.reg_props(true, &b) else {
                    unreachable!()
                };
                if n.contains("%s") {
                    h.insert(st("dim"), Yaml::Integer(2));
                    h.insert(st("dimIncrement"), Yaml::Integer(4));
                }
                let p = self.entry(&b, "_add", "registers", 25);
                ins(doc, &p, &n, Yaml::Hash(h));
            }
            "addcl" => {
                let n = if self.s.chance(93) || cls.is_empty() {
                    gen_svd::fresh(self.s, &cls, &["NEWC", "ADDC", "NEWK%s"])
                } else {
                    self.s.pick(&cls).clone()
                };
                let v = self.cl_props(true, &b);
                let mut p = b.path.clone();
                p.push("_add".into());
                p.push("_clusters".into());
                ins(doc, &p, &n, v);
            }
            "derive" => {
                let src = if self.s.chance(self.o.missing) || regs.is_empty() {
                    "NOSUCH".to_string()
                } else {
                    self.s.pick(&regs).clone()
                };
                let src = match self.s.below(12) {
                    0 => format!("{}.{src}", b.periph),
                    1 | 2 => {
                        let c = if cls.is_empty() { "BLK".into() } else { self.s.pick(&cls).clone() };
                        format!("{c}.{src}")
                    }
                    3 => format!("OTHER.CLU.{src}"),
                    _ => src,
                };
                let to = if self.s.chance(65) {
                    self.any(&regs)?
                } else {
                    gen_svd::fresh(self.s, &regs, &["DNEW", "DNEX", "DARR%s"])
                };
                let to = self.opt(to);
                let new = !regs.iter().any(|r| *r == to);
                let v = if !new && self.s.chance(50) {
                    st(src)
                } else {
                    let Yaml::Hash(mut h) = self.reg_props(new, &b) else {
                        unreachable!()
                    };
                    h.remove(&st("name"));
                    h.remove(&st("derivedFrom"));
                    if self.s.chance(80) {
                        h.remove(&st("fields"));
                    }
                    h.insert(st("_from"), st(src));
                    Yaml::Hash(h)
                };
                let p = self.entry(&b, "_derive", "registers", 25);
                ins(doc, &p, &to, v);
            }
            "expand_array" => {
                let arr: Vec<String> = b
                    .kids
                    .iter()
                    .filter_map(|x| match x {
                        RegisterCluster::Register(r) if r.is_array() => Some(r.name.clone()),
                        _ => None,
                    })
                    .collect();
                let k = self.any(&arr)?;
                let mut p = b.path.clone();
                p.push("_expand_array".into());
                ins(doc, &p, &k, mp(vec![]));
            }
            "array" => {
                let fam: Vec<_> = families(regs.iter().map(|s| s.as_str()));
                let big: Vec<_> = fam.iter().filter(|f| f.2.len() > 1).cloned().collect();
                let fam = if big.is_empty() || self.s.chance(15) { fam } else { big };
                if fam.is_empty() {
                    return None;
                }
                let (a, z, idx) = self.s.pick(&fam).clone();
                let t = self.token(&idx);
                let pat = if self.s.chance(5) {
                    idx.iter().map(|i| format!("{a}{i}{z}")).collect::<Vec<_>>().join(",")
                } else if self.s.chance(self.o.missing) {
                    format!("NO{a}{t}{z}")
                } else {
                    format!("{a}{t}{z}")
                };
                let first = b.kids.iter().find_map(|x| match x {
                    RegisterCluster::Register(r) if r.name == format!("{a}{}{z}", idx[0]) => Some(r.clone()),
                    _ => None,
                });
                let mut h = vec![];
                if self.s.chance(40) {
                    h.push(("name".into(), st(self.s.s(&["ARRN%s", "ARRN[%s]", "%s_N"]))));
                }
                for k in ["description", "displayName"] {
                    if self.s.chance(45) {
                        let t = match self.s.below(4) {
                            0 => "_original".to_string(),
                            1 => "Item %s of all".to_string(),
                            _ => self.text(),
                        };
                        h.push((k.into(), st(t)));
                    }
                }
                if self.s.chance(20) {
                    h.push(("_start_from_zero".into(), Yaml::Boolean(self.s.chance(70))));
                }
                if self.s.chance(15) {
                    let v = *self.s.pick(&[4, 8]);
                    h.push(("dimIncrement".into(), self.num(v)));
                }
                if let Some(r) = first {
                    if self.s.chance(25) {
                        self.field_rules(&r, &mut h);
                    }
                }
                self.s.shuffle(&mut h);
                let mut p = b.path.clone();
                p.push("_array".into());
                let k = self.opt(pat);
                ins(doc, &p, &k, mp(h));
            }
            "cluster" => {
                let fam: Vec<_> = families(regs.iter().map(|s| s.as_str()));
                if fam.is_empty() {
                    return None;
                }
                let many: Vec<_> = fam.iter().filter(|f| f.2.len() > 1).cloned().collect();
                let from = if !many.is_empty() && self.s.chance(70) { &many } else { &fam };
                let (a, _, idx) = self.s.pick(from).clone();
                let mut group: Vec<_> = fam
                    .iter()
                    .filter(|f| f.0 == a && f.2.len() == idx.len())
                    .cloned()
                    .collect();
                self.s.shuffle(&mut group);
                let n = if self.s.chance(60) { group.len() } else { self.s.range(1, group.len()) };
                let mut h = vec![];
                if self.s.chance(50) {
                    h.push(("description".to_string(), st(self.text())));
                }
                if self.s.chance(if idx.len() == 1 { 85 } else { 10 }) {
                    let v = *self.s.pick(&[8, 0x10, 0x20]);
                    h.push(("dimIncrement".to_string(), self.num(v)));
                }
                for (pre, post, idx) in group.into_iter().take(n) {
                    let t = self.token(&idx);
                    let k = self.opt(format!("{pre}{t}{post}"));
                    let mut e = vec![];
                    if post.is_empty() || self.s.chance(40) {
                        let nm = if post.len() > 1 { post[1..].to_string() } else { self.s.s(&["REGA", "REGB"]) };
                        e.push(("name".to_string(), st(nm)));
                    }
                    if self.s.chance(35) {
                        e.push(("description".into(), st(self.text())));
                    }
                    if self.s.chance(20) {
                        let r = b.kids.iter().find_map(|x| match x {
                            RegisterCluster::Register(r) if r.name == format!("{pre}{}{post}", idx[0]) => Some(r.clone()),
                            _ => None,
                        });
                        if let Some(r) = r {
                            self.field_rules(&r, &mut e);
                        }
                    }
                    h.push((k, mp(e)));
                }
                if self.s.chance(8) {
                    h.push(("_strip".into(), st("REG")));
                }
                let name = self.s.s(&["KCL%s", "KCL[%s]", "CHN%s"]);
                let mut p = b.path.clone();
                p.push("_cluster".into());
                ins(doc, &p, &name, mp(h));
            }
            "cluster1" => {
                if regs.is_empty() {
                    return None;
                }
                let mut h = vec![];
                if self.s.chance(50) {
                    h.push(("description".to_string(), st(self.text())));
                }
                let mut names = regs.clone();
                self.s.shuffle(&mut names);
                let n = self.s.range(1, names.len().min(3));
                for nm in names.into_iter().take(n) {
                    if nm.contains("[%s]") {
                        continue;
                    }
                    let mut e = vec![];
                    if self.s.chance(40) {
                        let v = gen_svd::fresh(self.s, &regs, &["INA", "INB", "INC", "IND"]);
                        e.push(("name".to_string(), st(v)));
                    }
                    let pat = if self.s.chance(15) { self.pat(&nm, &regs) } else { nm };
                    h.push((self.opt(pat), mp(e)));
                }
                let name = self.s.s(&["ONE", "TWO"]);
                let mut p = b.path.clone();
                p.push("_cluster".into());
                ins(doc, &p, &name, mp(h));
            }
            "expand_cluster" => {
                let arr: Vec<String> = b
                    .kids
                    .iter()
                    .filter_map(|x| match x {
                        RegisterCluster::Cluster(r) if r.is_array() => Some(r.name.clone()),
                        _ => None,
                    })
                    .collect();
                let arr = if arr.is_empty() && self.s.chance(10) { cls.clone() } else { arr };
                if b.chain.len() > 0 && self.s.chance(80) {
                    return None;
                }
                let k = self.any(&arr)?;
                let k = self.opt(k);
                if self.s.chance(35) {
                    let v = if self.s.chance(50) { st(k) } else { list(vec![k]) };
                    ins(doc, &b.path, "_expand_cluster", v);
                } else {
                    let mut h = vec![];
                    if self.s.chance(40) {
                        h.push(("_preindex".to_string(), st(self.s.s(&["", "X", "__"]))));
                    }
                    if self.s.chance(40) {
                        h.push(("_postindex".to_string(), st(self.s.s(&["", "Y", "__"]))));
                    }
                    if self.s.chance(35) {
                        let v = self.s.chance(70);
                        h.push(("_zeroindex".to_string(), self.boolean(v)));
                    }
                    if self.s.chance(20) {
                        let v = self.s.chance(70);
                        h.push(("_noprefix".to_string(), self.boolean(v)));
                    }
                    let mut p = b.path.clone();
                    p.push("_expand_cluster".into());
                    ins(doc, &p, &k, mp(h));
                }
            }
            _ => unreachable!(),
        }
        Some(())
    }

    fn rrule(&mut self, what: &str, doc: &mut Hash) -> Option<()> {
        let b = self.block()?;
        let need = !matches!(what, "add") || self.s.chance(10);
        let (path, r) = self.reg(&b, need)?;
        let names: Vec<String> = r.fields.iter().flatten().map(|f| f.name.clone()).collect();
        match what {
            "delete" => {
                let v = self.specs(&names)?;
                ins(doc, &path, "_delete", v);
            }
            "clear" => {
                let v = self.specs(&names)?;
                ins(doc, &path, "_clear", v);
            }
            "strip" => {
                let t = self.s.pick(&names).clone();
                let c: Vec<char> = t.chars().collect();
                if c.is_empty() {
                    return None;
                }
                let end = self.s.chance(45);
                let n = self.s.range(1, 3.min(c.len()));
                let mut p: Vec<char> = if end { c[c.len() - n..].to_vec() } else { c[..n].to_vec() };
                if self.s.chance(self.o.wild / 2) {
                    let i = self.s.below(p.len());
                    p[i] = *self.s.pick(&['?', '*', '?']);
                }
                let mut v: String = p.iter().collect();
                if self.s.chance(8) {
                    v = v.to_lowercase();
                } else if self.s.chance(15) {
                    v = if end { self.s.s(&["_S", "S", "_F", "R"]) } else { self.s.s(&["P_", "P", "F", "X"]) };
                }
                if v.contains(['[', ']']) {
                    return None;
                }
                let y = if self.s.chance(50) { st(v) } else { list(vec![v]) };
                ins(doc, &path, if end { "_strip_end" } else { "_strip" }, y);
            }
            "affix" => {
                let (k, v) = if self.s.chance(50) {
                    ("_prefix", self.s.s(&["P_", "F", "X"]))
                } else {
                    ("_suffix", self.s.s(&["_S", "_F", "R"]))
                };
                ins(doc, &path, k, st(v));
            }
            "modify" => {
                let (p, _) = self.fieldpat(&r)?;
                let v = self.field_props(false, Some(&b), Some(&r));
                let mut path = path;
                path.push("_modify".into());
                ins(doc, &path, &p, v);
            }
            "add" => {
                let n = if self.s.chance(93) || names.is_empty() {
                    gen_svd::fresh(self.s, &names, &["NEWF", "ADDF", "MODE", "NEWF%s"])
                } else {
                    self.s.pick(&names).clone()
                };
                let Yaml::Hash(mut h) = self.field_props(true, Some(&b), Some(&r)) else {
                    unreachable!()
                };
                if n.contains("%s") {
                    h.insert(st("dim"), Yaml::Integer(2));
                    h.insert(st("dimIncrement"), Yaml::Integer(8));
                }
                let mut path = path;
                path.push("_add".into());
                ins(doc, &path, &n, Yaml::Hash(h));
            }
            "derive" => {
                let f = if names.is_empty() { "MODE".into() } else { self.s.pick(&names).clone() };
                let rn = {
                    let v = reg_names(&b.kids);
                    self.s.pick(&v).clone()
                };
                let src = match self.s.below(8) {
                    0 => format!("{rn}.{f}"),
                    1 => format!("BLK.{rn}.{f}"),
                    2 => format!("{}.{rn}.{f}", b.periph),
                    3 => format!("{}.BLK.{rn}.{f}", b.periph),
                    _ => f,
                };
                let (p, hitf) = self.fieldpat(&r)?;
                let new = self.s.chance(35);
                let p = if new { self.s.s(&["DNEWF", "DNEWG", "DA%s"]) } else { p };
                if hitf.name == src {
                    return None;
                }
                let v = if !new && self.s.chance(55) {
                    st(src)
                } else {
                    let Yaml::Hash(mut h) = self.field_props(new, Some(&b), Some(&r)) else {
                        unreachable!()
                    };
                    h.remove(&st("name"));
                    h.remove(&st("derivedFrom"));
                    h.insert(st("_from"), st(src));
                    Yaml::Hash(h)
                };
                let mut path = path;
                path.push("_derive".into());
                ins(doc, &path, &p, v);
            }
            "merge" => {
                let (p, f) = self.fieldpat(&r)?;
                let p = p.trim_start_matches("?~").to_string();
                match self.s.below(5) {
                    0 => ins(doc, &path, "_merge", st(p)),
                    1 => ins(doc, &path, "_merge", list(vec![p])),
                    2 => {
                        let mut path = path;
                        path.push("_merge".into());
                        ins(doc, &path, "MERGED", st(p));
                    }
                    3 => {
                        let q = self.any(&names)?;
                        let mut path = path;
                        path.push("_merge".into());
                        ins(doc, &path, "MERGED2", list(vec![p, q]));
                    }
                    _ => {
                        // neighbours by name prefix
                        let c = f.name.chars().next()?;
                        ins(doc, &path, "_merge", list(vec![format!("{c}*")]));
                    }
                }
            }
            "split" => {
                let wide: Vec<String> = r
                    .fields
                    .iter()
                    .flatten()
                    .filter(|f| f.bit_range.width > 1 && f.is_single())
                    .map(|f| f.name.clone())
                    .collect();
                let p = if wide.is_empty() || self.s.chance(15) {
                    self.fieldpat(&r)?.0
                } else {
                    let t = self.s.pick(&wide).clone();
                    let p = self.pat(&t, &names);
                    self.opt(p)
                };
                match self.s.below(4) {
                    0 => ins(doc, &path, "_split", st(p)),
                    1 => ins(doc, &path, "_split", list(vec![p])),
                    _ => {
                        let mut h = vec![];
                        if self.s.chance(60) {
                            h.push(("name".to_string(), st(self.s.s(&["BIT%s", "B%s_X", "%s_B"]))));
                        }
                        if self.s.chance(60) {
                            h.push(("description".to_string(), st(self.s.s(&["Bit %s", "One", "%s of %s"]))));
                        }
                        let mut path = path;
                        path.push("_split".into());
                        ins(doc, &path, &p, mp(h));
                    }
                }
            }
            "enum" => {
                let (p, f) = self.fieldpat(&r)?;
                let w = f.bit_range.width;
                let v = match self.s.below(8) {
                    0 => vec![("_read".to_string(), mp(self.enum_body(&r, w, true)))],
                    1 => vec![("_write".to_string(), mp(self.enum_body(&r, w, true)))],
                    2 => vec![
                        ("_read".to_string(), mp(self.enum_body(&r, w, false))),
                        ("_write".to_string(), mp(self.enum_body(&r, w, false))),
                    ],
                    3 => vec![("_replace_enum".to_string(), mp(self.enum_body(&r, w, false)))],
                    4 if self.s.chance(50) => vec![(
                        self.s.s(&["_read", "_write"]),
                        mp(vec![("_replace_enum".to_string(), mp(self.enum_body(&r, w, false)))]),
                    )],
                    _ => self.enum_body(&r, w, true),
                };
                ins(doc, &path, &p, mp(v));
            }
            "range" => {
                let (p, f) = self.fieldpat(&r)?;
                let a = self.s.below(2) as i64;
                let m = (1i64 << f.bit_range.width.min(62)) - 1;
                let m = match self.s.below(20) {
                    0 | 1 => m + 5,
                    2 => *self.s.pick(&[0xFFFF_FFFF, 0x1_0000_0000, i64::MAX]),
                    _ => m,
                };
                let a = if self.s.chance(3) { *self.s.pick(&[m, 0x1_0000_0000]) } else { a };
                let v = Yaml::Array(vec![self.num(a), self.num(m)]);
                let mut d = doc.clone();
                let mut h = &mut d;
                // a range replaces what was there
                for k in &path {
                    match h.get_mut(&st(k.as_str())) {
                        Some(Yaml::Hash(x)) => h = x,
                        _ => {
                            ins(doc, &path, &p, v);
                            return Some(());
                        }
                    }
                }
                if h.contains_key(&st(p.as_str())) {
                    return None;
                }
                ins(doc, &path, &p, v);
            }
            "action" => {
                let (p, f) = self.fieldpat(&r)?;
                let w = f.bit_range.width;
                let mut h = vec![];
                for (ks, pr) in [
                    (&["_RM", "_RS", "_RC", "_RME"][..], 45),
                    (
                        &["_WM", "_WS", "_WC", "_W1S", "_W0C", "_W1C", "_W0S", "_W1T", "_W0T"][..],
                        75,
                    ),
                ] {
                    if self.s.chance(pr) {
                        let k = self.s.s(ks);
                        if self.s.chance(20) {
                            // plain values beside it
                            let plain = if k.starts_with("_R") { "_read" } else { "_write" };
                            h.push((plain.to_string(), mp(self.enum_body(&r, w, true))));
                            h.push((k, mp(vec![])));
                            if self.s.chance(50) {
                                let n = h.len();
                                h.swap(n - 1, n - 2);
                            }
                            continue;
                        }
                        let v = if self.s.chance(45) {
                            mp(vec![])
                        } else {
                            mp(self.enum_body(&r, w, true))
                        };
                        h.push((k, v));
                    }
                }
                if h.is_empty() {
                    return None;
                }
                ins(doc, &path, &p, mp(h));
            }
            "array" => {
                let fam: Vec<_> = families(names.iter().map(|s| s.as_str()));
                let big: Vec<_> = fam.iter().filter(|f| f.2.len() > 1).cloned().collect();
                let fam = if big.is_empty() || self.s.chance(10) { fam } else { big };
                if fam.is_empty() {
                    return None;
                }
                let (a, z, idx) = self.s.pick(&fam).clone();
                let t = self.token(&idx);
                let k = if self.s.chance(self.o.missing) {
                    format!("NO{a}{t}{z}")
                } else {
                    format!("{a}{t}{z}")
                };
                let k = self.opt(k);
                let mut h = vec![];
                if self.s.chance(40) {
                    h.push(("name".to_string(), st(self.s.s(&["FAR%s", "FAR[%s]", "%s_N"]))));
                }
                if self.s.chance(50) {
                    h.push(("description".to_string(), st(self.s.s(&["_original", "Item %s", "All"]))));
                }
                if self.s.chance(25) {
                    h.push(("_start_from_zero".to_string(), Yaml::Boolean(self.s.chance(70))));
                }
                let mut path = path;
                path.push("_array".into());
                ins(doc, &path, &k, mp(h));
            }
            _ => unreachable!(),
        }
        Some(())
    }
}

/// Some textual notation of a number.
pub fn number_text(s: &mut Src, v: u64) -> String {
    let under = |s: &mut Src, d: String| -> String {
        if d.len() < 2 || !s.chance(35) {
            return d;
        }
        // sometimes digit groups all along
        let p = *s.pick(&[10, 25, 60]);
        let mut o = String::new();
        for (i, c) in d.chars().enumerate() {
            if i > 0 && s.chance(p) {
                o.push('_');
            }
            o.push(c);
        }
        if s.chance(4) {
            o.push('_');
        }
        o
    };
    let zeros = if s.chance(15) { "00" } else { "" };
    match s.below(8) {
        0 | 1 => {
            let d = under(s, format!("{zeros}{v:x}"));
            format!("0x{d}")
        }
        2 => {
            let d = under(s, format!("{v:X}"));
            format!("0X{d}")
        }
        3 => {
            let d = under(s, format!("{zeros}{v:b}"));
            format!("0b{d}")
        }
        4 | 5 => {
            let hash = s.chance(66);
            let mut d = under(s, format!("{zeros}{v:b}"));
            if s.chance(50) {
                let p = *s.pick(&[10, 40, 100]);
                d = d
                    .chars()
                    .map(|c| match c {
                        '0' if s.chance(p) => if hash && s.chance(35) { 'X' } else { 'x' },
                        c => c,
                    })
                    .collect();
            }
            format!("{}{d}", if hash { "#" } else { "0b" })
        }
        _ => {
            let lead = if s.chance(5) { "0" } else { "" };
            under(s, format!("{lead}{v}"))
        }
    }
}

pub fn default_device(s: &mut Src, o: &DevOpt) -> Device {
    gen_svd::device(s, o)
}
