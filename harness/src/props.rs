//! The properties and their checks.
use crate::case::*;
use crate::gen_patch::{self, PatchOpt, Weights};
use crate::gen_svd::{self, DevOpt};
use crate::glob;
use crate::model::*;
use crate::patchcheck::*;
use crate::runner::*;
use crate::src::Src;

const ACCEPT: &str = "distinct by content of SVD, rules and options; non-trivial: at least one rule of the property's kinds changed the description when it was added to the rule file, or made it be rejected";

fn w(k: &[&'static str]) -> Weights {
    k.iter().map(|k| (*k, 10)).collect()
}
fn po(k: &[&'static str]) -> PatchOpt {
    PatchOpt {
        focus: w(k),
        ..Default::default()
    }
}
fn arrays() -> DevOpt {
    DevOpt {
        families: 90,
        regs: (2, 8),
        periphs: (1, 3),
        ..Default::default()
    }
}

pub fn property(id: &str) -> Option<Property> {
    let d = DevOpt::default;
    let (q, t) = (15000, 500_000);
    // the focus kinds alone, then mixed with everything else
    let two = |a: PatchOpt, dev: DevOpt| {
        let alone = PatchOpt {
            noise_pct: 0,
            rules: (1, 3),
            ..a.clone()
        };
        vec![
            sub("alone", alone, dev.clone(), q, t),
            sub("mixed", PatchOpt { noise_pct: 50, ..a }, dev, q / 2, t),
        ]
    };
    let mut rule = ACCEPT;
    let mut assumptions = vec![
        "the reference model of the rule language (harness/src/model) says what rules mean; inputs it leaves unspecified are skipped and counted",
        "the svd-parser and svd-encoder crates read and write SVD correctly (both sides are compared as parsed devices)",
    ];
    let (id, subs): (&'static str, Vec<Sub>) = match id {
        "C01" => ("C01", {
            rule = "distinct by content; non-trivial: a device with at least one register for the empty patch, and for the others at least one rule that changed the description or was rejected";
            let all = PatchOpt { others: true, ..Default::default() };
            vec![
                Sub { name: "empty", gen: Box::new(gen_empty), eval: eval_empty, quick: 4000, thorough: 100_000 },
                Sub { name: "repeat", gen: { let a = all.clone(); Box::new(move |s| gen_case(s, &a, &DevOpt::default())) }, eval: eval_repeat, quick: 4000, thorough: 100_000 },
                sub("frame", all, d(), q, t),
            ]
        }),
        "C02" => ("C02", {
            rule = "distinct by content; non-trivial: the pattern matches at least one but not all names of its level";
            vec![
                Sub { name: "names", gen: Box::new(gen_names), eval: eval_patch, quick: 40_000, thorough: 1_000_000 },
                sub("mixed", PatchOpt { wild: 95, ..Default::default() }, d(), q / 2, t),
            ]
        }),
        "C03" => ("C03", {
            rule = "distinct by content; non-trivial: the rule file is rejected, or has an optional rule";
            let a = PatchOpt { optional: 50, missing: 40, keep_err: 70, ..Default::default() };
            vec![
                sub_nt("missing", a.clone(), d(), q, t, nt_missing),
                sub_nt("deep", PatchOpt { deep: 80, ..a }, DevOpt { clusters: 80, ..d() }, q / 2, t, nt_missing),
            ]
        }),
        "C08" => ("C08", {
            rule = "distinct by content; non-trivial: the two orders differ and at least two rules changed the description";
            let a = PatchOpt { rules: (3, 9), keep_err: 5, sticky: 50, ..Default::default() };
            let same: Weights = gen_patch::ALL_KINDS.iter().filter(|k| !k.starts_with("d.")).map(|k| (*k, 10)).collect();
            let close = PatchOpt { sticky: 92, deep: 15, derived: 3, noise_pct: 10, focus: same, ..a.clone() };
            vec![
                Sub { name: "shuffled", gen: Box::new(move |s| gen_shuffled(s, &a, &DevOpt::default())), eval: eval_shuffled, quick: q, thorough: t },
                Sub { name: "one section", gen: Box::new(move |s| gen_shuffled(s, &close, &DevOpt { periphs: (1, 2), ..DevOpt::default() })), eval: eval_shuffled, quick: q, thorough: t },
            ]
        }),
        "C09" => ("C09", two(po(&["d.delete", "b.delete", "r.delete", "b.delint"]), d())),
        "C10" => ("C10", two(PatchOpt { others: true, ..po(&["d.modify", "d.cpu", "d.periph", "b.modreg", "b.modcl", "b.modint", "r.modify"]) }, d())),
        "C11" => ("C11", two(po(&["d.add", "b.addreg", "b.addcl", "b.addint", "r.add"]), d())),
        "C12" => ("C12", two(PatchOpt { others: true, ..po(&["d.copy", "b.copy"]) }, d())),
        "C13" => ("C13", two(po(&["d.derive", "d.rebase"]), DevOpt { derived: 50, periphs: (2, 6), regs: (0, 3), ..d() })),
        "C14" => ("C14", two(PatchOpt { keep_err: 20, ..po(&["b.array", "b.expand_array"]) }, arrays())),
        "C15" => ("C15", two(PatchOpt { keep_err: 45, ..po(&["b.cluster", "b.cluster1", "b.expand_cluster"]) }, DevOpt { clusters: 50, ..arrays() })),
        "C16" => ("C16", two(po(&["r.merge", "r.split"]), arrays())),
        "C17" => ("C17", two(PatchOpt { keep_err: 20, ..po(&["r.array"]) }, arrays())),
        "C18" => ("C18", two(PatchOpt { keep_err: 25, ..po(&["r.enum", "r.action"]) }, DevOpt { enums: 50, ..arrays() })),
        "C19" => ("C19", two(po(&["r.range", "r.action", "r.modify"]), DevOpt { constraints: 50, ..arrays() })),
        "C20" => ("C20", two(po(&["b.strip", "b.affix", "r.strip", "r.affix"]), d())),
        "C21" => ("C21", two(PatchOpt { derived: 30, ..po(&["d.clear", "b.clear", "r.clear"]) }, DevOpt { enums: 60, constraints: 50, derived: 40, clusters: 50, ..d() })),
        "C22" => ("C22", {
            rule = "distinct by content; non-trivial: a section of the rule file matches a derived peripheral or register";
            let block: Weights = gen_patch::ALL_KINDS.iter().filter(|k| !k.starts_with("d.")).map(|k| (*k, 10)).collect();
            let dev = DevOpt { derived: 70, periphs: (2, 4), ..d() };
            vec![
                sub_nt("sections", PatchOpt { focus: block.clone(), derived: 70, ..Default::default() }, dev.clone(), q, t, nt_derived),
                sub_nt("interrupts", PatchOpt { focus: w(&["b.delint", "b.modint", "b.addint", "b.delete", "d.periph"]), noise: block, derived: 80, wild: 60, ..Default::default() }, dev, q / 2, t, nt_derived),
            ]
        }),
        "C29" => ("C29", {
            rule = "distinct by content; non-trivial: the rule file has a number written as text, or a value of the wrong type";
            let a = PatchOpt { text_num: 80, focus: w(&["d.add", "d.modify", "d.cpu", "b.addreg", "b.addcl", "b.addint", "b.modreg", "b.modcl", "b.modint", "b.copy", "b.array", "b.cluster", "b.cluster1", "b.derive", "d.derive", "r.add", "r.modify", "r.derive", "r.array", "r.enum", "r.action", "r.range"]), ..Default::default() };
            vec![
                sub_nt("notation", a.clone(), d(), q, t, nt_notation),
                Sub { name: "one", gen: Box::new(gen_number), eval: eval_patch, quick: 30_000, thorough: 600_000 },
                sub_nt("wrong", PatchOpt { badtype: 100, rules: (1, 3), noise_pct: 20, ..a }, d(), q / 2, t, |_, g| g.tags.iter().any(|t| t.contains("badtype"))),
            ]
        }),
        "C30" => ("C30", {
            rule = "distinct by content; non-trivial: a rule with a path placeholder in it that changed the description or was rejected";
            let a = PatchOpt { placeholders: 90, wild: 60, deep: 45, focus: w(&["b.addreg", "b.addcl", "b.modreg", "b.modcl", "b.copy", "b.derive", "r.add", "r.modify", "r.derive", "r.merge", "r.split", "b.array", "b.cluster"]), ..Default::default() };
            vec![sub_nt("placeholders", a, DevOpt { clusters: 50, ..d() }, q, t, |c, g| g.nontrivial && c.yaml[0].1.contains('`'))]
        }),
        "C31" => ("C31", two(PatchOpt { derived: 20, deep: 40, ..po(&["b.derive", "r.derive"]) }, DevOpt { derived: 35, clusters: 45, ..d() })),
        "ALL" => ("ALL", vec![sub("all", PatchOpt { others: true, ..Default::default() }, d(), 1000, 1_000_000)]),
        id => {
            let (id, r, a, subs) = crate::clicheck::subs(id).or_else(|| crate::inccheck::subs(id)).or_else(|| crate::diag::subs(id)).or_else(|| crate::pycheck::subs(id))?;
            rule = r;
            assumptions = a;
            (id, subs)
        }
    };
    Some(Property { id, rule, assumptions, subs })
}

/// `sub` with its own notion of a case worth counting.
fn sub_nt(name: &'static str, po: PatchOpt, o: DevOpt, quick: u64, thorough: u64, nt: fn(&Case, &Gen) -> bool) -> Sub {
    Sub {
        name,
        gen: Box::new(move |s| {
            let mut g = gen_case(s, &po, &o)?;
            g.nontrivial = nt(&g.case, &g);
            Some(g)
        }),
        eval: eval_patch,
        quick,
        thorough,
    }
}

fn nt_missing(c: &Case, g: &Gen) -> bool {
    g.tags.iter().any(|t| t == "patch rejected") || c.yaml[0].1.contains("?~")
}
fn nt_notation(c: &Case, g: &Gen) -> bool {
    let t = &c.yaml[0].1;
    g.nontrivial
        && t.split('"').skip(1).step_by(2).any(|x| {
            x.starts_with(|c: char| c.is_ascii_digit() || c == '#') && crate::model::common::number(x).is_some()
        })
}
fn nt_derived(c: &Case, _: &Gen) -> bool {
    let (Ok(y), Ok(d)) = (parse_yaml(&c.yaml[0].1), parse_svd(&c.svd[0].1)) else {
        return false;
    };
    let Yaml::Hash(h) = y else { return false };
    let hit = |n: &str, s: &str| glob::matches(n, s.strip_prefix("?~").unwrap_or(s)) == Ok(true);
    h.iter().any(|(k, v)| {
        let (Yaml::String(k), Yaml::Hash(v)) = (k, v) else {
            return false;
        };
        !k.starts_with('_')
            && d.peripherals.iter().any(|p| {
                hit(&p.name, k)
                    && (p.derived_from.is_some()
                        || p.all_registers().any(|r| {
                            r.derived_from.is_some()
                                && v.keys().any(|k| matches!(k, Yaml::String(k) if !k.starts_with('_') && hit(&r.name, k)))
                        }))
            })
    })
}

// ---- C01
fn gen_empty(s: &mut Src) -> Option<Gen> {
    let dev = gen_svd::device(s, &DevOpt { odd_text: 15, regs: (0, 8), ..Default::default() });
    let mut case = Case::default();
    case.svd.push(("device.svd".into(), encode_svd(&dev).ok()?));
    case.yaml.push(("patch.yaml".into(), "{}\n".into()));
    case.set("derive", s.s(&["enum", "field", "none"]));
    let nontrivial = case.svd[0].1.contains("<register");
    Some(Gen { case, nontrivial, tags: vec![] })
}
fn eval_empty(c: &Case) -> Verdict {
    let xml = &c.svd[0].1;
    let Ok(doc) = parse_yaml(&c.yaml[0].1) else {
        return Verdict::skip("yaml");
    };
    match implementation(xml, &doc, c.opt("derive")) {
        Err(e) => Verdict::fail(format!("an empty patch fails: {e}")),
        Ok(t) => match compare(xml, &t) {
            Some(d) => Verdict::fail(format!("an empty patch changes the device: {d}")),
            None => Verdict::ok(),
        },
    }
}
fn eval_repeat(c: &Case) -> Verdict {
    let Ok(doc) = parse_yaml(&c.yaml[0].1) else {
        return Verdict::skip("yaml");
    };
    let doc = place(c, &doc);
    let a = implementation(&c.svd[0].1, &doc, c.opt("derive"));
    let b = implementation(&c.svd[0].1, &doc, c.opt("derive"));
    match (a, b) {
        (Ok(a), Ok(b)) if a != b => Verdict::fail(format!("two runs differ: {}", first_diff(&a, &b))),
        (Ok(_), Ok(_)) | (Err(_), Err(_)) => Verdict::ok(),
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => Verdict::fail(format!("only one of two runs fails: {e}")),
    }
}

// ---- C02
fn rname(s: &mut Src) -> String {
    let n = s.range(1, 5);
    let first = *s.pick(&['A', 'B', 'a', 'b', '_']);
    let mut t = String::from(first);
    for _ in 1..n {
        t.push(*s.pick(&['A', 'B', 'a', 'b', '1', '2', '0', '_', '.', '-']));
    }
    t
}
fn rpattern(s: &mut Src, names: &[String]) -> String {
    let mut alts = vec![];
    let nalt = *s.pick(&[1, 1, 1, 1, 2, 2, 3, 4, 5, 6]);
    let mut brace = false;
    for _ in 0..nalt {
        let base: Vec<char> = match s.chance(85) && !names.is_empty() {
            true => s.pick(names).chars().collect(),
            false => rname(s).chars().collect(),
        };
        let mut t = String::new();
        let mut i = 0;
        while i < base.len() {
            let c = base[i];
            match s.below(14) {
                0 => t.push('?'),
                1 => {
                    t.push('*');
                    i += s.below(3);
                }
                2 => t += &format!("[{}]", if c == '-' { 'x' } else { c }),
                3 => t += s.s(&["[AB]", "[ab]", "[0-9]", "[A-Z]", "[a-z]", "[!A]", "[!0-9]", "[!ab]", "[_A]", "[1-2]", "[A-B0-1]", "[^B]"]).as_str(),
                4 => {
                    brace = true;
                    let o = *s.pick(&['A', 'b', '1', '_']);
                    t += &match s.below(4) {
                        0 => format!("{{{c},{o}}}"),
                        1 => format!("{{{o},{c}}}"),
                        2 => format!("{{{c}{},{o}}}", base.get(i + 1).copied().unwrap_or('A')),
                        _ => format!("{{{c},?{o},*}}"),
                    };
                }
                5 => {
                    // changed case
                    t.push(if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                }
                6 => {
                    t.push(c);
                    t.push('*')
                }
                _ => t.push(c),
            }
            i += 1;
        }
        if t.starts_with('_') {
            t = format!("?{}", &t[1..]);
        }
        alts.push(t);
    }
    if brace && alts.len() > 1 {
        return format!("{{{}}}", alts.iter().map(|a| a.replace(['{', '}'], "").replace(",", "")).collect::<Vec<_>>().join(","));
    }
    alts.join(",")
}
fn gen_names(s: &mut Src) -> Option<Gen> {
    let level = s.below(5);
    let mut names: Vec<String> = vec![];
    for _ in 0..s.range(2, 8) {
        let n = rname(s);
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let spec = rpattern(s, &names);
    let fields = |n: &[String]| -> String {
        n.iter().enumerate().map(|(i, n)| format!("<field><name>{n}</name><bitOffset>{i}</bitOffset><bitWidth>1</bitWidth></field>")).collect()
    };
    let regs = |n: &[String], inner: &str| -> String {
        n.iter().enumerate().map(|(i, n)| format!("<register><name>{n}</name><addressOffset>{}</addressOffset>{inner}</register>", 4 * i)).collect()
    };
    let one = vec!["X".to_string()];
    let in_cluster = s.chance(25);
    let wrap = |inner: String| -> String {
        if in_cluster {
            format!("<cluster><name>CL</name><addressOffset>0x100</addressOffset>{inner}</cluster>")
        } else {
            inner
        }
    };
    let f = |i: &str| format!("<fields>{i}</fields>");
    let (pnames, contents) = match level {
        0 => (names.clone(), format!("<registers>{}</registers>", regs(&one, ""))),
        1 => (one.clone(), format!("<registers>{}</registers>", wrap(regs(&names, &f(&fields(&one)))))),
        2 => (one.clone(), format!("<registers>{}</registers>", wrap(names.iter().enumerate().map(|(i, n)| format!("<cluster><name>{n}</name><addressOffset>{}</addressOffset>{}</cluster>", 16 * i, regs(&one, ""))).collect()))),
        3 => (one.clone(), format!("<registers>{}</registers>", wrap(regs(&one, &f(&fields(&names)))))),
        _ => (one.clone(), names.iter().enumerate().map(|(i, n)| format!("<interrupt><name>{n}</name><value>{i}</value></interrupt>")).collect()),
    };
    let mut x = String::from("<device><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals>");
    for (i, n) in pnames.iter().enumerate() {
        x += &format!("<peripheral><name>{n}</name><baseAddress>{}</baseAddress>{contents}</peripheral>", 0x1000 * i);
    }
    x += "</peripherals></device>";
    let dev = parse_svd(&x).ok()?;
    let spec = if s.chance(15) { format!("?~{spec}") } else { spec };
    let e = emit_yaml(&Yaml::String(spec.clone()));
    let e = e.trim();
    let form = s.below(4);
    let rule = match level {
        0 => match form {
            0 => format!("_delete: [{e}]\n"),
            1 => format!("_modify:\n  {e}:\n    description: changed\n"),
            2 => format!("{e}:\n  _modify:\n    X:\n      description: changed\n"),
            _ => format!("_clear_fields: {e}\n{e}:\n  _suffix: _S\n"),
        },
        4 => match form {
            0 | 2 => format!("X:\n  _delete:\n    _interrupts: [{e}]\n"),
            _ => format!("X:\n  _modify:\n    _interrupts:\n      {e}:\n        description: changed\n"),
        },
        l => {
            let ind = if in_cluster { "    " } else { "  " };
            let head = if in_cluster {
                if l == 3 { "X:\n  _clusters:\n    CL:\n".to_string() } else { "X:\n  _clusters:\n    CL:\n".to_string() }
            } else {
                "X:\n".to_string()
            };
            let ind = if in_cluster { format!("{ind}  ") } else { ind.to_string() };
            let body: String = match (l, form) {
                (1, 0) => format!("_delete: [{e}]\n"),
                (1, 1) => format!("_modify:\n  {e}:\n    description: changed\n"),
                (1, 2) => format!("{e}:\n  _modify:\n    X:\n      description: changed\n"),
                (1, _) => format!("{e}:\n  X: [0, 1]\n"),
                (2, 0) => format!("_delete:\n  _clusters: [{e}]\n"),
                (2, 1) => format!("_modify:\n  _clusters:\n    {e}:\n      description: changed\n"),
                (2, _) => format!("_clusters:\n  {e}:\n    X:\n      _suffix: _S\n    _modify:\n      X:\n        description: changed\n"),
                (_, 0) => format!("X:\n  _delete: [{e}]\n"),
                (_, 1) => format!("X:\n  _modify:\n    {e}:\n      description: changed\n"),
                (_, 2) => format!("X:\n  {e}:\n    A: [0, first]\n    B: [1, second]\n"),
                (_, _) => format!("X:\n  {e}: [0, 1]\n"),
            };
            head + &body.lines().map(|l| format!("{ind}{l}\n")).collect::<String>()
        }
    };
    let n = names.iter().filter(|n| glob::matches(n, spec.strip_prefix("?~").unwrap_or(&spec)) == Ok(true)).count();
    let mut case = Case::default();
    case.svd.push(("device.svd".into(), encode_svd(&dev).ok()?));
    case.yaml.push(("patch.yaml".into(), rule));
    case.set("derive", s.s(&["enum", "field", "none"]));
    let tags = vec![format!("{} at level {}", match n {
        0 => "matches none",
        n if n == names.len() => "matches all",
        _ => "matches some",
    }, ["peripheral", "register", "cluster", "field", "interrupt"][level])];
    Some(Gen { case, nontrivial: n > 0 && n < names.len(), tags })
}

// ---- C29
/// One number, written in one of the notations or in something like one.
fn gen_number(s: &mut Src) -> Option<Gen> {
    let v = match s.below(5) {
        0 => s.below(2) as u64,
        1 => s.below(20) as u64,
        2 => s.below(1 << 16) as u64,
        3 => s.below(1 << 30) as u64,
        _ => (s.below(1 << 30) as u64) << 33 | s.below(1 << 30) as u64,
    };
    let mut t: Vec<char> = gen_patch::number_text(s, v).chars().collect();
    let odd = s.chance(35);
    if odd {
        for _ in 0..s.range(1, 2) {
            let at = s.below(t.len() + 1);
            match s.below(4) {
                0 if at < t.len() => {
                    t.remove(at);
                }
                1 if at < t.len() => t[at] = *s.pick(&['x', 'X', '#', 'b', 'B', '2', 'f', 'F', 'g', '-', '+', '.', ' ', 'e', '0', 'o', '_']),
                2 => t.insert(at, *s.pick(&['x', 'X', '#', '0', '1', '_', '-', '+', ' ', 'h', 'u', 'L', 'o'])),
                _ => t.insert(0, *s.pick(&['-', '#', '0', '_', '+'])),
            }
        }
    }
    let t: String = t.into_iter().collect();
    // signs other than a leading minus have no meaning that anyone relies on
    if t.contains('+') || t.trim_start_matches('_').chars().skip(1).any(|c| c == '-') {
        return None;
    }
    let e = emit_yaml(&Yaml::String(t.clone()));
    let e = e.trim();
    let rule = match s.below(5) {
        0 => format!("P:\n  _modify:\n    A:\n      resetValue: {e}\n"),
        1 => format!("P:\n  _modify:\n    A:\n      resetMask: {e}\n"),
        2 => format!("P:\n  A:\n    F:\n      V: [{e}, \"d\"]\n"),
        3 => format!("P:\n  A:\n    F: [0, {e}]\n"),
        _ => format!("_modify:\n  P:\n    baseAddress: {e}\n"),
    };
    let x = "<device><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals><peripheral><name>P</name><baseAddress>4096</baseAddress><registers><register><name>A</name><addressOffset>0</addressOffset><size>64</size><fields><field><name>F</name><bitOffset>0</bitOffset><bitWidth>64</bitWidth></field></fields></register></registers></peripheral></peripherals></device>";
    let mut case = Case::default();
    case.svd.push(("device.svd".into(), encode_svd(&parse_svd(x).ok()?).ok()?));
    case.yaml.push(("patch.yaml".into(), rule));
    case.set("derive", "enum");
    let n = crate::model::common::number(&t);
    let tags = vec![match n {
        Some(_) if odd => "altered text that is a number".to_string(),
        Some(_) => "number".into(),
        None => "no number".into(),
    }];
    Some(Gen { case, nontrivial: true, tags })
}

// ---- C08
/// Move the directives of every mapping to other places; entries that are applied in file
/// order (sections, and the entries of rules) keep their relative order.
fn shuffle(s: &mut Src, y: &Yaml, kind: Kind) -> Yaml {
    use yaml_rust::yaml::Hash;
    let Yaml::Hash(h) = y else { return y.clone() };
    let entries: Vec<(Yaml, Yaml)> = h
        .iter()
        .map(|(k, v)| {
            let key = k.as_str().unwrap_or("");
            (k.clone(), shuffle(s, v, kind.child(key)))
        })
        .collect();
    let out: Vec<(Yaml, Yaml)> = match kind {
        Kind::Fixed => entries,
        Kind::Device | Kind::Block | Kind::Reg => {
            let (mut dirs, secs): (Vec<_>, Vec<_>) = entries.into_iter().partition(|(k, _)| k.as_str().is_some_and(directive));
            for i in (1..dirs.len()).rev() {
                dirs.swap(i, s.below(i + 1));
            }
            let mut out: Vec<(Yaml, Yaml)> = secs;
            for d in dirs {
                let at = s.below(out.len() + 1);
                out.insert(at, d);
            }
            out
        }
    };
    let mut r = Hash::new();
    for (k, v) in out {
        r.insert(k, v);
    }
    Yaml::Hash(r)
}
#[derive(Clone, Copy)]
enum Kind {
    Device,
    Block,
    Reg,
    Fixed,
}
impl Kind {
    fn child(self, key: &str) -> Kind {
        match (self, directive(key)) {
            (Kind::Device, false) => Kind::Block,
            (Kind::Block, false) => Kind::Reg,
            _ => Kind::Fixed,
        }
    }
}
fn gen_shuffled(s: &mut Src, po: &PatchOpt, dev: &DevOpt) -> Option<Gen> {
    let mut g = gen_case(s, po, dev)?;
    let doc = parse_yaml(&g.case.yaml[0].1).ok()?;
    let mut other = shuffle(s, &doc, Kind::Device);
    // cluster sections are blocks again
    fn clusters(s: &mut Src, y: &mut Yaml, top: bool) {
        if let Yaml::Hash(h) = y {
            for (k, v) in h.iter_mut() {
                let k = k.as_str().unwrap_or("");
                if k == "_clusters" {
                    if let Yaml::Hash(m) = v {
                        for (_, c) in m.iter_mut() {
                            *c = shuffle(s, c, Kind::Block);
                            clusters(s, c, false);
                        }
                    }
                } else if top && !directive(k) {
                    clusters(s, v, false);
                }
            }
        }
    }
    clusters(s, &mut other, true);
    let text = emit_yaml(&other);
    g.nontrivial = text != g.case.yaml[0].1 && g.tags.iter().filter(|t| t.starts_with("effective")).count() >= 2;
    g.case.yaml.push(("shuffled.yaml".into(), text));
    Some(g)
}
fn eval_shuffled(c: &Case) -> Verdict {
    let v = eval_patch(c);
    if v.skip.is_some() || v.fail.is_some() || c.yaml.len() < 2 {
        return v;
    }
    let (Ok(a), Ok(b)) = (parse_yaml(&c.yaml[0].1), parse_yaml(&c.yaml[1].1)) else {
        return Verdict::skip("yaml");
    };
    if !same_rules(&a, &b) {
        return Verdict::skip("not a reordering");
    }
    let x = &c.svd[0].1;
    match (implementation(x, &a, c.opt("derive")), implementation(x, &b, c.opt("derive"))) {
        (Err(_), Err(_)) => Verdict::ok(),
        (Ok(a), Ok(b)) => match compare(&a, &b) {
            None => Verdict::ok(),
            Some(d) => Verdict::fail(format!("the order of directives matters: {d}")),
        },
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => Verdict::fail(format!("only one order is accepted: {e}")),
    }
}
/// Same rules, sections in the same order.
fn same_rules(a: &Yaml, b: &Yaml) -> bool {
    fn same(a: &Yaml, b: &Yaml, kind: Kind) -> bool {
        match (a, b) {
            (Yaml::Hash(x), Yaml::Hash(y)) => {
                let key = |k: &Yaml| k.as_str().unwrap_or("").to_string();
                let dir = |k: &String| directive(k) && !matches!(kind, Kind::Fixed);
                let sx: Vec<String> = x.keys().map(key).filter(|k| !dir(k)).collect();
                let sy: Vec<String> = y.keys().map(key).filter(|k| !dir(k)).collect();
                sx == sy
                    && x.len() == y.len()
                    && x.iter().all(|(k, v)| {
                        let t = key(k);
                        y.get(k).is_some_and(|w| {
                            if t == "_clusters" {
                                match (v, w) {
                                    (Yaml::Hash(v), Yaml::Hash(w)) => {
                                        v.keys().eq(w.keys()) && v.iter().all(|(k, v)| w.get(k).is_some_and(|w| same(v, w, Kind::Block)))
                                    }
                                    _ => v == w,
                                }
                            } else {
                                same(v, w, kind.child(&t))
                            }
                        })
                    })
            }
            _ => a == b,
        }
    }
    same(a, b, Kind::Device)
}
