//! Rules of peripherals and clusters.
use super::*;

const BLOCK_KEYS: &[&str] = &[
    "_include", "_path", "_delete", "_copy", "_strip", "_strip_end", "_prefix", "_suffix",
    "_modify", "_clear_fields", "_add", "_derive", "_expand_array", "_expand_cluster", "_array",
    "_cluster", "_clusters",
];
type RC = RegisterCluster;

fn regs_hit(c: &[RC], spec: &str) -> R<Vec<usize>> {
    let mut v = vec![];
    for (i, x) in c.iter().enumerate() {
        if let RC::Register(r) = x {
            if hit(&r.name, spec)? {
                v.push(i);
            }
        }
    }
    Ok(v)
}
fn clusters_hit(c: &[RC], spec: &str) -> R<Vec<usize>> {
    let mut v = vec![];
    for (i, x) in c.iter().enumerate() {
        if let RC::Cluster(r) = x {
            if hit(&r.name, spec)? {
                v.push(i);
            }
        }
    }
    Ok(v)
}
fn reg_mut(c: &mut RC) -> &mut Register {
    match c {
        RC::Register(r) => r,
        _ => unreachable!(),
    }
}
fn cluster_mut(c: &mut RC) -> &mut Cluster {
    match c {
        RC::Cluster(r) => r,
        _ => unreachable!(),
    }
}
fn reg_named(c: &[RC], name: &str) -> Option<usize> {
    c.iter()
        .position(|x| matches!(x, RC::Register(r) if r.name == name))
}

/// All registers of a block, clusters included.
pub fn clear_all(c: &mut [RC], spec: &str) -> R<()> {
    for x in c {
        match x {
            RC::Register(r) => {
                if hit(&r.name, spec)? && r.derived_from.is_none() {
                    reg::clear(r, "*")?;
                }
            }
            RC::Cluster(k) => clear_all(&mut k.children, spec)?,
        }
    }
    Ok(())
}

pub fn process_peripheral(p: &mut Peripheral, h: &Hash, ctx: &Ctx) -> R<()> {
    let at = At {
        periph: p.name.clone(),
        ..Default::default()
    };
    if p.derived_from.is_some() {
        if let Some(Yaml::Hash(d)) = h.at("_delete") {
            del_int(p, &d.strings("_interrupts")?)?;
        }
        if let Some(Yaml::Hash(m)) = h.at("_modify") {
            mod_int(p, m)?;
        }
        if let Some(Yaml::Hash(a)) = h.at("_add") {
            add_int(p, a)?;
        }
        return Ok(());
    }
    // interrupts first: they do not interact with anything else
    if let Some(Yaml::Hash(d)) = h.at("_delete") {
        del_int(p, &d.strings("_interrupts")?)?;
    }
    if h.at("_modify").is_some() {
        mod_int(p, to_map(h.at("_modify").unwrap()).or(unspec("_modify"))?)?;
    }
    if h.at("_add").is_some() {
        add_int(p, to_map(h.at("_add").unwrap()).or(unspec("_add"))?)?;
    }
    early(&mut p.registers, h, &at, true)?;
    // register sections
    let mut none = vec![];
    sections(p.registers.as_mut().unwrap_or(&mut none), h, &at, ctx, true)?;
    late(&mut p.registers, h, &at, ctx)?;
    let mut none = vec![];
    cluster_sections(p.registers.as_mut().unwrap_or(&mut none), h, &at, ctx)?;
    expand_clusters(&mut p.registers, h)?;
    Ok(())
}

fn del_int(p: &mut Peripheral, specs: &[String]) -> R<()> {
    for s in specs {
        let mut keep = vec![];
        for i in p.interrupt.drain(..) {
            if !hit(&i.name, s)? {
                keep.push(i);
            }
        }
        p.interrupt = keep;
    }
    Ok(())
}
fn mod_int(p: &mut Peripheral, m: &Hash) -> R<()> {
    if m.at("_interrupts").is_none() {
        return Ok(());
    }
    to_map(m.at("_interrupts").unwrap())?;
    for (s, v) in m.entries("_interrupts")? {
        let v = to_map(&v)?;
        for i in p.interrupt.iter_mut() {
            if hit(&i.name, &s)? {
                i.modify_from(int_builder(v)?, LVL)?;
            }
        }
    }
    Ok(())
}
fn add_int(p: &mut Peripheral, m: &Hash) -> R<()> {
    if m.at("_interrupts").is_none() {
        return Ok(());
    }
    to_map(m.at("_interrupts").unwrap())?;
    for (n, v) in m.entries("_interrupts")? {
        if p.interrupt.iter().any(|i| i.name == n) {
            return err("interrupt exists");
        }
        let i = int_builder(to_map(&v)?)?.name(n).build(LVL)?;
        p.interrupt.push(i);
    }
    Ok(())
}

fn process_cluster(c: &mut Cluster, h: &Hash, parent: &At, ctx: &Ctx) -> R<()> {
    let at = parent.with_cluster(&c.name);
    let mut ch = Some(std::mem::take(&mut c.children));
    early(&mut ch, h, &at, false)?;
    cluster_sections(ch.as_mut().unwrap(), h, &at, ctx)?;
    sections(ch.as_mut().unwrap(), h, &at, ctx, false)?;
    late(&mut ch, h, &at, ctx)?;
    c.children = ch.unwrap();
    Ok(())
}

fn sections(c: &mut Vec<RC>, h: &Hash, at: &At, ctx: &Ctx, periph: bool) -> R<()> {
    for (k, v) in h {
        let k = to_str(k)?;
        if BLOCK_KEYS.contains(&k) || (periph && k == "_interrupts") {
            continue;
        }
        let (spec, opt) = optional(k);
        let v = to_map(v)?;
        let rs = regs_hit(c, spec)?;
        if !rs.is_empty() {
            for i in rs {
                reg::process(reg_mut(&mut c[i]), v, at, ctx)?;
            }
            continue;
        }
        let cs = clusters_hit(c, spec)?;
        if cs.is_empty() && !opt {
            return err(format!("{k}: nothing found"));
        }
        for i in cs {
            process_cluster(cluster_mut(&mut c[i]), v, at, ctx)?;
        }
    }
    Ok(())
}

fn cluster_sections(c: &mut Vec<RC>, h: &Hash, at: &At, ctx: &Ctx) -> R<()> {
    for (k, v) in h.entries("_clusters")? {
        let (spec, opt) = optional(&k);
        let v = to_map(&v)?;
        let cs = clusters_hit(c, spec)?;
        if cs.is_empty() && !opt {
            return err(format!("{k}: no such cluster"));
        }
        for i in cs {
            process_cluster(cluster_mut(&mut c[i]), v, at, ctx)?;
        }
    }
    Ok(())
}

type Kids = Option<Vec<RC>>;
fn kids(c: &mut Kids) -> R<&mut Vec<RC>> {
    c.as_mut().ok_or_else(|| E::Err("no registers".into()))
}
fn remove(c: &mut Vec<RC>, regs: bool, clusters: bool, spec: &str) -> R<usize> {
    let mut keep = vec![];
    let n = c.len();
    for x in std::mem::take(c) {
        let gone = match &x {
            RC::Register(r) => regs && hit(&r.name, spec)?,
            RC::Cluster(k) => clusters && hit(&k.name, spec)?,
        };
        if !gone {
            keep.push(x);
        }
    }
    *c = keep;
    Ok(n - c.len())
}

/// (child name, value, kind) of a rule that has untyped and typed entries
fn typed(h: &Hash, key: &str) -> R<Vec<(char, String, Yaml)>> {
    let mut out = vec![];
    for (k, v) in h.entries(key)? {
        match k.as_str() {
            "_registers" | "_clusters" | "_interrupts" => {
                let kind = k.chars().nth(1).unwrap();
                for (k2, v2) in to_map(&v)? {
                    out.push((kind, to_str(k2)?.to_string(), v2.clone()));
                }
            }
            _ => out.push(('?', k, v)),
        }
    }
    Ok(out)
}

/// How many characters of `name` a strip pattern removes from its start.
pub fn strip_len(name: &str, pat: &str) -> R<Option<usize>> {
    let mut ends: Vec<usize> = name.char_indices().map(|(i, _)| i).collect();
    ends.push(name.len());
    for e in ends {
        if glob::glob(&name[..e], pat).map_err(E::Unspec)? {
            return Ok(Some(e));
        }
    }
    Ok(None)
}
pub fn strip_end_len(name: &str, pat: &str) -> R<Option<usize>> {
    let mut starts: Vec<usize> = name.char_indices().map(|(i, _)| i).collect();
    starts.push(name.len());
    for s in starts.into_iter().rev() {
        if glob::glob(&name[s..], pat).map_err(E::Unspec)? {
            return Ok(Some(s));
        }
    }
    Ok(None)
}
pub fn strip1(name: &mut String, pat: &str, end: bool) -> R<()> {
    if end {
        if let Some(n) = strip_end_len(name, pat)? {
            name.truncate(n);
        }
    } else if let Some(n) = strip_len(name, pat)? {
        *name = name[n..].to_string();
    }
    Ok(())
}

fn strip(c: &mut Kids, pat: &str, end: bool) -> R<()> {
    for x in c.iter_mut().flatten() {
        match x {
            RC::Register(r) => {
                let r: &mut RegisterInfo = r;
                strip1(&mut r.name, pat, end)?;
                for n in [&mut r.display_name, &mut r.alternate_register]
                    .into_iter()
                    .flatten()
                {
                    strip1(n, pat, end)?;
                }
            }
            RC::Cluster(k) => {
                let k: &mut ClusterInfo = k;
                strip1(&mut k.name, pat, end)?;
                for n in [&mut k.header_struct_name, &mut k.alternate_cluster]
                    .into_iter()
                    .flatten()
                {
                    strip1(n, pat, end)?;
                }
            }
        }
    }
    Ok(())
}

fn early(c: &mut Kids, h: &Hash, at: &At, periph: bool) -> R<()> {
    match h.at("_delete") {
        None => {}
        Some(Yaml::Hash(d)) => {
            for s in d.strings("_registers")? {
                remove(kids(c)?, true, false, &s)?;
            }
            for s in d.strings("_clusters")? {
                let (s, opt) = optional(&s);
                if remove(kids(c)?, false, true, s)? == 0 && !opt {
                    return err("no cluster to delete");
                }
            }
            for (k, _) in d {
                if !matches!(to_str(k)?, "_registers" | "_clusters" | "_interrupts") {
                    return err("_delete key");
                }
            }
        }
        _ => {
            for s in h.strings("_delete")? {
                if s.starts_with("?~") {
                    return unspec("?~ in delete");
                }
                remove(kids(c)?, true, true, &s)?;
            }
        }
    }
    for (kind, name, v) in typed(h, "_copy")? {
        if kind == 'c' || kind == 'i' {
            return unspec("cluster copy");
        }
        copy_reg(c, &name, to_map(&v)?, at)?;
    }
    for s in h.strings("_strip")? {
        strip(c, &s, false)?;
    }
    for s in h.strings("_strip_end")? {
        strip(c, &s, true)?;
    }
    if let Some(p) = h.text("_prefix")? {
        affix(c, |n| n.insert_str(0, p));
    }
    if let Some(p) = h.text("_suffix")? {
        affix(c, |n| n.push_str(p));
    }
    for (kind, name, v) in typed(h, "_modify")? {
        if kind == 'i' {
            if periph {
                continue;
            }
            return unspec("interrupts in a cluster");
        }
        let v = to_map(&v)?;
        let (spec, opt) = optional(&name);
        let mut none = vec![];
        let c = c.as_mut().unwrap_or(&mut none);
        let rs = if kind == 'c' { vec![] } else { regs_hit(c, spec)? };
        let cs = if kind == 'r' || !rs.is_empty() {
            vec![]
        } else {
            clusters_hit(c, spec)?
        };
        if rs.is_empty() && cs.is_empty() {
            if !opt {
                return err(format!("{name}: nothing to modify"));
            }
            // whether the body of a skipped rule is looked at is left open
            if dims(v).is_err() || reg_builder(v, Some(at)).is_err() || cluster_builder(v, Some(at)).is_err() {
                return unspec("bad body of a skipped modification");
            }
            continue;
        }
        for i in rs {
            modify_reg(reg_mut(&mut c[i]), v, at)?;
        }
        for i in cs {
            let k = cluster_mut(&mut c[i]);
            set_dims(k, &dims(v)?)?;
            k.modify_from(cluster_builder(v, Some(at))?, LVL)?;
        }
    }
    for s in h.strings("_clear_fields")? {
        if let Some(c) = c {
            clear_all(c, &s)?;
        }
    }
    for (kind, name, v) in typed(h, "_add")? {
        let v = to_map(&v)?;
        let new = match kind {
            'i' if periph => continue,
            'i' => return unspec("interrupts in a cluster"),
            'c' => {
                if !clusters_hit_exact(c, &name).is_empty() {
                    return err("cluster exists");
                }
                let k = cluster_builder(v, Some(at))?
                    .name(name.clone())
                    .build(LVL)?;
                RC::Cluster(match dims(v)? {
                    Some(d) => k.array(d.build(LVL)?),
                    None => k.single(),
                })
            }
            _ => {
                if reg_named(c.as_deref().unwrap_or(&[]), &name).is_some() {
                    return err("register exists");
                }
                RC::Register(new_reg(&name, v, Some(at))?)
            }
        };
        let off = |x: &RC| match x {
            RC::Register(r) => r.address_offset as u64,
            RC::Cluster(k) => k.address_offset as u64,
        };
        let c = c.get_or_insert_with(Vec::new);
        let keys: Vec<u64> = c.iter().map(off).collect();
        let pos = insert_pos(&keys, off(&new));
        c.insert(pos, new);
    }
    for (kind, name, v) in typed(h, "_derive")? {
        if kind == 'c' || kind == 'i' {
            return unspec("cluster derive");
        }
        derive_reg(c, &name, &v, at)?;
    }
    Ok(())
}

fn clusters_hit_exact(c: &Kids, name: &str) -> Vec<usize> {
    c.iter()
        .flatten()
        .enumerate()
        .filter(|(_, x)| matches!(x, RC::Cluster(k) if k.name == name))
        .map(|(i, _)| i)
        .collect()
}

fn affix(c: &mut Kids, f: impl Fn(&mut String)) {
    for x in c.iter_mut().flatten() {
        if let RC::Register(r) = x {
            f(&mut r.name);
            r.display_name.as_mut().map(&f);
            r.alternate_register.as_mut().map(&f);
        }
    }
}

fn modify_reg(r: &mut Register, v: &Hash, at: &At) -> R<()> {
    set_dims(r, &dims(v)?)?;
    r.modify_from(reg_builder(v, Some(at))?, LVL)?;
    if v.text("access")? == Some("") {
        r.properties.access = None;
    }
    Ok(())
}

fn copy_reg(c: &mut Kids, name: &str, h: &Hash, at: &At) -> R<()> {
    let Some(from) = h.text("_from")? else {
        return err("copy without _from");
    };
    let Some(src) = reg_named(c.as_deref().unwrap_or(&[]), from) else {
        return err("copy source missing");
    };
    let c = c.as_mut().unwrap();
    let RC::Register(mut new) = c[src].clone() else {
        unreachable!()
    };
    let b = reg_builder(h, Some(at))?
        .name(name.into())
        .display_name(Some(String::new()));
    new.modify_from(b, LVL)?;
    match reg_named(c, name) {
        Some(i) => {
            let r = reg_mut(&mut c[i]);
            new.address_offset = r.address_offset;
            *r = new;
        }
        None => c.push(RC::Register(new)),
    }
    Ok(())
}

pub fn dimable(name: &str) -> bool {
    let head = |s: &str| s.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic());
    let tail = |s: &str| s.chars().all(|c| c == '_' || c.is_ascii_alphanumeric());
    let ident = |s: &str| head(s) && tail(s);
    if name == "%s" {
        return true;
    }
    if let Some(r) = name.strip_prefix("%s") {
        return ident(r);
    }
    if let Some(r) = name.strip_suffix("[%s]") {
        return ident(r);
    }
    match name.split_once("%s") {
        None => ident(name),
        Some((a, b)) => ident(a) && tail(b),
    }
}

fn derive_reg(c: &mut Kids, name: &str, v: &Yaml, at: &At) -> R<()> {
    let (spec, opt) = optional(name);
    let full = |s: &str| -> String {
        let parts: Vec<&str> = s.split('.').collect();
        if parts.len() == 2 && !at.clusters.is_empty() {
            let mut p = at.clone();
            *p.clusters.last_mut().unwrap() = parts[0].to_string();
            format!("{}.{}", p.block(), parts[1])
        } else {
            s.to_string()
        }
    };
    let (src, b, d) = match v {
        Yaml::String(s) => (s.clone(), RegisterInfo::builder(), None),
        Yaml::Hash(h) => {
            let Some(s) = h.text("_from")? else {
                return err("derive without _from");
            };
            (s.to_string(), reg_builder(h, Some(at))?, dims(h)?)
        }
        _ => return err("bad derive"),
    };
    let b = b.derived_from(Some(full(&src)));
    let have = c.as_deref().unwrap_or(&[]);
    let mut src_derived: Option<String> = None;
    if !src.contains('.') {
        match reg_named(have, &src) {
            None => return err("derive source missing"),
            Some(i) => {
                if let RC::Register(r) = &have[i] {
                    src_derived = r.derived_from.clone();
                }
            }
        }
    }
    let rs = regs_hit(have, spec)?;
    let mut names = vec![];
    for i in &rs {
        let r = reg_mut(&mut c.as_mut().unwrap()[*i]);
        if r.name == src {
            return unspec("derive from itself");
        }
        names.push(r.name.clone());
        set_dims(r, &d)?;
        r.modify_from(b.clone(), LVL)?;
    }
    if src_derived.is_some_and(|s| names.contains(&s)) {
        return unspec("derivation cycle");
    }
    if rs.is_empty() && !opt {
        if !dimable(spec) {
            return err("bad name");
        }
        let r = b.clone().name(spec.into()).build(LVL)?;
        c.get_or_insert_with(Vec::new)
            .push(RC::Register(match d {
                Some(d) => r.array(d.build(LVL)?),
                None => r.single(),
            }));
    }
    if names.contains(&full(&src)) {
        return unspec("derive from itself");
    }
    for x in c.iter_mut().flatten() {
        if let RC::Register(r) = x {
            if r.derived_from.as_ref().is_some_and(|d| names.contains(d)) {
                r.derived_from = Some(full(&src));
            }
        }
    }
    Ok(())
}

fn late(c: &mut Kids, h: &Hash, at: &At, ctx: &Ctx) -> R<()> {
    for (spec, v) in h.entries("_expand_array")? {
        to_map(&v)?;
        expand_array(kids(c)?, &spec)?;
    }
    for (spec, v) in h.entries("_array")? {
        collect_array(kids(c)?, &spec, to_map(&v)?, at, ctx)?;
    }
    for (name, v) in h.entries("_cluster")? {
        collect_cluster(kids(c)?, &name, to_map(&v)?, at, ctx)?;
    }
    Ok(())
}

pub fn index_of(d: &DimElement, i: usize) -> R<String> {
    match &d.dim_index {
        None => Ok(i.to_string()),
        Some(v) => v
            .get(i)
            .cloned()
            .ok_or_else(|| E::Unspec("short dimIndex".into())),
    }
}

fn expand_array(c: &mut Vec<RC>, spec: &str) -> R<()> {
    if spec.starts_with("?~") {
        return unspec("?~ in expand_array");
    }
    let mut out = vec![];
    let mut found = false;
    for x in std::mem::take(c) {
        let RC::Register(MaybeArray::Array(r, d)) = &x else {
            out.push(x);
            continue;
        };
        if !hit(&r.name, spec)? {
            out.push(x);
            continue;
        }
        found = true;
        for i in 0..d.dim as usize {
            let idx = index_of(d, i)?;
            let put = |s: &str| s.replace("[%s]", &idx).replace("%s", &idx);
            let mut n = r.clone();
            n.name = put(&r.name);
            n.description = r.description.as_deref().map(put);
            n.display_name = r.display_name.as_deref().map(put);
            n.address_offset = r.address_offset + i as u32 * d.dim_increment;
            // an element with a name of its own
            let own = d.dim_array_index.iter().flat_map(|a| &a.values);
            let own = own.into_iter().find(|e| e.value.map(|v| v.to_string()).as_ref() == Some(&idx));
            if let Some(e) = own {
                n.name = e.name.clone();
                n.description = e.description.clone().or(n.description);
            }
            out.push(RC::Register(n.single()));
        }
    }
    *c = out;
    if found {
        Ok(())
    } else {
        err("array to expand not found")
    }
}

/// (prefix, suffix) around the index token of a pattern
pub fn token(spec: &str) -> Option<(String, String)> {
    let word = |c: char| c == '%' || c == '_' || c.is_ascii_alphanumeric();
    let s: Vec<char> = spec.chars().collect();
    let mut i = 0;
    while i < s.len() && word(s[i]) {
        i += 1;
    }
    let start = i;
    loop {
        match s.get(i) {
            Some('?') | Some('*') => i += 1,
            Some('[') => {
                let close = s[i..].iter().position(|c| *c == ']')? + i;
                let body: String = s[i + 1..close].iter().collect();
                let parts: Vec<&str> = body.split('-').collect();
                let all = |f: fn(&char) -> bool| {
                    parts.iter().all(|p| !p.is_empty() && p.chars().all(|c| f(&c)))
                };
                if parts.len() > 2
                    || !(all(char::is_ascii_digit) || all(char::is_ascii_alphabetic))
                {
                    return None;
                }
                i = close + 1;
            }
            _ => break,
        }
    }
    if i == start || !s[i..].iter().all(|c| word(*c)) {
        return None;
    }
    Some((s[..start].iter().collect(), s[i..].iter().collect()))
}

/// The index text of a name under a pattern that it matches.
fn index_text(name: &str, pre: &str, post: &str) -> R<String> {
    name.strip_prefix(pre)
        .and_then(|n| n.strip_suffix(post))
        .map(String::from)
        .ok_or_else(|| E::Unspec("patterns of different shape in one list".into()))
}

/// One text with `%s` in place of the index that gives every text.
pub fn common_text(texts: &[Option<String>], idx: &[String]) -> R<Option<String>> {
    if texts.iter().flatten().any(|t| t.contains("%s")) {
        return unspec("%s in a text");
    }
    if let Some(t0) = &texts[0] {
        if idx[0].is_empty() {
            return unspec("empty index");
        }
        let mut from = 0;
        while let Some(p) = t0[from..].find(&idx[0]) {
            let p = from + p;
            let (a, b) = (&t0[..p], &t0[p + idx[0].len()..]);
            if texts
                .iter()
                .zip(idx)
                .all(|(t, i)| t.as_deref() == Some(&format!("{a}{i}{b}")))
            {
                return Ok(Some(format!("{a}%s{b}")));
            }
            from = p + idx[0].len();
        }
    }
    if texts.iter().all(|t| t == &texts[0]) {
        return Ok(texts[0].clone());
    }
    err("no common text")
}

/// Prefix and suffix shared by all alternatives of an array pattern.
pub fn array_shape(spec: &str) -> R<(String, String)> {
    if spec.contains('{') {
        return err("braces are no index token");
    }
    let mut subs = spec.split(',');
    let Some(shape) = token(subs.next().unwrap()) else {
        return err("no index token");
    };
    for s in subs {
        if token(s).as_ref() != Some(&shape) {
            return unspec("patterns of different shape in one list");
        }
    }
    Ok(shape)
}

pub fn zero_based(h: &Hash) -> R<bool> {
    match h.at("_start_from_zero") {
        None => Ok(false),
        Some(Yaml::Boolean(b)) => Ok(*b),
        _ => unspec("_start_from_zero other than true or false"),
    }
}

fn collect_array(c: &mut Vec<RC>, spec: &str, h: &Hash, at: &At, ctx: &Ctx) -> R<()> {
    let (spec, opt) = optional(spec);
    let mut place = None;
    let mut found = vec![];
    let mut rest = vec![];
    for (i, x) in std::mem::take(c).into_iter().enumerate() {
        match x {
            RC::Register(MaybeArray::Single(r)) if hit(&r.name, spec)? => {
                place.get_or_insert(i);
                found.push(r);
            }
            x => rest.push(x),
        }
    }
    *c = rest;
    let Some(place) = place else {
        return if opt { Ok(()) } else { err("array members missing") };
    };
    found.sort_by_key(|r| r.address_offset);
    let (pre, post) = array_shape(spec)?;
    let names = found
        .iter()
        .map(|r| index_text(&r.name, &pre, &post))
        .collect::<R<Vec<_>>>()?;
    let idx = if zero_based(h)? {
        (0..found.len()).map(|i| i.to_string()).collect()
    } else {
        names
    };
    let off: Vec<u32> = found.iter().map(|r| r.address_offset).collect();
    let inc = if found.len() > 1 {
        off[1] - off[0]
    } else if let Some(i) = h.u32("dimIncrement")? {
        i
    } else {
        found[0].properties.size.map_or(0, |s| s / 8)
    };
    if inc == 0 || !even(&off, inc) {
        return err("uneven spacing");
    }
    let m0 = mask(&found[0]);
    if found.iter().any(|r| mask(r) != m0) {
        return err("different field masks");
    }
    let descs: Vec<_> = found.iter().map(|r| r.description.clone()).collect();
    let dnames: Vec<_> = found.iter().map(|r| r.display_name.clone()).collect();
    let dim = found.len();
    let mut r = found.swap_remove(0);
    r.name = match h.text("name")? {
        Some(n) => n.into(),
        None => format!("{pre}%s{post}"),
    };
    match h.text("description")? {
        Some("_original") => {}
        Some(d) => r.description = Some(d.into()),
        None => r.description = common_text(&descs, &idx)?,
    }
    match h.text("displayName")? {
        Some("_original") => {}
        Some(d) => r.display_name = Some(d.into()),
        None => r.display_name = common_text(&dnames, &idx)?,
    }
    let d = DimElement::builder()
        .dim(dim as u32)
        .dim_increment(inc)
        .dim_index(Some(idx))
        .build(LVL)?;
    let mut r = r.array(d);
    reg::process(&mut r, h, at, ctx)?;
    c.insert(place, RC::Register(r));
    Ok(())
}

pub fn even(off: &[u32], inc: u32) -> bool {
    off.windows(2).all(|w| w[1] - w[0] == inc)
}

/// The bits that have a field.
fn mask(r: &RegisterInfo) -> u64 {
    let mut m = 0u64;
    for f in r.fields.iter().flatten() {
        for b in 0..f.bit_range.width {
            m |= 1u64.checked_shl(f.bit_range.offset + b).unwrap_or(0);
        }
    }
    m
}

fn collect_cluster(c: &mut Vec<RC>, name: &str, h: &Hash, at: &At, ctx: &Ctx) -> R<()> {
    let single = !name.contains("%s");
    if h.at("_clusters").is_some() {
        return unspec("_clusters inside _cluster");
    }
    struct Group {
        spec: String,
        rules: Hash,
        regs: Vec<Register>,
    }
    let increment = h.u32("dimIncrement")?.unwrap_or(0);
    let mut groups: Vec<Group> = vec![];
    let mut place = usize::MAX;
    for (k, v) in h {
        let k = to_str(k)?;
        if k == "description" || k == "dimIncrement" || BLOCK_KEYS.contains(&k) {
            continue;
        }
        let (spec, opt) = optional(k);
        if groups.iter().any(|g| g.spec == spec) {
            return unspec("same pattern twice");
        }
        let mut rest = vec![];
        let mut regs = vec![];
        let mut first = None;
        for (i, x) in std::mem::take(c).into_iter().enumerate() {
            match x {
                RC::Register(r) if hit(&r.name, spec)? => {
                    first.get_or_insert(i);
                    regs.push(r);
                }
                x => rest.push(x),
            }
        }
        *c = rest;
        let Some(first) = first else {
            if opt {
                continue;
            }
            return err("cluster members missing");
        };
        place = place.min(first);
        regs.sort_by_key(|r| r.address_offset);
        groups.push(Group {
            spec: spec.into(),
            rules: match v {
                Yaml::Hash(h) => h.clone(),
                _ => return err("not a mapping"),
            },
            regs,
        });
    }
    if groups.is_empty() {
        return err("no members");
    }
    let base = groups.iter().map(|g| g.regs[0].address_offset).min().unwrap();
    let desc = match h.text("description")? {
        Some(d) => d.to_string(),
        None => format!(
            "Cluster {name}, containing {}",
            groups
                .iter()
                .map(|g| g.spec.as_str())
                .collect::<Vec<_>>()
                .join(", ")
        ),
    };
    let b = ClusterInfo::builder()
        .name(name.into())
        .description(Some(desc))
        .address_offset(base);
    let inner = at.with_cluster(name);
    let mut dim: Option<(Vec<String>, u32)> = None;
    if single {
        if groups.iter().any(|g| g.regs.len() > 1) {
            return err("several registers for one place");
        }
    } else {
        for g in &groups {
            let dims_of = |r: &Register| match r {
                MaybeArray::Array(_, d) => Some(d.clone()),
                _ => None,
            };
            let d0 = dims_of(&g.regs[0]);
            if g.regs.iter().any(|r| dims_of(r) != d0) {
                return err("different array dimensions");
            }
            let mut idx = vec![];
            for r in &g.regs {
                let sub = glob::matched_sub(&r.name, &g.spec)
                    .map_err(E::Unspec)?
                    .unwrap();
                let Some((pre, post)) = token(sub) else {
                    return err("no index token");
                };
                idx.push(index_text(&r.name, &pre, &post)?);
            }
            let off: Vec<u32> = g.regs.iter().map(|r| r.address_offset).collect();
            let inc = if off.len() > 1 {
                off[1] - off[0]
            } else {
                increment
            };
            if !even(&off, inc) {
                return err("uneven spacing");
            }
            match &dim {
                None => dim = Some((idx, inc)),
                Some((i, n)) => {
                    if *i != idx || *n != inc {
                        return err("groups do not agree");
                    }
                }
            }
            let m0 = mask(&g.regs[0]);
            if g.regs.iter().any(|r| mask(r) != m0) {
                return err("different field masks");
            }
        }
    }
    let mut children = vec![];
    for g in groups {
        let mut r = g.regs.into_iter().next().unwrap();
        reg::process(&mut r, &g.rules, &inner, ctx)?;
        r.address_offset -= base;
        if single {
            if let Some(n) = g.rules.text("name")? {
                r.name = n.into();
            }
        } else {
            r.name = match g.rules.text("name")? {
                Some(n) => n.into(),
                None => {
                    let (a, b) = array_shape(&g.spec)?;
                    a + &b
                }
            };
            if let Some(d) = g.rules.text("description")? {
                r.description = Some(d.into());
            }
            if r.address_offset >= dim.as_ref().unwrap().1 {
                return err("register outside of the cluster");
            }
        }
        children.push(RC::Register(r));
    }
    let k = b.children(children).build(LVL)?;
    let mut k = match dim {
        None => k.single(),
        Some((idx, inc)) => k.array(
            DimElement::builder()
                .dim(idx.len() as u32)
                .dim_increment(inc)
                .dim_index(Some(idx))
                .build(LVL)?,
        ),
    };
    let mut ch = Some(std::mem::take(&mut k.children));
    early(&mut ch, h, &inner, false)?;
    late(&mut ch, h, &inner, ctx)?;
    k.children = ch.unwrap();
    c.insert(place, RC::Cluster(k));
    Ok(())
}

fn expand_clusters(c: &mut Kids, h: &Hash) -> R<()> {
    let rules: Vec<(String, Hash)> = match h.at("_expand_cluster") {
        None => vec![],
        Some(Yaml::Hash(m)) => m
            .iter()
            .map(|(k, v)| {
                Ok((
                    to_str(k)?.to_string(),
                    match v {
                        Yaml::Hash(h) => h.clone(),
                        Yaml::Null => Hash::new(),
                        _ => return unspec("odd _expand_cluster"),
                    },
                ))
            })
            .collect::<R<Vec<_>>>()?,
        _ => h
            .strings("_expand_cluster")?
            .into_iter()
            .map(|s| (s, Hash::new()))
            .collect(),
    };
    for (spec, o) in rules {
        for (k, _) in &o {
            if !["_preindex", "_postindex", "_zeroindex", "_noprefix"].contains(&to_str(k)?) {
                return err("_expand_cluster key");
            }
        }
        let pre = o.text("_preindex")?.unwrap_or("_");
        let post = o.text("_postindex")?.unwrap_or("_");
        let zero = o.boolean("_zeroindex")?.unwrap_or(false);
        let bare = o.boolean("_noprefix")?.unwrap_or(false);
        let (spec, opt) = optional(&spec);
        let mut rest = vec![];
        let mut new = vec![];
        let mut any = false;
        let none = c.is_none();
        for x in c.take().unwrap_or_default() {
            let RC::Cluster(MaybeArray::Array(k, d)) = &x else {
                rest.push(x);
                continue;
            };
            if !hit(&k.name, spec)? {
                rest.push(x);
                continue;
            }
            any = true;
            if k.derived_from.is_some() {
                return unspec("expansion of a derived cluster");
            }
            if d.dim_array_index.is_some() {
                return unspec("expansion of a cluster with dimArrayIndex");
            }
            if k.children.is_empty() {
                return err("empty cluster");
            }
            for i in 0..d.dim {
                let numbered = d.dim > 1 || zero;
                if numbered && bare {
                    return err("_noprefix with several elements");
                }
                let bracket = k.name.contains("[%s]");
                let slot = if bracket { "[%s]" } else { "%s" };
                let prefix = if bare {
                    String::new()
                } else if !numbered {
                    k.name.replace(slot, "") + post
                } else {
                    let idx = match &d.dim_index {
                        Some(_) if bracket => return err("[%s] with dimIndex"),
                        Some(v) if v.len() != d.dim as usize => return err("dimIndex length"),
                        Some(v) => v[i as usize].clone(),
                        None => i.to_string(),
                    };
                    if k.name.contains(slot) {
                        k.name.replace(slot, &format!("{pre}{idx}")) + post
                    } else if d.dim_index.is_some() {
                        return unspec("dimIndex without a place in the name");
                    } else {
                        format!("{}{pre}{idx}{post}", k.name)
                    }
                };
                let shift = k.address_offset + i * d.dim_increment;
                for kind in [true, false] {
                    for x in &k.children {
                        match x {
                            RC::Register(r) if kind => {
                                let mut r = r.clone();
                                r.name = format!("{prefix}{}", r.name);
                                r.address_offset += shift;
                                new.push(RC::Register(r));
                            }
                            RC::Cluster(q) if !kind => {
                                let mut q = q.clone();
                                q.name = format!("{prefix}{}", q.name);
                                q.address_offset += shift;
                                new.push(RC::Cluster(q));
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        if none && opt {
            return unspec("_expand_cluster without children");
        }
        if !any && !opt {
            return err("no cluster to expand");
        }
        rest.extend(new);
        *c = Some(rest);
    }
    Ok(())
}
