//! What a device description means: arrays written out, references resolved,
//! absolute positions.  Written from the SVD rules over the plain parsed data;
//! shares no code with the expansion of svd-parser or the reports of /repo.
use crate::model::*;

pub type F<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct FField {
    pub name: String,
    pub off: u32,
    pub width: u32,
    pub desc: Option<String>,
    pub access: Option<Access>,
    pub enums: Vec<EnumeratedValues>,
    pub wc: Option<WriteConstraint>,
    pub mwv: Option<ModifiedWriteValues>,
    pub ra: Option<ReadAction>,
}
#[derive(Clone, Debug)]
pub struct FReg {
    /// enclosing clusters: (name of the element, its index if in an array)
    pub clusters: Vec<(String, Option<String>)>,
    pub name: String,
    pub off: u64,
    pub desc: Option<String>,
    /// as written, references resolved
    pub props: RegisterProperties,
    /// and taken from the parents where absent
    pub full: RegisterProperties,
    pub wc: Option<WriteConstraint>,
    pub fields: Vec<FField>,
}
#[derive(Clone, Debug)]
pub struct FPeriph {
    pub name: String,
    pub base: u64,
    pub desc: Option<String>,
    pub regs: Vec<FReg>,
    pub interrupts: Vec<Interrupt>,
}

pub fn put(s: &str, idx: &str) -> String {
    s.replace("[%s]", idx).replace("%s", idx)
}
/// (index, distance) of every element
pub fn elements(d: &DimElement) -> F<Vec<(String, u64)>> {
    (0..d.dim as usize)
        .map(|i| {
            let idx = match &d.dim_index {
                None => i.to_string(),
                Some(v) => v.get(i).cloned().ok_or("index list too short")?,
            };
            if d.dim_array_index.is_some() {
                return Err("dimArrayIndex".into());
            }
            Ok((idx, i as u64 * d.dim_increment as u64))
        })
        .collect()
}

fn is_named<T>(e: &MaybeArray<T>, raw: &str, want: &str) -> F<bool> {
    if raw == want {
        return Ok(true);
    }
    Ok(match e {
        MaybeArray::Single(_) => false,
        MaybeArray::Array(_, d) => elements(d)?.iter().any(|(i, _)| put(raw, i) == want),
    })
}
fn unique<'a, T>(it: impl Iterator<Item = &'a MaybeArray<T>>, name: impl Fn(&T) -> &str, want: &str) -> F<&'a MaybeArray<T>> {
    let mut found = None;
    for e in it {
        let raw = match e {
            MaybeArray::Single(x) | MaybeArray::Array(x, _) => name(x),
        };
        if is_named(e, raw, want)? {
            if found.is_some() {
                return Err(format!("{want} is ambiguous"));
            }
            found = Some(e);
        }
    }
    found.ok_or(format!("{want} not found"))
}

pub fn info<T>(e: &MaybeArray<T>) -> &T {
    match e {
        MaybeArray::Single(x) | MaybeArray::Array(x, _) => x,
    }
}
fn clusters(k: &[RegisterCluster]) -> impl Iterator<Item = &Cluster> {
    k.iter().filter_map(|x| match x {
        RegisterCluster::Cluster(c) => Some(c),
        _ => None,
    })
}
fn registers(k: &[RegisterCluster]) -> impl Iterator<Item = &Register> {
    k.iter().filter_map(|x| match x {
        RegisterCluster::Register(c) => Some(c),
        _ => None,
    })
}

/// Children written in the block at `path` (not inherited ones).
fn block<'a>(dev: &'a Device, path: &[String]) -> F<&'a [RegisterCluster]> {
    let p = unique(dev.peripherals.iter(), |p| &p.name, &path[0])?;
    let mut k: &[RegisterCluster] = info(p).registers.as_deref().unwrap_or(&[]);
    for c in &path[1..] {
        k = &info(unique(clusters(k), |c| &c.name, c)?).children;
    }
    Ok(k)
}
fn split(r: &str) -> (Option<Vec<String>>, String) {
    let mut v: Vec<String> = r.split('.').map(|s| s.to_string()).collect();
    let last = v.pop().unwrap();
    ((!v.is_empty()).then_some(v), last)
}
const DEPTH: usize = 12;

fn plus(a: &RegisterProperties, b: &RegisterProperties) -> RegisterProperties {
    let mut r = *a;
    r.size = r.size.or(b.size);
    r.access = r.access.or(b.access);
    r.protection = r.protection.or(b.protection);
    r.reset_value = r.reset_value.or(b.reset_value);
    r.reset_mask = r.reset_mask.or(b.reset_mask);
    r
}
fn same_shape<T>(a: &MaybeArray<T>, b: &MaybeArray<T>, name: &str) -> F<()> {
    if b.is_array() && (a.is_array() || name.contains("%s")) {
        return Err("array derived from an array".into());
    }
    if a.is_single() && name.contains("%s") {
        return Err("%s in the name of a single element".into());
    }
    Ok(())
}

/// Defaults that apply to the registers written in a block.
fn defaults(dev: &Device, path: &[String]) -> F<RegisterProperties> {
    let p = info(unique(dev.peripherals.iter(), |p| &p.name, &path[0])?);
    let mut d = plus(&p.default_register_properties, &dev.default_register_properties);
    let mut k: &[RegisterCluster] = p.registers.as_deref().unwrap_or(&[]);
    for c in &path[1..] {
        let c = info(unique(clusters(k), |c| &c.name, c)?);
        d = plus(&c.default_register_properties, &d);
        k = &c.children;
    }
    Ok(d)
}

/// A register with everything it inherits, and where its fields are written.
struct Reg {
    r: RegisterInfo,
    full: RegisterProperties,
    at: Vec<String>,
    fields_in: String,
}
fn register(dev: &Device, at: &[String], reg: &Register) -> F<Reg> {
    let mut r = info(reg).clone();
    let mut path = at.to_vec();
    let mut fields_at = (at.to_vec(), r.name.clone());
    let mut from = r.derived_from.clone();
    // the properties of a derived register come from its source first
    let mut full = r.properties;
    if from.is_none() {
        full = plus(&full, &defaults(dev, at)?);
    }
    let mut n = 0;
    while let Some(d) = from {
        n += 1;
        if n > DEPTH {
            return Err("circular derivation".into());
        }
        let (b, name) = split(&d);
        let b = b.unwrap_or(path.clone());
        let s = unique(registers(block(dev, &b)?), |r| &r.name, &name)?;
        same_shape(reg, s, &r.name)?;
        let si = info(s);
        if r.fields.is_none() {
            r.fields = si.fields.clone();
            fields_at = (b.clone(), si.name.clone());
        }
        r.description = r.description.or(si.description.clone());
        r.properties = plus(&r.properties, &si.properties);
        full = plus(&full, &si.properties);
        if si.derived_from.is_none() {
            full = plus(&full, &defaults(dev, &b)?);
        }
        r.write_constraint = r.write_constraint.or(si.write_constraint);
        r.read_action = r.read_action.or(si.read_action);
        r.modified_write_values = r.modified_write_values.or(si.modified_write_values);
        from = si.derived_from.clone();
        path = b;
    }
    r.derived_from = None;
    Ok(Reg {
        r,
        full,
        at: fields_at.0,
        fields_in: fields_at.1,
    })
}

fn fields(dev: &Device, at: &[String], reg: &str, list: &[Field], out: &mut Vec<FField>) -> F<()> {
    for fld in list {
        let mut f = info(fld).clone();
        let mut place = (at.to_vec(), reg.to_string());
        let mut enums_at = (place.clone(), f.name.clone());
        let mut from = f.derived_from.clone();
        let mut n = 0;
        while let Some(d) = from {
            n += 1;
            if n > DEPTH {
                return Err("circular derivation".into());
            }
            let (p, name) = split(&d);
            let (b, r) = match p {
                None => place.clone(),
                Some(mut p) => {
                    let r = p.pop().unwrap();
                    if p.is_empty() {
                        return Err("field path without peripheral".into());
                    }
                    (p, r)
                }
            };
            let sr = unique(registers(block(dev, &b)?), |r| &r.name, &r)?;
            let s = unique(info(sr).fields.iter().flatten(), |f| &f.name, &name)?;
            same_shape(fld, s, &f.name)?;
            let si = info(s);
            if f.enumerated_values.is_empty() {
                f.enumerated_values = si.enumerated_values.clone();
                enums_at = ((b.clone(), r.clone()), si.name.clone());
            }
            f.description = f.description.or(si.description.clone());
            f.access = f.access.or(si.access);
            f.write_constraint = f.write_constraint.or(si.write_constraint);
            f.read_action = f.read_action.or(si.read_action);
            f.modified_write_values = f.modified_write_values.or(si.modified_write_values);
            from = si.derived_from.clone();
            place = (b, r);
        }
        let enums = f
            .enumerated_values
            .iter()
            .map(|e| values(dev, &enums_at.0 .0, &enums_at.0 .1, &enums_at.1, e))
            .collect::<F<Vec<_>>>()?;
        let one = |name: String, desc: Option<String>, off: u32| FField {
            name,
            desc,
            off,
            width: f.bit_range.width,
            access: f.access,
            enums: enums.clone(),
            wc: f.write_constraint,
            mwv: f.modified_write_values,
            ra: f.read_action,
        };
        match fld {
            MaybeArray::Single(_) => {
                out.push(one(f.name.clone(), f.description.clone(), f.bit_range.offset))
            }
            MaybeArray::Array(_, d) => {
                for (i, dist) in elements(d)? {
                    out.push(one(
                        put(&f.name, &i),
                        f.description.as_deref().map(|t| put(t, &i)),
                        f.bit_range.offset + dist as u32,
                    ));
                }
            }
        }
    }
    Ok(())
}

/// Enumerated values with those they are derived from.
fn values(dev: &Device, at: &[String], reg: &str, fld: &str, e: &EnumeratedValues) -> F<EnumeratedValues> {
    let mut r = e.clone();
    let mut pos = (at.to_vec(), reg.to_string(), fld.to_string());
    let mut from = r.derived_from.take();
    let mut n = 0;
    while let Some(d) = from {
        n += 1;
        if n > DEPTH {
            return Err("circular derivation".into());
        }
        let (p, name) = split(&d);
        let mut p = p.unwrap_or_default();
        let f = p.pop();
        let rn = p.pop().unwrap_or(pos.1.clone());
        let b = if p.is_empty() { pos.0.clone() } else { p };
        let sr = info(unique(registers(block(dev, &b)?), |r| &r.name, &rn)?);
        let mut found: Vec<(&EnumeratedValues, String)> = vec![];
        for x in sr.fields.iter().flatten() {
            let xi = info(x);
            if let Some(f) = &f {
                if !is_named(x, &xi.name, f)? {
                    continue;
                }
            }
            for s in &xi.enumerated_values {
                if s.name.as_deref() == Some(&name) {
                    found.push((s, xi.name.clone()));
                }
            }
        }
        if found.len() != 1 {
            return Err(format!("{} enumerated values named {d}", found.len()));
        }
        let (s, f) = found.pop().unwrap();
        if std::ptr::eq(s, e) {
            return Err("derived from itself".into());
        }
        r.usage = r.usage.or(s.usage);
        if r.values.is_empty() {
            r.values = s.values.clone();
        }
        from = s.derived_from.clone();
        pos = (b, rn, f);
    }
    Ok(r)
}

fn members(dev: &Device, at: &[String], k: &[RegisterCluster], base: u64, up: &[(String, Option<String>)], out: &mut Vec<FReg>) -> F<()> {
    for rc in k {
        match rc {
            RegisterCluster::Register(reg) => {
                let x = register(dev, at, reg)?;
                let mut fl = vec![];
                fields(dev, &x.at, &x.fields_in, x.r.fields.as_deref().unwrap_or(&[]), &mut fl)?;
                let one = |name: String, desc: Option<String>, off: u64| FReg {
                    clusters: up.to_vec(),
                    name,
                    desc,
                    off: base + off,
                    props: x.r.properties,
                    full: x.full,
                    wc: x.r.write_constraint,
                    fields: fl.clone(),
                };
                let o = x.r.address_offset as u64;
                match reg {
                    MaybeArray::Single(_) => out.push(one(x.r.name.clone(), x.r.description.clone(), o)),
                    MaybeArray::Array(_, d) => {
                        for (i, dist) in elements(d)? {
                            out.push(one(
                                put(&x.r.name, &i),
                                x.r.description.as_deref().map(|t| put(t, &i)),
                                o + dist,
                            ));
                        }
                    }
                }
            }
            RegisterCluster::Cluster(cl) => {
                let c = info(cl);
                let mut kids: &[RegisterCluster] = &c.children;
                let mut kids_at = [at, &[c.name.clone()]].concat();
                let mut from = c.derived_from.clone();
                let mut place = at.to_vec();
                let mut n = 0;
                while let Some(d) = from {
                    n += 1;
                    if n > DEPTH {
                        return Err("circular derivation".into());
                    }
                    let (b, name) = split(&d);
                    let b = b.unwrap_or(place);
                    let s = unique(clusters(block(dev, &b)?), |c| &c.name, &name)?;
                    same_shape(cl, s, &c.name)?;
                    let si = info(s);
                    if kids.is_empty() {
                        kids = &si.children;
                        kids_at = [&b[..], &[si.name.clone()]].concat();
                    }
                    from = si.derived_from.clone();
                    place = b;
                }
                if kids_at.len() > DEPTH || up.len() > 8 {
                    return Err("circular derivation".into());
                }
                let o = base + c.address_offset as u64;
                match cl {
                    MaybeArray::Single(_) => {
                        let up = [up, &[(c.name.clone(), None)]].concat();
                        members(dev, &kids_at, kids, o, &up, out)?;
                    }
                    MaybeArray::Array(_, d) => {
                        for (i, dist) in elements(d)? {
                            let up = [up, &[(put(&c.name, &i), Some(i))]].concat();
                            members(dev, &kids_at, kids, o + dist, &up, out)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// `arrays`: write out arrays of peripherals.
pub fn flat(dev: &Device, arrays: bool) -> F<Vec<FPeriph>> {
    let mut out = vec![];
    for p in &dev.peripherals {
        let pi = info(p);
        let mut kids = pi.registers.as_deref();
        let mut kids_at = pi.name.clone();
        let mut desc = pi.description.clone();
        let mut interrupts = pi.interrupt.clone();
        let mut from = pi.derived_from.clone();
        let mut n = 0;
        while let Some(d) = from {
            n += 1;
            if n > DEPTH {
                return Err("circular derivation".into());
            }
            let s = unique(dev.peripherals.iter(), |p| &p.name, &d)?;
            same_shape(p, s, &pi.name)?;
            let si = info(s);
            if kids.is_none() {
                kids = si.registers.as_deref();
                kids_at = si.name.clone();
            }
            desc = desc.or(si.description.clone());
            if interrupts.is_empty() {
                interrupts = si.interrupt.clone();
            }
            from = si.derived_from.clone();
        }
        let mut regs = vec![];
        members(dev, &[kids_at], kids.unwrap_or(&[]), 0, &[], &mut regs)?;
        match p {
            MaybeArray::Array(_, d) if arrays => {
                for (i, dist) in elements(d)? {
                    out.push(FPeriph {
                        name: put(&pi.name, &i),
                        base: pi.base_address + dist,
                        desc: desc.as_deref().map(|t| put(t, &i)),
                        regs: regs.clone(),
                        interrupts: interrupts.clone(),
                    });
                }
            }
            _ => out.push(FPeriph {
                name: pi.name.clone(),
                base: pi.base_address,
                desc,
                regs,
                interrupts,
            }),
        }
    }
    Ok(out)
}
