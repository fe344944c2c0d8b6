//! Rules of registers and fields.
use super::*;

const REG_KEYS: &[&str] = &[
    "_include", "_path", "_delete", "_derive", "_strip", "_strip_end", "_prefix", "_suffix",
    "_clear", "_modify", "_add", "_merge", "_split", "_array",
];

fn fields_hit(r: &Register, spec: &str) -> R<Vec<usize>> {
    let mut v = vec![];
    for (i, f) in r.fields.iter().flatten().enumerate() {
        if hit(&f.name, spec)? {
            v.push(i);
        }
    }
    Ok(v)
}
fn field(r: &mut Register, i: usize) -> &mut Field {
    &mut r.fields.as_mut().unwrap()[i]
}

pub fn clear(r: &mut Register, spec: &str) -> R<()> {
    for i in fields_hit(r, spec)? {
        let f = field(r, i);
        if f.derived_from.is_none() {
            f.enumerated_values.clear();
            f.write_constraint = None;
        }
    }
    Ok(())
}

pub fn process(r: &mut Register, h: &Hash, block: &At, ctx: &Ctx) -> R<()> {
    if r.derived_from.is_some() {
        return Ok(());
    }
    let at = block.with_reg(&r.name);
    for s in h.strings("_delete")? {
        if s.starts_with("?~") {
            return unspec("?~ in delete");
        }
        let hits = fields_hit(r, &s)?;
        for i in hits.into_iter().rev() {
            r.fields.as_mut().unwrap().remove(i);
        }
    }
    for (key, end) in [("_strip", false), ("_strip_end", true)] {
        for s in h.strings(key)? {
            for f in r.fields.iter_mut().flatten() {
                block::strip1(&mut f.name, &s, end)?;
            }
        }
    }
    if let Some(p) = h.text("_prefix")? {
        for f in r.fields.iter_mut().flatten() {
            f.name = format!("{p}{}", f.name);
        }
    }
    if let Some(p) = h.text("_suffix")? {
        for f in r.fields.iter_mut().flatten() {
            f.name = format!("{}{p}", f.name);
        }
    }
    for s in h.strings("_clear")? {
        clear(r, &s)?;
    }
    for (k, v) in h.entries("_modify")? {
        modify(r, &k, to_map(&v)?, &at)?;
    }
    for (k, v) in h.entries("_add")? {
        if r.fields.iter().flatten().any(|f| f.name == k) {
            return err("field exists");
        }
        let f = new_field(&k, to_map(&v)?, Some(&at))?;
        r.fields.get_or_insert_with(Vec::new).push(f);
    }
    for (k, v) in h.entries("_derive")? {
        derive(r, &k, &v, &at)?;
    }
    match h.at("_merge") {
        None => {}
        Some(Yaml::Hash(m)) => {
            for (k, v) in m {
                let specs = match v {
                    Yaml::String(s) => vec![s.clone()],
                    Yaml::Array(a) => a
                        .iter()
                        .map(|y| Ok(to_str(y)?.to_string()))
                        .collect::<R<Vec<_>>>()?,
                    _ => return err("bad merge"),
                };
                merge(r, Some(to_str(k)?), &specs)?;
            }
        }
        Some(Yaml::String(_)) | Some(Yaml::Array(_)) => {
            for s in h.strings("_merge")? {
                merge(r, None, &[s])?;
            }
        }
        _ => return unspec("odd _merge"),
    }
    match h.at("_split") {
        None => {}
        Some(Yaml::Hash(m)) => {
            for (k, v) in m {
                split(r, to_str(k)?, to_map(v)?)?;
            }
        }
        Some(Yaml::String(_)) | Some(Yaml::Array(_)) => {
            for s in h.strings("_split")? {
                split(r, &s, &Hash::new())?;
            }
        }
        _ => return unspec("odd _split"),
    }
    for (k, v) in h {
        let k = to_str(k)?;
        if !REG_KEYS.contains(&k) {
            section(r, k, v, ctx)?;
        }
    }
    for (k, v) in h.entries("_array")? {
        collect(r, &k, to_map(&v)?)?;
    }
    Ok(())
}

fn modify(r: &mut Register, k: &str, h: &Hash, at: &At) -> R<()> {
    let (spec, opt) = optional(k);
    let hits = fields_hit(r, spec)?;
    if hits.is_empty() {
        if !opt {
            return err("no field to modify");
        }
        if field_builder(h, Some(at)).is_err() || dims(h).is_err() {
            return unspec("bad body of a skipped modification");
        }
        return Ok(());
    }
    for i in hits {
        let f = field(r, i);
        set_dims(f, &dims(h)?)?;
        if h.at("_write_constraint").or(h.at("writeConstraint")).is_some() {
            f.write_constraint = constraint(h)?;
        }
        f.modify_from(field_builder(h, Some(at))?, LVL)?;
        if h.text("access")? == Some("") {
            f.access = None;
        }
    }
    Ok(())
}

fn derive(r: &mut Register, k: &str, v: &Yaml, at: &At) -> R<()> {
    let (spec, opt) = optional(k);
    let full = |s: &str| -> String {
        let p: Vec<&str> = s.split('.').collect();
        match p.len() {
            2 => format!("{}.{s}", at.block()),
            3 if !at.clusters.is_empty() => {
                let mut a = at.clone();
                a.clusters.pop();
                format!("{}.{s}", a.block())
            }
            _ => s.to_string(),
        }
    };
    let (src, b, d) = match v {
        Yaml::String(s) => (s.clone(), FieldInfo::builder(), None),
        Yaml::Hash(h) => {
            let Some(s) = h.text("_from")? else {
                return err("derive without _from");
            };
            (s.to_string(), field_builder(h, Some(at))?, dims(h)?)
        }
        _ => return err("bad derive"),
    };
    let b = b.derived_from(Some(full(&src)));
    let hits = fields_hit(r, spec)?;
    for i in &hits {
        let f = field(r, *i);
        set_dims(f, &d)?;
        f.modify_from(b.clone(), LVL)?;
    }
    if hits.is_empty() && !opt {
        if !block::dimable(spec) {
            return err("bad name");
        }
        let f = b.name(spec.into()).build(LVL)?;
        r.fields.get_or_insert_with(Vec::new).push(match d {
            Some(d) => f.array(d.build(LVL)?),
            None => f.single(),
        });
    }
    Ok(())
}

fn merge(r: &mut Register, name: Option<&str>, specs: &[String]) -> R<()> {
    if specs.iter().any(|s| s.starts_with("?~")) {
        return unspec("?~ in merge");
    }
    let mut hits = vec![];
    for s in specs {
        hits.extend(fields_hit(r, s)?);
    }
    hits.sort();
    hits.dedup();
    if hits.is_empty() {
        return err("no fields to merge");
    }
    let all: Vec<Field> = hits.iter().map(|i| field(r, *i).clone()).collect();
    if all.iter().any(|f| f.is_array()) {
        return unspec("merge of a field array");
    }
    {
        let mut names: Vec<&String> = r.fields.iter().flatten().map(|f| &f.name).collect();
        names.sort();
        if names.windows(2).any(|w| w[0] == w[1]) {
            return unspec("equal field names");
        }
    }
    let name = match name {
        Some(n) => n.to_string(),
        None => {
            let mut p = all[0].name.clone();
            for f in &all {
                while !f.name.starts_with(&p) {
                    p.pop();
                }
            }
            p
        }
    };
    let access = all[0]
        .access
        .filter(|a| all.iter().all(|f| f.access == Some(*a)));
    let new = FieldInfo::builder()
        .name(name)
        .description(all[0].description.clone())
        .access(access)
        .bit_range(BitRange::from_offset_width(
            all.iter().map(|f| f.bit_range.offset).min().unwrap(),
            all.iter().map(|f| f.bit_range.width).sum(),
        ))
        .build(LVL)?
        .single();
    let fields = r.fields.as_mut().unwrap();
    for i in hits.iter().rev() {
        fields.remove(*i);
    }
    fields.insert(hits[0], new);
    Ok(())
}

fn split(r: &mut Register, k: &str, h: &Hash) -> R<()> {
    let (spec, opt) = optional(k);
    let hits = fields_hit(r, spec)?;
    if hits.len() != 1 {
        return if hits.is_empty() && opt {
            Ok(())
        } else {
            err("split needs exactly one field")
        };
    }
    let f = r.fields.as_mut().unwrap()[hits[0]].clone();
    if f.is_array() {
        return unspec("split of a field array");
    }
    if r.fields.iter().flatten().filter(|g| g.name == f.name).count() > 1 {
        return unspec("equal field names");
    }
    let name = match h.text("name")? {
        Some(n) => n.to_string(),
        None => format!("{}%s", f.name),
    };
    let desc = h
        .text("description")?
        .map(String::from)
        .or(f.description.clone());
    let mut new = vec![];
    for i in 0..f.bit_range.width {
        let n = i.to_string();
        new.push(
            FieldInfo::builder()
                .name(name.replace("%s", &n))
                .description(desc.as_ref().map(|d| d.replace("%s", &n)))
                .bit_range(BitRange::from_offset_width(f.bit_range.offset + i, 1))
                .build(LVL)?
                .single(),
        );
    }
    let fields = r.fields.as_mut().unwrap();
    fields.remove(hits[0]);
    fields.extend(new);
    Ok(())
}

fn collect(r: &mut Register, k: &str, h: &Hash) -> R<()> {
    let (spec, opt) = optional(k);
    if r.fields.is_none() {
        // nothing can match
        return if opt { Ok(()) } else { err("field array in a register without fields") };
    }
    let mut place = None;
    let mut found = vec![];
    let mut rest = vec![];
    for (i, x) in r.fields.take().unwrap().into_iter().enumerate() {
        match x {
            MaybeArray::Single(f) if hit(&f.name, spec)? => {
                place.get_or_insert(i);
                found.push(f);
            }
            x => rest.push(x),
        }
    }
    let Some(place) = place else {
        r.fields = Some(rest);
        return if opt { Ok(()) } else { err("array members missing") };
    };
    found.sort_by_key(|f| f.bit_range.offset);
    let (pre, post) = block::array_shape(spec)?;
    let zero = block::zero_based(h)?;
    let mut idx = vec![];
    for (i, f) in found.iter().enumerate() {
        let t = f
            .name
            .strip_prefix(&pre)
            .and_then(|n| n.strip_suffix(&post))
            .ok_or_else(|| E::Unspec("patterns of different shape".into()))?;
        idx.push(if zero { i.to_string() } else { t.to_string() });
    }
    let off: Vec<u32> = found.iter().map(|f| f.bit_range.offset).collect();
    let inc = if off.len() > 1 { off[1] - off[0] } else { 0 };
    if !block::even(&off, inc) {
        return err("uneven spacing");
    }
    if found
        .iter()
        .any(|f| f.bit_range.width != found[0].bit_range.width)
    {
        return unspec("fields of different width");
    }
    let descs: Vec<_> = found.iter().map(|f| f.description.clone()).collect();
    let dim = found.len();
    let mut f = found.swap_remove(0);
    f.name = match h.text("name")? {
        Some(n) => n.into(),
        None => format!("{pre}%s{post}"),
    };
    match h.text("description")? {
        Some("_original") => {}
        Some(d) => f.description = Some(d.into()),
        None => f.description = block::common_text(&descs, &idx)?,
    }
    let f = f.array(
        DimElement::builder()
            .dim(dim as u32)
            .dim_increment(inc)
            .dim_index(Some(idx))
            .build(LVL)?,
    );
    rest.insert(place, f);
    r.fields = Some(rest);
    Ok(())
}

const READ: &[(&str, Option<ReadAction>)] = &[
    ("_read", None),
    ("_RM", Some(ReadAction::Modify)),
    ("_RS", Some(ReadAction::Set)),
    ("_RC", Some(ReadAction::Clear)),
    ("_RME", Some(ReadAction::ModifyExternal)),
];
const WRITE: &[(&str, Option<ModifiedWriteValues>)] = &[
    ("_write", None),
    ("_WM", Some(ModifiedWriteValues::Modify)),
    ("_WS", Some(ModifiedWriteValues::Set)),
    ("_WC", Some(ModifiedWriteValues::Clear)),
    ("_W1S", Some(ModifiedWriteValues::OneToSet)),
    ("_W0C", Some(ModifiedWriteValues::ZeroToClear)),
    ("_W1C", Some(ModifiedWriteValues::OneToClear)),
    ("_W0S", Some(ModifiedWriteValues::ZeroToSet)),
    ("_W1T", Some(ModifiedWriteValues::OneToToggle)),
    ("_W0T", Some(ModifiedWriteValues::ZeroToToggle)),
];

fn section(r: &mut Register, k: &str, v: &Yaml, ctx: &Ctx) -> R<()> {
    let (spec, opt) = optional(k);
    match v {
        Yaml::Hash(h) => {
            let reads: Vec<_> = READ.iter().filter(|(n, _)| h.at(n).is_some()).collect();
            let writes: Vec<_> = WRITE.iter().filter(|(n, _)| h.at(n).is_some()).collect();
            if reads.is_empty() && writes.is_empty() {
                return enums(r, spec, opt, h, None, ctx);
            }
            // plain values and an action keyword without values go together
            let body = |n: &str| !matches!(h.at(n), Some(Yaml::Hash(m)) if m.is_empty());
            if reads.iter().filter(|(_, a)| a.is_some()).count() > 1
                || reads.iter().filter(|(n, _)| body(n)).count() > 1
                || writes.iter().filter(|(_, a)| a.is_some()).count() > 1
                || writes.iter().filter(|(n, _)| body(n)).count() > 1
                || (ctx.derive == EnumDerive::Field && (reads.len() > 1 || writes.len() > 1))
            {
                return unspec("several actions of one direction");
            }
            for (n, a) in reads {
                let m = to_map(h.at(n).unwrap())?;
                if !m.is_empty() {
                    enums(r, spec, opt, m, Some(Usage::Read), ctx)?;
                }
                if let Some(a) = a {
                    let hits = fields_hit(r, spec)?;
                    if hits.is_empty() && !opt {
                        return err("no field for the action");
                    }
                    for i in hits {
                        field(r, i).read_action = Some(*a);
                    }
                } else if m.is_empty() {
                    return unspec("empty _read");
                }
            }
            for (n, a) in writes {
                let m = to_map(h.at(n).unwrap())?;
                if !m.is_empty() {
                    enums(r, spec, opt, m, Some(Usage::Write), ctx)?;
                }
                if let Some(a) = a {
                    let hits = fields_hit(r, spec)?;
                    if hits.is_empty() && !opt {
                        return err("no field for the action");
                    }
                    for i in hits {
                        field(r, i).modified_write_values =
                            (*a != ModifiedWriteValues::Modify).then_some(*a);
                    }
                } else if m.is_empty() {
                    return unspec("empty _write");
                }
            }
        }
        Yaml::Array(a) if a.len() == 2 => {
            let hits = fields_hit(r, spec)?;
            if hits.is_empty() {
                return if opt { Ok(()) } else { err("no field for the range") };
            }
            let w = WriteConstraint::Range(WriteConstraintRange {
                min: nonneg(to_int(&a[0])?)?,
                max: nonneg(to_int(&a[1])?)?,
            });
            for i in hits {
                field(r, i).write_constraint = Some(w);
            }
        }
        Yaml::Array(_) => return unspec("range with other than two numbers"),
        // names, descriptions and numbers belong to the enclosing array rule
        _ => {}
    }
    Ok(())
}

/// Direction(s) a set of enumerated values has in a field with this access.
fn direction(access: Access, usage: Option<Usage>) -> R<Usage> {
    let (read, write) = match access {
        Access::ReadOnly => (true, false),
        Access::WriteOnly | Access::WriteOnce => (false, true),
        Access::ReadWrite | Access::ReadWriteOnce => (true, true),
    };
    match usage {
        None => Ok(match (read, write) {
            (true, false) => Usage::Read,
            (false, true) => Usage::Write,
            _ => Usage::ReadWrite,
        }),
        Some(Usage::Read) if read => Ok(Usage::Read),
        Some(Usage::Write) if write => Ok(Usage::Write),
        Some(Usage::ReadWrite) if read && write => Ok(Usage::ReadWrite),
        _ => err("usage does not fit the access"),
    }
}

fn put(f: &mut Field, mut new: EnumeratedValues, dir: Usage, replace: bool, access: Access) -> R<()> {
    let rw = matches!(access, Access::ReadWrite | Access::ReadWriteOnce);
    let occupied = || err("field already has such enumerated values");
    let e = &mut f.enumerated_values;
    if e.len() > 2 {
        return unspec("more than two sets of enumerated values");
    }
    if dir == Usage::ReadWrite {
        if !e.is_empty() && !replace {
            return occupied();
        }
        *e = vec![new];
        return Ok(());
    }
    if e.is_empty() {
        e.push(new);
        return Ok(());
    }
    let other = if dir == Usage::Read { Usage::Write } else { Usage::Read };
    if e.len() == 1 {
        match e[0].usage {
            Some(u) if u == dir || u == Usage::ReadWrite => {
                if !replace {
                    return occupied();
                }
                e[0] = new;
            }
            None if rw => {
                // a set for both directions keeps the other one
                e[0].usage = Some(other);
                new.usage = Some(dir);
                e.push(new);
            }
            None => {
                if !replace {
                    return occupied();
                }
                e[0] = new;
            }
            Some(_) => e.push(new),
        }
        return Ok(());
    }
    if !replace {
        return occupied();
    }
    for x in e.iter_mut() {
        if x.usage == Some(dir) {
            *x = new.clone();
        }
    }
    Ok(())
}

fn values(h: &Hash) -> R<Vec<EnumeratedValue>> {
    let mut v: Vec<(u64, EnumeratedValue)> = vec![];
    for (k, y) in h {
        let k = to_str(k)?;
        if k.starts_with('_') {
            continue;
        }
        if k.is_empty() || k.starts_with(|c: char| c.is_ascii_digit()) {
            return err("bad value name");
        }
        let Yaml::Array(a) = y else {
            return err("value is not a list");
        };
        if a.len() < 2 {
            return err("value without description");
        }
        let n = to_int(&a[0])?;
        let d = to_str(&a[1])?;
        if v.iter().any(|(m, _)| *m == n as u64) {
            return err("duplicate value");
        }
        let b = EnumeratedValue::builder()
            .name(k.into())
            .description(Some(d.into()));
        let b = if n == -1 {
            b.is_default(Some(true))
        } else {
            b.value(Some(n as u64))
        };
        v.push((n as u64, b.build(LVL)?));
    }
    v.sort_by_key(|(n, _)| *n);
    Ok(v.into_iter().map(|(_, e)| e).collect())
}

fn enums(
    r: &mut Register,
    spec: &str,
    opt: bool,
    h: &Hash,
    usage: Option<Usage>,
    ctx: &Ctx,
) -> R<()> {
    let (h, replace) = match h.map("_replace_enum")? {
        Some(h) => (h, true),
        None => (h, false),
    };
    let hits = fields_hit(r, spec)?;
    let reg_access = r.properties.access;
    let access_of = |f: &Field| f.access.or(reg_access).unwrap_or(Access::ReadWrite);
    if let Some(from) = h.text("_derivedFrom")? {
        if hits.is_empty() && opt {
            return Ok(());
        }
        let mut owners = vec![];
        for f in r.fields.iter().flatten() {
            for e in &f.enumerated_values {
                if e.name.as_deref() == Some(from) {
                    owners.push((access_of(f), e.clone(), f.name.clone()));
                }
            }
        }
        if owners.len() != 1 {
            return err("source of enumerated values not unique");
        }
        let (a, e, owner) = owners.remove(0);
        if e.derived_from.is_some() {
            return err("multilevel derive");
        }
        if hits.is_empty() {
            return err("no field for the enumerated values");
        }
        let Ok(dir) = direction(a, e.usage) else {
            return unspec("usage of the source does not fit its access");
        };
        for i in hits {
            let f = field(r, i);
            let a = access_of(f);
            if f.name == owner {
                return unspec("derive of the own enumerated values");
            }
            if direction(a, usage)? != dir {
                return err("usage differs from the source's");
            }
            if f.name == from {
                return unspec("field named like the enumerated values");
            }
            let new = EnumeratedValues::builder()
                .derived_from(Some(from.into()))
                .build(LVL)?;
            put(f, new, dir, true, a)?;
        }
        return Ok(());
    }
    if hits.is_empty() {
        return if opt { Ok(()) } else { err("no field for the enumerated values") };
    }
    let f0: Vec<(u32, u32, String)> = hits
        .iter()
        .map(|i| {
            let f = field(r, *i);
            (f.bit_range.offset, f.bit_range.width, f.name.clone())
        })
        .collect();
    if f0.iter().any(|f| f.1 != f0[0].1) {
        return err("fields of different width");
    }
    let min = f0.iter().map(|f| f.0).min().unwrap();
    if f0.iter().filter(|f| f.0 == min).count() > 1 {
        return unspec("several fields at the lowest position");
    }
    let holder = f0.iter().position(|f| f.0 == min).unwrap();
    let name = match h.text("_name")? {
        Some(n) => n.to_string(),
        None => {
            let n = f0[holder].2.replace("%s", "");
            if n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) {
                return err("bad name for enumerated values");
            }
            n + match usage {
                Some(Usage::Read) => "R",
                Some(Usage::Write) => "W",
                _ => "",
            }
        }
    };
    for (j, i) in hits.iter().enumerate() {
        let f = field(r, *i);
        let a = access_of(f);
        let dir = direction(a, usage)?;
        let shown = match (a, dir) {
            (Access::ReadOnly, Usage::Read)
            | (Access::WriteOnly | Access::WriteOnce, Usage::Write)
            | (Access::ReadWrite | Access::ReadWriteOnce, Usage::ReadWrite) => None,
            _ => Some(dir),
        };
        if j == holder || ctx.derive == EnumDerive::None {
            let mut b = EnumeratedValues::builder().values(values(h)?).usage(shown);
            if j == holder {
                b = b.name(Some(name.clone()));
            }
            put(f, b.build(LVL)?, dir, replace, a)?;
        } else if ctx.derive == EnumDerive::Field {
            f.modify_from(
                FieldInfo::builder().derived_from(Some(f0[holder].2.clone())),
                LVL,
            )?;
        } else {
            let new = EnumeratedValues::builder()
                .derived_from(Some(name.clone()))
                .build(LVL)?;
            put(f, new, dir, true, a)?;
        }
    }
    let fields = r.fields.as_mut().unwrap();
    let f = fields.remove(hits[holder]);
    fields.insert(hits[0], f);
    Ok(())
}
