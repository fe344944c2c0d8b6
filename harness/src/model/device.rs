use super::*;
use std::collections::HashSet;

const DEVICE_KEYS: &[&str] = &[
    "_svd", "_include", "_path", "_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive",
    "_rebase",
];

fn index(dev: &Device, name: &str) -> Option<usize> {
    dev.peripherals.iter().position(|p| p.name == name)
}
fn must(dev: &Device, name: &str) -> R<usize> {
    index(dev, name).ok_or_else(|| E::Err(format!("no peripheral {name}")))
}

pub fn patch(dev: &mut Device, doc: &Yaml, ctx: &Ctx) -> R<()> {
    let doc = to_map(doc)?;
    for spec in doc.strings("_delete")? {
        if spec.starts_with("?~") {
            return unspec("?~ in peripheral delete");
        }
        let mut keep = vec![];
        for p in std::mem::take(&mut dev.peripherals) {
            if !hit(&p.name, &spec)? {
                keep.push(p);
            }
        }
        dev.peripherals = keep;
    }
    for (name, v) in doc.entries("_copy")? {
        copy(dev, &name, to_map(&v)?, ctx)?;
    }
    for (k, v) in doc.entries("_modify")? {
        modify(dev, &k, &v)?;
    }
    for spec in doc.strings("_clear_fields")? {
        for p in dev.peripherals.iter_mut() {
            if hit(&p.name, &spec)? && p.derived_from.is_none() {
                if let Some(c) = p.registers.as_mut() {
                    block::clear_all(c, "*")?;
                }
            }
        }
    }
    for (name, v) in doc.entries("_add")? {
        if index(dev, &name).is_some() {
            return err("peripheral exists");
        }
        let h = to_map(&v)?;
        let p = periph_builder(h, false)?.name(name.clone()).build(LVL)?;
        let p = match dims(h)? {
            Some(d) => p.array(d.build(LVL)?),
            None => p.single(),
        };
        let keys: Vec<u64> = dev.peripherals.iter().map(|p| p.base_address).collect();
        let pos = insert_pos(&keys, p.base_address);
        dev.peripherals.insert(pos, p);
    }
    for (name, v) in doc.entries("_derive")? {
        derive(dev, &name, &v)?;
    }
    for (name, v) in doc.entries("_rebase")? {
        rebase(dev, &name, to_str(&v)?)?;
    }
    for (k, v) in doc.iter() {
        let k = to_str(k)?;
        if DEVICE_KEYS.contains(&k) {
            continue;
        }
        let (spec, opt) = optional(k);
        let rules = to_map(v)?;
        let mut found = false;
        for p in dev.peripherals.iter_mut() {
            if hit(&p.name, spec)? {
                found = true;
                block::process_peripheral(p, rules, ctx)?;
            }
        }
        if !found && !opt {
            return err(format!("no peripheral matches {k}"));
        }
    }
    Ok(())
}

fn copy(dev: &mut Device, name: &str, h: &Hash, ctx: &Ctx) -> R<()> {
    let Some(from) = h.text("from")? else {
        return err("copy without from");
    };
    let parts: Vec<&str> = from.split(':').collect();
    let mut new = match parts[..] {
        [src] => {
            let mut p = dev.peripherals[must(dev, src)?].clone();
            p.interrupt = vec![];
            p
        }
        [file, src] => {
            let other = (ctx.others)(file)?;
            let i = must(&other, src)?;
            other.peripherals[i].clone()
        }
        _ => return err("bad from"),
    };
    if new.derived_from.is_some() {
        return unspec("copy of a derived peripheral");
    }
    new.name = name.into();
    match index(dev, name) {
        Some(i) => {
            let old = &mut dev.peripherals[i];
            new.base_address = old.base_address;
            new.interrupt = old.interrupt.clone();
            *old = new;
        }
        None => dev.peripherals.push(new),
    }
    Ok(())
}

fn modify(dev: &mut Device, k: &str, v: &Yaml) -> R<()> {
    let s = || to_str(v).map(String::from);
    let n32 = || to_int(v).and_then(|v| u32::try_from(v).or_else(|_| unspec("range")));
    let n64 = || to_int(v).and_then(nonneg);
    let d = &mut dev.default_register_properties;
    match k {
        "cpu" => {
            let b = cpu_builder(to_map(v)?)?;
            match &mut dev.cpu {
                Some(c) => c.modify_from(b, LVL)?,
                None => dev.cpu = Some(b.build(LVL)?),
            }
        }
        "_peripherals" => {
            for (spec, v) in to_map(v)? {
                modify_periph(dev, to_str(spec)?, to_map(v)?)?;
            }
        }
        "vendor" => dev.vendor = Some(s()?),
        "vendorID" => dev.vendor_id = Some(s()?),
        "name" => dev.name = s()?,
        "series" => dev.series = Some(s()?),
        "version" => dev.version = s()?,
        "description" => dev.description = s()?,
        "licenseText" => dev.license_text = Some(s()?),
        "headerSystemFilename" => dev.header_system_filename = Some(s()?),
        "headerDefinitionsPrefix" => dev.header_definitions_prefix = Some(s()?),
        "addressUnitBits" => dev.address_unit_bits = n32()?,
        "width" => dev.width = n32()?,
        "size" => d.size = Some(n32()?),
        "access" => d.access = access(Some(to_str(v)?))?,
        "protection" => return unspec("protection"),
        "resetValue" => d.reset_value = Some(n64()?),
        "resetMask" => d.reset_mask = Some(n64()?),
        _ => modify_periph(dev, k, to_map(v)?)?,
    }
    Ok(())
}

fn modify_periph(dev: &mut Device, spec: &str, h: &Hash) -> R<()> {
    if spec.starts_with("?~") {
        return unspec("?~ in peripheral modification");
    }
    let mut renamed = HashSet::new();
    let mut any = false;
    for p in dev.peripherals.iter_mut() {
        if !hit(&p.name, spec)? {
            continue;
        }
        any = true;
        let b = periph_builder(h, true)?;
        let d = dims(h)?;
        renamed.insert(p.name.clone());
        set_dims(p, &d)?;
        p.modify_from(b, LVL)?;
        if h.map("interrupts")?.is_some() {
            for (n, v) in h.entries("interrupts")? {
                let b = int_builder(to_map(&v)?)?;
                if let Some(i) = p.interrupt.iter_mut().find(|i| i.name == n) {
                    i.modify_from(b, LVL)?;
                }
            }
        }
        match (h.at("addressBlock"), h.at("addressBlocks")) {
            (None, None) => {}
            (Some(Yaml::Hash(a)), _) => {
                let b = block_builder(a)?;
                match p.address_block.as_deref_mut() {
                    Some([one]) => one.modify_from(b, LVL)?,
                    _ => p.address_block = Some(vec![b.build(LVL)?]),
                }
            }
            (None, Some(Yaml::Array(a))) => p.address_block = Some(blocks(a)?),
            _ => return unspec("odd address block"),
        }
    }
    if !any {
        if h.text("name").is_err() || periph_builder(h, true).is_err() || dims(h).is_err() {
            return unspec("bad body of a modification without target");
        }
    } else {
        if let Some(new) = h.text("name")? {
            for p in dev.peripherals.iter_mut() {
                if let Some(d) = &mut p.derived_from {
                    if renamed.contains(d) {
                        *d = new.into();
                    }
                }
            }
        }
    }
    Ok(())
}

/// Put the element at `from` before position `to`, if it is behind it.
fn pull(dev: &mut Device, from: usize, to: usize) {
    if from > to {
        let p = dev.peripherals.remove(from);
        dev.peripherals.insert(to, p);
    }
}

fn derive(dev: &mut Device, name: &str, v: &Yaml) -> R<()> {
    let (src, b) = match v {
        Yaml::String(s) => (
            s.clone(),
            PeripheralInfo::builder().derived_from(Some(s.clone())),
        ),
        Yaml::Hash(h) => {
            let Some(s) = h.text("_from")? else {
                return err("derive without _from");
            };
            (
                s.to_string(),
                periph_builder(h, true)?.derived_from(Some(s.into())),
            )
        }
        _ => return err("bad derive"),
    };
    if src == name {
        return unspec("derive from itself");
    }
    let src_pos = if src.contains('.') {
        return unspec("qualified peripheral derive source");
    } else {
        must(dev, &src)?
    };
    if dev.peripherals[src_pos].derived_from.as_deref() == Some(name) {
        return unspec("derivation cycle");
    }
    let renamed = matches!(v, Yaml::Hash(h) if h.at("name").is_some());
    if renamed {
        return unspec("derive with a name");
    }
    let mut first = dev.peripherals.len();
    match index(dev, name) {
        Some(i) => {
            first = i;
            dev.peripherals[i].modify_from(b, LVL)?;
        }
        None => {
            let p = b.name(name.into()).build(LVL)?.single();
            dev.peripherals.push(p);
        }
    }
    for (i, p) in dev.peripherals.iter_mut().enumerate() {
        if p.derived_from.as_deref() == Some(name) {
            first = first.min(i);
            p.derived_from = Some(src.clone());
        }
    }
    pull(dev, src_pos, first);
    Ok(())
}

fn rebase(dev: &mut Device, new: &str, old: &str) -> R<()> {
    let old_pos = must(dev, old)?;
    let new_pos = must(dev, new)?;
    if new_pos == old_pos {
        return unspec("rebase on itself");
    }
    let body = dev.peripherals[old_pos].clone();
    if body.derived_from.is_some() {
        return unspec("rebase of a derived peripheral");
    }
    if body.is_array() {
        return unspec("rebase of a peripheral array");
    }
    dev.peripherals[old_pos] = PeripheralInfo::builder()
        .name(old.into())
        .base_address(body.base_address)
        .interrupt((!body.interrupt.is_empty()).then(|| body.interrupt.clone()))
        .derived_from(Some(new.into()))
        .build(LVL)?
        .single();
    let n = &mut dev.peripherals[new_pos];
    let (name, base, ints) = (n.name.clone(), n.base_address, n.interrupt.clone());
    *n = body;
    n.name = name;
    n.base_address = base;
    n.interrupt = ints;
    let mut first = old_pos;
    for (i, p) in dev.peripherals.iter_mut().enumerate() {
        if p.derived_from.as_deref() == Some(old) {
            first = first.min(i);
            p.derived_from = Some(new.into());
        }
    }
    pull(dev, new_pos, first);
    Ok(())
}
