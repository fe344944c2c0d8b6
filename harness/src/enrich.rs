//! Adds what the report and conversion checks need to a random device:
//! derivation chains, derived clusters, qualified references, longer texts.
use crate::flat::info;
use crate::gen_svd;
use crate::model::*;
use crate::src::Src;

const NO: ValidateLevel = ValidateLevel::Disabled;

#[derive(Clone, Debug)]
pub struct Rich {
    pub chains: u32,
    /// derived blocks with contents of their own
    pub own: u32,
    pub clusters: u32,
    pub regs: u32,
    pub fields: u32,
    pub enums: u32,
    pub lines: u32,
    pub interrupts: u32,
}
impl Default for Rich {
    fn default() -> Self {
        Rich {
            chains: 35,
            own: 15,
            clusters: 30,
            regs: 30,
            fields: 30,
            enums: 30,
            lines: 30,
            interrupts: 60,
        }
    }
}

fn lines(s: &mut Src) -> String {
    s.s(&[
        "first line\n   second line",
        "one\n\ntwo",
        "tab\there  double  space",
        "a\n   <b> & c\nd",
        "x < y && z > w",
        "Zeile 1\nµ-Zeile 2",
    ])
}

/// every block with registers: path and children
fn blocks(dev: &Device) -> Vec<Vec<String>> {
    fn go(k: &[RegisterCluster], at: &[String], out: &mut Vec<Vec<String>>) {
        out.push(at.to_vec());
        for x in k {
            if let RegisterCluster::Cluster(c) = x {
                go(&c.children, &[at, &[c.name.clone()]].concat(), out);
            }
        }
    }
    let mut out = vec![];
    for p in &dev.peripherals {
        if let Some(r) = &p.registers {
            go(r, &[p.name.clone()], &mut out);
        }
    }
    out
}
pub fn block_mut<'a>(dev: &'a mut Device, at: &[String]) -> Option<&'a mut Vec<RegisterCluster>> {
    let p = dev.peripherals.iter_mut().find(|p| p.name == at[0])?;
    let mut k = p.registers.as_mut()?;
    for c in &at[1..] {
        k = k.iter_mut().find_map(|x| match x {
            RegisterCluster::Cluster(x) if &x.name == c => Some(&mut x.children),
            _ => None,
        })?;
    }
    Some(k)
}
fn block<'a>(dev: &'a Device, at: &[String]) -> &'a [RegisterCluster] {
    let p = dev.peripherals.iter().find(|p| p.name == at[0]).unwrap();
    let mut k: &[RegisterCluster] = p.registers.as_deref().unwrap_or(&[]);
    for c in &at[1..] {
        k = k
            .iter()
            .find_map(|x| match x {
                RegisterCluster::Cluster(x) if &x.name == c => Some(&x.children[..]),
                _ => None,
            })
            .unwrap();
    }
    k
}
fn end(k: &[RegisterCluster]) -> u32 {
    k.iter()
        .map(|x| match x {
            RegisterCluster::Register(r) => {
                r.address_offset
                    + match r {
                        MaybeArray::Single(_) => 4,
                        MaybeArray::Array(_, d) => d.dim * d.dim_increment,
                    }
            }
            RegisterCluster::Cluster(c) => {
                c.address_offset
                    + match c {
                        MaybeArray::Single(c) => end(&c.children).max(4),
                        MaybeArray::Array(_, d) => d.dim * d.dim_increment,
                    }
            }
        })
        .max()
        .unwrap_or(0)
}

pub fn enrich(s: &mut Src, dev: &mut Device, o: &Rich) {
    // clusters derived from a sibling or from one elsewhere
    let bl = blocks(dev);
    if s.chance(o.clusters) {
        let all: Vec<(Vec<String>, String, bool)> = bl
            .iter()
            .flat_map(|b| {
                block(dev, b).iter().filter_map(|x| match x {
                    RegisterCluster::Cluster(c) => Some((b.clone(), c.name.clone(), c.is_array())),
                    _ => None,
                })
            })
            .collect();
        for n in 0..s.range(1, 2) {
            if all.is_empty() {
                break;
            }
            let (b, name, array) = s.pick(&all).clone();
            let target = if s.chance(60) { b.clone() } else { s.pick(&bl).clone() };
            // only downwards or sideways: a block must not contain a derivation of itself
            if target.len() > b.len() && target[..b.len()] == b[..] && target[b.len()] == name {
                continue;
            }
            if name.contains("%s") && target != b && s.chance(50) {
                continue;
            }
            let from = if target == b && s.chance(70) {
                name.clone()
            } else {
                [&b[..], &[name.clone()]].concat().join(".")
            };
            let off = end(block(dev, &target)) + 4 * s.below(3) as u32;
            let arr = !array && s.chance(40);
            let nm = format!("DCL{n}{}", if arr { "%s" } else { "" });
            let mut c = ClusterInfo::builder()
                .name(nm)
                .address_offset(off)
                .derived_from(Some(from))
                .children(vec![])
                .build(NO)
                .unwrap();
            if s.chance(40) {
                c.description = Some(gen_svd::text(s, 0));
            }
            if s.chance(o.own) {
                c.children = vec![RegisterCluster::Register(
                    RegisterInfo::builder()
                        .name("OWN".into())
                        .address_offset(0)
                        .build(NO)
                        .unwrap()
                        .single(),
                )];
            }
            let c = if arr {
                c.array(
                    DimElement::builder()
                        .dim(2)
                        .dim_increment(0x100)
                        .build(NO)
                        .unwrap(),
                )
            } else {
                c.single()
            };
            if let Some(k) = block_mut(dev, &target) {
                k.push(RegisterCluster::Cluster(c));
            }
        }
    }
    // registers derived from registers elsewhere, also in chains
    let bl = blocks(dev);
    if s.chance(o.regs) {
        let all: Vec<(Vec<String>, String, bool)> = bl
            .iter()
            .flat_map(|b| {
                block(dev, b).iter().filter_map(|x| match x {
                    RegisterCluster::Register(r) => Some((b.clone(), r.name.clone(), r.is_array())),
                    _ => None,
                })
            })
            .collect();
        let mut last: Option<(Vec<String>, String)> = None;
        for n in 0..s.range(1, 3) {
            if all.is_empty() {
                break;
            }
            let (mut b, mut name, mut array) = s.pick(&all).clone();
            if let (Some(l), true) = (&last, s.chance(40)) {
                (b, name, array) = (l.0.clone(), l.1.clone(), false);
            }
            let target = if s.chance(50) { b.clone() } else { s.pick(&bl).clone() };
            let from = if target == b && s.chance(70) {
                name.clone()
            } else {
                [&b[..], &[name.clone()]].concat().join(".")
            };
            let off = end(block(dev, &target));
            let arr = !array && !name.contains('%') && s.chance(25);
            let nm = format!("XR{n}{}", if arr { "%s" } else { "" });
            let mut r = RegisterInfo::builder()
                .name(nm.clone())
                .address_offset(off)
                .derived_from(Some(from))
                .build(NO)
                .unwrap();
            if s.chance(40) {
                r.description = Some(gen_svd::text(s, 0));
            }
            if s.chance(20) {
                r.properties.access = Some(gen_svd::any_access(s));
            }
            if s.chance(o.own) {
                r.fields = Some(vec![FieldInfo::builder()
                    .name("OWNF".into())
                    .bit_range(BitRange::from_offset_width(0, 1))
                    .build(NO)
                    .unwrap()
                    .single()]);
            }
            if !arr {
                last = Some((target.clone(), nm));
            }
            let r = if arr {
                r.array(
                    DimElement::builder()
                        .dim(2)
                        .dim_increment(4)
                        .build(NO)
                        .unwrap(),
                )
            } else {
                r.single()
            };
            if let Some(k) = block_mut(dev, &target) {
                k.push(RegisterCluster::Register(r));
            }
        }
    }
    // fields derived from fields elsewhere, enumerated values derived by path
    let mut fl: Vec<(Vec<String>, String, String, u32, bool)> = vec![];
    let mut ev: Vec<(Vec<String>, String, String, String, u32)> = vec![];
    let mut regs: Vec<(Vec<String>, String)> = vec![];
    for b in blocks(dev) {
        for x in block(dev, &b) {
            let RegisterCluster::Register(r) = x else { continue };
            if r.derived_from.is_some() {
                continue;
            }
            regs.push((b.clone(), r.name.clone()));
            for f in r.fields.iter().flatten() {
                fl.push((b.clone(), r.name.clone(), f.name.clone(), f.bit_range.width, f.is_array()));
                for e in &f.enumerated_values {
                    if let Some(n) = &e.name {
                        if !e.values.is_empty() {
                            ev.push((b.clone(), r.name.clone(), f.name.clone(), n.clone(), f.bit_range.width));
                        }
                    }
                }
            }
        }
    }
    let mut made = 0;
    let mut fresh = None;
    for (want_enum, p) in [(false, o.fields), (true, o.enums), (false, o.fields)] {
        if !s.chance(p) {
            continue;
        }
        for _ in 0..s.range(1, 3) {
            if regs.is_empty() || if want_enum { ev.is_empty() } else { fl.is_empty() } {
                break;
            }
            let (sb, sr, sf, en, w, array) = if want_enum {
                let (a, b, c, d, w) = s.pick(&ev).clone();
                (a, b, c, d, w, false)
            } else {
                let (a, b, c, w, arr) = match &fresh {
                    // a field with derived values of its own
                    Some(x) if s.chance(70) => Clone::clone(x),
                    _ => s.pick(&fl).clone(),
                };
                (a, b, c, String::new(), w, arr)
            };
            let (tb, tr) = if s.chance(50) { (sb.clone(), sr.clone()) } else { s.pick(&regs).clone() };
            let name = format!("NF{made}");
            made += 1;
            let Some(k) = block_mut(dev, &tb) else { continue };
            let Some(r) = k.iter_mut().find_map(|x| match x {
                RegisterCluster::Register(r) if r.name == tr => Some(r),
                _ => None,
            }) else {
                continue;
            };
            let size = r.properties.size.unwrap_or(32);
            let top = r
                .fields
                .iter()
                .flatten()
                .map(|f| {
                    f.bit_range.offset
                        + f.bit_range.width
                        + match f {
                            MaybeArray::Array(_, d) => (d.dim - 1) * d.dim_increment,
                            _ => 0,
                        }
                })
                .max()
                .unwrap_or(0);
            if top + w > size {
                continue;
            }
            let mut f = FieldInfo::builder()
                .name(name)
                .bit_range(BitRange::from_offset_width(top, w))
                .build(NO)
                .unwrap();
            let full = [&sb[..], &[sr.clone(), sf.clone()]].concat().join(".");
            let same = tb == sb && tr == sr;
            if want_enum {
                let from = match s.below(4) {
                    0 if same => en.clone(),
                    1 if same => format!("{sf}.{en}"),
                    2 if tb == sb => format!("{sr}.{sf}.{en}"),
                    _ => format!("{full}.{en}"),
                };
                let mut e = EnumeratedValues::builder().derived_from(Some(from)).build(NO).unwrap();
                if s.chance(40) {
                    e.name = Some(format!("EV{made}"));
                }
                f.enumerated_values = vec![e];
                fresh = Some((tb.clone(), tr.clone(), f.name.clone(), w, false));
            } else {
                f.derived_from = Some(if same && s.chance(60) { sf.clone() } else { full });
                if s.chance(30) {
                    f.access = Some(gen_svd::any_access(s));
                }
                let _ = array;
            }
            r.fields.get_or_insert_with(Vec::new).push(f.single());
        }
    }
    // peripherals derived from derived ones
    if s.chance(o.chains) {
        let mut derived: Vec<String> = dev
            .peripherals
            .iter()
            .filter(|p| p.derived_from.is_some() || s.chance(30))
            .map(|p| p.name.clone())
            .collect();
        for n in 0..s.range(1, 3) {
            if derived.is_empty() {
                break;
            }
            let from = s.pick(&derived).clone();
            if from.contains('%') {
                continue;
            }
            let mut p = PeripheralInfo::builder()
                .name(format!("CHN{n}"))
                .base_address(0x5000_0000 + 0x1000 * n as u64)
                .derived_from(Some(from))
                .build(NO)
                .unwrap();
            if s.chance(30) {
                p.description = Some(gen_svd::text(s, 0));
            }
            if s.chance(o.own) {
                let (kids, _) = gen_svd::children(s, &gen_svd::DevOpt { regs: (1, 3), derived: 0, ..Default::default() }, 1);
                if !kids.is_empty() {
                    p.registers = Some(kids);
                }
            }
            derived.push(p.name.clone());
            dev.peripherals.push(p.single());
        }
        if s.chance(40) {
            s.shuffle(&mut dev.peripherals);
        }
    }
    // texts of several lines
    if s.chance(o.lines) {
        if s.chance(50) {
            dev.description = lines(s);
        }
        fn texts(s: &mut Src, k: &mut [RegisterCluster]) {
            for x in k {
                match x {
                    RegisterCluster::Register(r) => {
                        if s.chance(30) {
                            r.description = Some(lines(s));
                        }
                        for f in r.fields.iter_mut().flatten() {
                            if s.chance(30) {
                                f.description = Some(lines(s));
                            }
                            for e in &mut f.enumerated_values {
                                for v in &mut e.values {
                                    if s.chance(20) {
                                        v.description = Some(lines(s));
                                    }
                                }
                            }
                        }
                    }
                    RegisterCluster::Cluster(c) => {
                        if s.chance(30) {
                            c.description = Some(lines(s));
                        }
                        texts(s, &mut c.children);
                    }
                }
            }
        }
        for p in &mut dev.peripherals {
            if s.chance(30) {
                p.description = Some(lines(s));
            }
            if let Some(k) = &mut p.registers {
                texts(s, k);
            }
        }
    }
    if s.chance(o.interrupts) {
        interrupts(s, dev);
    }
    if s.chance(8) {
        // above 4 GiB, or with a base that is not aligned
        for p in &mut dev.peripherals {
            if s.chance(60) {
                let b = p.base_address;
                p.base_address = match s.below(3) {
                    0 => b + (1 << 32),
                    1 => b + 0xFF_0000_0000,
                    _ => b + 0x8000_0000,
                };
            }
        }
    }
}

/// Interrupts with shared, distant and equal numbers.
pub fn interrupts(s: &mut Src, dev: &mut Device) {
    let wide = *s.pick(&[2usize, 4, 8, 20, 60, 300, 2000]);
    let many = s.chance(12);
    let mut n = 0;
    let mut all: Vec<Interrupt> = vec![];
    for p in &mut dev.peripherals {
        let count = if many { *s.pick(&[8usize, 15, 25]) } else { *s.pick(&[0usize, 1, 1, 2, 3, 6]) };
        p.interrupt.clear();
        for _ in 0..count {
            n += 1;
            if !all.is_empty() && s.chance(12) {
                // shared with another peripheral, or listed twice
                let i: Interrupt = Clone::clone(s.pick(&all));
                p.interrupt.push(i);
                continue;
            }
            let d = match s.below(6) {
                0 => None,
                1 => Some(lines(s)),
                _ => Some(gen_svd::text(s, 20)),
            };
            p.interrupt.push(
                Interrupt::builder()
                    .name(format!("{}_{n}", s.pick(&["IRQ", "exti", "DMA1_CH", "A"])))
                    .description(d)
                    .value(s.below(wide) as u32)
                    .build(NO)
                    .unwrap(),
            );
            all.extend(p.interrupt.last().cloned());
        }
        let _ = info(p);
    }
}
