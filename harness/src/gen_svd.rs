//! Random devices.
use crate::model::*;
use crate::src::Src;

const NO: ValidateLevel = ValidateLevel::Disabled;

#[derive(Clone, Debug)]
pub struct DevOpt {
    pub periphs: (usize, usize),
    pub regs: (usize, usize),
    pub clusters: u32,
    pub reg_arrays: u32,
    pub field_arrays: u32,
    pub derived: u32,
    pub families: u32,
    pub enums: u32,
    pub constraints: u32,
    /// texts with markup, several lines and other odd characters
    pub odd_text: u32,
    /// restrict to what both versions of the tool and the reports handle alike
    pub plain: bool,
    /// more and longer of everything
    pub big: bool,
    /// how often a device is big, in percent
    pub large: u32,
}
impl DevOpt {
    fn upto(&self, small: usize, big: usize) -> usize {
        if self.big {
            big
        } else {
            small
        }
    }
}
impl Default for DevOpt {
    fn default() -> Self {
        DevOpt {
            periphs: (1, 4),
            regs: (0, 6),
            clusters: 30,
            reg_arrays: 20,
            field_arrays: 12,
            derived: 20,
            families: 60,
            enums: 25,
            constraints: 20,
            odd_text: 8,
            plain: false,
            big: false,
            large: 6,
        }
    }
}

pub fn text(s: &mut Src, odd: u32) -> String {
    if s.chance(odd) {
        return s.s(&[
            "a < b & c > \"d\" 'e'",
            "Größe µs",
            "tag <b>bold</b>",
            "50% of %d",
            "semi; colon: comma, #hash",
            "x\\y \\n",
        ]);
    }
    let n = if s.chance(2) { 30 } else { s.range(1, 3) };
    (0..n)
        .map(|_| {
            s.s(&[
                "Control", "status", "channel", "enable", "value", "of", "timer", "mode", "1", "flag",
            ])
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn opt_text(s: &mut Src, o: &DevOpt, p: u32) -> Option<String> {
    s.chance(p).then(|| text(s, o.odd_text))
}

pub fn any_access(s: &mut Src) -> Access {
    *s.pick(&[
        Access::ReadWrite,
        Access::ReadOnly,
        Access::WriteOnly,
        Access::ReadWrite,
        Access::WriteOnce,
        Access::ReadWriteOnce,
    ])
}

fn rprops(s: &mut Src, p: u32) -> RegisterProperties {
    let mut r = RegisterProperties::new();
    if s.chance(p) {
        r.size = Some(*s.pick(&[32, 16, 8, 32]));
    }
    if s.chance(p) {
        r.access = Some(any_access(s));
    }
    if s.chance(p) {
        r.reset_value = Some(s.below(256) as u64);
    }
    if s.chance(p / 2) {
        r.reset_mask = Some(*s.pick(&[0xFF, 0xF0, 0x3]));
    }
    r
}

pub fn fresh(s: &mut Src, used: &[String], pool: &[&str]) -> String {
    for _ in 0..6 {
        let n = s.s(pool);
        if !used.contains(&n) {
            return n;
        }
    }
    let mut i = 0;
    loop {
        let n = format!("{}{i}", s.s(pool));
        if !used.contains(&n) {
            return n;
        }
        i += 1;
    }
}

fn ev(name: &str, value: Option<u64>, desc: Option<String>) -> EnumeratedValue {
    let b = EnumeratedValue::builder().name(name.into()).description(desc);
    match value {
        Some(v) => b.value(Some(v)),
        None => b.is_default(Some(true)),
    }
    .build(NO)
    .unwrap()
}

pub fn evs(s: &mut Src, name: Option<String>, usage: Option<Usage>, width: u32) -> EnumeratedValues {
    let max = 1u64 << width.min(if s.chance(8) { 5 } else { 3 });
    let n = s.range(1, max as usize);
    let mut v = vec![];
    for i in 0..n {
        let nm = ["Off", "On", "Div2", "Div4", "Low", "High", "Idle", "Busy"][i % 8];
        v.push(ev(
            &if i < 8 { nm.to_string() } else { format!("{nm}_{i}") },
            Some(i as u64),
            Some(text(s, 0)),
        ));
    }
    EnumeratedValues::builder()
        .name(name)
        .usage(usage)
        .values(v)
        .build(NO)
        .unwrap()
}

pub const FIELD_NAMES: &[&str] = &[
    "MODE", "EN", "PRE", "OVR", "BSY", "CNT", "IE", "FLAG_A", "SEL", "en", "MODE_X", "XEN", "RDY",
];

fn one_field(s: &mut Src, o: &DevOpt, name: String, off: u32, width: u32) -> FieldInfo {
    let mut f = FieldInfo::builder()
        .name(name.clone())
        .description(opt_text(s, o, 60))
        .bit_range(BitRange::from_offset_width(off, width));
    let access = s.chance(35).then(|| any_access(s));
    f = f.access(access);
    if s.chance(o.constraints) {
        f = f.write_constraint(Some(if s.chance(30) {
            WriteConstraint::UseEnumeratedValues(true)
        } else if !o.plain && s.chance(15) {
            WriteConstraint::WriteAsRead(true)
        } else {
            WriteConstraint::Range(WriteConstraintRange {
                min: 0,
                max: s.below(1 << width.min(8)) as u64,
            })
        }));
    }
    if s.chance(8) {
        f = f.modified_write_values(Some(*s.pick(&[
            ModifiedWriteValues::OneToClear,
            ModifiedWriteValues::ZeroToSet,
        ])));
    }
    if s.chance(8) {
        f = f.read_action(Some(*s.pick(&[ReadAction::Clear, ReadAction::ModifyExternal])));
    }
    if s.chance(o.enums) {
        let n = s.chance(60).then(|| name.replace("%s", ""));
        let v = match s.below(6) {
            0 => vec![evs(s, n, Some(Usage::Read), width)],
            1 => vec![evs(s, n, Some(Usage::Write), width)],
            2 => {
                let n2 = n.clone().map(|n| n + "W");
                vec![
                    evs(s, n.map(|n| n + "R"), Some(Usage::Read), width),
                    evs(s, n2, Some(Usage::Write), width),
                ]
            }
            3 => vec![evs(s, n, Some(Usage::ReadWrite), width)],
            _ => vec![evs(s, n, None, width)],
        };
        f = f.enumerated_values(v);
    }
    f.build(NO).unwrap()
}

fn dim(s: &mut Src, n: u32, inc: u32, o: &DevOpt) -> DimElement {
    let mut d = DimElement::builder().dim(n).dim_increment(inc);
    if s.chance(40) {
        let from = s.below(9) as u32;
        d = d.dim_index(Some(match s.below(5) {
            0 => (0..n).map(|i| i.to_string()).collect(),
            3 => (0..n).map(|i| (from + 2 * i).to_string()).collect(),
            4 => (0..n).rev().map(|i| (i + from).to_string()).collect(),
            1 => (1..=n).map(|i| i.to_string()).collect(),
            _ if o.plain => (0..n).map(|i| i.to_string()).collect(),
            _ => (0..n).map(|i| ((b'A' + i as u8) as char).to_string()).collect(),
        }));
    }
    d.build(NO).unwrap()
}

pub fn fields(s: &mut Src, o: &DevOpt, size: u32) -> Option<Vec<Field>> {
    if s.chance(12) {
        return None;
    }
    let mut out: Vec<Field> = vec![];
    let mut used: Vec<String> = vec![];
    let mut bit = if size == 64 && s.chance(50) { 24 + s.below(20) as u32 } else { 0 };
    let n = s.range(0, o.upto(5, 20));
    for _ in 0..n {
        if bit >= size {
            break;
        }
        if s.chance(o.families / 2) {
            // EN0 EN1 EN2 ...
            let base = fresh(s, &used, &["EN", "IF", "CH", "PIN", "P_"]);
            used.push(base.clone());
            let tail = s.s(&["", "", "_IE", "X"]);
            let start = s.below(3) as u32;
            let count = s.range(2, o.upto(4, 14)) as u32;
            let width = s.range(1, 2) as u32;
            let mut gap = s.range(0, 1) as u32;
            let same_desc = s.below(4);
            let shared = one_field(s, o, String::new(), 0, width);
            for i in 0..count {
                if bit + width > size {
                    break;
                }
                let name = format!("{base}{}{tail}", start + i);
                let mut f = if s.chance(75) {
                    let mut f = shared.clone();
                    f.bit_range = BitRange::from_offset_width(bit, width);
                    f
                } else {
                    one_field(s, o, String::new(), bit, width)
                };
                f.description = match same_desc {
                    0 => Some(format!("Channel {} enable", start + i)),
                    1 => Some("Shared text".into()),
                    2 => None,
                    _ => f.description,
                };
                for e in f.enumerated_values.iter_mut() {
                    e.name = None;
                }
                f.name = name.clone();
                used.push(name);
                out.push(f.single());
                bit += width + gap;
                if s.chance(6) {
                    gap += 1;
                }
            }
            continue;
        }
        let width = *s.pick(&[1u32, 1, 2, 3, 4, 8]);
        if bit + width > size {
            continue;
        }
        if s.chance(o.field_arrays) {
            let inc = width + s.below(2) as u32;
            let count = s.range(2, o.upto(3, 12)) as u32;
            if bit + inc * count <= size {
                let base = fresh(s, &used, &["AR", "GRP", "Q"]);
                used.push(base.clone());
                let name = format!("{base}%s");
                let f = one_field(s, o, name, bit, width);
                out.push(f.array(dim(s, count, inc, o)));
                bit += inc * count;
                continue;
            }
        }
        let name = fresh(s, &used, FIELD_NAMES);
        used.push(name.clone());
        out.push(one_field(s, o, name, bit, width).single());
        bit += width + s.below(2) as u32;
    }
    // derived fields of the same register
    if s.chance(o.derived / 2) {
        let singles: Vec<(String, u32)> = out
            .iter()
            .filter(|f| f.is_single())
            .map(|f| (f.name.clone(), f.bit_range.width))
            .collect();
        if !singles.is_empty() && bit + 8 < size {
            let (src, w) = s.pick(&singles).clone();
            let name = fresh(s, &used, &["DRV", "DRW"]);
            out.push(
                FieldInfo::builder()
                    .name(name)
                    .derived_from(Some(src))
                    .bit_range(BitRange::from_offset_width(bit, w))
                    .build(NO)
                    .unwrap()
                    .single(),
            );
        }
    }
    if s.chance(25) {
        s.shuffle(&mut out);
    }
    Some(out)
}

pub const REG_NAMES: &[&str] = &[
    "CR1", "CR2", "SR", "DR", "CFGR", "ISR", "MODER", "cr1", "CR", "CR10", "BRR", "X_CR", "DATA",
];

fn one_reg(s: &mut Src, o: &DevOpt, name: String, off: u32) -> RegisterInfo {
    let mut props = rprops(s, 45);
    if s.chance(5) {
        props.size = Some(64);
        if s.chance(60) {
            props.reset_value = Some(*s.pick(&[0x1_0000_0001, 0x7FFF_FFFF_FFFF_FFFF, u64::MAX, 0x8000_0000]));
            props.reset_mask = s.chance(40).then_some(0xFFFF_FFFF_0000_0000);
        }
    }
    let size = props.size.unwrap_or(32);
    let mut b = RegisterInfo::builder()
        .name(name.clone())
        .address_offset(off)
        .description(opt_text(s, o, 60))
        .properties(props)
        .fields(fields(s, o, size));
    if s.chance(35) {
        b = b.display_name(Some(if s.chance(60) { name } else { text(s, 0) }));
    }
    if s.chance(8) {
        b = b.alternate_group(Some("GRP".into()));
    }
    if s.chance(8) {
        b = b.alternate_register(Some(s.s(REG_NAMES)));
    }
    if s.chance(6) {
        b = b.modified_write_values(Some(ModifiedWriteValues::OneToClear));
    }
    if s.chance(6) {
        b = b.read_action(Some(ReadAction::Clear));
    }
    if s.chance(6) {
        b = b.write_constraint(Some(WriteConstraint::Range(WriteConstraintRange {
            min: 0,
            max: 100,
        })));
    }
    b.build(NO).unwrap()
}

/// Children of a block and its size in bytes.
pub fn children(s: &mut Src, o: &DevOpt, depth: u32) -> (Vec<RegisterCluster>, u32) {
    let mut out: Vec<RegisterCluster> = vec![];
    let mut used: Vec<String> = vec![];
    let mut off = if s.chance(20) { 4 } else { 0 };
    let n = s.range(o.regs.0, o.regs.1.max(o.upto(0, 14)));
    let n = if depth > 0 { n.clamp(1, 3) } else { n };
    for _ in 0..n {
        if s.chance(o.families / 3) {
            // one or two interleaved numbered families
            let base = fresh(s, &used, &["CH", "CCR", "F", "MB"]);
            used.push(base.clone());
            let tails: Vec<&str> = match s.below(4) {
                0 => vec![""],
                1 => vec!["_CFG", "_DATA"],
                2 => vec!["_A"],
                _ => vec!["_CFG", "_DATA", "_ST"],
            };
            let letters = s.chance(15);
            let start = if !letters && s.chance(6) { 9 } else { s.below(3) as u32 };
            let count = s.range(1, if letters { 4 } else { o.upto(4, 13) }) as u32;
            // the registers of the last tail numbered or spaced otherwise than the others
            let odd = if tails.len() > 1 && count > 1 && s.chance(30) { s.range(1, 4) } else { 0 };
            let base_off = off;
            let protos: Vec<RegisterInfo> = tails
                .iter()
                .map(|_| one_reg(s, o, String::new(), 0))
                .collect();
            let style = s.below(4);
            let mut gap = if s.chance(20) { 4 } else { 0 };
            let arr = s.chance(o.reg_arrays / 3) && depth == 0;
            let mixed = arr && !o.plain && s.chance(20);
            for i in 0..count {
                let idx = if letters {
                    ((b'A' + (start + i) as u8) as char).to_string()
                } else {
                    (start + i).to_string()
                };
                for (n, (t, p)) in tails.iter().zip(&protos).enumerate() {
                    let last = odd > 0 && n + 1 == tails.len();
                    let idx = match (last, odd, i + 1 == count) {
                        (true, 1, true) if letters => "X".to_string(),
                        (true, 1, true) => (start + i + 1).to_string(),
                        _ => idx.clone(),
                    };
                    let mut r = if odd > 1 || s.chance(93) {
                        p.clone()
                    } else {
                        one_reg(s, o, String::new(), 0)
                    };
                    r.name = format!("{base}{idx}{t}");
                    r.address_offset = off;
                    match style {
                        0 => {
                            r.description = Some(format!("Channel {idx} register"));
                            r.display_name = Some(r.name.clone());
                        }
                        1 => {
                            r.description = Some("Common text".into());
                            r.display_name = None;
                        }
                        2 => {
                            r.description = None;
                            r.display_name = None;
                        }
                        _ => {}
                    }
                    used.push(r.name.clone());
                    if arr && !(mixed && s.chance(50)) {
                        r.name = format!("{}_R%s", r.name);
                        let d = DimElement::builder()
                            .dim(2)
                            .dim_increment(4)
                            .build(NO)
                            .unwrap();
                        out.push(RegisterCluster::Register(r.array(d)));
                        off += 8;
                    } else {
                        if odd == 4 {
                            // a gap of 0x40, of the last tail a little more
                            let more = if last { 4 * i } else { 0 };
                            r.address_offset = base_off + i * 0x40 + n as u32 * 4 + more;
                        } else if last && odd > 1 {
                            // after all the others, 4 or 8 apart
                            let all = (count + 8) * 4 * tails.len() as u32;
                            r.address_offset = base_off + all + i * 4 * (odd as u32 - 1);
                        }
                        out.push(RegisterCluster::Register(r.single()));
                        off += 4;
                    }
                }
                off += gap;
                if s.chance(5) {
                    gap += 4;
                }
            }
            if odd > 1 {
                off = off.max(base_off + (count + 8) * 4 * tails.len() as u32 + count * 0x40);
            }
            continue;
        }
        if depth < o.upto(2, 3) as u32 && s.chance(o.clusters / 2) {
            let base = fresh(s, &used, &["BLK", "CH", "GRP", "CLU"]);
            let (kids, size) = children(s, o, depth + 1);
            if kids.is_empty() {
                continue;
            }
            let size = size.max(4);
            let array = s.chance(60);
            let name = if array {
                match s.below(3) {
                    0 => format!("{base}[%s]"),
                    _ => format!("{base}%s"),
                }
            } else {
                base.clone()
            };
            if used.contains(&name) {
                continue;
            }
            used.push(base);
            used.push(name.clone());
            let mut c = ClusterInfo::builder()
                .name(name)
                .description(opt_text(s, o, 50))
                .address_offset(off)
                .default_register_properties(rprops(s, 12))
                .children(kids)
                .build(NO)
                .unwrap();
            if s.chance(10) {
                c.header_struct_name = Some("STRUCT_A".into());
            }
            if s.chance(8) {
                c.alternate_cluster = Some("BLK1".into());
            }
            if array {
                let n = s.range(1, o.upto(3, 12)) as u32;
                let inc = size + if s.chance(20) { 4 } else { 0 };
                let mut d = dim(s, n, inc, o);
                if c.name.contains("[%s]") && s.chance(70) {
                    d.dim_index = None;
                }
                out.push(RegisterCluster::Cluster(c.array(d)));
                off += n * inc;
            } else {
                out.push(RegisterCluster::Cluster(c.single()));
                off += size;
            }
            continue;
        }
        if s.chance(o.reg_arrays) {
            let base = fresh(s, &used, &["ARR", "BUF", "LUT_"]);
            used.push(base.clone());
            let name = match s.below(4) {
                0 => format!("{base}[%s]"),
                1 => format!("{base}%s_X"),
                _ => format!("{base}%s"),
            };
            let n = s.range(1, o.upto(3, 14)) as u32;
            let mut r = one_reg(s, o, name, off);
            if s.chance(30) {
                r.description = Some("Element %s of it".into());
            }
            if !o.plain && s.chance(30) {
                r.display_name = Some("%s_disp".into());
            }
            let mut d = dim(s, n, 4, o);
            if r.name.contains("[%s]") {
                d.dim_index = None;
            }
            out.push(RegisterCluster::Register(r.array(d)));
            off += 4 * n;
            continue;
        }
        let name = fresh(s, &used, REG_NAMES);
        used.push(name.clone());
        out.push(RegisterCluster::Register(one_reg(s, o, name, off).single()));
        if !s.chance(4) {
            off += 4;
        }
        if s.chance(15) {
            off += 4;
        }
    }
    // derived registers
    if s.chance(o.derived) {
        let singles: Vec<String> = out
            .iter()
            .filter_map(|x| match x {
                RegisterCluster::Register(MaybeArray::Single(r)) => Some(r.name.clone()),
                _ => None,
            })
            .collect();
        let n = s.range(1, 2);
        for _ in 0..n {
            if singles.is_empty() {
                break;
            }
            let name = fresh(s, &used, &["DER1", "DER2", "CR5"]);
            used.push(name.clone());
            let from = s.pick(&singles).clone();
            out.push(RegisterCluster::Register(
                RegisterInfo::builder()
                    .name(name)
                    .description(opt_text(s, o, 50))
                    .address_offset(off)
                    .derived_from(Some(from))
                    .build(NO)
                    .unwrap()
                    .single(),
            ));
            off += 4;
        }
    }
    if s.chance(20) {
        s.shuffle(&mut out);
    }
    (out, off)
}

pub const PERIPH_NAMES: &[&str] = &[
    "TIM1", "TIM2", "TIM3", "GPIOA", "GPIOB", "USART1", "TIM10", "tim1", "ADC", "DMA", "TIM", "SPI1",
    "GPIO_A", "AGPIO",
];

fn interrupts(s: &mut Src, used: &mut Vec<String>, big: bool) -> Vec<Interrupt> {
    let n = if big { s.range(0, 8) } else { *s.pick(&[0usize, 0, 1, 2, 3]) };
    let mut v = vec![];
    for _ in 0..n {
        let name = fresh(
            s,
            used,
            &["TIM1_UP", "TIM1_CC", "EXTI0", "EXTI1", "DMA_CH1", "WWDG", "exti0", "TIM1"],
        );
        used.push(name.clone());
        v.push(
            Interrupt::builder()
                .name(name)
                .description(s.chance(60).then(|| text(s, 0)))
                .value(s.below(if big { 300 } else { 12 }) as u32)
                .build(NO)
                .unwrap(),
        );
    }
    v
}

/// Registers and fields of an expanded device, about.
pub fn weight(d: &Device) -> u64 {
    fn times<T>(x: &MaybeArray<T>) -> u64 {
        match x {
            MaybeArray::Single(_) => 1,
            MaybeArray::Array(_, d) => d.dim as u64,
        }
    }
    fn go(k: &[RegisterCluster]) -> u64 {
        k.iter()
            .map(|x| match x {
                RegisterCluster::Register(r) => times(r) * (1 + r.fields.iter().flatten().map(times).sum::<u64>()),
                RegisterCluster::Cluster(c) => times(c) * go(&c.children),
            })
            .sum()
    }
    let own: Vec<u64> = d.peripherals.iter().map(|p| go(p.registers.as_deref().unwrap_or(&[]))).collect();
    let most = own.iter().copied().max().unwrap_or(0);
    d.peripherals
        .iter()
        .zip(own)
        .map(|(p, w)| times(p) * if p.derived_from.is_some() { most } else { w })
        .sum()
}
pub fn device(s: &mut Src, o: &DevOpt) -> Device {
    if s.chance(o.large) {
        let d = device_of(s, &DevOpt { big: true, ..o.clone() });
        // arrays in arrays in arrays are too much for a report
        if weight(&d) <= 2500 {
            return d;
        }
    }
    device_of(s, o)
}
fn device_of(s: &mut Src, o: &DevOpt) -> Device {
    let n = s.range(o.periphs.0, o.periphs.1.max(o.upto(0, 9)));
    let mut ps: Vec<Peripheral> = vec![];
    let mut used: Vec<String> = vec![];
    let mut ints = vec![];
    for i in 0..n {
        let name = fresh(s, &used, PERIPH_NAMES);
        used.push(name.clone());
        let base = 0x4000_0000u64 + if s.chance(85) { i as u64 } else { s.below(6) as u64 } * 0x1000 + if s.chance(3) { 1 << 32 } else { 0 };
        let bases: Vec<String> = ps
            .iter()
            .filter(|p| p.derived_from.is_none())
            .map(|p| p.name.clone())
            .collect();
        let mut b = PeripheralInfo::builder()
            .name(name)
            .base_address(base)
            .interrupt(Some(interrupts(s, &mut ints, o.big)));
        if !bases.is_empty() && s.chance(o.derived) {
            b = b.derived_from(Some(s.pick(&bases).clone()));
            if s.chance(20) {
                b = b.description(Some(text(s, 0)));
            }
            ps.push(b.build(NO).unwrap().single());
            continue;
        }
        let (kids, size) = children(s, o, 0);
        b = b
            .description(opt_text(s, o, 60))
            .group_name(s.chance(40).then(|| s.s(&["TIM", "GPIO"])))
            .version(s.chance(15).then(|| "1.0".into()))
            .display_name(s.chance(10).then(|| "Shown".into()))
            .default_register_properties(rprops(s, 12));
        if s.chance(75) {
            let mut v = vec![AddressBlock::builder()
                .offset(0)
                .size(size.max(4))
                .usage(AddressBlockUsage::Registers)
                .build(NO)
                .unwrap()];
            if s.chance(15) {
                v.push(
                    AddressBlock::builder()
                        .offset(0x800)
                        .size(0x10)
                        .usage(AddressBlockUsage::Reserved)
                        .build(NO)
                        .unwrap(),
                );
            }
            b = b.address_block(Some(v));
        }
        if !kids.is_empty() {
            b = b.registers(Some(kids));
        }
        let p = b.build(NO).unwrap();
        if !o.plain && s.chance(4) {
            let mut p = p;
            p.name = format!("{}[%s]", p.name);
            used.push(p.name.clone());
            let d = DimElement::builder()
                .dim(if o.big { 11 } else { 2 })
                .dim_increment(0x100)
                .build(NO)
                .unwrap();
            ps.push(p.array(d));
        } else {
            ps.push(p.single());
        }
    }
    let mut b = Device::builder()
        .name("DEV".into())
        .version("1.0".into())
        .description(text(s, o.odd_text))
        .address_unit_bits(8)
        .width(32)
        .peripherals(ps)
        .default_register_properties({
            let mut r = rprops(s, 40);
            if o.plain {
                r.size = Some(32);
            }
            r
        });
    if s.chance(60) {
        let mut c = Cpu::builder()
            .name("CM4".into())
            .revision("r0p1".into())
            .endian(Endian::Little)
            .mpu_present(s.chance(50))
            .fpu_present(s.chance(50))
            .nvic_priority_bits(4)
            .has_vendor_systick(false);
        if s.chance(30) {
            c = c.vtor_present(Some(s.chance(50)));
        }
        if s.chance(30) {
            c = c.device_num_interrupts(Some(80));
        }
        b = b.cpu(Some(c.build(NO).unwrap()));
    }
    if s.chance(30) {
        b = b.vendor(Some("ACME".into()));
    }
    if s.chance(20) {
        b = b.vendor_id(Some("AC".into()));
    }
    if s.chance(20) {
        b = b.series(Some("S1".into()));
    }
    if s.chance(15) {
        b = b.license_text(Some("Free & open".into()));
    }
    if s.chance(15) {
        b = b.header_definitions_prefix(Some("HD_".into()));
    }
    b.build(NO).unwrap()
}
