//! Reading of rule values and construction of elements from them.
use super::*;

#[derive(Clone, Debug)]
pub enum E {
    /// The rules say this patch must be rejected.
    Err(String),
    /// Outside of what is specified; nothing is demanded.
    Unspec(String),
}
pub type R<T> = Result<T, E>;
pub fn err<T>(s: impl Into<String>) -> R<T> {
    Err(E::Err(s.into()))
}
pub fn unspec<T>(s: impl Into<String>) -> R<T> {
    Err(E::Unspec(s.into()))
}
impl From<svd_rs::SvdError> for E {
    fn from(e: svd_rs::SvdError) -> E {
        E::Err(format!("build: {e}"))
    }
}

pub fn number(text: &str) -> Option<i64> {
    let t: String = text.chars().filter(|c| *c != '_').collect();
    let (digits, radix, neg) = if let Some(d) = t.strip_prefix("0x").or(t.strip_prefix("0X")) {
        (d.to_string(), 16u32, false)
    } else if let Some(d) = t.strip_prefix('#') {
        (d.replace(['x', 'X'], "0"), 2, false)
    } else if let Some(d) = t.strip_prefix("0b") {
        (d.replace('x', "0"), 2, false)
    } else if let Some(d) = t.strip_prefix('-') {
        (d.to_string(), 10, true)
    } else {
        (t, 10, false)
    };
    if digits.is_empty() {
        return None;
    }
    let mut v: i128 = 0;
    for c in digits.chars() {
        v = v * radix as i128 + c.to_digit(radix)? as i128;
        if v > i64::MAX as i128 {
            return None;
        }
    }
    Some(if neg { -(v as i64) } else { v as i64 })
}

pub trait Y {
    fn at(&self, k: &str) -> Option<&Yaml>;
    fn int(&self, k: &str) -> R<Option<i64>>;
    fn text(&self, k: &str) -> R<Option<&str>>;
    fn owned(&self, k: &str) -> R<Option<String>> {
        Ok(self.text(k)?.map(String::from))
    }
    fn map(&self, k: &str) -> R<Option<&Hash>>;
    fn boolean(&self, k: &str) -> R<Option<bool>>;
    fn u32(&self, k: &str) -> R<Option<u32>> {
        match self.int(k)? {
            None => Ok(None),
            Some(v) => match u32::try_from(v) {
                Ok(v) => Ok(Some(v)),
                Err(_) => unspec(format!("{k} does not fit 32 bits")),
            },
        }
    }
    fn u64(&self, k: &str) -> R<Option<u64>> {
        match self.int(k)? {
            None => Ok(None),
            Some(v) => match u64::try_from(v) {
                Ok(v) => Ok(Some(v)),
                Err(_) => unspec(format!("{k} negative")),
            },
        }
    }
    /// entries of a mapping valued rule (nothing if absent or not a mapping)
    fn entries(&self, k: &str) -> R<Vec<(String, Yaml)>>;
    /// string or list of strings
    fn strings(&self, k: &str) -> R<Vec<String>>;
}

pub fn to_int(y: &Yaml) -> R<i64> {
    match y {
        Yaml::Integer(i) => Ok(*i),
        Yaml::String(s) => number(s).ok_or_else(|| E::Err(format!("not a number: {s}"))),
        _ => err("not a number"),
    }
}
pub fn to_str(y: &Yaml) -> R<&str> {
    y.as_str().ok_or_else(|| E::Err("not a string".into()))
}
pub fn to_map(y: &Yaml) -> R<&Hash> {
    y.as_hash().ok_or_else(|| E::Err("not a mapping".into()))
}

impl Y for Hash {
    fn at(&self, k: &str) -> Option<&Yaml> {
        self.get(&Yaml::String(k.into()))
    }
    fn int(&self, k: &str) -> R<Option<i64>> {
        self.at(k).map(to_int).transpose()
    }
    fn text(&self, k: &str) -> R<Option<&str>> {
        self.at(k).map(to_str).transpose()
    }
    fn map(&self, k: &str) -> R<Option<&Hash>> {
        self.at(k).map(to_map).transpose()
    }
    fn boolean(&self, k: &str) -> R<Option<bool>> {
        match self.at(k) {
            None => Ok(None),
            Some(Yaml::Boolean(b)) => Ok(Some(*b)),
            Some(Yaml::Integer(0)) => Ok(Some(false)),
            Some(Yaml::Integer(1)) => Ok(Some(true)),
            Some(Yaml::String(s)) if s == "true" || s == "True" => Ok(Some(true)),
            Some(Yaml::String(s)) if s == "false" || s == "False" => Ok(Some(false)),
            _ => err("not a boolean"),
        }
    }
    fn entries(&self, k: &str) -> R<Vec<(String, Yaml)>> {
        match self.at(k) {
            Some(Yaml::Hash(h)) => h
                .iter()
                .map(|(k, v)| Ok((to_str(k)?.to_string(), v.clone())))
                .collect(),
            None => Ok(vec![]),
            // a rule that should be a mapping but is not is skipped today
            _ => unspec(format!("{k} is not a mapping")),
        }
    }
    fn strings(&self, k: &str) -> R<Vec<String>> {
        match self.at(k) {
            None => Ok(vec![]),
            Some(Yaml::String(s)) => Ok(vec![s.clone()]),
            Some(Yaml::Array(a)) => a.iter().map(|y| Ok(to_str(y)?.to_string())).collect(),
            _ => err(format!("{k} needs a string or a list of strings")),
        }
    }
}

/// Pattern and optional marker.
pub fn optional(spec: &str) -> (&str, bool) {
    match spec.strip_prefix("?~") {
        Some(s) => (s, true),
        None => (spec, false),
    }
}
pub fn hit(name: &str, spec: &str) -> R<bool> {
    glob::matches(name, spec).map_err(E::Unspec)
}

/// Where an element lives: names of the peripheral, the clusters and the register.
#[derive(Clone, Debug, Default)]
pub struct At {
    pub periph: String,
    pub clusters: Vec<String>,
    pub reg: Option<String>,
}
impl At {
    pub fn block(&self) -> String {
        let mut v = vec![self.periph.clone()];
        v.extend(self.clusters.iter().cloned());
        v.join(".")
    }
    pub fn with_cluster(&self, c: &str) -> At {
        let mut a = self.clone();
        a.clusters.push(c.into());
        a
    }
    pub fn with_reg(&self, r: &str) -> At {
        let mut a = self.clone();
        a.reg = Some(r.into());
        a
    }
    pub fn fill(&self, s: &str) -> R<String> {
        let mut table = vec![
            ("`peripheral`", self.periph.clone()),
            ("`block_path`", self.block()),
        ];
        if let Some(r) = &self.reg {
            table.push(("`register`", r.clone()));
            table.push(("`register_path`", format!("{}.{}", self.block(), r)));
        }
        // one left-to-right pass
        let mut out = String::new();
        let mut rest = s;
        'o: while !rest.is_empty() {
            for (k, v) in &table {
                if let Some(r) = rest.strip_prefix(k) {
                    out.push_str(v);
                    rest = r;
                    continue 'o;
                }
            }
            let c = rest.chars().next().unwrap();
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
        Ok(out)
    }
}
fn fill(at: Option<&At>, s: Option<&str>) -> R<Option<String>> {
    match (at, s) {
        (Some(a), Some(s)) => Ok(Some(a.fill(s)?)),
        (_, s) => Ok(s.map(String::from)),
    }
}

pub fn access(s: Option<&str>) -> R<Option<Access>> {
    Ok(match s {
        None => None,
        Some("read-only") => Some(Access::ReadOnly),
        Some("write-only") => Some(Access::WriteOnly),
        Some("read-write") => Some(Access::ReadWrite),
        Some("writeOnce") => Some(Access::WriteOnce),
        Some("read-writeOnce") => Some(Access::ReadWriteOnce),
        Some("") => None,
        Some(_) => return unspec("unknown access text"),
    })
}

pub fn props(h: &Hash) -> R<RegisterProperties> {
    Ok(RegisterProperties::new()
        .size(h.u32("size")?)
        .access(access(h.text("access")?)?)
        .reset_value(h.u64("resetValue")?)
        .reset_mask(h.u64("resetMask")?))
}

pub fn constraint(h: &Hash) -> R<Option<WriteConstraint>> {
    match h.at("_write_constraint").or(h.at("writeConstraint")) {
        None => Ok(None),
        Some(Yaml::String(s)) if s == "none" => Ok(None),
        Some(Yaml::String(s)) if s == "enum" => {
            Ok(Some(WriteConstraint::UseEnumeratedValues(true)))
        }
        Some(Yaml::Array(a)) if a.len() == 2 => Ok(Some(WriteConstraint::Range(
            WriteConstraintRange {
                min: nonneg(to_int(&a[0])?)?,
                max: nonneg(to_int(&a[1])?)?,
            },
        ))),
        Some(Yaml::Array(a)) if a.len() > 2 => unspec("long range"),
        _ => err("bad write constraint"),
    }
}
pub fn nonneg(v: i64) -> R<u64> {
    u64::try_from(v).or_else(|_| unspec("negative"))
}

pub fn dims(h: &Hash) -> R<Option<DimElementBuilder>> {
    let mut d = DimElement::builder();
    let mut any = false;
    match h.at("dimIndex") {
        None => {}
        Some(Yaml::String(s)) => {
            any = true;
            match DimElement::parse_indexes(s) {
                Some(v) => d = d.dim_index(Some(v)),
                None => return err("dimIndex"),
            }
        }
        Some(Yaml::Array(a)) => {
            any = true;
            let v: R<Vec<String>> = a.iter().map(|y| Ok(to_str(y)?.to_string())).collect();
            d = d.dim_index(Some(v?));
        }
        _ => return err("dimIndex"),
    }
    if let Some(n) = h.owned("dimName")? {
        any = true;
        d = d.dim_name(Some(n));
    }
    match h.at("dimArrayIndex") {
        None => {}
        Some(Yaml::Hash(names)) => {
            any = true;
            let mut all = svd_rs::DimArrayIndex {
                header_enum_name: names.owned("headerEnumName")?,
                values: vec![],
            };
            for (k, y) in names {
                let k = to_str(k)?;
                let Yaml::Array(a) = y else { continue };
                if a.len() < 2 {
                    return err("value without description");
                }
                let v = EnumeratedValue::builder()
                    .name(k.into())
                    .value(Some(nonneg(to_int(&a[0])?)?))
                    .description(Some(to_str(&a[1])?.into()));
                all.values.push(v.build(LVL)?);
            }
            d = d.dim_array_index(Some(all));
        }
        _ => return err("dimArrayIndex"),
    }
    if let Some(n) = h.u32("dim")? {
        any = true;
        d = d.dim(n);
    }
    if let Some(n) = h.u32("dimIncrement")? {
        any = true;
        d = d.dim_increment(n);
    }
    Ok(any.then_some(d))
}

/// Give array properties to an element, or change the ones it has.
pub fn set_dims<T: Clone>(e: &mut MaybeArray<T>, d: &Option<DimElementBuilder>) -> R<()> {
    let Some(d) = d else { return Ok(()) };
    match e {
        MaybeArray::Array(_, old) => old.modify_from(d.clone(), LVL)?,
        MaybeArray::Single(i) => {
            let new = d.clone().build(LVL)?;
            *e = MaybeArray::Array(i.clone(), new);
        }
    }
    Ok(())
}

pub fn field_builder(h: &Hash, at: Option<&At>) -> R<FieldInfoBuilder> {
    let mwv = match h.text("modifiedWriteValues")? {
        None => None,
        Some(s) => match ModifiedWriteValues::parse_str(s) {
            Some(v) => Some(v),
            None => return unspec("unknown modifiedWriteValues"),
        },
    };
    let ra = match h.text("readAction")? {
        None => None,
        Some(s) => match ReadAction::parse_str(s) {
            Some(v) => Some(v),
            None => return unspec("unknown readAction"),
        },
    };
    let mut b = FieldInfo::builder()
        .description(fill(at, h.text("description")?)?)
        .derived_from(fill(at, h.text("derivedFrom")?)?)
        .access(access(h.text("access")?)?)
        .modified_write_values(mwv)
        .read_action(ra)
        .write_constraint(constraint(h)?);
    if let Some(n) = h.text("name")? {
        b = b.name(n.into());
    }
    let small = |k: &str| -> R<Option<u32>> {
        match h.int(k)? {
            None => Ok(None),
            Some(v) if (0..=64).contains(&v) => Ok(Some(v as u32)),
            Some(_) => unspec("odd bit position"),
        }
    };
    match (small("msb")?, small("lsb")?) {
        (Some(m), Some(l)) if m >= l => {
            b = b.bit_range(BitRange::from_msb_lsb(m, l));
        }
        (Some(_), Some(_)) => return unspec("msb below lsb"),
        (Some(_), None) | (None, Some(_)) => return unspec("msb or lsb alone"),
        _ => {
            if let Some(t) = h.text("bitRange")? {
                // "[msb:lsb]"
                let Some((m, l)) = t
                    .strip_prefix('[')
                    .and_then(|t| t.strip_suffix(']'))
                    .and_then(|t| t.split_once(':'))
                    .and_then(|(m, l)| Some((m.parse::<u32>().ok()?, l.parse::<u32>().ok()?)))
                    .filter(|(m, l)| m >= l)
                else {
                    return unspec("odd bitRange");
                };
                b = b.bit_range(BitRange::from_msb_lsb(m, l));
            } else {
                if let Some(o) = small("bitOffset")? {
                    b = b.bit_offset(o);
                }
                if let Some(w) = small("bitWidth")? {
                    b = b.bit_width(w);
                }
            }
        }
    }
    Ok(b)
}

pub fn new_field(name: &str, h: &Hash, at: Option<&At>) -> R<Field> {
    let f = field_builder(h, at)?.name(name.into()).build(LVL)?;
    Ok(match dims(h)? {
        Some(d) => f.array(d.build(LVL)?),
        None => f.single(),
    })
}

pub fn reg_builder(h: &Hash, at: Option<&At>) -> R<RegisterInfoBuilder> {
    let fields = match h.map("fields")? {
        None => None,
        Some(_) => Some(
            h.entries("fields")?
                .iter()
                .map(|(n, v)| new_field(n, to_map(v)?, None))
                .collect::<R<Vec<_>>>()?,
        ),
    };
    let mut b = RegisterInfo::builder()
        .display_name(h.owned("displayName")?)
        .description(fill(at, h.text("description")?)?)
        .derived_from(fill(at, h.text("derivedFrom")?)?)
        .alternate_group(h.owned("alternateGroup")?)
        .alternate_register(h.owned("alternateRegister")?)
        .properties(props(h)?)
        .write_constraint(constraint(h)?)
        .fields(fields);
    if let Some(n) = h.text("name")? {
        b = b.name(n.into());
    }
    if let Some(o) = h.u32("addressOffset")? {
        b = b.address_offset(o);
    }
    Ok(b)
}

pub fn new_reg(name: &str, h: &Hash, at: Option<&At>) -> R<Register> {
    let r = reg_builder(h, at)?.name(name.into()).build(LVL)?;
    Ok(match dims(h)? {
        Some(d) => r.array(d.build(LVL)?),
        None => r.single(),
    })
}

pub fn new_regs(h: &Hash) -> R<Option<Vec<RegisterCluster>>> {
    if h.map("registers")?.is_none() {
        return Ok(None);
    }
    Ok(Some(
        h.entries("registers")?
            .iter()
            .map(|(n, v)| Ok(RegisterCluster::Register(new_reg(n, to_map(v)?, None)?)))
            .collect::<R<Vec<_>>>()?,
    ))
}

pub fn cluster_builder(h: &Hash, at: Option<&At>) -> R<ClusterInfoBuilder> {
    let mut b = ClusterInfo::builder()
        .description(fill(at, h.text("description")?)?)
        .derived_from(fill(at, h.text("derivedFrom")?)?)
        .default_register_properties(props(h)?);
    if let Some(c) = new_regs(h)? {
        b = b.children(c);
    }
    if let Some(n) = h.text("name")? {
        b = b.name(n.into());
    }
    if let Some(o) = h.u32("addressOffset")? {
        b = b.address_offset(o);
    }
    Ok(b)
}

pub fn int_builder(h: &Hash) -> R<svd_rs::interrupt::InterruptBuilder> {
    let mut b = Interrupt::builder().description(h.owned("description")?);
    if let Some(n) = h.owned("name")? {
        b = b.name(n);
    }
    if let Some(v) = h.u32("value")? {
        b = b.value(v);
    }
    Ok(b)
}

pub fn block_builder(h: &Hash) -> R<svd_rs::addressblock::AddressBlockBuilder> {
    let mut b = AddressBlock::builder();
    if let Some(v) = h.u32("offset")? {
        b = b.offset(v);
    }
    if let Some(v) = h.u32("size")? {
        b = b.size(v);
    }
    if let Some(u) = h.text("usage")? {
        match u {
            "registers" => b = b.usage(AddressBlockUsage::Registers),
            "buffer" => b = b.usage(AddressBlockUsage::Buffer),
            "reserved" => b = b.usage(AddressBlockUsage::Reserved),
            _ => return unspec("unknown usage"),
        }
    }
    Ok(b)
}
pub fn blocks(a: &[Yaml]) -> R<Vec<AddressBlock>> {
    a.iter()
        .map(|y| Ok(block_builder(to_map(y)?)?.build(LVL)?))
        .collect()
}

pub fn periph_builder(h: &Hash, modify: bool) -> R<PeripheralInfoBuilder> {
    let mut b = PeripheralInfo::builder()
        .display_name(h.owned("displayName")?)
        .version(h.owned("version")?)
        .description(h.owned("description")?)
        .derived_from(h.owned("derivedFrom")?)
        .group_name(h.owned("groupName")?);
    if !modify && h.map("interrupts")?.is_some() {
        let mut v = vec![];
        for (n, i) in h.entries("interrupts")? {
            v.push(int_builder(to_map(&i)?)?.name(n).build(LVL)?);
        }
        b = b.interrupt(Some(v));
    }
    if let Some(n) = h.text("name")? {
        b = b.name(n.into());
    }
    if let Some(a) = h.u64("baseAddress")? {
        b = b.base_address(a);
    }
    if h.at("derivedFrom").is_some() {
        return Ok(b);
    }
    b = b.default_register_properties(props(h)?);
    if !modify {
        match (h.at("addressBlock"), h.at("addressBlocks")) {
            (Some(Yaml::Hash(a)), _) => {
                b = b.address_block(Some(vec![block_builder(a)?.build(LVL)?]))
            }
            (None, Some(Yaml::Array(a))) => b = b.address_block(Some(blocks(a)?)),
            (None, None) => {}
            _ => return unspec("odd address block"),
        }
    }
    b = b.registers(new_regs(h)?);
    Ok(b)
}

pub fn cpu_builder(h: &Hash) -> R<CpuBuilder> {
    let mut b = Cpu::builder()
        .fpu_double_precision(h.boolean("fpuDP")?)
        .dsp_present(h.boolean("dspPresent")?)
        .icache_present(h.boolean("icachePresent")?)
        .dcache_present(h.boolean("dcachePresent")?)
        .itcm_present(h.boolean("itcmPresent")?)
        .dtcm_present(h.boolean("dtcmPresent")?)
        .vtor_present(h.boolean("vtorPresent")?)
        .device_num_interrupts(h.u32("deviceNumInterrupts")?)
        .sau_num_regions(h.u32("sauNumRegions")?);
    if let Some(v) = h.owned("name")? {
        b = b.name(v);
    }
    if let Some(v) = h.owned("revision")? {
        b = b.revision(v);
    }
    if let Some(v) = h.text("endian")? {
        match v {
            "little" => b = b.endian(Endian::Little),
            "big" => b = b.endian(Endian::Big),
            "selectable" => b = b.endian(Endian::Selectable),
            "other" => b = b.endian(Endian::Other),
            _ => return unspec("unknown endian"),
        }
    }
    if let Some(v) = h.boolean("mpuPresent")? {
        b = b.mpu_present(v);
    }
    if let Some(v) = h.boolean("fpuPresent")? {
        b = b.fpu_present(v);
    }
    if let Some(v) = h.u32("nvicPrioBits")? {
        b = b.nvic_priority_bits(v);
    }
    if let Some(v) = h.boolean("vendorSystickConfig")? {
        b = b.has_vendor_systick(v);
    }
    Ok(b)
}

/// Where a new element goes: behind the last element with the highest key
/// not above its own, else first.
pub fn insert_pos(keys: &[u64], new: u64) -> usize {
    let mut best: Option<(u64, usize)> = None;
    for (i, k) in keys.iter().enumerate() {
        if *k <= new && best.map_or(true, |(b, _)| *k >= b) {
            best = Some((*k, i));
        }
    }
    best.map_or(0, |(_, i)| i + 1)
}
