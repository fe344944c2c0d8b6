//! A generated case in a form that can be stored, replayed and shrunk.
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub property: String,
    pub sub: String,
    /// SVD documents (file name, XML)
    pub svd: Vec<(String, String)>,
    /// rule files (file name, YAML); the first is the main one
    pub yaml: Vec<(String, String)>,
    pub opts: BTreeMap<String, String>,
}
impl Case {
    pub fn opt(&self, k: &str) -> &str {
        self.opts.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.opts.insert(k.into(), v.to_string());
    }
    pub fn hash(&self) -> u64 {
        crate::src::hash_str(&serde_json::to_string(&(&self.svd, &self.yaml, &self.opts)).unwrap())
    }
}

pub fn parse_svd(xml: &str) -> Result<Device, String> {
    let mut c = svd_parser::Config::default();
    c.validate_level = ValidateLevel::Disabled;
    svd_parser::parse_with_config(xml, &c).map_err(|e| format!("{e:#}"))
}
pub fn encode_svd(d: &Device) -> Result<String, String> {
    svd_encoder::encode(d).map_err(|e| format!("{e:#}"))
}
pub fn parse_yaml(t: &str) -> Result<Yaml, String> {
    let mut v = yaml_rust::YamlLoader::load_from_str(t).map_err(|e| e.to_string())?;
    if v.is_empty() {
        return Err("no document".into());
    }
    Ok(v.remove(0))
}

fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn key(s: &str) -> String {
    let plain = !s.is_empty()
        && s.chars().all(|c| c == '_' || c.is_ascii_alphanumeric())
        && !s.starts_with(|c: char| c.is_ascii_digit())
        && !["true", "false", "null", "y", "n", "yes", "no", "on", "off", "True", "False"]
            .iter()
            .any(|k| k.eq_ignore_ascii_case(s));
    if plain {
        s.into()
    } else {
        quoted(s)
    }
}
fn flow(y: &Yaml) -> String {
    match y {
        Yaml::String(s) => quoted(s),
        Yaml::Integer(i) => i.to_string(),
        Yaml::Real(r) => r.clone(),
        Yaml::Boolean(b) => b.to_string(),
        Yaml::Null => "null".into(),
        Yaml::Array(a) => format!("[{}]", a.iter().map(flow).collect::<Vec<_>>().join(", ")),
        Yaml::Hash(h) => format!(
            "{{{}}}",
            h.iter()
                .map(|(k, v)| format!("{}: {}", flow_key(k), flow(v)))
                .collect::<Vec<_>>()
                .join(", ")
        ),
        _ => "null".into(),
    }
}
fn flow_key(k: &Yaml) -> String {
    match k {
        Yaml::String(s) => key(s),
        k => flow(k),
    }
}
fn block(h: &Hash, ind: usize, o: &mut String) {
    for (k, v) in h {
        for _ in 0..ind {
            o.push(' ');
        }
        o.push_str(&flow_key(k));
        o.push(':');
        match v {
            Yaml::Hash(m) if !m.is_empty() => {
                o.push('\n');
                block(m, ind + 2, o);
            }
            v => {
                o.push(' ');
                o.push_str(&flow(v));
                o.push('\n');
            }
        }
    }
}
/// Keys of rules; any other key of a rule mapping is a section, one that starts with `_` too.
pub fn directive(k: &str) -> bool {
    const D: &[&str] = &[
        "_svd", "_include", "_path", "_delete", "_copy", "_modify", "_clear_fields", "_add", "_derive", "_rebase", "_strip",
        "_strip_end", "_prefix", "_suffix", "_expand_array", "_expand_cluster", "_array", "_cluster", "_clusters",
        "_interrupts", "_clear", "_merge", "_split",
    ];
    D.contains(&k)
}
pub fn emit_yaml(y: &Yaml) -> String {
    match y {
        Yaml::Hash(h) if !h.is_empty() => {
            let mut o = String::new();
            block(h, 0, &mut o);
            o
        }
        y => flow(y) + "\n",
    }
}

/// Simpler variants of a case, big steps first.
pub fn simpler(c: &Case) -> Vec<Case> {
    let mut out = vec![];
    for i in 1..c.yaml.len() {
        let mut d = c.clone();
        d.yaml.remove(i);
        out.push(d);
    }
    for i in 1..c.svd.len() {
        let mut d = c.clone();
        d.svd.remove(i);
        out.push(d);
    }
    for (i, (_, t)) in c.yaml.iter().enumerate() {
        if let Ok(y) = parse_yaml(t) {
            for v in simpler_yaml(&y) {
                let mut d = c.clone();
                d.yaml[i].1 = emit_yaml(&v);
                out.push(d);
            }
        }
    }
    for (i, (_, t)) in c.svd.iter().enumerate() {
        if let Ok(dev) = parse_svd(t) {
            for v in simpler_dev(&dev) {
                if let Ok(x) = encode_svd(&v) {
                    let mut d = c.clone();
                    d.svd[i].1 = x;
                    out.push(d);
                }
            }
        }
    }
    out
}

fn simpler_yaml(y: &Yaml) -> Vec<Yaml> {
    let mut out = vec![];
    match y {
        Yaml::Hash(h) => {
            for (k, _) in h {
                let mut n = h.clone();
                n.remove(k);
                out.push(Yaml::Hash(n));
            }
            for (k, v) in h {
                for w in simpler_yaml(v) {
                    let mut n = h.clone();
                    if let Some(x) = n.get_mut(k) {
                        *x = w;
                    }
                    out.push(Yaml::Hash(n));
                }
            }
        }
        Yaml::Array(a) => {
            for i in 0..a.len() {
                let mut n = a.clone();
                n.remove(i);
                out.push(Yaml::Array(n));
            }
            for i in 0..a.len() {
                for w in simpler_yaml(&a[i]) {
                    let mut n = a.clone();
                    n[i] = w;
                    out.push(Yaml::Array(n));
                }
            }
        }
        _ => {}
    }
    out
}

fn simpler_kids(k: &[RegisterCluster]) -> Vec<Vec<RegisterCluster>> {
    let mut out = vec![];
    for i in 0..k.len() {
        let mut n = k.to_vec();
        n.remove(i);
        out.push(n);
    }
    for i in 0..k.len() {
        match &k[i] {
            RegisterCluster::Register(r) => {
                for r in simpler_reg(r) {
                    let mut n = k.to_vec();
                    n[i] = RegisterCluster::Register(r);
                    out.push(n);
                }
            }
            RegisterCluster::Cluster(c) => {
                if c.description.is_some() {
                    let mut c = c.clone();
                    c.description = None;
                    let mut n = k.to_vec();
                    n[i] = RegisterCluster::Cluster(c);
                    out.push(n);
                }
                for ch in simpler_kids(&c.children) {
                    let mut c = c.clone();
                    c.children = ch;
                    let mut n = k.to_vec();
                    n[i] = RegisterCluster::Cluster(c);
                    out.push(n);
                }
            }
        }
    }
    out
}
fn simpler_reg(r: &Register) -> Vec<Register> {
    let mut out = vec![];
    let mut with = |f: &dyn Fn(&mut RegisterInfo)| {
        let mut n = r.clone();
        f(&mut n);
        if n != *r {
            out.push(n);
        }
    };
    with(&|r| r.fields = None);
    for i in 0..r.fields.as_ref().map_or(0, |f| f.len()) {
        with(&|r| {
            r.fields.as_mut().unwrap().remove(i);
        });
        with(&|r| r.fields.as_mut().unwrap()[i].enumerated_values.clear());
        with(&|r| r.fields.as_mut().unwrap()[i].description = None);
        with(&|r| r.fields.as_mut().unwrap()[i].access = None);
        with(&|r| r.fields.as_mut().unwrap()[i].write_constraint = None);
        with(&|r| r.fields.as_mut().unwrap()[i].read_action = None);
        with(&|r| r.fields.as_mut().unwrap()[i].modified_write_values = None);
    }
    with(&|r| r.description = None);
    with(&|r| r.display_name = None);
    with(&|r| r.properties = RegisterProperties::new());
    with(&|r| r.alternate_group = None);
    with(&|r| r.alternate_register = None);
    with(&|r| r.write_constraint = None);
    with(&|r| r.read_action = None);
    with(&|r| r.modified_write_values = None);
    out
}
fn simpler_dev(d: &Device) -> Vec<Device> {
    let mut out = vec![];
    let mut with = |f: &dyn Fn(&mut Device)| {
        let mut n = d.clone();
        f(&mut n);
        if n != *d {
            out.push(n);
        }
    };
    for i in 0..d.peripherals.len() {
        if d.peripherals.len() > 1 {
            with(&|d| {
                d.peripherals.remove(i);
            });
        }
    }
    with(&|d| d.cpu = None);
    with(&|d| d.default_register_properties = RegisterProperties::new());
    with(&|d| {
        d.vendor = None;
        d.vendor_id = None;
        d.series = None;
        d.license_text = None;
        d.header_definitions_prefix = None;
    });
    for i in 0..d.peripherals.len() {
        with(&|d| d.peripherals[i].interrupt.clear());
        with(&|d| d.peripherals[i].address_block = None);
        with(&|d| d.peripherals[i].description = None);
        with(&|d| d.peripherals[i].group_name = None);
        with(&|d| d.peripherals[i].version = None);
        with(&|d| d.peripherals[i].display_name = None);
        with(&|d| d.peripherals[i].default_register_properties = RegisterProperties::new());
        for k in simpler_kids(d.peripherals[i].registers.as_deref().unwrap_or(&[])) {
            with(&|d| {
                d.peripherals[i].registers = (!k.is_empty()).then(|| k.clone());
            });
        }
    }
    out
}
