//! Checks of the patch engine against the reference model.
use crate::case::*;
use crate::enrich::{self, Rich};
use crate::gen_patch::{self, PatchOpt};
use crate::gen_svd::{self, DevOpt};
use crate::model::{self, *};
use crate::runner::*;
use crate::src::Src;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn derive_of(s: &str) -> EnumDerive {
    match s {
        "field" => EnumDerive::Field,
        "none" => EnumDerive::None,
        _ => EnumDerive::Enum,
    }
}

/// The code under test: rule document applied to an SVD text.
pub fn implementation(xml: &str, doc: &Yaml, derive: &str) -> Result<String, String> {
    use svdtools::patch::{process_reader, Config, EncoderConfig, EnumAutoDerive};
    let mut c = Config::default();
    c.enum_derive = match derive {
        "field" => EnumAutoDerive::Field,
        "none" => EnumAutoDerive::None,
        _ => EnumAutoDerive::Enum,
    };
    match catch_unwind(AssertUnwindSafe(|| {
        let mut r = process_reader(xml.as_bytes(), doc, &EncoderConfig::default(), &c)
            .map_err(|e| format!("error: {e:#}"))?;
        let mut t = String::new();
        r.read_to_string(&mut t).map_err(|e| e.to_string())?;
        Ok(t)
    })) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
    }
}

pub fn expected(c: &Case, doc: &Yaml) -> R<String> {
    let mut dev = parse_svd(&c.svd[0].1).map_err(E::Unspec)?;
    let lookup = |f: &str| match c.svd[1..].iter().find(|(n, _)| n == f) {
        Some((_, x)) => parse_svd(x).map_err(E::Unspec),
        None => err("no such file"),
    };
    let ctx = Ctx {
        derive: derive_of(c.opt("derive")),
        others: &lookup,
    };
    model::device::patch(&mut dev, doc, &ctx)?;
    // the encoder panics on array elements whose index list is too short
    match catch_unwind(AssertUnwindSafe(|| encode_svd(&dev))) {
        Ok(r) => r.map_err(E::Err),
        Err(_) => Err(E::Unspec("unencodable result".into())),
    }
}

pub fn first_diff(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: expected {:?}, got {:?}", i + 1, x.trim(), y.trim());
        }
    }
    format!("{} lines expected, got {}", a.lines().count(), b.lines().count())
}

/// Same device (None) or what differs.
pub fn compare(want: &str, got: &str) -> Option<String> {
    if want == got {
        return None;
    }
    match (parse_svd(want), parse_svd(got)) {
        (Ok(mut a), Ok(mut b)) => {
            plain_ranges(&mut a);
            plain_ranges(&mut b);
            if a == b {
                return None;
            }
            match (encode_svd(&a), encode_svd(&b)) {
                (Ok(x), Ok(y)) if x != y => Some(first_diff(&x, &y)),
                _ => Some(first_diff(want, got)),
            }
        }
        // the rules themselves ask for an invalid description: texts are only comparable as such
        (Err(_), Err(_)) => None,
        (_, Err(e)) => Some(format!("output is not valid SVD: {e}")),
        (Err(e), _) => Some(format!("expected output is not valid SVD: {e}")),
    }
}

/// Bit positions have three notations in SVD; use one.
pub fn plain_ranges(d: &mut Device) {
    use svd_parser::svd::BitRangeType;
    fn children(rs: &mut [RegisterCluster]) {
        for rc in rs {
            match rc {
                RegisterCluster::Cluster(c) => children(&mut c.children),
                RegisterCluster::Register(r) => {
                    for f in r.fields.iter_mut().flatten() {
                        f.bit_range.range_type = BitRangeType::OffsetWidth;
                    }
                }
            }
        }
    }
    for p in &mut d.peripherals {
        if let Some(rs) = &mut p.registers {
            children(rs);
        }
    }
}

/// The document with what the tool needs to find other SVD files.
pub fn place(c: &Case, doc: &Yaml) -> Yaml {
    let mut doc = doc.clone();
    if c.svd.len() > 1 {
        let dir = scratch();
        for (n, x) in &c.svd[1..] {
            if let Some(p) = dir.join(n).parent() {
                std::fs::create_dir_all(p).unwrap();
            }
            std::fs::write(dir.join(n), x).unwrap();
        }
        if let Yaml::Hash(h) = &mut doc {
            h.insert(
                gen_patch::st("_path"),
                gen_patch::st(dir.join("patch.yaml").to_str().unwrap()),
            );
        }
    }
    doc
}

pub fn eval_patch(c: &Case) -> Verdict {
    let doc = match parse_yaml(&c.yaml[0].1) {
        Ok(d) => d,
        Err(e) => return Verdict::skip(format!("yaml: {e}")),
    };
    let want = match expected(c, &doc) {
        Err(E::Unspec(w)) => return Verdict::skip(w),
        Err(E::Err(e)) => Err(e),
        Ok(x) => Ok(x),
    };
    let got = implementation(&c.svd[0].1, &place(c, &doc), c.opt("derive"));
    match (want, got) {
        (Ok(w), Ok(g)) => match compare(&w, &g) {
            None => Verdict::ok(),
            Some(d) => Verdict::fail(format!("result differs: {d}")),
        },
        (Ok(_), Err(e)) => Verdict::fail(format!("rejected although the rules apply: {e}")),
        (Err(e), Ok(_)) => Verdict::fail(format!("accepted although: {e}")),
        (Err(_), Err(_)) => Verdict::ok(),
    }
}

pub fn gen_case(s: &mut Src, po: &PatchOpt, o: &DevOpt) -> Option<Gen> {
    let dev = gen_svd::device(s, o);
    let mut xml = encode_svd(&dev).ok()?;
    if !o.plain && s.chance(20) {
        // derived elements of every kind, of elements in other blocks, in chains
        let mut rich = dev.clone();
        enrich::enrich(s, &mut rich, &Rich { lines: 5, ..Default::default() });
        let x = catch_unwind(AssertUnwindSafe(|| encode_svd(&rich))).ok().and_then(Result::ok);
        if let Some(x) = x.filter(|x| parse_svd(x).is_ok()) {
            xml = x;
        }
    }
    let dev = parse_svd(&xml).expect("generated SVD parses");
    let mut case = Case::default();
    case.svd.push(("device.svd".into(), xml));
    let mut others = vec![];
    if po.others && s.chance(40) {
        let d = gen_svd::device(s, o);
        let x = encode_svd(&d).ok()?;
        let name = s.s(&["other.svd", "sub/other.svd"]);
        case.svd.push((name.clone(), x.clone()));
        others.push((name, parse_svd(&x).unwrap()));
    }
    let derive = *s.pick(&["enum", "enum", "field", "none"]);
    case.set("derive", derive);
    let p = gen_patch::patch(s, po, &dev, &others, derive_of(derive));
    case.yaml.push(("patch.yaml".into(), emit_yaml(&p.doc)));
    let focus: Vec<&str> = po.focus.iter().map(|f| f.0).collect();
    let nontrivial = p.effective.iter().any(|k| focus.contains(k) || *k == "badtype");
    let mut tags: Vec<String> = p.effective.iter().map(|k| format!("effective {k}")).collect();
    tags.push(match &p.out {
        Ok(_) => "patch accepted".into(),
        Err(_) => "patch rejected".into(),
    });
    Some(Gen {
        case,
        nontrivial,
        tags,
    })
}

pub fn sub(name: &'static str, po: PatchOpt, o: DevOpt, quick: u64, thorough: u64) -> Sub {
    Sub {
        name,
        gen: Box::new(move |s| gen_case(s, &po, &o)),
        eval: eval_patch,
        quick,
        thorough,
    }
}
