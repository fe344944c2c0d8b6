//! Checks that run the command line tool on files in a scratch directory.
use crate::case::*;
use crate::enrich::{self, Rich};
use crate::flat::{self, elements, info, put, FPeriph};
use crate::gen_svd::{self, DevOpt};
use crate::model::*;
use crate::runner::*;
use crate::src::Src;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct Out {
    pub code: i32,
    pub out: String,
    pub err: String,
}
pub fn exe() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("svdtools-cli")
}
pub fn cli<S: AsRef<std::ffi::OsStr>>(dir: &Path, args: &[S]) -> Out {
    use std::os::unix::process::ExitStatusExt;
    let child = std::process::Command::new(exe())
        .args(args)
        .current_dir(dir)
        .env_remove("RUST_LOG")
        .env("RUST_BACKTRACE", "0")
        .env("RAYON_NUM_THREADS", "2")
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .expect("svdtools-cli runs");
    // a run that does not end is stopped after 30 s of processor time
    let t = std::env::var("PBT_CPU").ok().and_then(|v| v.parse().ok()).unwrap_or(30);
    let l = libc::rlimit { rlim_cur: t, rlim_max: t + 5 };
    unsafe { libc::prlimit(child.id() as libc::pid_t, libc::RLIMIT_CPU, &l, std::ptr::null_mut()) };
    let o = child.wait_with_output().expect("svdtools-cli runs");
    if let Some(n) = o.status.signal() {
        crate::runner::KILLED.with(|k| k.set(n));
    }
    Out {
        code: o.status.code().unwrap_or(-1),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}
impl Out {
    pub fn last(&self) -> String {
        let t: Vec<&str> = self.err.lines().collect();
        t.iter().take(6).cloned().collect::<Vec<_>>().join(" | ")
    }
}
pub fn write(dir: &Path, name: &str, text: &str) {
    let p = dir.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}
/// As the tool's own parsing level.
/// In about half of the cases the output already exists, with more text than the tool writes.
pub fn stale(c: &Case, dir: &Path, name: &str) -> bool {
    let size: usize = c.svd.iter().chain(&c.yaml).map(|(_, t)| t.len()).sum();
    let old = size % 2 == 0;
    if old {
        write(dir, name, &"<old & text of the output>}\n".repeat(6000));
    }
    old
}
pub fn parse_weak(xml: &str) -> Result<Device, String> {
    svd_parser::parse(xml).map_err(|e| format!("{e:#}"))
}
pub fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// First difference between two multisets.
pub fn bags<T: Ord + Clone + std::fmt::Debug>(want: Vec<T>, got: Vec<T>) -> Option<String> {
    let mut n: BTreeMap<T, i64> = BTreeMap::new();
    for w in want {
        *n.entry(w).or_default() += 1;
    }
    for g in got {
        *n.entry(g).or_default() -= 1;
    }
    n.iter().find(|(_, c)| **c != 0).map(|(k, c)| {
        if *c > 0 {
            format!("missing: {k:?}")
        } else {
            format!("unexpected: {k:?}")
        }
    })
}

pub fn gen_device(s: &mut Src, o: &DevOpt, r: &Rich) -> Option<(Device, String)> {
    let mut dev = gen_svd::device(s, o);
    enrich::enrich(s, &mut dev, r);
    if gen_svd::weight(&dev) > 5000 {
        return None;
    }
    let xml = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| encode_svd(&dev)))
        .ok()?
        .ok()?;
    let dev = parse_weak(&xml).ok()?;
    Some((dev, xml))
}
fn one(xml: String) -> Case {
    let mut c = Case::default();
    c.svd.push(("device.svd".into(), xml));
    c
}
fn has_regs(d: &Device) -> bool {
    d.peripherals.iter().any(|p| p.registers.is_some())
}

// ---------------------------------------------------------------- C25 mmap

fn acc(a: Option<Access>) -> &'static str {
    match a {
        None => "",
        Some(Access::ReadOnly) => " (ro)",
        Some(Access::ReadWrite) => " (rw)",
        Some(Access::WriteOnly) => " (wo)",
        Some(Access::WriteOnce) => " (wonce)",
        Some(Access::ReadWriteOnce) => " (rwonce)",
    }
}
fn from(d: &Option<String>) -> String {
    d.as_ref().map(|d| format!(" (={d})")).unwrap_or_default()
}
fn each<T>(e: &MaybeArray<T>) -> flat::F<Vec<Option<(String, u64)>>> {
    Ok(match e {
        MaybeArray::Single(_) => vec![None],
        MaybeArray::Array(_, d) => elements(d)?.into_iter().map(Some).collect(),
    })
}
fn named(s: &str, i: &Option<(String, u64)>) -> String {
    match i {
        None => s.into(),
        Some((i, _)) => put(s, i),
    }
}
fn line_text(d: &Option<String>, i: &Option<(String, u64)>) -> String {
    words(&named(d.as_deref().unwrap_or(""), i))
}
fn mm_block(k: &[RegisterCluster], base: u64, direct: Option<&str>, outer: &str, out: &mut Vec<Vec<String>>) -> flat::F<()> {
    for x in k {
        match x {
            RegisterCluster::Register(r) => {
                let ri = info(r);
                for i in each(r)? {
                    let a = base + ri.address_offset as u64 + i.as_ref().map_or(0, |i| i.1);
                    let n = named(&ri.name, &i);
                    let rest = format!("{}{}: {}", from(&ri.derived_from), acc(ri.properties.access), line_text(&ri.description, &i));
                    let names = match (direct, &i) {
                        // a member of an array cluster carries the index of its cluster
                        (Some(ix), None) if ix == outer => vec![format!("{n}{ix}")],
                        (Some(ix), None) => vec![format!("{n}{ix}"), format!("{n}{outer}")],
                        (d, _) => vec![n.clone(), format!("{n}{outer}"), format!("{n}{}", d.unwrap_or(""))],
                    };
                    out.push(names.iter().map(|n| format!("0x{a:X} B  REGISTER {n}{rest}")).collect());
                    for f in ri.fields.iter().flatten() {
                        let fi = info(f);
                        for i in each(f)? {
                            out.push(vec![format!(
                                "0x{a:X} C   FIELD {:02}w{:02} {}{}{}: {}",
                                fi.bit_range.offset as u64 + i.as_ref().map_or(0, |i| i.1),
                                fi.bit_range.width,
                                named(&fi.name, &i),
                                from(&fi.derived_from),
                                acc(fi.access),
                                line_text(&fi.description, &i)
                            )]);
                        }
                    }
                }
            }
            RegisterCluster::Cluster(c) => {
                let ci = info(c);
                for i in each(c)? {
                    let a = base + ci.address_offset as u64 + i.as_ref().map_or(0, |i| i.1);
                    let n = named(&ci.name, &i);
                    let rest = format!("{}: {}", from(&ci.derived_from), line_text(&ci.description, &i));
                    out.push(
                        [n.clone(), format!("{n}{outer}")]
                            .iter()
                            .map(|n| format!("0x{a:X} B  CLUSTER {n}{rest}"))
                            .collect(),
                    );
                    match &i {
                        None => mm_block(&ci.children, a, None, outer, out)?,
                        Some((ix, _)) => mm_block(&ci.children, a, Some(ix), &format!("{outer}{ix}"), out)?,
                    }
                }
            }
        }
    }
    Ok(())
}
/// Acceptable texts of every line.
pub fn mmap_lines(dev: &Device) -> flat::F<Vec<Vec<String>>> {
    let mut out = vec![];
    for p in &dev.peripherals {
        let mut src = info(p);
        let mut n = 0;
        while src.registers.is_none() {
            let Some(d) = &src.derived_from else { break };
            let Some(x) = dev.peripherals.iter().find(|p| &p.name == d) else {
                return Err("derived from nothing".into());
            };
            src = info(x);
            n += 1;
            if n > 20 {
                return Err("circular".into());
            }
        }
        let pi = info(p);
        for i in each(p)? {
            let a = pi.base_address + i.as_ref().map_or(0, |i| i.1);
            let name = named(&pi.name, &i);
            out.push(vec![format!("0x{a:X} A PERIPHERAL {name}")]);
            for t in &pi.interrupt {
                let d = words(t.description.as_deref().unwrap_or(""));
                let e = match &i {
                    None => d.clone(),
                    Some((ix, _)) => put(&d, ix),
                };
                let tn = named(&t.name, &i);
                let mut v = vec![format!("INTERRUPT {:03}: {} ({name}): {d}", t.value, t.name)];
                v.push(format!("INTERRUPT {:03}: {tn} ({name}): {e}", t.value));
                out.push(v);
            }
            mm_block(src.registers.as_deref().unwrap_or(&[]), a, None, "", &mut out)?;
        }
    }
    Ok(out)
}
fn eval_mmap(c: &Case) -> Verdict {
    let Ok(dev) = parse_weak(&c.svd[0].1) else {
        return Verdict::skip("invalid SVD");
    };
    let want = match mmap_lines(&dev) {
        Ok(w) => w,
        Err(e) => return Verdict::skip(e),
    };
    let dir = scratch();
    write(&dir, "device.svd", &c.svd[0].1);
    let o = cli(&dir, &["mmap", "device.svd"]);
    if o.code != 0 {
        return Verdict::fail(format!("mmap fails: {}", o.last()));
    }
    let lines: Vec<&str> = o.out.lines().collect();
    if let Some(w) = lines.windows(2).find(|w| w[0] > w[1]) {
        return Verdict::fail(format!("not sorted: {:?} before {:?}", w[0], w[1]));
    }
    let mut left: BTreeMap<&str, usize> = BTreeMap::new();
    for l in &lines {
        if !l.is_empty() {
            *left.entry(*l).or_default() += 1;
        }
    }
    // lines with one form first
    let mut order: Vec<&Vec<String>> = want.iter().collect();
    order.sort_by_key(|v| v.iter().collect::<std::collections::BTreeSet<_>>().len());
    for alt in order {
        let Some(hit) = alt.iter().find(|a| left.get(a.as_str()).is_some_and(|n| *n > 0)) else {
            return Verdict::fail(format!("line missing: {:?}", alt[0]));
        };
        *left.get_mut(hit.as_str()).unwrap() -= 1;
    }
    match left.iter().find(|(_, n)| **n > 0) {
        Some((l, _)) => Verdict::fail(format!("line too many: {l:?}")),
        None => Verdict::ok(),
    }
}

// ---------------------------------------------------------- C26 interrupts

fn eval_interrupts(c: &Case) -> Verdict {
    let Ok(dev) = parse_weak(&c.svd[0].1) else {
        return Verdict::skip("invalid SVD");
    };
    if dev.peripherals.is_empty() {
        return Verdict::skip("no peripheral");
    }
    let mut want: Vec<(u32, String)> = vec![];
    for p in &dev.peripherals {
        for i in &p.interrupt {
            want.push((
                i.value,
                words(&format!(
                    "{} {}: {} (in {})",
                    i.value,
                    i.name,
                    i.description.as_deref().unwrap_or(""),
                    p.name
                )),
            ));
        }
    }
    // stable: equal numbers stay in document order
    want.sort_by_key(|w| w.0);
    let gaps = c.opt("gaps") != "no";
    let dir = scratch();
    write(&dir, "device.svd", &c.svd[0].1);
    let mut args = vec!["interrupts", "device.svd"];
    if !gaps {
        args.push("--no-gaps");
    }
    let o = cli(&dir, &args);
    if o.code != 0 {
        return Verdict::fail(format!("interrupts fails: {}", o.last()));
    }
    let mut lines: Vec<&str> = o.out.lines().collect();
    if gaps {
        let Some(l) = lines.pop() else {
            return Verdict::fail("no gap line");
        };
        let Some(l) = l.strip_prefix("Gaps:") else {
            return Verdict::fail(format!("no gap line, but {l:?}"));
        };
        let got: Vec<&str> = l.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
        let used: std::collections::HashSet<u32> = want.iter().map(|w| w.0).collect();
        let top = want.last().map_or(0, |w| w.0);
        let exp: Vec<String> = (0..top).filter(|n| !used.contains(n)).map(|n| n.to_string()).collect();
        if got != exp {
            return Verdict::fail(format!("gaps: expected {exp:?}, got {got:?}"));
        }
    }
    let got: Vec<String> = lines.iter().map(|l| words(l)).collect();
    let exp: Vec<String> = want.into_iter().map(|w| w.1).collect();
    if got.len() != exp.len() {
        if let Some(d) = bags(exp.clone(), got.clone()) {
            return Verdict::fail(d);
        }
    }
    for (e, g) in exp.iter().zip(&got) {
        if e != g {
            return Verdict::fail(format!("expected {e:?}, got {g:?}"));
        }
    }
    Verdict::ok()
}

// ---------------------------------------------------------------- C27 html

fn between<'a>(t: &'a str, a: &str, b: &str) -> Option<(&'a str, &'a str)> {
    let i = t.find(a)? + a.len();
    let j = t[i..].find(b)? + i;
    Some((&t[i..j], &t[j + b.len()..]))
}
fn all<'a>(mut t: &'a str, a: &str, b: &str) -> Vec<&'a str> {
    let mut v = vec![];
    while let Some((x, r)) = between(t, a, b) {
        v.push(x);
        t = r;
    }
    v
}
fn safe(d: &Option<String>) -> String {
    words(
        &d.as_deref()
            .unwrap_or("")
            .replace('&', "&amp;")
            .replace('<', "&lt;")
            .replace('>', "&gt;"),
    )
}
/// The report may set the index of an element in brackets.
fn plain(n: &str) -> String {
    n.chars().filter(|c| !"[] ".contains(*c)).collect()
}
type HField = (String, String, String, String);
type HReg = (String, u64, String, String, String, String);
fn documented(f: &flat::FField, reg: Option<Access>) -> bool {
    !f.enums.is_empty() || f.wc.is_some() || f.access.or(reg) == Some(Access::ReadOnly)
}
fn short(a: Option<Access>, f: &flat::FField) -> String {
    use ModifiedWriteValues::*;
    let r = match f.ra {
        None => "r",
        Some(ReadAction::Clear) => "rc",
        Some(ReadAction::Set) => "rs",
        Some(ReadAction::Modify) => "rm",
        Some(ReadAction::ModifyExternal) => "re",
    };
    let w = match f.mwv {
        None | Some(Modify) => "w",
        Some(OneToClear) => "w1c",
        Some(OneToSet) => "w1s",
        Some(OneToToggle) => "w1t",
        Some(ZeroToClear) => "w0c",
        Some(ZeroToSet) => "w0s",
        Some(ZeroToToggle) => "w0t",
        Some(Clear) => "wc",
        Some(Set) => "ws",
    };
    match f.access.or(a) {
        Some(Access::ReadWrite) if r == "r" && w == "w" => "rw".into(),
        Some(Access::ReadWrite) => format!("{r}/{w}"),
        Some(Access::ReadOnly) => r.into(),
        Some(Access::WriteOnly) => w.into(),
        _ => "N/A".into(),
    }
}
fn reg_name(r: &flat::FReg) -> String {
    let mut n = r.name.clone();
    for (_, i) in &r.clusters {
        n.push_str(&format!("[{}]", i.as_deref().unwrap_or("0")));
    }
    plain(&n)
}
fn covered(s: &str) -> Option<(usize, usize)> {
    let (a, b) = words(s).strip_suffix(" fields covered.")?.split_once('/').map(|(a, b)| (a.to_string(), b.to_string()))?;
    Some((a.trim().parse().ok()?, b.trim().parse().ok()?))
}
fn width_ok(s: &str, (d, t): (usize, usize)) -> bool {
    let want = if t == 0 { 100. } else { 100. * d as f64 / t as f64 };
    s.trim().parse::<f64>().is_ok_and(|x| (x - want).abs() < 0.01)
}
macro_rules! need {
    ($e:expr, $($m:tt)*) => {
        match $e {
            Some(x) => x,
            None => return Err(format!($($m)*)),
        }
    };
}
fn check_page(page: &str, want: &[FPeriph]) -> Result<(usize, usize), String> {
    let chunks: Vec<&str> = page.split("<div class=\"peripheral\">").skip(1).collect();
    let nav = page.split("<div class=\"peripheral\">").next().unwrap_or("");
    let mut seen = vec![];
    let mut sum = (0, 0);
    let menu = between(nav, "<nav class=\"menu\">", "</nav>").map_or("", |x| x.0);
    let menu: Vec<String> = all(menu, "<a href=\"#", "</a>").into_iter().map(|x| x.replacen("\">", " ", 1)).collect();
    for ch in &chunks {
        let (id, _) = need!(between(ch, "<h3 id=\"", "\""), "peripheral without heading");
        seen.push(id.to_string());
        let w: Vec<&FPeriph> = want.iter().filter(|p| p.name == id).collect();
        let [w] = w[..] else {
            return Err(format!("peripheral {id} is not in the device"));
        };
        if menu.get(seen.len() - 1) != Some(&format!("{id} {id}")) {
            return Err(format!("{id} is not in the overview, or not in its place: {menu:?}"));
        }
        let (text, rest) = need!(between(ch, "<p>", "</p>"), "{id} without text");
        let head = words(&format!("0x{:08x}: {}", w.base, safe(&w.desc)));
        if words(text) != head {
            return Err(format!("{id}: expected {head:?}, got {:?}", words(text)));
        }
        let (bar, _) = need!(between(rest, "width: ", "%"), "{id} without bar");
        let (em, rest) = need!(between(rest, "<em>", "</em>"), "{id} without coverage");
        let total = w.regs.iter().map(|r| r.fields.len()).sum::<usize>();
        let doc = w
            .regs
            .iter()
            .map(|r| r.fields.iter().filter(|f| documented(f, r.full.access)).count())
            .sum::<usize>();
        sum = (sum.0 + doc, sum.1 + total);
        if covered(em) != Some((doc, total)) {
            return Err(format!("{id}: coverage {doc}/{total} expected, got {:?}", words(em)));
        }
        if !width_ok(bar, (doc, total)) {
            return Err(format!("{id}: bar {bar}% for {doc}/{total}"));
        }
        // register map
        let (map, rest) = need!(between(rest, "<details class=\"register-map\"", "</details>"), "{id} without map");
        let mut map_cells: Vec<(String, Vec<(String, u32, u32, String)>)> = vec![];
        for r in map.split("<tr>").skip(2) {
            let n = between(r, "<td><a class=\"fieldlink\"", "</a>").map(|x| x.0).unwrap_or("");
            let n = n.rsplit('>').next().unwrap_or("").to_string();
            let mut at = 32i64;
            let mut cl = vec![];
            for td in r.split("<td").skip(3) {
                let (head, body) = need!(td.split_once('>'), "{id}: cell in the map row of {n}");
                let w = match between(head, "colspan=\"", "\"") {
                    Some((x, _)) => need!(x.parse::<i64>().ok(), "{id}: cell width {x}"),
                    None => 1,
                };
                if let Some((a, _)) = between(body, "<a ", "</a>") {
                    let (a, name) = need!(a.rsplit_once('>'), "{id}: cell in the map row of {n}");
                    if at < w || w < 1 {
                        return Err(format!("{id}: the cells exceed the map row of {n}"));
                    }
                    cl.push((
                        plain(name),
                        at as u32 - 1,
                        (at - w) as u32,
                        format!("{} {}", a.contains("text-success"), head.contains("separated")),
                    ));
                }
                at -= w;
            }
            if at != 0 {
                return Err(format!("{id}: the map row of {n} has {} columns", 32 - at));
            }
            map_cells.push((n, cl));
        }
        let rows: Vec<(String, String)> = map
            .split("<tr>")
            .skip(2)
            .map(|r| {
                let o = between(r, "<td>", "</td>").map(|x| x.0).unwrap_or("");
                let n = between(r, "<td><a class=\"fieldlink\"", "</a>").map(|x| x.0).unwrap_or("");
                (words(o), plain(n.rsplit('>').next().unwrap_or("")))
            })
            .collect();
        let rows_want = w
            .regs
            .iter()
            .map(|r| {
                let size = r.full.size.unwrap_or(32);
                let o = format!("0x{:x}", r.off);
                (if size == 32 { o } else { format!("{o} ({size}-bit)") }, reg_name(r))
            })
            .collect();
        if let Some(d) = bags(rows_want, rows) {
            return Err(format!("{id}: register map: {d}"));
        }
        // registers
        let mut got: Vec<HReg> = vec![];
        let mut order: Vec<(u64, String)> = vec![];
        let mut fields: Vec<Vec<HField>> = vec![];
        let mut cells: Vec<Vec<(String, u32, u32, String)>> = vec![];
        for rc in rest.split("<div class=\"register\">").skip(1) {
            let (rid, r2) = need!(between(rc, "<h4 id=\"", "\""), "register without heading in {id}");
            let rid = need!(rid.strip_prefix(&format!("{id}:")), "register {rid} in {id}");
            let (title, r2) = need!(between(r2, ">", "<a "), "{rid} without title");
            if words(title) != words(rid) {
                return Err(format!("{id}: register {rid} is titled {title:?}"));
            }
            let (d, r2) = need!(between(r2, "<p>", "</p>"), "{rid} without text");
            let (p, r2) = need!(between(r2, "<p>", "</p>"), "{rid} without properties");
            let p = words(p);
            let (off, rp) = need!(between(&p, "Offset: 0x", ","), "{rid}: {p}");
            let off = need!(u64::from_str_radix(off, 16).ok(), "{rid}: {p}");
            let (size, rp) = need!(between(rp, "size: ", ","), "{rid}: {p}");
            let (reset, rp) = need!(between(rp, "reset: ", ","), "{rid}: {p}");
            let (_, access) = need!(rp.split_once("access: "), "{rid}: {p}");
            let access = words(access);
            let (bar, r2) = need!(between(r2, "width: ", "%"), "{rid} without bar");
            let (top, list) = need!(r2.split_once("<details class=\"fields\""), "{rid} without fields");
            let em = between(top, "<em>", "</em>").and_then(|e| covered(e.0)).unwrap_or((0, 0));
            if !width_ok(bar, em) {
                return Err(format!("{id}:{rid}: bar {bar}% for {em:?}"));
            }
            got.push((plain(rid), off, words(d), size.into(), reset.into(), format!("{access} {em:?}")));
            let mut fl = vec![];
            for fc in list.split("<h4 id=\"").skip(1) {
                let (fid, f2) = need!(fc.split_once('"'), "field without heading in {rid}");
                let fid = need!(fid.strip_prefix(&format!("{id}:{rid}:")), "field {fid} in {rid}");
                let (p, f2) = need!(between(f2, "<p>", "</p>"), "field {fid} without text");
                let p = words(p);
                let (bits, d) = need!(p.split_once(':'), "field {fid}: {p}");
                let doc = between(f2, "<p>", "</p>").map(|x| x.0).unwrap_or("");
                fl.push((plain(fid), bits.to_string(), words(d), words(doc)));
            }
            let at: Vec<u32> = fl.iter().filter_map(|f| f.1.split([' ', '-']).nth(1)?.parse().ok()).collect();
            if at.len() != fl.len() || at.windows(2).any(|w| w[0] > w[1]) {
                return Err(format!("{id}:{rid}: fields not by bit: {:?}", fl.iter().map(|f| &f.1).collect::<Vec<_>>()));
            }
            fields.push(fl);
            // the picture of the bits
            let mut cl = vec![];
            let table = between(top, "<table class=\"table table-striped table-bordered bitfield\">", "</table>")
                .map(|x| x.0)
                .unwrap_or("");
            let trs: Vec<&str> = all(table, "<tr>", "</tr>");
            for pair in trs.chunks(2) {
                let heads: Vec<u32> = all(pair[0], "<th>", "</th>").iter().filter_map(|x| x.trim().parse().ok()).collect();
                let mut at = 0usize;
                for td in pair.get(1).unwrap_or(&"").split("<td ").skip(1) {
                    let (n, body) = need!(between(td, "colspan=\"", "\""), "cell without width in {rid}");
                    let n: usize = need!(n.parse().ok(), "cell width {n} in {rid}");
                    if at + n > heads.len() || n == 0 {
                        return Err(format!("{id}:{rid}: the cells exceed the bit numbers"));
                    }
                    if let Some((a, _)) = between(body, "<a ", "</a>") {
                        let name = plain(&words(a.rsplit('>').next().unwrap_or("")));
                        let access = body.split("<br>").nth(1).unwrap_or("").split("</td>").next().unwrap_or("");
                        let head = body.split('>').next().unwrap_or("");
                        let state = format!("{} {} {}", words(access), a.contains("text-success"), head.contains("separated"));
                        cl.push((name, heads[at], heads[at + n - 1], state));
                    }
                    at += n;
                }
                if at != heads.len() {
                    return Err(format!("{id}:{rid}: the cells do not fill the row"));
                }
            }
            // the row of the map shows the same cells
            let n = cells.len();
            let Some((mname, mcells)) = map_cells.get(n) else {
                return Err(format!("{id}: no map row for {rid}"));
            };
            if mname != rid {
                return Err(format!("{id}: map row {mname} in the place of {rid}"));
            }
            let same = cl
                .iter()
                .map(|c| (c.0.clone(), c.1, c.2, c.3.split_once(' ').map_or("", |x| x.1).to_string()))
                .collect::<Vec<_>>();
            if *mcells != same {
                return Err(format!("{id}:{rid}: map row {mcells:?}, bit fields {same:?}"));
            }
            order.push((off, rid.to_lowercase()));
            cells.push(cl);
        }
        if let Some(w) = order.windows(2).find(|w| w[0] > w[1]) {
            return Err(format!("{id}: register {:?} stands before {:?}", w[0], w[1]));
        }
        let exp: Vec<HReg> = w
            .regs
            .iter()
            .map(|r| {
                let doc = r.fields.iter().filter(|f| documented(f, r.full.access)).count();
                (
                    reg_name(r),
                    r.off,
                    safe(&r.desc),
                    r.full.size.unwrap_or(32).to_string(),
                    format!("0x{:08X}", r.full.reset_value.unwrap_or(0)),
                    format!(
                        "{}{} {:?}",
                        r.full.access.map_or("Unspecified", |a| a.as_str()),
                        match r.wc {
                            Some(WriteConstraint::Range(w)) => format!(", allowed values: {}-{}", w.min, w.max),
                            _ => String::new(),
                        },
                        (doc, r.fields.len())
                    ),
                )
            })
            .collect();
        if let Some(d) = bags(exp.clone(), got.clone()) {
            return Err(format!("{id}: registers: {d}"));
        }
        // equal registers may come in any order
        let mut left: Vec<usize> = (0..got.len()).collect();
        for (r, e) in w.regs.iter().zip(&exp) {
            let fw: Vec<HField> = r
                .fields
                .iter()
                .map(|f| {
                    let bits = if f.width > 1 {
                        format!("Bits {}-{}", f.off, f.off + f.width - 1)
                    } else {
                        format!("Bit {}", f.off)
                    };
                    (plain(&f.name), bits, words(&format!("{}.", safe(&f.desc))), String::new())
                })
                .collect();
            let mut why = String::new();
            let hit = left.iter().position(|&n| {
                if &got[n] != e {
                    return false;
                }
                let short_list = fields[n].iter().map(|f| (f.0.clone(), f.1.clone(), f.2.clone(), String::new())).collect();
                match bags(fw.clone(), short_list) {
                    None => match docs(r, &fields[n]).or_else(|| picture(r, &cells[n])) {
                        None => true,
                        Some(m) => {
                            why = m;
                            false
                        }
                    },
                    Some(m) => {
                        why = m;
                        false
                    }
                }
            });
            match hit {
                Some(h) => {
                    left.remove(h);
                }
                None => return Err(format!("{id}:{}: fields: {why}", e.0)),
            }
        }
    }
    if let Some(w) = seen.windows(2).find(|w| w[0].to_lowercase() > w[1].to_lowercase()) {
        return Err(format!("peripheral {} stands before {}", w[0], w[1]));
    }
    if let Some(d) = bags(want.iter().map(|p| p.name.clone()).collect(), seen) {
        return Err(format!("peripherals: {d}"));
    }
    let (overall, rest) = need!(between(nav, "Overall:", "fields covered"), "no overall figure");
    let (bar, _) = need!(between(rest, "width: ", "%"), "no overall bar");
    if words(overall) != format!("{}/{}", sum.0, sum.1) || !width_ok(bar, sum) {
        return Err(format!("overall {} ({bar}%) instead of {sum:?}", words(overall)));
    }
    Ok(sum)
}
/// The allowed values shown for the fields of a register.
fn docs(r: &flat::FReg, got: &[HField]) -> Option<String> {
    for f in &r.fields {
        let bits = if f.width > 1 {
            format!("Bits {}-{}", f.off, f.off + f.width - 1)
        } else {
            format!("Bit {}", f.off)
        };
        let mut same = got.iter().filter(|g| g.0 == plain(&f.name) && g.1 == bits);
        let (Some(g), None) = (same.next(), same.next()) else {
            continue;
        };
        if let Some(e) = f.enums.first() {
            for v in &e.values {
                let tail = words(&format!("{}</strong>: {}<br>", v.name, safe(&v.description)));
                let n = match v.value {
                    Some(n) => format!("<strong>{n}: {tail}"),
                    // stands for the least number without a name
                    None => {
                        let used: std::collections::HashSet<u64> = e.values.iter().filter_map(|v| v.value).collect();
                        match (0..=u64::MAX >> (64 - f.width.clamp(1, 64))).find(|n| !used.contains(n)) {
                            Some(n) => format!("<strong>{n} (+): {tail}"),
                            None => format!("<strong>(+): {tail}"),
                        }
                    }
                };
                if !g.3.contains(&n) {
                    return Some(format!("{}: value {n:?} is not in {:?}", f.name, g.3));
                }
            }
            if g.3.matches("<strong>").count() != e.values.len() {
                return Some(format!("{}: {} values expected: {:?}", f.name, e.values.len(), g.3));
            }
        } else if let Some(WriteConstraint::Range(w)) = &f.wc {
            let n = format!("<strong>0x{:x}-0x{:x}</strong>", w.min, w.max);
            if !g.3.contains(&n) {
                return Some(format!("{}: range {n} is not in {:?}", f.name, g.3));
            }
        } else if !g.3.is_empty() && f.wc.is_none() {
            return Some(format!("{}: values shown for a field without: {:?}", f.name, g.3));
        }
    }
    None
}
fn picture(r: &flat::FReg, cells: &[(String, u32, u32, String)]) -> Option<String> {
    let mut at: BTreeMap<u32, &flat::FField> = BTreeMap::new();
    for f in &r.fields {
        for b in f.off..f.off + f.width {
            if at.insert(b, f).is_some() {
                // overlapping fields: no single picture
                return None;
            }
        }
    }
    for w in r.fields.iter().flat_map(|a| r.fields.iter().map(move |b| (a, b))) {
        if !std::ptr::eq(w.0, w.1) && w.0.name == w.1.name {
            return None;
        }
    }
    let mut exp = vec![];
    for f in &r.fields {
        // rows end at bits 31, 15
        let named = !f.enums.is_empty() || f.wc.is_some();
        let (lo, hi) = (f.off, f.off + f.width - 1);
        if hi > 31 {
            return None;
        }
        let a = format!("{} {named} {}", short(r.full.access, f), lo < 16 && hi > 15);
        if lo < 16 && hi > 15 {
            exp.push((plain(&f.name), hi, 16, a.clone()));
            exp.push((plain(&f.name), 15, lo, a));
        } else {
            exp.push((plain(&f.name), hi, lo, a));
        }
    }
    bags(exp, cells.to_vec()).map(|d| format!("bit picture: {d}"))
}
const OUTSIDE: &str = "field outside of its register";
/// What the report does not promise to handle.
fn html_able(dev: &Device) -> flat::F<Vec<FPeriph>> {
    let f = flat::flat(dev, false)?;
    for p in &dev.peripherals {
        if p.derived_from.is_some() && p.registers.is_some() {
            return Err("derived peripheral with own registers".into());
        }
    }
    fn own(k: &[RegisterCluster]) -> bool {
        k.iter().any(|x| match x {
            RegisterCluster::Cluster(c) => (c.derived_from.is_some() && !c.children.is_empty()) || own(&c.children),
            _ => false,
        })
    }
    if dev.peripherals.iter().any(|p| own(p.registers.as_deref().unwrap_or(&[]))) {
        return Err("derived cluster with own members".into());
    }
    for r in f.iter().flat_map(|p| &p.regs) {
        for x in &r.fields {
            if x.off + x.width > r.full.size.unwrap_or(32) {
                return Err(OUTSIDE.into());
            }
        }
    }
    let mut names: Vec<&str> = f.iter().map(|p| p.name.as_str()).collect();
    names.sort();
    names.dedup();
    if names.len() != f.len() {
        return Err("two peripherals of the same name".into());
    }
    Ok(f)
}
fn eval_html(c: &Case) -> Verdict {
    let dir = scratch();
    let mut args = vec!["html".to_string(), "out".to_string()];
    let mut outside = None;
    let mut wants = vec![];
    for (n, x) in &c.svd {
        let Ok(dev) = parse_weak(x) else {
            return Verdict::skip("invalid SVD");
        };
        match html_able(&dev) {
            Ok(f) => wants.push((dev.name.clone(), f)),
            Err(e) if e == OUTSIDE => outside = Some(dev.name.clone()),
            Err(e) => return Verdict::skip(e),
        }
        write(&dir, n, x);
        args.push(n.clone());
    }
    if c.opt("dir") == "1" {
        std::fs::create_dir_all(dir.join("out")).unwrap();
    }
    let o = cli(&dir, &args);
    if let Some(n) = outside {
        return if o.code == 0 {
            Verdict::fail(format!("exit 0 although a field of {n} lies outside of its register"))
        } else if dir.join(format!("out/{n}.html")).exists() {
            Verdict::fail(format!("a page for {n} although a field lies outside of its register"))
        } else {
            Verdict::ok()
        };
    }
    if o.code != 0 {
        return Verdict::fail(format!("html fails: {}", o.last()));
    }
    let Ok(index) = std::fs::read_to_string(dir.join("out/index.html")) else {
        return Verdict::fail("no index page");
    };
    let mut rows = vec![];
    for r in index.split("<div class=\"row\">").skip(2) {
        let Some((href, r2)) = between(r, "<a href=\"", "\"") else { continue };
        let (Some((name, r2)), Some((bar, _))) = (between(r2, "<strong>", "</strong>"), between(r, "width: ", "%")) else {
            continue;
        };
        let Some((frac, _)) = between(r2, "</a>:", "fields") else { continue };
        rows.push((href.to_string(), name.to_string(), words(frac), bar.to_string()));
    }
    if rows.len() != wants.len() {
        return Verdict::fail(format!("{} devices in the index, expected {}", rows.len(), wants.len()));
    }
    for (name, f) in &wants {
        let Ok(page) = std::fs::read_to_string(dir.join(format!("out/{name}.html"))) else {
            return Verdict::fail(format!("no page for {name}"));
        };
        match check_page(&page, f) {
            Err(e) => return Verdict::fail(e),
            Ok((d, t)) => {
                let Some(r) = rows.iter().find(|r| &r.1 == name) else {
                    return Verdict::fail(format!("{name} is not in the index"));
                };
                if r.0 != format!("{name}.html") || r.2 != format!("{d}/{t}") || !width_ok(&r.3, (d, t)) {
                    return Verdict::fail(format!("index: expected {d}/{t} for {name}, got {r:?}"));
                }
            }
        }
    }
    if let Some(w) = rows.windows(2).find(|w| w[0].1.to_lowercase() > w[1].1.to_lowercase()) {
        return Verdict::fail(format!("device {} stands before {}", w[0].1, w[1].1));
    }
    for (n, x) in &c.svd {
        if std::fs::read_to_string(dir.join("out").join(n)).ok().as_ref() != Some(x) {
            return Verdict::fail(format!("{n} is not beside its page"));
        }
    }
    // run again: pages older than the SVD file are written again, newer ones stay
    let again = c.opt("again");
    if again.is_empty() {
        return Verdict::ok();
    }
    let mut pages = vec![];
    for (i, ((n, _), (name, _))) in c.svd.iter().zip(&wants).enumerate() {
        let path = dir.join(format!("out/{name}.html"));
        let text = std::fs::read(&path).unwrap_or_default();
        let newer = again.as_bytes()[i % again.len()] == b'n';
        let svd = std::fs::metadata(dir.join(n)).unwrap().modified().unwrap();
        let t = std::time::Duration::from_secs(if i % 2 == 0 { 1 } else { 4000 });
        // an older page that is longer than the new one, as well
        let old = "page of an earlier run\n".repeat(if i % 3 == 2 { 1 } else { text.len() / 20 + 2 });
        std::fs::write(&path, &old).unwrap();
        let f = std::fs::File::options().write(true).open(&path).unwrap();
        f.set_modified(if newer { svd - t } else { svd + t }).unwrap();
        pages.push((path, text, old, newer));
    }
    let o = cli(&dir, &args);
    if o.code != 0 {
        return Verdict::fail(format!("html fails when run again: {}", o.last()));
    }
    if std::fs::read_to_string(dir.join("out/index.html")).ok().as_ref() != Some(&index) {
        return Verdict::fail("another index when run again");
    }
    for (path, text, old, newer) in pages {
        let now = std::fs::read(&path).unwrap_or_default();
        if newer && now != text {
            return Verdict::fail(format!("{}: not written again although the SVD file is newer", path.display()));
        }
        if !newer && now != old.as_bytes() {
            return Verdict::fail(format!("{}: written again although it is newer than the SVD file", path.display()));
        }
    }
    Verdict::ok()
}

// --------------------------------------------------------- C28 htmlcompare

type Row = (Vec<String>, Vec<bool>);
fn table(page: &str, keys: usize) -> Result<(Vec<String>, Vec<Row>), String> {
    let (head, body) = need!(between(page, "<thead>", "</thead>"), "no table head");
    let heads: Vec<String> = all(head, "<th>", "</th>").iter().skip(keys).map(|s| s.to_string()).collect();
    let (body, _) = need!(between(body, "<tbody>", "</tbody>"), "no table body");
    let mut rows = vec![];
    for tr in body.split("<tr>").skip(1) {
        let tds: Vec<&str> = tr.split("<td").skip(1).collect();
        if tds.len() != keys + heads.len() {
            return Err(format!("{} cells in a row, expected {}", tds.len(), keys + heads.len()));
        }
        let k = tds[..keys]
            .iter()
            .map(|t| {
                let t = t.split("</td>").next().unwrap().trim_start_matches('>');
                match between(t, "\">", "</a>") {
                    Some((x, _)) => x.to_string(),
                    None => t.to_string(),
                }
            })
            .collect();
        let m = tds[keys..].iter().map(|t| t.contains("&#10004;")).collect();
        rows.push((k, m));
    }
    Ok((heads, rows))
}
fn compare_tables(dir: &Path, file: &str, names: &[String], mut want: BTreeMap<Vec<String>, Vec<bool>>, keys: usize) -> Result<(), String> {
    let page = need!(std::fs::read_to_string(dir.join(file)).ok(), "no file {file}");
    let (heads, rows) = table(&page, keys).map_err(|e| format!("{file}: {e}"))?;
    if heads != names {
        return Err(format!("{file}: columns {heads:?}, expected {names:?}"));
    }
    for (k, m) in rows {
        match want.remove(&k) {
            None => return Err(format!("{file}: unexpected row {k:?}")),
            Some(w) if w != m => return Err(format!("{file}: row {k:?}: expected {w:?}, got {m:?}")),
            _ => {}
        }
    }
    match want.keys().next() {
        Some(k) => Err(format!("{file}: no row {k:?}")),
        None => Ok(()),
    }
}
fn joined(r: &flat::FReg) -> String {
    let mut n = String::new();
    for (c, _) in &r.clusters {
        n.push_str(c);
        n.push('_');
    }
    n + &r.name
}
fn no_enums(dev: &mut Device) {
    fn go(k: &mut [RegisterCluster]) {
        for x in k {
            match x {
                RegisterCluster::Cluster(c) => go(&mut c.children),
                RegisterCluster::Register(r) => {
                    for f in r.fields.iter_mut().flatten() {
                        f.enumerated_values.clear();
                        f.write_constraint = None;
                    }
                }
            }
        }
    }
    for p in &mut dev.peripherals {
        if let Some(k) = &mut p.registers {
            go(k);
        }
    }
}
fn eval_htmlcompare(c: &Case) -> Verdict {
    let dir = scratch();
    let mut args = vec!["htmlcompare".to_string(), "out".to_string()];
    let mut devs = vec![];
    let mut names = vec![];
    for (n, x) in &c.svd {
        let Ok(mut dev) = parse_weak(x) else {
            return Verdict::skip("invalid SVD");
        };
        no_enums(&mut dev);
        names.push(dev.name.clone());
        match flat::flat(&dev, true) {
            Ok(f) => devs.push(f),
            Err(e) => return Verdict::skip(e),
        }
        write(&dir, n, x);
        args.push(n.clone());
    }
    let n = devs.len();
    type Marks = BTreeMap<Vec<String>, Vec<bool>>;
    let mark = |m: &mut Marks, k: Vec<String>, i: usize| m.entry(k).or_insert(vec![false; n])[i] = true;
    let mut files: BTreeMap<String, (Marks, usize)> = BTreeMap::new();
    files.insert("index.html".into(), (Marks::new(), 2));
    for (i, d) in devs.iter().enumerate() {
        for p in d {
            let base = format!("0x{:08X}", p.base);
            mark(&mut files.get_mut("index.html").unwrap().0, vec![p.name.clone(), base.clone()], i);
            let pf = format!("{}_{base}.html", p.name);
            files.entry(pf.clone()).or_insert((Marks::new(), 2));
            for r in &p.regs {
                let (rn, ro) = (joined(r), format!("0x{:04X}", r.off));
                mark(&mut files.get_mut(&pf).unwrap().0, vec![rn.clone(), ro.clone()], i);
                let rf = files.entry(format!("{}_{base}_{rn}_{ro}.html", p.name)).or_insert((Marks::new(), 3));
                for f in &r.fields {
                    mark(&mut rf.0, vec![f.name.clone(), f.off.to_string(), f.width.to_string()], i);
                }
            }
        }
    }
    // longer files of an earlier run
    if c.opt("old") == "1" {
        std::fs::create_dir_all(dir.join("out")).unwrap();
        for (_, f) in files.keys().enumerate().filter(|(i, f)| i % 7 == 0 || *f == "index.html") {
            write(&dir.join("out"), f, &"<tr><td>OLD</td></tr>\n".repeat(2000));
        }
    }
    let o = cli(&dir, &args);
    if o.code != 0 {
        return Verdict::fail(format!("htmlcompare fails: {}", o.last()));
    }
    for (f, (w, keys)) in files {
        if c.opt("old") == "1" && std::fs::read_to_string(dir.join("out").join(&f)).is_ok_and(|p| p.contains(">OLD<")) {
            return Verdict::fail(format!("{f}: content of an earlier run is left in it"));
        }
        if let Err(e) = compare_tables(&dir.join("out"), &f, &names, w, keys) {
            return Verdict::fail(e);
        }
    }
    Verdict::ok()
}
/// The same device with some elements changed.
fn vary(s: &mut Src, d: &mut Device) {
    fn go(s: &mut Src, k: &mut Vec<RegisterCluster>) {
        if k.len() > 1 && s.chance(25) {
            let n = s.below(k.len());
            k.remove(n);
        }
        for x in k.iter_mut() {
            match x {
                RegisterCluster::Cluster(c) => {
                    if s.chance(12) {
                        c.address_offset += 0x40;
                    }
                    go(s, &mut c.children)
                }
                RegisterCluster::Register(r) => {
                    if s.chance(10) {
                        r.address_offset += 4;
                    }
                    if s.chance(6) {
                        r.name = format!("V_{}", r.name);
                    }
                    if let Some(f) = &mut r.fields {
                        if f.len() > 1 && s.chance(25) {
                            let n = s.below(f.len());
                            f.remove(n);
                        }
                        for f in f.iter_mut() {
                            if s.chance(8) {
                                f.name = format!("V_{}", f.name);
                            }
                            if s.chance(8) && f.bit_range.width > 1 {
                                f.bit_range.width -= 1;
                                f.enumerated_values.clear();
                            }
                            if s.chance(5) {
                                f.bit_range.offset += 1;
                            }
                        }
                    }
                }
            }
        }
    }
    if d.peripherals.len() > 1 && s.chance(30) {
        let n = s.below(d.peripherals.len());
        d.peripherals.remove(n);
    }
    for p in &mut d.peripherals {
        if s.chance(12) {
            p.base_address += 0x100;
        }
        if s.chance(8) {
            p.name = format!("V_{}", p.name);
        }
        if let Some(k) = &mut p.registers {
            go(s, k);
        }
    }
}
fn gen_compare(s: &mut Src) -> Option<Gen> {
    let o = DevOpt {
        odd_text: 0,
        periphs: (1, 3),
        large: 2,
        ..Default::default()
    };
    let r = Rich {
        lines: 0,
        interrupts: 0,
        ..Default::default()
    };
    let (base, xml) = gen_device(s, &o, &r)?;
    let mut c = Case::default();
    let n = s.range(1, 4);
    let mut differ = false;
    let stem = s.chance(25);
    for i in 0..n {
        let (mut d, mut x) = if i > 0 && s.chance(15) {
            gen_device(s, &o, &r)?
        } else {
            (base.clone(), xml.clone())
        };
        if i > 0 {
            for _ in 0..6 {
                let mut v = d.clone();
                vary(s, &mut v);
                let usable = flat::flat(&v, true).is_ok() && encode_svd(&v).is_ok_and(|x| parse_weak(&x).is_ok());
                if usable {
                    d = v;
                    break;
                }
            }
        }
        d.name = if s.chance(10) { "SAME".into() } else { format!("DEV{i}") };
        x = encode_svd(&d).unwrap_or(x);
        differ |= i > 0 && x != xml;
        let name = if stem {
            s.s(&[&format!("chip.v{i}.svd"), &format!("d{i}/chip.svd")])
        } else {
            format!("part{i}.svd")
        };
        c.svd.push((name, x));
    }
    if s.chance(10) {
        c.set("old", "1");
    }
    Some(Gen {
        nontrivial: n > 1 && differ && has_regs(&base),
        case: c,
        tags: vec![format!("{n} devices")],
    })
}

// ------------------------------------------------- C23 conversion, C24 expand

fn ext_format(e: &str) -> Option<&'static str> {
    Some(match e {
        "svd" | "SVD" | "xml" | "XML" => "xml",
        "yml" | "yaml" | "YAML" => "yaml",
        "json" | "JSON" => "json",
        _ => return None,
    })
}
fn read_as(format: &str, text: &str) -> Result<Device, String> {
    match format {
        "xml" => parse_svd(text),
        // through a value: a missing dimIndex must not make an array a single element
        "yaml" => {
            let mut v: serde_json::Value = serde_yaml::from_str(text).map_err(|e| e.to_string())?;
            with_index(&mut v);
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        _ => {
            let mut v: serde_json::Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
            with_index(&mut v);
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
    }
}
/// svd-rs reads an array without `dimIndex` as a single element, so give it one.
fn with_index(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::Array(a) => a.iter_mut().for_each(with_index),
        serde_json::Value::Object(m) => {
            m.values_mut().for_each(with_index);
            if m.contains_key("dim") && m.contains_key("dimIncrement") && !m.contains_key("dimIndex") {
                m.insert("dimIndex".into(), serde_json::Value::Null);
            }
        }
        _ => {}
    }
}
/// What the known loss makes of a device: arrays without `dimIndex` become single.
fn lose_arrays(d: &mut Device) -> bool {
    fn one<T>(a: &mut svd_rs::array::MaybeArray<T>) -> bool
    where
        T: Clone,
    {
        if let svd_rs::array::MaybeArray::Array(i, d) = a {
            if d.dim_index.is_none() {
                *a = svd_rs::array::MaybeArray::Single(i.clone());
                return true;
            }
        }
        false
    }
    fn go(k: &mut [RegisterCluster]) -> bool {
        let mut hit = false;
        for x in k {
            match x {
                RegisterCluster::Cluster(c) => {
                    hit |= one(c);
                    hit |= go(&mut c.children);
                }
                RegisterCluster::Register(r) => {
                    hit |= one(r);
                    for f in r.fields.iter_mut().flatten() {
                        hit |= one(f);
                    }
                }
            }
        }
        hit
    }
    let mut hit = false;
    for p in &mut d.peripherals {
        hit |= one(p);
        if let Some(k) = &mut p.registers {
            hit |= go(k);
        }
    }
    hit
}
pub fn full_properties(dev: &mut Device) {
    fn go(k: &mut [RegisterCluster], d: &RegisterProperties) {
        for x in k {
            match x {
                RegisterCluster::Cluster(c) if c.derived_from.is_none() => {
                    let d = over(&c.default_register_properties, d);
                    go(&mut c.children, &d);
                }
                RegisterCluster::Register(r) if r.derived_from.is_none() => {
                    r.properties = over(&r.properties, d);
                }
                _ => {}
            }
        }
    }
    let top = dev.default_register_properties;
    for p in &mut dev.peripherals {
        if p.derived_from.is_some() {
            continue;
        }
        let d = over(&p.default_register_properties, &top);
        if let Some(k) = &mut p.registers {
            go(k, &d);
        }
    }
}
fn over(a: &RegisterProperties, b: &RegisterProperties) -> RegisterProperties {
    let mut r = *a;
    r.size = r.size.or(b.size);
    r.access = r.access.or(b.access);
    r.protection = r.protection.or(b.protection);
    r.reset_value = r.reset_value.or(b.reset_value);
    r.reset_mask = r.reset_mask.or(b.reset_mask);
    r
}
fn device_diff(want: &Device, got: &Device) -> Option<String> {
    let (mut a, mut b) = (want.clone(), got.clone());
    crate::patchcheck::plain_ranges(&mut a);
    crate::patchcheck::plain_ranges(&mut b);
    if a == b {
        return None;
    }
    match (encode_svd(&a), encode_svd(&b)) {
        (Ok(x), Ok(y)) if x != y => Some(crate::patchcheck::first_diff(&x, &y)),
        _ => Some("devices differ".into()),
    }
}
/// opts: step<n> = "name|input option|output option|flags"
fn eval_convert(c: &Case) -> Verdict {
    let dir = scratch();
    let Ok(mut dev) = parse_weak(&c.svd[0].1) else {
        return Verdict::skip("invalid SVD");
    };
    let mut file = c.svd[0].0.clone();
    let mut format = "xml";
    write(&dir, &file, &c.svd[0].1);
    if let Some((n, t)) = c.yaml.first() {
        write(&dir, n, t);
    }
    let mut n = 0;
    let mut known = vec![];
    while let Some(st) = c.opts.get(&format!("step{n}")) {
        n += 1;
        let p: Vec<&str> = st.split('|').collect();
        let mut args = vec!["convert".to_string(), file.clone(), p[0].to_string()];
        if !p[1].is_empty() {
            args.extend(["--input-format".to_string(), p[1].to_string()]);
        }
        if !p[2].is_empty() {
            args.extend(["--output-format".to_string(), p[2].to_string()]);
        }
        args.extend(p[3].split_whitespace().map(|s| s.to_string()));
        let ext = |f: &str| Path::new(f).extension().map(|e| e.to_string_lossy().into_owned()).unwrap_or_default();
        let infmt = if p[1].is_empty() { ext_format(&ext(&file)) } else { ext_format(p[1]) };
        let outfmt = if p[2].is_empty() { ext_format(&ext(p[0])) } else { ext_format(p[2]) };
        if infmt != Some(format) {
            return Verdict::skip("step reads another format");
        }
        let old = !dir.join(p[0]).exists() && stale(c, &dir, p[0]);
        let o = cli(&dir, &args);
        let Some(outfmt) = outfmt else {
            return if o.code == 0 {
                Verdict::fail(format!("{args:?}: accepted without a known output format"))
            } else if dir.join(p[0]).exists() && !old {
                Verdict::fail(format!("{args:?}: failed but wrote the output"))
            } else {
                Verdict::ok()
            };
        };
        if o.code != 0 {
            return Verdict::fail(format!("{args:?} fails: {}", o.last()));
        }
        if p[3].contains("--ignore-enums") && format == "xml" {
            no_enums(&mut dev);
        }
        if p[3].contains("--expand-properties") {
            full_properties(&mut dev);
        }
        let Ok(text) = std::fs::read_to_string(dir.join(p[0])) else {
            return Verdict::fail(format!("{args:?}: no output"));
        };
        match read_as(outfmt, &text) {
            Err(e) => return Verdict::fail(format!("{args:?}: the output is not {outfmt}: {e}")),
            Ok(d) => {
                if let Some(m) = device_diff(&dev, &d) {
                    let mut less = dev.clone();
                    if format != "xml" && lose_arrays(&mut less) && device_diff(&less, &d).is_none() {
                        known.push("C23-dimindex".to_string());
                        dev = less;
                    } else {
                        return Verdict::fail(format!("{args:?}: {m}"));
                    }
                }
            }
        }
        file = p[0].to_string();
        format = outfmt;
    }
    Verdict { known, ..Verdict::ok() }
}
fn gen_convert(s: &mut Src) -> Option<Gen> {
    let (dev, xml) = gen_device(s, &DevOpt { odd_text: 12, ..Default::default() }, &Rich::default())?;
    let mut c = Case::default();
    let mut format = "xml";
    c.svd.push((format!("input.{}", s.pick(&["svd", "xml", "SVD", "XML"])), xml));
    let exts = |f: &str| -> &'static [&'static str] {
        match f {
            "xml" => &["svd", "xml", "SVD", "XML"],
            "yaml" => &["yml", "yaml", "YAML"],
            _ => &["json", "JSON"],
        }
    };
    let mut hidden = false; // does the file name tell another format
    if s.chance(25) {
        hidden = true;
        c.svd[0].0 = s.s(&["input.json", "input.dat", "input"]);
    }
    let mut conf = false;
    let mut tags = vec![];
    for n in 0..s.range(1, 4) {
        let out = *s.pick(&["xml", "yaml", "json"]);
        let hide = s.chance(30);
        let name = if hide {
            let e = s.s(&["dat", "svd", "yaml", "json", ""]);
            if e.is_empty() { format!("file{n}") } else { format!("file{n}.{e}") }
        } else {
            format!("file{n}.{}", s.pick(exts(out)))
        };
        let i = if hidden || s.chance(20) { s.s(exts(format)) } else { String::new() };
        let known = ext_format(name.rsplit('.').next().unwrap_or("")).is_some() && name.contains('.');
        let o = if hide && (known || s.chance(80)) || s.chance(15) { s.s(exts(out)) } else { String::new() };
        let mut flags = vec![];
        if s.chance(20) {
            flags.push("--ignore-enums");
        }
        if s.chance(20) {
            flags.push("--expand-properties");
        }
        if s.chance(15) {
            flags.push("--format-config");
            flags.push("format.yaml");
            conf = true;
        }
        tags.push(format!("{format} to {out}"));
        c.set(&format!("step{n}"), format!("{name}|{i}|{o}|{}", flags.join(" ")));
        if hide && o.is_empty() {
            break;
        }
        format = out;
        hidden = hide;
    }
    if conf {
        c.yaml.push(("format.yaml".into(), format_config(s, true)));
    }
    Some(Gen {
        nontrivial: has_regs(&dev),
        case: c,
        tags,
    })
}
/// A configuration of number and bit range notations.
pub fn format_config(s: &mut Src, yaml: bool) -> String {
    const NUM: &[&str] = &[
        "peripheral_base_address",
        "address_block_offset",
        "address_block_size",
        "cluster_address_offset",
        "register_address_offset",
        "register_size",
        "register_reset_value",
        "register_reset_mask",
        "enumerated_value_value",
        "dim_dim",
        "dim_increment",
    ];
    let mut v: Vec<(String, String)> = vec![];
    for k in NUM {
        if s.chance(35) {
            v.push((
                k.to_string(),
                s.s(&["UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec"]),
            ));
        }
    }
    if s.chance(50) || v.is_empty() {
        v.push(("field_bit_range".into(), s.s(&["BitRange", "OffsetWidth", "MsbLsb"])));
    }
    if yaml {
        v.iter().map(|(k, v)| format!("{k}: {v}\n")).collect()
    } else {
        let m: serde_json::Map<String, serde_json::Value> = v.into_iter().map(|(k, v)| (k, v.into())).collect();
        serde_json::Value::Object(m).to_string()
    }
}

fn leftovers(dev: &Device) -> Option<String> {
    fn go(k: &[RegisterCluster], at: &str) -> Option<String> {
        for x in k {
            match x {
                RegisterCluster::Cluster(c) => return Some(format!("cluster {at}.{}", c.name)),
                RegisterCluster::Register(r) => {
                    let n = format!("{at}.{}", r.name);
                    if r.is_array() || r.derived_from.is_some() {
                        return Some(format!("register {n}"));
                    }
                    for f in r.fields.iter().flatten() {
                        if f.is_array() || f.derived_from.is_some() {
                            return Some(format!("field {n}.{}", f.name));
                        }
                        if f.enumerated_values.iter().any(|e| e.derived_from.is_some()) {
                            return Some(format!("enumerated values of {n}.{}", f.name));
                        }
                    }
                }
            }
        }
        None
    }
    for p in &dev.peripherals {
        if p.is_array() || p.derived_from.is_some() {
            return Some(format!("peripheral {}", p.name));
        }
        if let Some(x) = go(p.registers.as_deref().unwrap_or(&[]), &p.name) {
            return Some(x);
        }
    }
    None
}
fn flat_text(f: &[FPeriph], full: bool) -> Vec<String> {
    let mut v = vec![];
    for p in f {
        let d = words(p.desc.as_deref().unwrap_or(""));
        v.push(format!("{} at 0x{:X}: {d}", p.name, p.base));
        for i in &p.interrupts {
            v.push(format!("{} interrupt {} {}", p.name, i.name, i.value));
        }
        for r in &p.regs {
            let pr = if full { &r.full } else { &r.props };
            let n = format!("{}.{}", p.name, joined(r));
            v.push(format!(
                "{n} at 0x{:X}: {} size {:?} access {:?} reset {:?} mask {:?} values {:?}",
                p.base + r.off,
                words(r.desc.as_deref().unwrap_or("")),
                pr.size,
                pr.access,
                pr.reset_value,
                pr.reset_mask,
                r.wc
            ));
            for f in &r.fields {
                v.push(format!(
                    "{n}.{} {}+{}: {} access {:?} {:?} {:?} {:?}",
                    f.name,
                    f.off,
                    f.width,
                    words(f.desc.as_deref().unwrap_or("")),
                    f.access,
                    f.wc,
                    f.mwv,
                    f.ra
                ));
                for e in &f.enums {
                    v.push(format!("{n}.{} values {:?} {:?}", f.name, e.usage, e.values));
                }
            }
        }
    }
    v
}
fn eval_expand(c: &Case) -> Verdict {
    let dir = scratch();
    let Ok(mut dev) = parse_weak(&c.svd[0].1) else {
        return Verdict::skip("invalid SVD");
    };
    let flags = c.opt("flags").to_string();
    let mut full = false;
    let input = c.opts.get("in").cloned().unwrap_or("in.svd".to_string());
    let text = match ext_format(input.rsplit('.').next().unwrap()) {
        Some("xml") | None => c.svd[0].1.clone(),
        f => {
            // as another tool writes it: with the index of every array
            let mut v = serde_json::to_value(&dev).unwrap();
            with_index(&mut v);
            if f == Some("json") {
                v.to_string()
            } else {
                serde_yaml::to_string(&v).unwrap()
            }
        }
    };
    if flags.contains("--ignore-enums") && input == "in.svd" {
        no_enums(&mut dev);
    }
    if flags.contains("--expand-properties") {
        full_properties(&mut dev);
        full = false;
    }
    let want = match flat::flat(&dev, true) {
        Ok(f) => f,
        Err(e) => return Verdict::skip(e),
    };
    let mut seen = std::collections::HashSet::new();
    for p in &want {
        if !seen.insert(p.name.clone()) {
            return Verdict::skip("two peripherals of one name");
        }
        let mut regs = std::collections::HashSet::new();
        if p.regs.iter().any(|r| !regs.insert((&r.clusters, &r.name))) {
            return Verdict::skip("two registers of one name");
        }
    }
    let out = c.opt("out").to_string();
    write(&dir, &input, &text);
    let mut args = vec!["convert".to_string(), input, out.clone(), "--expand".into()];
    if let Some((n, t)) = c.yaml.first() {
        write(&dir, n, t);
    }
    args.extend(flags.split_whitespace().map(|s| s.to_string()));
    stale(c, &dir, &out);
    let o = cli(&dir, &args);
    if o.code != 0 {
        return Verdict::fail(format!("{args:?} fails: {}", o.last()));
    }
    let fmt = ext_format(out.rsplit('.').next().unwrap()).unwrap();
    let text = std::fs::read_to_string(dir.join(&out)).unwrap_or_default();
    let got = match read_as(fmt, &text) {
        Ok(d) => d,
        Err(e) => return Verdict::fail(format!("the output is not {fmt}: {e}")),
    };
    if let Some(l) = leftovers(&got) {
        return Verdict::fail(format!("not expanded: {l}"));
    }
    let got = match flat::flat(&got, true) {
        Ok(f) => f,
        Err(e) => return Verdict::fail(format!("expanded output: {e}")),
    };
    match bags(flat_text(&want, full), flat_text(&got, full)) {
        None => Verdict::ok(),
        Some(d) => Verdict::fail(d),
    }
}
fn gen_expand(s: &mut Src) -> Option<Gen> {
    let (dev, xml) = gen_device(
        s,
        &DevOpt {
            clusters: 50,
            reg_arrays: 40,
            field_arrays: 25,
            odd_text: 5,
            large: 2,
            ..Default::default()
        },
        &Rich::default(),
    )?;
    let mut c = one(xml);
    c.set("out", s.s(&["out.svd", "out.xml", "out.yaml", "out.json"]));
    c.set("in", s.s(&["in.svd", "in.svd", "in.svd", "in.json", "in.yaml"]));
    let mut flags = vec![];
    if s.chance(20) {
        flags.push("--ignore-enums");
    }
    if s.chance(30) {
        flags.push("--expand-properties");
    }
    if s.chance(15) {
        let yaml = s.chance(50);
        c.yaml.push((if yaml { "fmt.yaml" } else { "fmt.json" }.into(), format_config(s, yaml)));
        flags.push(if yaml { "--format-config=fmt.yaml" } else { "--format-config=fmt.json" });
    }
    c.set("flags", flags.join(" "));
    Some(Gen {
        nontrivial: leftovers(&dev).is_some(),
        case: c,
        tags: vec![],
    })
}

// -----------------------------------------------------------------------

fn simple(o: DevOpt, r: Rich) -> Box<dyn Fn(&mut Src) -> Option<Gen> + Sync + Send> {
    Box::new(move |s| {
        let (dev, xml) = gen_device(s, &o, &r)?;
        Some(Gen {
            nontrivial: has_regs(&dev),
            case: one(xml),
            tags: vec![],
        })
    })
}

const CLI_ASSUMED: &[&str] = &[
    "the svd-parser and svd-encoder crates read and write SVD correctly",
    "the harness's own expansion of arrays and derivation (harness/src/flat.rs) follows the CMSIS-SVD rules",
];
pub fn subs(id: &str) -> Option<(&'static str, &'static str, Vec<&'static str>, Vec<Sub>)> {
    let mk = |name, gen, eval, quick, thorough| Sub {
        name,
        gen,
        eval,
        quick,
        thorough,
    };
    Some(match id {
        "C23" => (
            "C23",
            "distinct by content and options; non-trivial: the device has registers",
            CLI_ASSUMED.to_vec(),
            vec![mk("formats", Box::new(gen_convert), eval_convert, 4000, 150_000)],
        ),
        "C24" => (
            "C24",
            "distinct by content and options; non-trivial: the device has an array, a cluster or a derived element",
            CLI_ASSUMED.to_vec(),
            vec![mk("expand", Box::new(gen_expand), eval_expand, 5000, 200_000)],
        ),
        "C25" => (
            "C25",
            "distinct by content; non-trivial: the device has registers",
            CLI_ASSUMED.to_vec(),
            vec![mk("lines", simple(DevOpt { odd_text: 12, clusters: 50, ..Default::default() }, Rich::default()), eval_mmap, 5000, 200_000)],
        ),
        "C26" => (
            "C26",
            "distinct by content; non-trivial: at least two interrupts",
            CLI_ASSUMED.to_vec(),
            vec![mk(
                "lines",
                Box::new(|s| {
                    let o = DevOpt {
                        regs: (0, 1),
                        periphs: (1, 7),
                        clusters: 0,
                        plain: true,
                        ..Default::default()
                    };
                    let r = Rich {
                        interrupts: 100,
                        clusters: 0,
                        regs: 0,
                        fields: 0,
                        enums: 0,
                        ..Default::default()
                    };
                    let (dev, xml) = gen_device(s, &o, &r)?;
                    let mut c = one(xml);
                    if s.chance(30) {
                        c.set("gaps", "no");
                    }
                    Some(Gen {
                        nontrivial: dev.peripherals.iter().map(|p| p.interrupt.len()).sum::<usize>() > 1,
                        case: c,
                        tags: vec![],
                    })
                }),
                eval_interrupts,
                8000,
                300_000,
            )],
        ),
        "C27" => (
            "C27",
            "distinct by content; non-trivial: a device has registers",
            CLI_ASSUMED.to_vec(),
            vec![mk(
                "pages",
                Box::new(|s| {
                    let o = DevOpt {
                        odd_text: 20,
                        enums: 40,
                        constraints: 30,
                        clusters: 40,
                        large: 1,
                        ..Default::default()
                    };
                    let r = Rich {
                        own: 0,
                        ..Default::default()
                    };
                    let mut c = Case::default();
                    let n = *s.pick(&[1, 1, 1, 2, 3]);
                    let mut nt = false;
                    for i in 0..n {
                        let (mut d, _) = gen_device(s, &o, &r)?;
                        defaults(s, &mut d);
                        if !s.chance(2) {
                            fit(&mut d);
                        }
                        d.name = format!("{}{i}", s.pick(&["DEV", "dev", "Chip_"]));
                        nt |= has_regs(&d);
                        c.svd.push((format!("f{i}.svd"), encode_svd(&d).ok()?));
                    }
                    if s.chance(15) {
                        c.set("again", s.s(&["n", "o", "no", "on", "nno"]));
                    }
                    if s.chance(30) {
                        c.set("dir", 1);
                    }
                    Some(Gen {
                        nontrivial: nt,
                        case: c,
                        tags: vec![],
                    })
                }),
                eval_html,
                3500,
                120_000,
            )],
        ),
        "C28" => (
            "C28",
            "distinct by content; non-trivial: at least two devices that differ",
            CLI_ASSUMED.to_vec(),
            vec![mk("tables", Box::new(gen_compare), eval_htmlcompare, 6000, 100_000)],
        ),
        _ => return None,
    })
}
/// Drop the fields that lie outside of their register.
fn fit(dev: &mut Device) {
    fn go(k: &mut [RegisterCluster], d: &RegisterProperties) {
        for x in k {
            match x {
                RegisterCluster::Cluster(c) => {
                    let d = over(&c.default_register_properties, d);
                    go(&mut c.children, &d);
                }
                RegisterCluster::Register(r) => {
                    let size = over(&r.properties, d).size.unwrap_or(32);
                    if let Some(f) = &mut r.fields {
                        f.retain(|f| {
                            let last = match f {
                                svd_rs::array::MaybeArray::Array(_, d) => (d.dim - 1) * d.dim_increment,
                                _ => 0,
                            };
                            f.bit_offset() + last + f.bit_width() <= size
                        });
                    }
                }
            }
        }
    }
    let top = dev.default_register_properties;
    for p in &mut dev.peripherals {
        let d = over(&p.default_register_properties, &top);
        if let Some(k) = &mut p.registers {
            go(k, &d);
        }
    }
}
/// Enumerated values with a default entry.
fn defaults(s: &mut Src, d: &mut Device) {
    fn go(s: &mut Src, k: &mut [RegisterCluster]) {
        for x in k {
            match x {
                RegisterCluster::Cluster(c) => go(s, &mut c.children),
                RegisterCluster::Register(r) => {
                    for f in r.fields.iter_mut().flatten() {
                        for e in &mut f.enumerated_values {
                            if !e.values.is_empty() && s.chance(20) {
                                let mut v = EnumeratedValue::builder()
                                    .name("Other".into())
                                    .is_default(Some(true))
                                    .build(ValidateLevel::Disabled)
                                    .unwrap();
                                if s.chance(50) {
                                    v.description = Some("any other".into());
                                }
                                e.values.push(v);
                            }
                        }
                    }
                }
            }
        }
    }
    for p in &mut d.peripherals {
        if let Some(k) = &mut p.registers {
            go(s, k);
        }
    }
}
