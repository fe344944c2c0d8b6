//! Independent matcher for the name patterns of rule files.

#[derive(Clone, Debug)]
enum T {
    Lit(char),
    Any,
    Star,
    Class(bool, Vec<(char, char)>),
    Alt(Vec<Vec<T>>),
}

fn parse(s: &[char], i: &mut usize, in_alt: bool) -> Result<Vec<T>, String> {
    let mut out = vec![];
    while *i < s.len() {
        let c = s[*i];
        match c {
            '?' => out.push(T::Any),
            '*' => out.push(T::Star),
            '\\' => {
                *i += 1;
                let c = *s.get(*i).ok_or("dangling escape")?;
                out.push(T::Lit(c));
            }
            '[' => {
                *i += 1;
                let mut neg = false;
                if matches!(s.get(*i), Some('!') | Some('^')) {
                    neg = true;
                    *i += 1;
                }
                let mut set = vec![];
                let mut first = true;
                loop {
                    let c = *s.get(*i).ok_or("unclosed class")?;
                    if c == ']' && !first {
                        break;
                    }
                    first = false;
                    if s.get(*i + 1) == Some(&'-') && s.get(*i + 2).is_some_and(|c| *c != ']') {
                        let hi = s[*i + 2];
                        if hi < c {
                            return Err("inverted range".into());
                        }
                        set.push((c, hi));
                        *i += 3;
                    } else {
                        set.push((c, c));
                        *i += 1;
                    }
                }
                out.push(T::Class(neg, set));
            }
            '{' => {
                *i += 1;
                let mut alts = vec![];
                loop {
                    let a = parse(s, i, true)?;
                    if a.is_empty() {
                        return Err("empty alternative".into());
                    }
                    alts.push(a);
                    match s.get(*i) {
                        Some(',') => *i += 1,
                        Some('}') => break,
                        _ => return Err("unclosed alternates".into()),
                    }
                }
                out.push(T::Alt(alts));
            }
            ',' | '}' if in_alt => return Ok(out),
            '}' => return Err("unopened alternates".into()),
            c => out.push(T::Lit(c)),
        }
        *i += 1;
    }
    if in_alt {
        return Err("unclosed alternates".into());
    }
    Ok(out)
}

fn m(t: &[T], s: &[char], k: &mut dyn FnMut(&[char]) -> bool) -> bool {
    let Some((h, rest)) = t.split_first() else {
        return k(s);
    };
    match h {
        T::Lit(c) => s.first() == Some(c) && m(rest, &s[1..], k),
        T::Any => !s.is_empty() && m(rest, &s[1..], k),
        T::Star => (0..=s.len()).any(|n| m(rest, &s[n..], k)),
        T::Class(neg, set) => {
            !s.is_empty()
                && (set.iter().any(|(a, b)| *a <= s[0] && s[0] <= *b) != *neg)
                && m(rest, &s[1..], k)
        }
        T::Alt(alts) => alts.iter().any(|a| m(a, s, &mut |s2| m(rest, s2, k))),
    }
}

/// One pattern without top level commas.
pub fn glob(name: &str, pat: &str) -> Result<bool, String> {
    let p: Vec<char> = pat.chars().collect();
    let mut i = 0;
    let t = parse(&p, &mut i, false)?;
    let n: Vec<char> = name.chars().collect();
    Ok(m(&t, &n, &mut |r| r.is_empty()))
}

/// The first alternative of a comma separated list that matches.
pub fn matched_sub<'a>(name: &str, spec: &'a str) -> Result<Option<&'a str>, String> {
    if spec.contains('{') {
        return Ok(glob(name, spec)?.then_some(spec));
    }
    for sub in spec.split(',') {
        if glob(name, sub)? {
            return Ok(Some(sub));
        }
    }
    Ok(None)
}

pub fn matches(name: &str, spec: &str) -> Result<bool, String> {
    Ok(matched_sub(name, spec)?.is_some())
}
