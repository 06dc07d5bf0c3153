//! Literals that the code under test has now and did not have when this
//! harness was written (`literals.json`, from `vh literals`). A change that
//! makes something depend on a particular size, number or text usually names
//! it, so the generators try such values now and then. They steer generation
//! only: what is right or wrong is decided without them, and with none new
//! the generators do exactly what they do without this module.
use crate::engine::Src;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;

type Counts = BTreeMap<String, BTreeMap<String, u32>>;

#[derive(Default, Debug)]
pub struct Fresh {
    pub ints: Vec<i64>,
    pub sizes: Vec<usize>,
    pub strings: Vec<String>,
    pub chars: Vec<char>,
}

static FRESH: OnceLock<Fresh> = OnceLock::new();

pub fn get() -> &'static Fresh {
    FRESH.get_or_init(|| match std::env::var("VH_FRESH").ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        Some(v) => from_json(&v),
        None => from_counts(&scan(&repo())),
    })
}

fn repo() -> String {
    std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into())
}

// ------------------------------------------------------------------ choosing

pub fn int(s: &mut Src) -> Option<i64> {
    let f = get();
    if f.ints.is_empty() || !s.chance(24) {
        return None;
    }
    Some(*s.pick(&f.ints))
}

/// A number of things, at most `cap`.
pub fn size(s: &mut Src, cap: usize) -> Option<usize> {
    let f = get();
    if f.sizes.is_empty() || !s.chance(140) {
        return None;
    }
    let n = *s.pick(&f.sizes);
    (n <= cap).then(|| (n + s.below(5)).saturating_sub(3))
}

pub fn string(s: &mut Src) -> Option<String> {
    let f = get();
    if f.strings.is_empty() || !s.chance(16) {
        return None;
    }
    Some(s.pick(&f.strings).clone())
}

pub fn char(s: &mut Src) -> Option<char> {
    let f = get();
    if f.chars.is_empty() || !s.chance(24) {
        return None;
    }
    Some(*s.pick(&f.chars))
}

/// How often (of 256) to grow a case, usually `base`.
pub fn often(base: u32) -> u32 {
    if get().sizes.iter().any(|n| (6..=2_000).contains(n)) {
        base.max(40)
    } else {
        base
    }
}

// ------------------------------------------------------------------ scanning

pub fn to_json(f: &Fresh) -> Value {
    json!({"ints": f.ints, "sizes": f.sizes, "strings": f.strings, "chars": f.chars.iter().collect::<String>()})
}

fn from_json(v: &Value) -> Fresh {
    let nums = |k: &str| v[k].as_array().cloned().unwrap_or_default();
    Fresh {
        ints: nums("ints").iter().filter_map(|x| x.as_i64()).collect(),
        sizes: nums("sizes").iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect(),
        strings: nums("strings").iter().filter_map(|x| x.as_str()).map(String::from).collect(),
        chars: v["chars"].as_str().unwrap_or("").chars().collect(),
    }
}

/// What each source file under `repo` counts of each literal.
pub fn scan(repo: &str) -> Counts {
    let mut out = Counts::new();
    let Ok(crates) = std::fs::read_dir(format!("{repo}/crates")) else { return out };
    for c in crates.flatten() {
        let dir = c.path().join("src");
        files(&dir, &mut |p| {
            let Ok(text) = std::fs::read_to_string(p) else { return };
            let name = p.strip_prefix(repo).unwrap_or(p).to_string_lossy().into_owned();
            let text = text.split("#[cfg(test)]\nmod ").next().unwrap_or("");
            out.insert(name, literals(text));
        });
    }
    out
}

fn files(dir: &std::path::Path, f: &mut dyn FnMut(&std::path::Path)) {
    let Ok(es) = std::fs::read_dir(dir) else { return };
    for e in es.flatten() {
        let p = e.path();
        if p.is_dir() {
            files(&p, f);
        } else if p.extension().is_some_and(|x| x == "rs" || x == "pest") {
            f(&p);
        }
    }
}

fn literals(text: &str) -> BTreeMap<String, u32> {
    let t: Vec<char> = text.chars().collect();
    let mut out: BTreeMap<String, u32> = BTreeMap::new();
    let mut add = |k: char, v: String| {
        if v.len() <= 60 {
            *out.entry(format!("{k}{v}")).or_default() += 1;
        }
    };
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut i = 0;
    let mut last: Option<(i128, char)> = None;
    while i < t.len() {
        let c = t[i];
        let next = t.get(i + 1).copied().unwrap_or('\0');
        match c {
            '/' if next == '/' => {
                while i < t.len() && t[i] != '\n' {
                    i += 1;
                }
                continue;
            }
            '/' if next == '*' => {
                i += 2;
                while i + 1 < t.len() && !(t[i] == '*' && t[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
                continue;
            }
            '"' => {
                let raw = i > 0 && (t[i - 1] == 'r' || t[i - 1] == '#');
                let hashes = t[..i].iter().rev().take_while(|c| **c == '#').count();
                let (v, j) = quoted(&t, i + 1, raw.then_some(hashes));
                add('s', v);
                i = j;
                last = None;
                continue;
            }
            '\'' => {
                // a character or a lifetime
                let (v, j) = if next == '\\' {
                    quoted_char(&t, i + 1)
                } else if t.get(i + 2) == Some(&'\'') {
                    (Some(next), i + 3)
                } else {
                    (None, i + 1)
                };
                if let Some(v) = v {
                    add('c', v.to_string());
                }
                i = j.max(i + 1);
                continue;
            }
            c if c.is_ascii_digit() && (i == 0 || !word(t[i - 1])) => {
                let mut j = i;
                while j < t.len() && word(t[j]) {
                    j += 1;
                }
                let s: String = t[i..j].iter().filter(|c| **c != '_').collect();
                let n = if let Some(h) = s.strip_prefix("0x") {
                    let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                    i128::from_str_radix(&h, 16).ok()
                } else {
                    let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse::<i128>().ok()
                };
                if let Some(n) = n.filter(|n| *n < 1 << 64) {
                    add('i', n.to_string());
                    if let Some(v) = last.and_then(|(a, op)| match op {
                        '<' if n < 63 && a < 1 << 62 => a.checked_shl(n as u32),
                        '*' => a.checked_mul(n),
                        _ => None,
                    }) {
                        add('i', v.to_string());
                    }
                    let rest: String = t[j..].iter().take(3).collect::<String>();
                    let rest = rest.trim_start();
                    last = if rest.starts_with("<<") {
                        Some((n, '<'))
                    } else if rest.starts_with('*') {
                        Some((n, '*'))
                    } else {
                        None
                    };
                }
                if t.get(j) == Some(&'.') && t.get(j + 1).is_some_and(|c| c.is_ascii_digit()) {
                    let mut k = j + 1;
                    while k < t.len() && (word(t[k]) || t[k] == '-' && matches!(t[k - 1], 'e' | 'E')) {
                        k += 1;
                    }
                    add('s', t[i..k].iter().collect());
                    j = k;
                }
                i = j;
                continue;
            }
            c if word(c) && (i == 0 || !word(t[i - 1])) => {
                let mut j = i;
                while j < t.len() && word(t[j]) {
                    j += 1;
                }
                let w: String = t[i..j].iter().collect();
                if matches!(w.as_str(), "u8" | "i8" | "u16" | "i16" | "u32" | "i32" | "f32") {
                    add('t', w);
                }
                // what follows r or b may be a literal
                i = j;
                continue;
            }
            _ => (),
        }
        i += 1;
    }
    out
}

fn escape(t: &[char], i: usize) -> (Option<char>, usize) {
    // at the character after the backslash
    match t.get(i) {
        Some('n') => (Some('\n'), i + 1),
        Some('r') => (Some('\r'), i + 1),
        Some('t') => (Some('\t'), i + 1),
        Some('0') => (Some('\0'), i + 1),
        Some('x') => {
            let h: String = t.iter().skip(i + 1).take(2).collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), i + 3)
        }
        Some('u') => {
            let h: String = t.iter().skip(i + 2).take_while(|c| **c != '}').take(8).collect();
            (u32::from_str_radix(&h, 16).ok().and_then(char::from_u32), i + 3 + h.len())
        }
        Some(c) => (Some(*c), i + 1),
        None => (None, i),
    }
}

fn quoted(t: &[char], mut i: usize, raw: Option<usize>) -> (String, usize) {
    let mut v = String::new();
    while i < t.len() {
        match t[i] {
            '"' if raw.is_none_or(|n| t[i + 1..].iter().take(n).filter(|c| **c == '#').count() == n) => return (v, i + 1 + raw.unwrap_or(0)),
            '\\' if raw.is_none() => {
                let (c, j) = escape(t, i + 1);
                v.extend(c);
                i = j;
            }
            c => {
                v.push(c);
                i += 1;
            }
        }
    }
    (v, i)
}

fn quoted_char(t: &[char], i: usize) -> (Option<char>, usize) {
    let (c, j) = escape(t, i + 1);
    (c, j + 1)
}

pub fn known() -> Counts {
    serde_json::from_str(include_str!("../literals.json")).unwrap_or_default()
}

fn from_counts(now: &Counts) -> Fresh {
    let known = known();
    let none = BTreeMap::new();
    let mut f = Fresh::default();
    for (file, lits) in now {
        let old = known.get(file).unwrap_or(&none);
        for (l, n) in lits {
            if *n <= *old.get(l).unwrap_or(&0) {
                continue;
            }
            let v = &l[1..];
            match l.as_bytes()[0] {
                b'i' => int_of(&mut f, v.parse().unwrap_or(0)),
                b't' => {
                    let bits: u32 = v[1..].parse().unwrap_or(32);
                    match v.as_bytes()[0] {
                        b'u' => int_of(&mut f, 1 << bits),
                        b'i' => int_of(&mut f, 1 << (bits - 1)),
                        _ => int_of(&mut f, 1 << 24),
                    }
                }
                b'c' => f.chars.extend(v.chars()),
                _ => {
                    if !v.is_empty() && !f.strings.iter().any(|x| x == v) {
                        f.strings.push(v.to_string());
                    }
                    if v.chars().count() <= 3 {
                        f.chars.extend(v.chars());
                    }
                }
            }
        }
    }
    f.ints.sort();
    f.ints.dedup();
    f.sizes.sort();
    f.sizes.dedup();
    f.chars.sort();
    f.chars.dedup();
    f.ints.truncate(60);
    f.sizes.truncate(20);
    f.strings.truncate(40);
    f.chars.truncate(40);
    f
}

fn int_of(f: &mut Fresh, n: i128) {
    const MAX: i128 = 9007199254740991;
    if n <= 1 {
        return;
    }
    for k in [n - 1, n, n + 1, -n, -n - 1] {
        if k.abs() <= MAX {
            f.ints.push(k as i64);
        }
    }
    if let Some(c) = u32::try_from(n).ok().filter(|n| *n >= 0x20).and_then(char::from_u32) {
        f.chars.push(c);
        f.chars.extend(char::from_u32(c as u32 + 1));
    }
    if (3..=70_000).contains(&n) {
        f.sizes.push(n as usize);
    }
}
