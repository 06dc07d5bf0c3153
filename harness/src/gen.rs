//! Generators: JSON documents, well-typed queries aimed at a document,
//! strings, numbers, patterns.
use crate::engine::Src;
use crate::fresh;
use crate::iregex::{Item, Re};
use crate::model::*;
use serde_json::{Map, Number, Value};

pub const KEYS: [&str; 12] = ["a", "b", "c", "d", "e", "foo", "_x", "a1", "é", "☺", "true", "length"];
pub const ODD_KEYS: [&str; 26] = [
    "", "0", "-1", " ", "a b", "'", "\"", "\\", "\n", "\t", "/", "$", "@", "*", "..", "a.b", "['a']",
    "\u{8}", "\u{c}", "\r", "😀", "\u{7f}", "a'b\"c\\", "]", "\\n", "null",
];
/// Names whose only spelling needs a \u00XX control escape.
pub const CTRL_KEYS: [&str; 4] = ["\u{0}", "\u{1f}", "\u{1}x", "\u{b}"];

#[derive(Clone)]
pub struct DocOpts {
    pub depth: usize,
    pub width: usize,
    pub odd: u32,
    pub ctrl: u32,
    /// 64-bit and floating-point extremes
    pub extreme: bool,
    /// chance/256 of a table of similar rows
    pub records: u32,
}

impl Default for DocOpts {
    fn default() -> Self {
        DocOpts { depth: 4, width: 5, odd: 24, ctrl: 6, extreme: false, records: 60 }
    }
}

/// Any character at all, mostly at the edges of UTF-8, UTF-16 and the
/// grammar's ranges; never one that needs a control escape.
pub fn wild_char(s: &mut Src) -> char {
    const EDGE: [u32; 40] = [
        0x20, 0x21, 0x22, 0x23, 0x26, 0x27, 0x28, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x5c, 0x5d, 0x60, 0x61, 0x7a, 0x7b, 0x7e, 0x7f, 0x80,
        0x85, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x1f600, 0x10ffff,
    ];
    if let Some(c) = fresh::char(s).filter(|c| !is_ctrl_only(*c)) {
        return c;
    }
    let c = match s.below(8) {
        0..=2 => *s.pick(&EDGE),
        3 => 0x20 + s.below(0x7e0) as u32,
        4 => 0x800 + s.below(0xf800) as u32,
        5 => 0x10000 + s.below(0x10_0000) as u32,
        // surrogate pairs whose halves lie at the edges
        6 => 0x10000 + ((*s.pick(&[0u32, 1, 0x3f, 0x40, 0x80, 0xff, 0x100, 0x1ff, 0x200, 0x3fe, 0x3ff]) << 10) | *s.pick(&[0u32, 1, 0x4d, 0xff, 0x100, 0x1ff, 0x200, 0x2ff, 0x300, 0x3ff])),
        _ => s.below(0x11_0000) as u32,
    };
    match char::from_u32(c) {
        Some(c) if !is_ctrl_only(c) => c,
        _ => '\u{e000}',
    }
}

pub fn wild_string(s: &mut Src) -> String {
    let n = 1 + s.below(4);
    (0..n).map(|_| if s.chance(60) { *s.pick(&['a', '0', '\'', '"', '\\', '/', '\n', ' ']) } else { wild_char(s) }).collect()
}

pub fn key(s: &mut Src, o: &DocOpts) -> String {
    if let Some(t) = fresh::string(s).filter(|t| !t.chars().any(is_ctrl_only)) {
        return t;
    }
    if s.chance(o.odd) {
        if s.chance(o.ctrl * 4) {
            return s.pick(&CTRL_KEYS).to_string();
        }
        if s.chance(90) {
            return wild_string(s);
        }
        s.pick(&ODD_KEYS).to_string()
    } else {
        let k = s.below(20);
        if k < 14 {
            KEYS[k.min(5)].to_string()
        } else {
            s.pick(&KEYS).to_string()
        }
    }
}

pub fn small_string(s: &mut Src) -> String {
    if let Some(t) = fresh::string(s).filter(|t| !t.chars().any(is_ctrl_only)) {
        return t;
    }
    match s.below(12) {
        0..=6 => s.pick(&["a", "b", "ab", "abc", "c", "", "aa", "foo"]).to_string(),
        7 => s.pick(&["é", "☺", "😀", "z\u{301}", "\u{ffff}", "\u{10000}", "日本"]).to_string(),
        8 => s.pick(&["1", "0", "true", "null", "-1", "A", "B", "aB"]).to_string(),
        9 => s
            .pick(&["'", "\"", "\\", "a\nb", "a\rb", "\t", "/", "\u{8}", "a'b", "a\"b", "\r", "\n", "$", "^"])
            .to_string(),
        10 => {
            let n = s.below(5);
            (0..n).map(|_| *s.pick(&['a', 'b', 'c', 'A', '1', ' ', '_', 'é', '-'])).collect()
        }
        _ => wild_string(s),
    }
}

/// Integers within the interoperable range.
pub fn int(s: &mut Src) -> i64 {
    if let Some(n) = fresh::int(s) {
        return n;
    }
    match s.below(10) {
        0..=5 => s.range(-3, 6),
        6 => s.range(-100, 100),
        7 => s.range(-100000, 100000),
        8 => *s.pick(&[9007199254740991i64, -9007199254740991, 9007199254740990, 4294967296, -2147483648, 2147483647]),
        _ => s.range(0, 3),
    }
}

pub fn float(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => 0.5,
        1 => s.range(-3, 6) as f64,
        2 => s.range(-3, 6) as f64 + 0.5,
        3 => s.range(-400, 400) as f64 / 100.0,
        4 => *s.pick(&[1e3, 1e-3, 1.5e10, -2.5e-7, 1e20, 1e300, -1e-300, 1e15, 100.0]),
        5 => *s.pick(&[0.0, -0.0, 0.1, 0.2, 0.30000000000000004, 0.3, -0.5, -0.1]),
        6 => *s.pick(&[3.14159, 2.718281828, 1e21, 123456789.125]),
        _ => 1.0,
    }
}

pub fn fnum(f: f64) -> Value {
    Number::from_f64(f).map(Value::Number).unwrap_or(Value::Null)
}

pub fn scalar(s: &mut Src, o: &DocOpts) -> Value {
    match s.below(16) {
        0..=4 => Value::from(int(s)),
        5..=6 => fnum(float(s)),
        7..=11 => Value::String(small_string(s)),
        12 => Value::Bool(true),
        13 => Value::Bool(false),
        14 => Value::Null,
        _ => {
            if o.extreme {
                match s.below(8) {
                    0 => Value::from(u64::MAX),
                    1 => Value::from(i64::MAX),
                    2 => Value::from(i64::MIN),
                    3 => Value::from(9223372036854775808u64),
                    4 => fnum(f64::MAX),
                    5 => fnum(f64::MIN_POSITIVE),
                    6 => fnum(5e-324),
                    _ => Value::from(9007199254740993i64),
                }
            } else {
                Value::from(s.range(0, 2))
            }
        }
    }
}

/// An array or object of similar rows: filters have something to tell apart.
pub fn records(s: &mut Src, o: &DocOpts) -> Value {
    let nk = 1 + s.below(4);
    let keys: Vec<String> = (0..nk).map(|_| key(s, o)).collect();
    let mut vals: Vec<Value> = (0..3).map(|_| scalar(s, o)).collect();
    vals.push(Value::from(s.range(0, 3)));
    let n = 2 + s.below(o.width + 2);
    let shape = s.below(6);
    let cell = |s: &mut Src| -> Value {
        if s.chance(60) {
            value(s, o, 2.min(o.depth))
        } else {
            vals[s.below(vals.len())].clone()
        }
    };
    let row = |s: &mut Src| -> Value {
        match shape {
            0 => cell(s),
            1 => Value::Array((0..s.below(4)).map(|_| cell(s)).collect()),
            _ => {
                let mut m = Map::new();
                for k in &keys {
                    if !s.chance(60) {
                        m.insert(k.clone(), cell(s));
                    }
                }
                Value::Object(m)
            }
        }
    };
    let rows: Vec<Value> = (0..n).map(|_| if s.chance(30) { value(s, o, 1) } else { row(s) }).collect();
    let table = if s.chance(80) {
        Value::Object(rows.into_iter().enumerate().map(|(i, r)| (format!("r{i}"), r)).collect())
    } else {
        Value::Array(rows)
    };
    match s.below(4) {
        0 => {
            let mut m = Map::new();
            m.insert("t".into(), table);
            m.insert(key(s, o), cell(s));
            for k in &keys {
                m.insert(k.clone(), cell(s));
            }
            Value::Object(m)
        }
        1 => Value::Array(vec![table, cell(s), cell(s)]),
        _ => table,
    }
}

/// A deep chain: containers nested far below what the other shapes reach.
pub fn chain(s: &mut Src, o: &DocOpts) -> Value {
    let top = if s.chance(40) { 180 } else { 90 };
    let n = 20 + s.below(top);
    let keys = [key(s, o), key(s, o)];
    let style = s.below(4);
    let side = s.below(3);
    let mut v = value(s, o, 2.min(o.depth));
    for i in 0..n {
        let extra = match side {
            0 => None,
            1 => (i % 7 == 3).then(|| scalar(s, o)),
            _ => s.chance(40).then(|| scalar(s, o)),
        };
        let arr = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => s.chance(128),
        };
        v = if arr {
            match extra {
                Some(x) if s.chance(128) => Value::Array(vec![x, v]),
                Some(x) => Value::Array(vec![v, x]),
                None => Value::Array(vec![v]),
            }
        } else {
            let mut m = Map::new();
            if let Some(x) = extra {
                m.insert(if s.chance(128) { "A" } else { "z" }.into(), x);
            }
            m.insert(keys[i % 2].clone(), v);
            Value::Object(m)
        };
    }
    v
}

/// One container with many members.
pub fn broad(s: &mut Src, o: &DocOpts) -> Value {
    let top = if s.chance(60) { 200 } else { 60 };
    let more = if s.chance(20) { 250 } else { 0 };
    let n = 12 + more + s.below(top);
    let few: Vec<Value> = (0..4).map(|_| value(s, o, 2.min(o.depth))).collect();
    let kind = s.below(4);
    let cell = |i: usize, s: &mut Src| match kind {
        0 => Value::from(i),
        1 => few[s.below(4)].clone(),
        2 => few[i % 4].clone(),
        _ => Value::Array(vec![Value::from(i % 3)]),
    };
    let inner = if s.chance(170) {
        Value::Array((0..n).map(|i| cell(i, s)).collect())
    } else {
        Value::Object((0..n).map(|i| (format!("k{}", i * 7 % n), cell(i, s))).collect())
    };
    match s.below(4) {
        0 => Value::Array(vec![inner.clone(), scalar(s, o)]),
        1 => {
            let mut m = Map::new();
            m.insert(key(s, o), inner);
            m.insert(key(s, o), scalar(s, o));
            Value::Object(m)
        }
        _ => inner,
    }
}

pub fn doc(s: &mut Src, o: &DocOpts) -> Value {
    if o.depth > 1 && s.chance(o.records) {
        return records(s, o);
    }
    if s.chance(9) {
        return if s.chance(85) { chain(s, o) } else { broad(s, o) };
    }
    // top level: mostly containers
    match s.below(24) {
        0 => scalar(s, o),
        n => container(s, o, o.depth, n % 2 == 0),
    }
}

fn container(s: &mut Src, o: &DocOpts, depth: usize, arr: bool) -> Value {
    let n = match s.below(16) {
        0 => 0,
        1..=3 => 1,
        _ => 1 + s.below(o.width),
    };
    if arr {
        Value::Array((0..n).map(|_| value(s, o, depth - 1)).collect())
    } else {
        let mut m = Map::new();
        for _ in 0..n {
            let k = key(s, o);
            m.insert(k, value(s, o, depth - 1));
        }
        Value::Object(m)
    }
}

pub fn value(s: &mut Src, o: &DocOpts, depth: usize) -> Value {
    if depth == 0 {
        return scalar(s, o);
    }
    match s.below(8) {
        0..=3 => scalar(s, o),
        4..=5 => container(s, o, depth, true),
        _ => container(s, o, depth, false),
    }
}

pub fn count_nodes(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count_nodes).sum(),
        Value::Object(o) => o.values().map(count_nodes).sum(),
        _ => 0,
    }
}

// ------------------------------------------------------------- document pool

#[derive(Default, Clone)]
pub struct Pool {
    pub keys: Vec<String>,
    pub scalars: Vec<Value>,
    pub max_len: usize,
}

pub fn pool(v: &Value) -> Pool {
    let mut p = Pool::default();
    fn go(v: &Value, p: &mut Pool) {
        match v {
            Value::Array(a) => {
                p.max_len = p.max_len.max(a.len());
                a.iter().for_each(|x| go(x, p))
            }
            Value::Object(o) => {
                for (k, x) in o {
                    if p.keys.len() < 200 {
                        p.keys.push(k.clone());
                    }
                    go(x, p);
                }
            }
            x => {
                if p.scalars.len() < 200 {
                    p.scalars.push(x.clone())
                }
            }
        }
    }
    go(v, &mut p);
    p
}

// ------------------------------------------------------------------- queries

#[derive(Clone)]
pub struct QOpts {
    pub max_segs: usize,
    pub desc: u32,
    /// remaining filter nesting
    pub filter_depth: usize,
    pub filter: u32,
    pub expr_depth: usize,
    pub call_depth: usize,
    pub root_paths: bool,
    /// extended dialect's singular query selectors
    pub singular_sel: u32,
    pub max_sels: usize,
    pub big_ints: bool,
    pub regex: bool,
    pub odd: u32,
    pub ctrl: u32,
    pub sigs: Vec<Sig>,
    /// integer literals beyond the interoperable range too
    pub wide_lits: bool,
}

impl Default for QOpts {
    fn default() -> Self {
        QOpts {
            max_segs: 4,
            desc: 40,
            filter_depth: 2,
            filter: 64,
            expr_depth: 3,
            call_depth: 2,
            root_paths: true,
            singular_sel: 0,
            max_sels: 3,
            big_ints: true,
            regex: true,
            odd: 12,
            ctrl: 0,
            sigs: std_sigs(),
            wide_lits: false,
        }
    }
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub p: Pool,
    pub o: QOpts,
    /// descendant segments still allowed
    pub desc_left: usize,
    pub call_left: usize,
    pub nodes_left: i32,
    /// the document the query is aimed at, if any
    root: Option<&'a Value>,
    /// (some of) the values the query built so far would reach
    pub cur: Vec<&'a Value>,
    /// values the last generated singular path reaches
    last: Vec<&'a Value>,
}

const CUR_CAP: usize = 24;

fn step<'a>(cur: &[&'a Value], seg: &Seg) -> Vec<&'a Value> {
    let mut base: Vec<&'a Value> = vec![];
    if seg.desc {
        fn go<'a>(v: &'a Value, o: &mut Vec<&'a Value>) {
            if o.len() > 60 {
                return;
            }
            o.push(v);
            for (_, c) in children(v) {
                go(c, o)
            }
        }
        cur.iter().for_each(|v| go(v, &mut base));
    } else {
        base = cur.to_vec();
    }
    let mut out: Vec<&'a Value> = vec![];
    for v in base {
        for sel in &seg.sels {
            if out.len() > CUR_CAP {
                return out;
            }
            match (sel, v) {
                (Sel::Name(n), Value::Object(o)) => out.extend(o.get(n)),
                (Sel::Index(i), Value::Array(a)) => {
                    let j = if *i < 0 { a.len() as i64 + i } else { *i };
                    if j >= 0 {
                        out.extend(a.get(j as usize));
                    }
                }
                (Sel::Slice(a, b, c), Value::Array(x)) => {
                    out.extend(slice_indices(x.len(), *a, *b, *c).into_iter().take(CUR_CAP).map(|i| &x[i]))
                }
                (Sel::Wild | Sel::Filter(_) | Sel::Singular(_), _) => out.extend(children(v).into_iter().take(CUR_CAP).map(|c| c.1)),
                _ => (),
            }
        }
    }
    out
}

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, p: Pool, o: QOpts) -> Self {
        G { s, p, o, desc_left: 3, call_left: 6, nodes_left: 60, root: None, cur: vec![], last: vec![] }
    }

    /// A generator that mostly writes queries which find something in `doc`.
    pub fn aimed(s: &'a mut Src, doc: &'a Value, o: QOpts) -> Self {
        let mut g = G::new(s, pool(doc), o);
        g.root = Some(doc);
        g.cur = vec![doc];
        g
    }

    pub fn query(&mut self) -> Vec<Seg> {
        let n = match self.s.below(16) {
            0 => 0,
            _ => 1 + self.s.below(self.o.max_segs),
        };
        let fd = self.o.filter_depth;
        let mut v = vec![];
        for _ in 0..n {
            if self.root.is_some() && !v.is_empty() && self.cur.iter().all(|v| !v.is_array() && !v.is_object()) && !self.s.chance(30) {
                break;
            }
            v.push(self.seg(fd));
        }
        v
    }

    fn segs_from(&mut self, abs: bool, n: usize, mut f: impl FnMut(&mut Self) -> Seg) -> Vec<Seg> {
        let save = self.cur.clone();
        if let (true, Some(r)) = (abs, self.root) {
            self.cur = vec![r];
        }
        let mut v: Vec<Seg> = vec![];
        for _ in 0..n {
            // below leaves there is nothing to find
            if v.len() > 1 && self.root.is_some() && self.cur.iter().all(|v| !v.is_array() && !v.is_object()) && !self.s.chance(30) {
                break;
            }
            v.push(f(self));
        }
        self.last = std::mem::replace(&mut self.cur, save);
        v
    }

    pub fn seg(&mut self, fd: usize) -> Seg {
        let desc = self.desc_left > 0 && self.s.chance(self.o.desc);
        if desc {
            self.desc_left -= 1;
        }
        let n = if self.o.max_sels > 1 && self.s.chance(48) { 2 + self.s.below(self.o.max_sels - 1) } else { 1 };
        if desc && self.root.is_some() {
            // let the selectors see what lies below
            let below = step(&self.cur, &Seg { desc: true, sels: vec![Sel::Wild] });
            let save = std::mem::take(&mut self.cur);
            self.cur = below;
            self.cur.extend(save.iter());
            let sels = (0..n).map(|_| self.sel(fd)).collect();
            self.cur = save;
            let seg = Seg { desc, sels };
            self.cur = step(&self.cur, &seg);
            return seg;
        }
        let sels = (0..n).map(|_| self.sel(fd)).collect();
        let seg = Seg { desc, sels };
        if self.root.is_some() {
            self.cur = step(&self.cur, &seg);
        }
        seg
    }

    pub fn name(&mut self) -> String {
        if self.root.is_some() && !self.s.chance(40) {
            let objs: Vec<&'a serde_json::Map<String, Value>> = self.cur.iter().filter_map(|v| v.as_object()).filter(|o| !o.is_empty()).collect();
            if !objs.is_empty() {
                let o = *self.s.pick(&objs);
                let i = self.s.below(o.len());
                let n = o.keys().nth(i).unwrap().clone();
                if self.o.ctrl > 0 || !n.chars().any(is_ctrl_only) {
                    return n;
                }
            }
        }
        if !self.p.keys.is_empty() && !self.s.chance(40) {
            let k = self.p.keys.clone();
            let n = self.s.pick(&k).clone();
            if self.o.ctrl == 0 && n.chars().any(is_ctrl_only) {
                return "a".into();
            }
            n
        } else {
            let o = DocOpts { odd: self.o.odd, ctrl: self.o.ctrl, ..Default::default() };
            key(self.s, &o)
        }
    }

    fn len(&mut self) -> i64 {
        if self.root.is_some() {
            let lens: Vec<usize> = self.cur.iter().filter_map(|v| v.as_array()).map(|a| a.len()).filter(|n| *n > 0).collect();
            if !lens.is_empty() {
                return *self.s.pick(&lens) as i64;
            }
        }
        self.p.max_len.max(1) as i64
    }

    pub fn index(&mut self) -> i64 {
        let l = self.len();
        if let Some(n) = fresh::int(self.s).filter(|_| self.o.big_ints) {
            return n;
        }
        match self.s.below(12) {
            0..=5 => self.s.range(0, l - 1),
            6..=8 => -self.s.range(1, l),
            9 => self.s.range(-l - 2, l + 1),
            10 => *self.s.pick(&[-l, -l, 1 - l, -l - 1, -1, 0, l - 1, l]),
            _ => {
                if self.o.big_ints {
                    *self.s.pick(&[9007199254740991, -9007199254740991, 4294967296, -4294967297, 1 << 31, 100])
                } else {
                    self.s.range(-9, 9)
                }
            }
        }
    }

    fn bound(&mut self) -> Option<i64> {
        if let Some(n) = fresh::int(self.s).filter(|_| self.o.big_ints) {
            return Some(n);
        }
        if self.s.chance(80) {
            return None;
        }
        let l = self.len();
        Some(match self.s.below(10) {
            0..=7 => self.s.range(-l - 2, l + 2),
            8 => *self.s.pick(&[-l, 1 - l, -l - 1, -1, 0, l - 1, l, l + 1]),
            _ => {
                if self.o.big_ints {
                    *self.s.pick(&[9007199254740991, -9007199254740991, 4294967296, -4294967296])
                } else {
                    0
                }
            }
        })
    }

    fn step(&mut self) -> Option<i64> {
        if let Some(n) = fresh::int(self.s).filter(|_| self.o.big_ints) {
            return Some(n);
        }
        match self.s.below(12) {
            0..=3 => None,
            4 => Some(1),
            5 => Some(2),
            6..=7 => Some(-1),
            8 => Some(-2),
            9 => Some(0),
            10 => Some(self.s.range(-6, 6)),
            _ => {
                if self.o.big_ints {
                    Some(*self.s.pick(&[9007199254740991, -9007199254740991, 3, -3]))
                } else {
                    Some(3)
                }
            }
        }
    }

    pub fn slice(&mut self) -> Sel {
        let a = self.bound();
        let b = self.bound();
        let c = self.step();
        Sel::Slice(a, b, c)
    }

    pub fn sel(&mut self, fd: usize) -> Sel {
        self.nodes_left -= 1;
        if self.o.singular_sel > 0 && self.s.chance(self.o.singular_sel) {
            return Sel::Singular(self.singular_target());
        }
        if fd > 0 && self.nodes_left > 0 && self.s.chance(self.o.filter) {
            return Sel::Filter(self.filter(fd - 1));
        }
        let k = self.s.below(16);
        if self.root.is_some() && !self.cur.is_empty() && k < 11 && !self.s.chance(40) {
            // a selector of the right kind for what is there
            let arr = self.cur.iter().filter(|v| v.is_array()).count();
            let obj = self.cur.iter().filter(|v| v.is_object()).count();
            if arr + obj > 0 {
                return if self.s.below(arr + obj) < obj {
                    Sel::Name(self.name())
                } else if k < 6 {
                    Sel::Index(self.index())
                } else {
                    self.slice()
                };
            }
        }
        match k {
            0..=5 => Sel::Name(self.name()),
            6..=8 => Sel::Index(self.index()),
            9..=10 => self.slice(),
            _ => Sel::Wild,
        }
    }

    /// A filter's expression, for the children of the current values.
    pub fn filter(&mut self, fd: usize) -> Expr {
        let e = self.o.expr_depth;
        let save = self.cur.clone();
        if self.root.is_some() {
            self.cur = step(&self.cur, &Seg { desc: false, sels: vec![Sel::Wild] });
        }
        let r = self.logical(e, fd);
        self.cur = save;
        r
    }

    /// Runs `f` with the children of the current values as the current values.
    pub fn in_filter<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let save = self.cur.clone();
        if self.root.is_some() {
            self.cur = step(&self.cur, &Seg { desc: false, sels: vec![Sel::Wild] });
        }
        let r = f(self);
        self.cur = save;
        r
    }

    /// A literal equal (or close) to what `e` yields for one of the current values.
    pub fn lit_for(&mut self, env: &Env, e: &Expr) -> Option<Expr> {
        let root = self.root?;
        if self.cur.is_empty() {
            return None;
        }
        let cur = *self.s.pick(&self.cur.clone());
        match operand(env, e, root, cur) {
            Val::Lit(_, Some(i)) => {
                let d = if self.s.chance(50) { self.s.range(-1, 1) } else { 0 };
                Some(Expr::Num(Num::new((i + d).to_string())))
            }
            Val::Ref(v) => match v {
                Value::Array(_) | Value::Object(_) => None,
                v => Some(self.lit_of(v)),
            },
            Val::Own(v) => match v {
                Value::Array(_) | Value::Object(_) => None,
                v => Some(self.lit_of(&v)),
            },
            _ => None,
        }
    }

    pub fn singular_segs(&mut self, min: usize) -> Vec<Seg> {
        let n = min + self.s.below(3);
        self.segs_from(true, n, |g| g.singular_seg())
    }

    /// An absolute singular query, mostly to a string or integer that names
    /// a child of the current values.
    fn singular_target(&mut self) -> Vec<Seg> {
        let root = match self.root {
            Some(r) if !self.s.chance(40) => r,
            _ => {
                let min = if self.s.chance(8) { 0 } else { 1 };
                return self.singular_segs(min);
            }
        };
        let mut hits: Vec<Vec<Part>> = vec![];
        let mut rest: Vec<Vec<Part>> = vec![];
        fn go(v: &Value, path: &mut Vec<Part>, cur: &[&Value], hits: &mut Vec<Vec<Part>>, rest: &mut Vec<Vec<Part>>) {
            if hits.len() + rest.len() > 150 {
                return;
            }
            let hit = match v {
                Value::String(s) => cur.iter().any(|c| c.as_object().is_some_and(|o| o.contains_key(s))),
                Value::Number(n) => n.as_i64().is_some_and(|i| {
                    cur.iter().any(|c| c.as_array().is_some_and(|a| i < a.len() as i64 && i >= -(a.len() as i64)))
                }),
                _ => false,
            };
            if !path.is_empty() {
                if hit {
                    hits.push(path.clone())
                } else {
                    rest.push(path.clone())
                }
            }
            for (p, c) in children(v) {
                path.push(p);
                go(c, path, cur, hits, rest);
                path.pop();
            }
        }
        go(root, &mut vec![], &self.cur, &mut hits, &mut rest);
        let from = if !hits.is_empty() && (rest.is_empty() || !self.s.chance(50)) { hits } else { rest };
        if from.is_empty() {
            return self.singular_segs(1);
        }
        let path = self.s.pick(&from).clone();
        if path.iter().any(|p| matches!(p, Part::Name(n) if self.o.ctrl == 0 && n.chars().any(is_ctrl_only))) {
            return self.singular_segs(1);
        }
        let mut v = root;
        let mut segs = vec![];
        for p in path {
            let sel = match p {
                Part::Name(n) => {
                    v = &v[n.as_str()];
                    Sel::Name(n)
                }
                Part::Index(i) => {
                    let l = v.as_array().map(|a| a.len()).unwrap_or(0) as i64;
                    v = &v[i];
                    Sel::Index(if self.s.chance(60) { i as i64 - l } else { i as i64 })
                }
            };
            segs.push(Seg { desc: false, sels: vec![sel] });
        }
        segs
    }

    pub fn logical(&mut self, d: usize, fd: usize) -> Expr {
        self.nodes_left -= 1;
        if d == 0 || self.nodes_left < 0 {
            return self.basic(0, fd);
        }
        match self.s.below(10) {
            0..=4 => self.basic(d, fd),
            5..=6 => {
                let n = 2 + self.s.below(2);
                let v = (0..n).map(|_| self.logical(d - 1, fd)).collect();
                and(v)
            }
            7..=8 => {
                let n = 2 + self.s.below(2);
                let v = (0..n).map(|_| self.logical(d - 1, fd)).collect();
                or(v)
            }
            _ => Expr::Not(Box::new(self.logical(d - 1, fd))),
        }
    }

    pub fn basic(&mut self, d: usize, fd: usize) -> Expr {
        match self.s.below(16) {
            0..=4 => self.path(fd),
            5..=12 => self.cmp(fd),
            13 if d > 0 => Expr::Not(Box::new(self.logical(d - 1, fd))),
            _ => self.test_call(fd).unwrap_or_else(|| self.path(fd)),
        }
    }

    /// A query usable as a test (any shape).
    pub fn path(&mut self, fd: usize) -> Expr {
        let abs = self.o.root_paths && self.s.chance(60);
        let n = match self.s.below(12) {
            0 => 0,
            1..=8 => 1,
            9..=10 => 2,
            _ => 1 + self.s.below(6),
        };
        let segs = self.segs_from(abs, n, |g| g.seg(fd));
        Expr::Path(abs, segs)
    }

    pub fn singular_path(&mut self) -> Expr {
        let abs = self.o.root_paths && self.s.chance(60);
        let n = match self.s.below(12) {
            0..=2 => 0,
            3..=9 => 1,
            10 => 2,
            _ => 1 + self.s.below(5),
        };
        let segs = self.segs_from(abs, n, |g| g.singular_seg());
        Expr::Path(abs, segs)
    }

    pub fn singular_seg(&mut self) -> Seg {
        let mut idx = self.s.chance(80);
        if self.root.is_some() && !self.s.chance(40) {
            let arr = self.cur.iter().filter(|v| v.is_array()).count();
            let obj = self.cur.iter().filter(|v| v.is_object()).count();
            if arr + obj > 0 {
                idx = self.s.below(arr + obj) >= obj;
            }
        }
        let sel = if idx { Sel::Index(self.index()) } else { Sel::Name(self.name()) };
        let seg = Seg { desc: false, sels: vec![sel] };
        if self.root.is_some() {
            self.cur = step(&self.cur, &seg);
        }
        seg
    }

    pub fn cmp(&mut self, fd: usize) -> Expr {
        let op = *self.s.pick(&Op::ALL);
        match self.s.below(4) {
            // something against a value it may have
            0..=1 => {
                let a = self.singular_path();
                let vals: Vec<&Value> = self.last.iter().copied().filter(|v| !v.is_array() && !v.is_object()).collect();
                let b = if !vals.is_empty() && !self.s.chance(60) {
                    let v = *self.s.pick(&vals);
                    self.lit_of(v)
                } else {
                    self.comparable(fd)
                };
                if self.s.chance(60) {
                    Expr::Cmp(Box::new(b), op, Box::new(a))
                } else {
                    Expr::Cmp(Box::new(a), op, Box::new(b))
                }
            }
            2 => {
                let a = self.singular_path();
                let b = self.comparable(fd);
                Expr::Cmp(Box::new(a), op, Box::new(b))
            }
            _ => {
                let a = self.comparable(fd);
                let b = self.comparable(fd);
                Expr::Cmp(Box::new(a), op, Box::new(b))
            }
        }
    }

    pub fn comparable(&mut self, fd: usize) -> Expr {
        match self.s.below(12) {
            0..=4 => self.literal(),
            5..=9 => self.singular_path(),
            _ => self.value_call(fd).unwrap_or_else(|| self.literal()),
        }
    }

    pub fn literal(&mut self) -> Expr {
        if !self.p.scalars.is_empty() && self.s.chance(170) {
            let sc = self.p.scalars.clone();
            let v = self.s.pick(&sc).clone();
            return self.lit_of(&v);
        }
        match self.s.below(12) {
            0..=4 => self.number(),
            5..=8 => {
                let mut t = small_string(self.s);
                if self.o.ctrl == 0 {
                    t.retain(|c| !is_ctrl_only(c));
                }
                Expr::Str(t)
            }
            9 => Expr::Bool(true),
            10 => Expr::Bool(false),
            _ => Expr::Null,
        }
    }

    pub fn lit_of(&mut self, v: &Value) -> Expr {
        match v {
            Value::Null => Expr::Null,
            Value::Bool(b) => Expr::Bool(*b),
            Value::String(s) => {
                let mut t = s.clone();
                if self.o.ctrl == 0 {
                    t.retain(|c| !is_ctrl_only(c));
                }
                Expr::Str(t)
            }
            Value::Number(n) => {
                let t = match n.as_i64() {
                    Some(i) => i.to_string(),
                    None => match n.as_u64() {
                        Some(u) => u.to_string(),
                        None => float_text(n.as_f64().unwrap()),
                    },
                };
                Expr::Num(Num::new(t))
            }
            _ => Expr::Null,
        }
    }

    pub fn number(&mut self) -> Expr {
        if self.o.wide_lits && self.s.chance(24) {
            let t = match self.s.below(4) {
                0 => self
                    .s
                    .pick(&["9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "4503599627370497", "1152921504606846977"])
                    .to_string(),
                1 => {
                    let n = 1 + self.s.below(30);
                    let mut t: String = (0..n).map(|_| (b'0' + self.s.below(10) as u8) as char).collect();
                    t.insert(0, (b'1' + self.s.below(9) as u8) as char);
                    t
                }
                _ => {
                    // a whole number of some 54 to 63 bits
                    let k = 53 + self.s.below(10);
                    let v = (1i64 << k) + self.s.range(-100, 100);
                    if self.s.chance(128) { -v } else { v }.to_string()
                }
            };
            return Expr::Num(Num::new(t));
        }
        match self.s.below(8) {
            0..=3 => Expr::Num(Num::new(int(self.s).to_string())),
            4..=5 => Expr::Num(Num::new(float_text(float(self.s)))),
            _ => Expr::Num(Num::new(number_text(self.s))),
        }
    }

    fn sig_of(&mut self, tys: &[Ty]) -> Option<Sig> {
        let c: Vec<Sig> = self
            .o
            .sigs
            .iter()
            .filter(|s| {
                tys.contains(&s.ret) && (self.o.regex || (s.name != "match" && s.name != "search"))
            })
            .cloned()
            .collect();
        if c.is_empty() || self.call_left == 0 {
            return None;
        }
        Some(self.s.pick(&c).clone())
    }

    pub fn value_call(&mut self, fd: usize) -> Option<Expr> {
        let sig = self.sig_of(&[Ty::Value])?;
        Some(self.call(&sig, fd))
    }

    pub fn test_call(&mut self, fd: usize) -> Option<Expr> {
        let sig = self.sig_of(&[Ty::Logical, Ty::Nodes])?;
        Some(self.call(&sig, fd))
    }

    pub fn call(&mut self, sig: &Sig, fd: usize) -> Expr {
        self.call_left = self.call_left.saturating_sub(1);
        if sig.name == "match" || sig.name == "search" {
            let a = self.singular_or_str();
            let pat = if self.s.chance(200) {
                let re = regex(self.s, 2);
                let mut t = re_text(&re);
                t.retain(|c| !is_ctrl_only(c));
                Expr::Str(t)
            } else {
                self.singular_or_str()
            };
            return Expr::Call(sig.name.clone(), vec![a, pat]);
        }
        let args = sig.params.clone().iter().map(|t| self.arg(*t, fd)).collect();
        Expr::Call(sig.name.clone(), args)
    }

    fn singular_or_str(&mut self) -> Expr {
        if self.s.chance(190) {
            self.singular_path()
        } else {
            self.literal()
        }
    }

    pub fn arg(&mut self, t: Ty, fd: usize) -> Expr {
        let nested = self.o.call_depth > 0 && self.call_left > 0;
        match t {
            Ty::Value => match self.s.below(8) {
                0..=1 => self.literal(),
                2 if nested => {
                    self.o.call_depth -= 1;
                    let r = self.value_call(fd);
                    self.o.call_depth += 1;
                    r.unwrap_or_else(|| self.singular_path())
                }
                _ => self.singular_path(),
            },
            Ty::Nodes => {
                if nested && self.s.chance(40) {
                    if let Some(sig) = self.sig_of(&[Ty::Nodes]) {
                        self.o.call_depth -= 1;
                        let r = self.call(&sig, fd);
                        self.o.call_depth += 1;
                        return r;
                    }
                }
                self.path(fd)
            }
            Ty::Logical => match self.s.below(8) {
                0..=2 => self.path(fd),
                3 if nested => {
                    self.o.call_depth -= 1;
                    let r = self.test_call(fd);
                    self.o.call_depth += 1;
                    r.unwrap_or_else(|| self.path(fd))
                }
                _ => {
                    if nested {
                        self.o.call_depth -= 1;
                        let r = self.logical(1, fd);
                        self.o.call_depth += 1;
                        r
                    } else {
                        self.cmp(0)
                    }
                }
            },
        }
    }
}

pub fn is_ctrl_only(c: char) -> bool {
    (c as u32) < 0x20 && !matches!(c, '\n' | '\r' | '\t' | '\u{8}' | '\u{c}')
}

pub fn float_text(f: f64) -> String {
    if f != 0.0 && (f.abs() >= 1e17 || f.abs() < 1e-5) {
        format!("{f:e}")
    } else {
        format!("{f:?}")
    }
}

/// A random RFC 9535 `number` with a finite value inside the interop range.
pub fn number_text(s: &mut Src) -> String {
    let mut t = String::new();
    if s.chance(80) {
        t.push('-');
    }
    if s.chance(100) {
        t.push('0');
    } else {
        t.push_str(&s.range(1, 999).to_string());
    }
    if s.chance(128) {
        t.push('.');
        let n = 1 + s.below(3);
        for _ in 0..n {
            t.push((b'0' + s.below(10) as u8) as char);
        }
    }
    if s.chance(128) {
        t.push(if s.chance(90) { 'E' } else { 'e' });
        match s.below(3) {
            0 => t.push('+'),
            1 => t.push('-'),
            _ => (),
        }
        if s.chance(40) {
            t.push('0');
        }
        if s.chance(12) {
            // around the limits of a double
            t.push_str(s.pick(&["300", "307", "308", "309", "323", "324", "325", "400", "999", "99999"]));
        } else {
            t.push_str(&s.below(12).to_string());
        }
    }
    t
}

/// Another spelling of the same number.
pub fn respell(s: &mut Src, t: &str) -> String {
    let n = Num::new(t);
    if let Some(i) = n.exact_int() {
        if i == 0 && t.starts_with('-') {
            return t.to_string();
        }
        if i.unsigned_abs() <= 9007199254740991 {
            return match s.below(7) {
                0 => i.to_string(),
                1 => format!("{i}.0"),
                2 => format!("{i}e0"),
                3 => format!("{i}.00E+0"),
                4 if i != 0 => format!("{i}0e-1"),
                5 if i != 0 => format!("{i}00.0E-02"),
                6 if i != 0 && i % 10 == 0 => format!("{}e1", i / 10),
                _ => format!("{i}e-0"),
            };
        }
        return t.to_string();
    }
    match s.below(3) {
        0 => t.to_string(),
        1 => {
            // one more trailing zero in the fraction
            match t.find(['e', 'E']) {
                Some(p) => {
                    let (m, e) = t.split_at(p);
                    if m.contains('.') {
                        format!("{m}0{e}")
                    } else {
                        format!("{m}.0{e}")
                    }
                }
                None if t.contains('.') => format!("{t}0"),
                None => format!("{t}.0"),
            }
        }
        _ => match t.find(['e', 'E']) {
            Some(p) => {
                let (m, e) = t.split_at(p);
                let (sign, digits) = match e[1..].chars().next() {
                    Some('-') => ("-", &e[2..]),
                    Some('+') => ("+", &e[2..]),
                    _ => ("+", &e[1..]),
                };
                format!("{m}E{sign}0{digits}")
            }
            None => format!("{t}e+00"),
        },
    }
}

// -------------------------------------------------------------------- regexes

pub const RE_CHARS: [char; 24] = [
    'a', 'b', 'c', 'a', 'b', 'A', '1', '2', ' ', '-', '_', 'é', '☺', '\n', '\r', '.', '&', '~', '/',
    '😀', '$', '^', 'λ', '\t',
];

pub fn regex(s: &mut Src, d: usize) -> Re {
    let n = match s.below(8) {
        0..=5 => 1,
        6 => 2,
        _ => 3,
    };
    let v: Vec<Re> = (0..n).map(|_| branch(s, d)).collect();
    if v.len() == 1 {
        v.into_iter().next().unwrap()
    } else {
        Re::Alt(v)
    }
}

fn branch(s: &mut Src, d: usize) -> Re {
    let n = s.below(5);
    Re::Cat((0..n).map(|_| piece(s, d)).collect())
}

fn piece(s: &mut Src, d: usize) -> Re {
    let a = atom(s, d);
    match s.below(12) {
        0..=6 => a,
        7 => Re::Rep(Box::new(a), 0, None),
        8 => Re::Rep(Box::new(a), 1, None),
        9 => Re::Rep(Box::new(a), 0, Some(1)),
        10 => {
            let n = s.below(4) as u32;
            Re::Rep(Box::new(a), n, Some(n))
        }
        _ => {
            let n = s.below(3) as u32;
            if s.chance(128) {
                Re::Rep(Box::new(a), n, None)
            } else {
                Re::Rep(Box::new(a), n, Some(n + s.below(3) as u32))
            }
        }
    }
}

fn atom(s: &mut Src, d: usize) -> Re {
    match s.below(16) {
        0..=7 => Re::Char(*s.pick(&RE_CHARS[..18])),
        8 => Re::Char(*s.pick(&RE_CHARS)),
        9..=10 => Re::Dot,
        11 => Re::Char(*s.pick(&['(', ')', '*', '+', '?', '[', ']', '{', '}', '|', '\\', '.'])),
        12..=13 => class(s),
        14 => Re::Cat_(s.chance(90), s.pick(&["L", "Ll", "Lu", "N", "Nd", "P", "S", "Z", "Zs", "C", "M", "So", "Cc"]).to_string()),
        _ => {
            if d > 0 {
                Re::Group(Box::new(regex(s, d - 1)))
            } else {
                Re::Char('a')
            }
        }
    }
}

fn class(s: &mut Src) -> Re {
    let n = 1 + s.below(4);
    let items = (0..n)
        .map(|_| match s.below(8) {
            0..=3 => Item::One(*s.pick(&['a', 'b', '1', '&', '&', '~', '~', '-', '^', ']', '[', '.', '\\', 'é', '\n', '\r', ' ', '$'])),
            4..=5 => {
                let (a, b) = *s.pick(&[('a', 'c'), ('A', 'Z'), ('0', '9'), ('a', 'z'), ('b', 'b'), (' ', '~'), ('é', '😀'), ('&', '-')]);
                Item::Range(a, b)
            }
            6 => Item::One('a'),
            _ => Item::Prop(s.chance(60), s.pick(&["L", "Lu", "Nd", "Zs", "P"]).to_string()),
        })
        .collect();
    Re::Class(s.chance(70), items)
}

fn esc_char(c: char, out: &mut String) {
    match c {
        '\n' => out.push_str("\\n"),
        '\r' => out.push_str("\\r"),
        '\t' => out.push_str("\\t"),
        '(' | ')' | '*' | '+' | '.' | '?' | '[' | ']' | '{' | '}' | '|' | '\\' => {
            out.push('\\');
            out.push(c)
        }
        c => out.push(c),
    }
}

/// `^`/`$` as atoms are written bare (that is the ambiguous spelling);
/// `\^` is the only escapable one of the two.
pub fn re_text(r: &Re) -> String {
    let mut o = String::new();
    re_into(r, &mut o);
    o
}

fn re_into(r: &Re, o: &mut String) {
    match r {
        Re::Alt(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                re_into(x, o);
            }
        }
        Re::Cat(v) => v.iter().for_each(|x| re_into(x, o)),
        Re::Group(x) => {
            o.push('(');
            re_into(x, o);
            o.push(')');
        }
        Re::Rep(x, n, m) => {
            re_into(x, o);
            match (n, m) {
                (0, None) => o.push('*'),
                (1, None) => o.push('+'),
                (0, Some(1)) => o.push('?'),
                (n, None) => o.push_str(&format!("{{{n},}}")),
                (n, Some(m)) if n == m => o.push_str(&format!("{{{n}}}")),
                (n, Some(m)) => o.push_str(&format!("{{{n},{m}}}")),
            }
        }
        Re::Char(c) => esc_char(*c, o),
        Re::Dot => o.push('.'),
        Re::Cat_(n, p) => o.push_str(&format!("\\{}{{{p}}}", if *n { 'P' } else { 'p' })),
        Re::Class(n, items) => {
            o.push('[');
            if *n {
                o.push('^');
            }
            for (i, it) in items.iter().enumerate() {
                match it {
                    Item::One('-') if i > 0 && i + 1 < items.len() => o.push_str("\\-"),
                    Item::One('-') => {
                        // bare at either end is allowed; but not after a bare first '-'
                        if i == 0 && items.len() > 1 {
                            o.push_str("\\-")
                        } else {
                            o.push('-')
                        }
                    }
                    Item::One('^') if i == 0 => o.push_str("\\^"),
                    Item::One(c) => class_char(*c, o),
                    Item::Range(a, b) => {
                        class_char(*a, o);
                        o.push('-');
                        if *b == '-' {
                            o.push_str("\\-")
                        } else {
                            class_char(*b, o)
                        }
                    }
                    Item::Prop(n, p) => o.push_str(&format!("\\{}{{{p}}}", if *n { 'P' } else { 'p' })),
                }
            }
            o.push(']');
        }
    }
}

fn class_char(c: char, o: &mut String) {
    match c {
        '[' | ']' | '\\' => {
            o.push('\\');
            o.push(c)
        }
        '\n' => o.push_str("\\n"),
        '\r' => o.push_str("\\r"),
        '\t' => o.push_str("\\t"),
        '-' => o.push_str("\\-"),
        c => o.push(c),
    }
}

/// A string likely to be near the language of `re`.
pub fn sample_re(s: &mut Src, re: &Re) -> String {
    let mut o = String::new();
    sample_into(s, re, &mut o);
    if s.chance(80) {
        // mutate
        let cs: Vec<char> = o.chars().collect();
        match s.below(3) {
            0 if !cs.is_empty() => {
                let i = s.below(cs.len());
                o = cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect();
            }
            1 => {
                let i = s.below(cs.len() + 1);
                let mut v = cs.clone();
                v.insert(i, *s.pick(&RE_CHARS));
                o = v.into_iter().collect();
            }
            _ => o.push(*s.pick(&RE_CHARS)),
        }
    }
    o
}

fn sample_into(s: &mut Src, r: &Re, o: &mut String) {
    match r {
        Re::Alt(v) => {
            let i = s.below(v.len());
            sample_into(s, &v[i], o)
        }
        Re::Cat(v) => v.iter().for_each(|x| sample_into(s, x, o)),
        Re::Group(x) => sample_into(s, x, o),
        Re::Rep(x, n, m) => {
            let hi = m.unwrap_or(n + 2).min(n + 3);
            let k = *n as usize + s.below((hi - n.min(&hi)) as usize + 1);
            for _ in 0..k {
                sample_into(s, x, o)
            }
        }
        Re::Char(c) => o.push(*c),
        Re::Dot => o.push(*s.pick(&['a', 'x', '\r', '\n', '☺', '😀', ' ', '\u{2028}'])),
        Re::Cat_(..) => o.push(*s.pick(&['a', 'A', '1', '-', ' ', '☺', '\n', '\u{301}', 'é'])),
        Re::Class(..) => o.push(*s.pick(&['a', 'b', '1', '&', '~', '-', '^', ']', '[', 'é', '\n', '\r', 'Z', ' '])),
    }
}
