//! The size dimension: now and then one aspect of a case is made far bigger
//! than the generators make it (long strings, many selectors, long paths,
//! many operands, many digits, a deep or crowded surrounding document).
//! The oracles work on the grown case; nothing here decides anything.
use crate::engine::{fnv, Src};
use crate::fresh;
use crate::model::*;
use serde_json::{Map, Value};
use std::cell::Cell;

thread_local! {
    static TOOK: Cell<Option<&'static str>> = const { Cell::new(None) };
}

/// What was grown since the last call, for the case's labels.
pub fn took() -> Option<&'static str> {
    TOOK.with(|t| t.take())
}

fn tag(t: &'static str) {
    TOOK.with(|x| x.set(Some(t)));
}

fn amount(s: &mut Src) -> usize {
    if let Some(n) = fresh::size(s, 3_000) {
        return n.max(1);
    }
    let n = *s.pick(&[9usize, 17, 20, 25, 33, 50, 65, 70, 100, 130, 257, 260]);
    n + s.below(4)
}

fn length(s: &mut Src) -> usize {
    if let Some(n) = fresh::size(s, 70_000) {
        return n.max(1);
    }
    let n = if s.chance(3) { *s.pick(&[4100usize, 33_000, 65_600]) } else { *s.pick(&[9usize, 17, 20, 25, 33, 40, 65, 100, 130, 257, 300, 520, 1030]) };
    n + s.below(3)
}

fn lvl(s: &mut Src) -> usize {
    if let Some(n) = fresh::size(s, 200) {
        return n.max(1);
    }
    let n = *s.pick(&[9usize, 10, 17, 18, 20, 25, 33, 34, 65, 66, 100, 129, 130]);
    n + s.below(3)
}

/// Grows a query that is only parsed.
pub fn text(s: &mut Src, segs: &mut Vec<Seg>) {
    if !s.chance(fresh::often(10)) {
        return;
    }
    match s.below(3) {
        0 => stretch(s, segs, None),
        _ => inflate(s, segs, false),
    }
}

/// Grows a query and the document it is to be evaluated on.
pub fn both(s: &mut Src, segs: &mut Vec<Seg>, doc: &mut Value) {
    if s.chance(8) {
        return space(s, segs, doc);
    }
    if !s.chance(fresh::often(8)) {
        return;
    }
    match s.below(6) {
        0 | 1 => stretch(s, segs, Some(doc)),
        2 => dig(s, segs, doc),
        3 => bury(s, segs, doc),
        _ => inflate(s, segs, true),
    }
}

// ------------------------------------------------------------------- strings

fn strings(v: &Value) -> usize {
    match v {
        Value::String(_) => 1,
        Value::Array(a) => a.iter().map(strings).sum(),
        Value::Object(o) => o.values().map(|x| 1 + strings(x)).sum(),
        _ => 0,
    }
}

fn map_value(v: &mut Value, f: &dyn Fn(&str) -> String) {
    match v {
        Value::String(t) => *t = f(t),
        Value::Array(a) => a.iter_mut().for_each(|x| map_value(x, f)),
        Value::Object(o) => {
            let old = std::mem::take(o);
            *o = old
                .into_iter()
                .map(|(k, mut x)| {
                    map_value(&mut x, f);
                    (f(&k), x)
                })
                .collect::<Map<String, Value>>();
        }
        _ => (),
    }
}

fn map_query(segs: &mut [Seg], f: &dyn Fn(&str) -> String) {
    walk_sels(segs, &mut |sel| {
        if let Sel::Name(n) = sel {
            *n = f(n);
        }
    });
    walk_exprs(segs, &mut |e| {
        if let Expr::Str(t) = e {
            *t = f(t);
        }
    });
}

/// Lengthens strings of query and document alike.
pub fn stretch(s: &mut Src, segs: &mut [Seg], doc: Option<&mut Value>) {
    tag("grown:strings");
    let mut count = doc.as_ref().map(|d| strings(d)).unwrap_or(0);
    let mut regex = false;
    visit_exprs(segs, &mut |e| {
        regex |= matches!(e, Expr::Call(n, _) if n == "match" || n == "search");
        count += matches!(e, Expr::Str(_)) as usize;
    });
    visit_segs(segs, &mut |g| count += g.sels.iter().filter(|x| matches!(x, Sel::Name(_))).count());
    let mut n = length(s).min(260_000 / (count + 1)).max(1);
    if regex {
        n = n.min(120);
    }
    let fill = s.pick(&["a", "x", "1", "0", "é", "😀", " ", "_", "ab", "'", "9", "\u{10ffff}"]).repeat(n);
    let salt = if s.chance(128) { Some(s.byte()) } else { None };
    let place = s.below(3);
    let f = move |t: &str| -> String {
        if let Some(x) = salt {
            if (fnv(t.as_bytes()) >> 7) as u8 & 1 == x & 1 {
                return t.to_string();
            }
        }
        match place {
            0 => format!("{fill}{t}"),
            1 => format!("{t}{fill}"),
            _ => {
                let m = t.char_indices().nth(1).map(|x| x.0).unwrap_or(t.len());
                format!("{}{fill}{}", &t[..m], &t[m..])
            }
        }
    };
    map_query(segs, &f);
    if let Some(d) = doc {
        map_value(d, &f);
    }
}

/// Lengthens strings or containers below the members of some rows.
pub fn values(s: &mut Src, rows: &mut [Value]) {
    if !s.chance(fresh::often(10)) {
        return;
    }
    tag("grown:operand-values");
    if s.chance(100) {
        // longer arrays and objects, alike on both sides
        let n = amount(s).min(300);
        let at_end = s.chance(128);
        for r in rows.iter_mut().filter_map(|r| r.as_object_mut()).flat_map(|o| o.values_mut()) {
            match r {
                Value::Array(a) => {
                    let pad = (0..n).map(|i| Value::from(i % 5));
                    let i = if at_end { a.len() } else { 0 };
                    a.splice(i..i, pad);
                }
                Value::Object(o) => o.extend((0..n).map(|i| (format!("m{i}"), Value::from(i % 5)))),
                _ => (),
            }
        }
        return;
    }
    let n = length(s).min(2_000);
    let fill = s.pick(&["a", "x", "1", "0", "é", "😀", " ", "Ab", "\u{ffff}"]).repeat(n);
    let place = s.below(3);
    let f = move |t: &str| match place {
        0 => format!("{fill}{t}"),
        1 => format!("{t}{fill}"),
        _ => format!("{fill}{t}{fill}"),
    };
    for r in rows.iter_mut().filter_map(|r| r.as_object_mut()).flat_map(|o| o.values_mut()) {
        map_value(r, &f);
    }
}

// ------------------------------------------------------- surrounding document

fn prefix_all(segs: &mut Vec<Seg>, main: Vec<Seg>, abs: &[Seg]) {
    walk_exprs(segs, &mut |e| {
        if let Expr::Path(true, q) = e {
            q.splice(0..0, abs.iter().cloned());
        }
    });
    walk_sels(segs, &mut |x| {
        if let Sel::Singular(q) = x {
            q.splice(0..0, abs.iter().cloned());
        }
    });
    segs.splice(0..0, main);
}

/// Spaces a document out: below every child come some more levels, which every
/// path then steps over, so that long paths have something to find.
pub fn space(s: &mut Src, segs: &mut Vec<Seg>, doc: &mut Value) {
    fn depth(v: &Value) -> usize {
        match v {
            Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
            Value::Object(m) => 1 + m.values().map(depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn wrap(mut v: Value, by: &[Sel]) -> Value {
        for x in by.iter().rev() {
            v = match x {
                Sel::Name(n) => Value::Object([(n.clone(), v)].into_iter().collect()),
                _ => Value::Array(vec![v]),
            };
        }
        v
    }
    fn out(v: Value, by: &[Sel]) -> Value {
        match v {
            Value::Array(a) => Value::Array(a.into_iter().map(|x| wrap(out(x, by), by)).collect()),
            Value::Object(m) => Value::Object(m.into_iter().map(|(k, x)| (k, wrap(out(x, by), by))).collect()),
            v => v,
        }
    }
    fn over(q: &mut Vec<Seg>, by: &[Sel], first: bool) {
        let old = std::mem::take(q);
        if first {
            q.extend(by.iter().cloned().map(one));
        }
        for mut g in old {
            for x in &mut g.sels {
                match x {
                    Sel::Filter(e) => inside(e, by),
                    Sel::Singular(q) => over(q, by, false),
                    _ => (),
                }
            }
            q.push(g);
            q.extend(by.iter().cloned().map(one));
        }
    }
    fn inside(e: &mut Expr, by: &[Sel]) {
        match e {
            Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => v.iter_mut().for_each(|e| inside(e, by)),
            Expr::Not(e) => inside(e, by),
            Expr::Cmp(a, _, b) => {
                inside(a, by);
                inside(b, by);
            }
            Expr::Path(abs, q) => over(q, by, !*abs),
            _ => (),
        }
    }
    tag("grown:spaced");
    let n = 1 + s.below(3);
    let by: Vec<Sel> = (0..n).map(|i| if s.chance(80) { Sel::Index(if s.chance(60) { -1 } else { 0 }) } else { Sel::Name(["w", "a", "k"][(i + s.below(2)) % 3].into()) }).collect();
    if depth(doc) * (n + 1) > 100 {
        return;
    }
    *doc = out(std::mem::take(doc), &by);
    over(segs, &by, false);
}

fn one(sel: Sel) -> Seg {
    Seg { desc: false, sels: vec![sel] }
}

/// Puts the document many levels down.
pub fn dig(s: &mut Src, segs: &mut Vec<Seg>, doc: &mut Value) {
    tag("grown:depth");
    let n = lvl(s);
    let style = s.below(4);
    let keys: Vec<String> = ["a", "k", "'", "é", "b c"].iter().map(|k| k.to_string()).collect();
    let k = s.pick(&keys).clone();
    let (mut main, mut abs) = (vec![], vec![]);
    let plainly = s.chance(128);
    for i in 0..n {
        let inner = std::mem::take(doc);
        let arr = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => s.chance(128),
        };
        let side = s.chance(24);
        let (step, loose) = if arr {
            let (v, at, len) = if side { (vec![Value::from(1), inner], 1i64, 2i64) } else { (vec![inner], 0, 1) };
            *doc = Value::Array(v);
            let ix = if s.chance(64) { at - len } else { at };
            let loose = match s.below(8) {
                0 => Sel::Wild,
                1 => Sel::Slice(None, None, None),
                2 => Sel::Slice(Some(at), None, Some(1)),
                3 => Sel::Filter(Expr::Path(false, vec![])),
                _ => Sel::Index(ix),
            };
            (Sel::Index(ix), loose)
        } else {
            let mut m = Map::new();
            if side {
                m.insert("0".into(), Value::from(1));
            }
            m.insert(k.clone(), inner);
            *doc = Value::Object(m);
            let loose = match s.below(6) {
                0 => Sel::Wild,
                1 => Sel::Filter(Expr::Path(false, vec![])),
                _ => Sel::Name(k.clone()),
            };
            (Sel::Name(k.clone()), loose)
        };
        main.push(one(if plainly { step.clone() } else { loose }));
        abs.push(one(step));
    }
    main.reverse();
    abs.reverse();
    if s.chance(48) {
        // by way of a descendant segment
        let m = s.below(main.len());
        main.drain(1..m.max(1));
        let last = main.len() - 1;
        main[last].desc = true;
        main.truncate(last + 1);
    }
    prefix_all(segs, main, &abs);
}

/// Puts the document among many siblings.
pub fn bury(s: &mut Src, segs: &mut Vec<Seg>, doc: &mut Value) {
    tag("grown:siblings");
    let inner = std::mem::take(doc);
    if s.chance(180) {
        let before = if s.chance(5) { *s.pick(&[4_096usize, 65_536, 70_000]) } else { amount(s) * (1 + s.below(4)) };
        let after = s.below(4);
        let kind = s.below(3);
        let pad = |i: usize| match kind {
            0 => Value::from(i),
            1 => Value::from(0),
            _ => Value::Bool(i % 2 == 0),
        };
        let mut v: Vec<Value> = (0..before).map(pad).collect();
        v.push(inner);
        v.extend((0..after).map(pad));
        *doc = Value::Array(v);
        let (k, neg) = (before as i64, -(after as i64) - 1);
        let ix = if s.chance(80) { neg } else { k };
        let wide = before > 2_000;
        let main = match s.below(if wide { 5 } else { 8 }) {
            0 => Sel::Slice(Some(k), None, None),
            1 => Sel::Slice(None, Some(neg - 1), Some(-1)),
            2 => Sel::Slice(Some(k - 2), Some(k + 2), None),
            3 => Sel::Slice(Some(k % 256), None, Some(256)),
            4 => Sel::Index(ix),
            5 => Sel::Wild,
            6 => Sel::Filter(Expr::Not(Box::new(Expr::Cmp(Box::new(Expr::Path(false, vec![])), Op::Eq, Box::new(Expr::Bool(true)))))),
            _ => Sel::Slice(None, None, Some(if s.chance(128) { -1 } else { 1 })),
        };
        prefix_all(segs, vec![one(main)], &[one(Sel::Index(ix))]);
    } else {
        let n = amount(s);
        let k = s.pick(&["k", "a", "zz", "é"]).to_string();
        let mut m = Map::new();
        let at = s.below(n);
        let mut inner = Some(inner);
        for i in 0..n {
            if i == at {
                m.insert(k.clone(), inner.take().unwrap());
            }
            m.insert(format!("m{}", i * 7 % n), Value::from(i));
        }
        *doc = Value::Object(m);
        let main = match s.below(4) {
            0 => Sel::Wild,
            1 => Sel::Filter(Expr::Path(false, vec![])),
            _ => Sel::Name(k.clone()),
        };
        prefix_all(segs, vec![one(main)], &[one(Sel::Name(k))]);
    }
}

// -------------------------------------------------------------------- queries

/// Runs `f` on the `i`-th path of a query (0 is the query itself).
fn nth_path(segs: &mut Vec<Seg>, i: usize, f: &mut dyn FnMut(&mut Vec<Seg>, bool)) {
    if i == 0 {
        return f(segs, true);
    }
    let mut n = 0;
    walk_exprs(segs, &mut |e| {
        if let Expr::Path(_, q) = e {
            n += 1;
            if n == i {
                f(q, false);
            }
        }
    });
}

fn paths(segs: &[Seg]) -> usize {
    let mut n = 1;
    visit_exprs(segs, &mut |e| n += matches!(e, Expr::Path(..)) as usize);
    n
}

/// Runs `f` on the `i`-th filter expression.
fn nth_filter(segs: &mut [Seg], i: usize, f: &mut dyn FnMut(&mut Expr)) {
    let mut n = 0;
    walk_sels(segs, &mut |x| {
        if let Sel::Filter(e) = x {
            if n == i {
                f(e);
            }
            n += 1;
        }
    });
}

fn filters(segs: &[Seg]) -> usize {
    let mut n = 0;
    visit_segs(segs, &mut |g| n += g.sels.iter().filter(|x| matches!(x, Sel::Filter(_))).count());
    n
}

fn rel(name: String) -> Expr {
    Expr::Path(false, vec![one(Sel::Name(name))])
}

/// An operand that leaves a conjunction (disjunction) as it is.
fn filler(s: &mut Src, i: usize, conj: bool) -> Expr {
    let int = |t: &str| Box::new(Expr::Num(Num::new(t)));
    match (s.below(5), conj) {
        (0, true) => Expr::Cmp(int("1"), Op::Eq, int("1")),
        (0, false) => Expr::Cmp(int("1"), Op::Eq, int("2")),
        (1, true) => Expr::Path(false, vec![]),
        (1, false) => Expr::Not(Box::new(Expr::Path(false, vec![]))),
        (2, true) => Expr::Cmp(Box::new(rel(format!("n{i}"))), Op::Ne, int("1")),
        (2, false) => Expr::Cmp(Box::new(rel(format!("n{i}"))), Op::Ge, int("1")),
        (_, true) => Expr::Not(Box::new(rel(format!("n{i}")))),
        (_, false) => rel(format!("n{i}")),
    }
}

pub fn inflate(s: &mut Src, segs: &mut Vec<Seg>, eval: bool) {
    let np = paths(segs);
    let nf = filters(segs);
    let mode = s.below(8);
    match mode {
        0 | 1 => {
            tag("grown:selectors");
            let i = if s.chance(150) { 0 } else { s.below(np) };
            let mut k = amount(s);
            if eval {
                k = k.min(80);
            }
            let seed = s.below(1 << 16);
            let at = s.below(k);
            let which = s.below(8);
            let style = s.below(3);
            nth_path(segs, i, &mut |q, top| {
                if q.is_empty() || !top && singular(q) {
                    return;
                }
                let j = which % q.len();
                let old = std::mem::take(&mut q[j].sels);
                let light: Vec<Sel> = old.iter().filter(|x| !matches!(x, Sel::Filter(_) | Sel::Singular(_) | Sel::Wild)).cloned().collect();
                let mut v: Vec<Sel> = vec![];
                for t in 0..k {
                    if t == at {
                        v.extend(old.iter().cloned());
                    }
                    let r = (seed.wrapping_mul(2654435761).wrapping_add(t * 40503)) >> 4;
                    v.push(match (style, r % 4) {
                        (0, _) if !light.is_empty() => light[t % light.len()].clone(),
                        (1, 0) => Sel::Index(1000 + t as i64),
                        (1, 1) => Sel::Slice(Some(1000 + t as i64), None, None),
                        (1, 2) if t % 16 == 0 => Sel::Wild,
                        _ => Sel::Name(format!("n{t}")),
                    });
                }
                q[j].sels = v;
            });
        }
        2 if !eval => {
            tag("grown:path");
            let i = s.below(np);
            let k = amount(s);
            let loose = s.chance(128);
            let place = s.below(8);
            let mut put: Vec<Seg> = vec![];
            for t in 0..k {
                put.push(match (loose, s.below(8)) {
                    (true, 0) => Seg { desc: true, sels: vec![Sel::Wild] },
                    (true, 1) => one(Sel::Wild),
                    (true, 2) => one(Sel::Slice(Some(t as i64), None, None)),
                    (_, 3) => one(Sel::Index(t as i64)),
                    (_, 4) => one(Sel::Index(-1 - t as i64)),
                    (_, 5) => one(Sel::Name(format!("n{t}"))),
                    _ => one(Sel::Name("a".into())),
                });
            }
            nth_path(segs, i, &mut |q, top| {
                let mut put = put.clone();
                if !top && singular(q) {
                    put.retain(|g| singular(std::slice::from_ref(g)));
                }
                let j = place % (q.len() + 1);
                q.splice(j..j, put);
            });
        }
        2..=4 if nf > 0 => {
            tag("grown:operands");
            let i = s.below(nf);
            let mut k = amount(s);
            if eval {
                k = k.min(80);
            }
            let at = s.below(k);
            let conj = s.chance(128);
            let mut v: Vec<Expr> = (0..k).map(|t| filler(s, t, conj)).collect();
            nth_filter(segs, i, &mut |e| {
                let old = std::mem::replace(e, Expr::Null);
                v.insert(at, old);
                let all = std::mem::take(&mut v);
                *e = if conj { and(all) } else { or(all) };
            });
        }
        5 if nf > 0 => {
            tag("grown:negations");
            let i = s.below(nf);
            let k = 2 * (1 + s.below(18)) + s.chance(40) as usize;
            nth_filter(segs, i, &mut |e| {
                for _ in 0..k {
                    let old = std::mem::replace(e, Expr::Null);
                    *e = Expr::Not(Box::new(old));
                }
            });
        }
        6 if nf > 0 => {
            tag("grown:filters");
            let i = s.below(nf);
            let k = if eval { 1 + s.below(3) } else { 2 + s.below(20) };
            nth_filter(segs, i, &mut |e| {
                for _ in 0..k {
                    let old = std::mem::replace(e, Expr::Null);
                    *e = Expr::Path(false, vec![one(Sel::Filter(old))]);
                }
            });
        }
        7 if nf > 0 => {
            tag("grown:numbers");
            let k = length(s).min(1200);
            let how = s.below(3);
            walk_exprs(segs, &mut |e| {
                if let Expr::Num(n) = e {
                    // beyond the interoperable range a fraction or exponent may cost precision
                    if n.exact_int().is_some_and(|i| i.unsigned_abs() > 9007199254740991) {
                        return;
                    }
                    n.text = digits(&n.text, how, k);
                }
            });
        }
        _ => stretch(s, segs, None),
    }
}

/// The same number in many digits.
fn digits(t: &str, how: usize, k: usize) -> String {
    let (m, e) = match t.find(['e', 'E']) {
        Some(p) => t.split_at(p),
        None => (t, ""),
    };
    let z = "0".repeat(k);
    match how {
        0 if m.contains('.') => format!("{m}{z}{e}"),
        0 => format!("{m}.{z}{e}"),
        1 if !e.is_empty() => {
            let (sign, d) = match e.as_bytes()[1] {
                b'+' | b'-' => e[1..].split_at(1),
                _ => ("", &e[1..]),
            };
            format!("{m}e{sign}{z}{d}")
        }
        1 => format!("{m}e{z}0"),
        _ => format!("{m}{}", if e.is_empty() { "e-0" } else { e }),
    }
}
