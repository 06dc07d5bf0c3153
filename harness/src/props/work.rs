//! How much work parsing, displaying and evaluating takes (C32).
use super::common::*;
use super::evalp::query_for;
use super::parse::{any_string, gen_query, qopts_parse};
use crate::meter;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C32",
        rule: "distinct texts, or queries and documents, measured at sixteen times their size (a quarter of it where they nest) with at least 2 ms of work or 64 KiB allocated by some crate",
        case: c32,
        fixed: c32_fixed,
        quick_cases: 4_000,
        thorough_cases: 150_000,
        assumptions: &[
            "time is the thread's own processor time, the least of several runs; growth is held against five times what is due (allocation, which is exact, against three times), and a doubt is settled at a larger size",
        ],
    }]
}

#[derive(Clone, Debug)]
enum Piece {
    Once(String),
    Rep(String),
}

fn build(p: &[Piece], n: usize) -> String {
    p.iter()
        .map(|x| match x {
            Piece::Once(t) => t.clone(),
            Piece::Rep(t) => t.repeat(n),
        })
        .collect()
}

fn unit_len(p: &[Piece]) -> usize {
    p.iter().map(|x| if let Piece::Rep(t) = x { t.len() } else { 0 }).sum::<usize>().max(1)
}

fn show_pieces(p: &[Piece]) -> String {
    p.iter()
        .map(|x| match x {
            Piece::Once(t) => format!("{t:?}"),
            Piece::Rep(t) => format!("{t:?}*n"),
        })
        .collect::<Vec<_>>()
        .join(" + ")
}

const FRAMES: [&str; 9] =
    ["$[?{}]", "$.a[?{}].b", "$[?@.x==1&&{}]", "$[?count($[?{}])==1]", "$[0,?{},'a']", "$..[?!({})]", "$[? {} ]", "$[?{}||@.b]", "$[?length(value(@[?{}]))==1]"];
const CORES: [&str; 14] = ["@.a", "@.a==1", "@", "1", "'a'==@", "length(@)", "match(@,'a')", "@..*", "", "@.a==", "@['b']", "$", "nosuch(@)", "@.a<2"];
const NESTS: [(&str, &str); 22] = [
    ("(", ")"),
    ("!(", ")"),
    ("@[?", "]"),
    ("(@.a||", ")"),
    ("(@.a&&", ")"),
    ("(", "||@.a)"),
    ("(", "&&@.a==1)"),
    ("count(@[?", "])==1"),
    ("@.a||(", ")"),
    ("$[?", "]"),
    ("@..[?", "]"),
    ("value(@[?", "])==1"),
    ("length(", ")"),
    ("( ", " )"),
    ("!(!(", "))"),
    ("(", ""),
    ("", ")"),
    ("count(", ")"),
    ("match(", ",'a')"),
    ("(@.a==1||", ")"),
    ("@['a',?", "]"),
    ("@.a[", "]"),
];

fn text_recipe(s: &mut Src, c: &mut Ctx) -> (Vec<Piece>, bool) {
    if s.below(3) == 0 {
        c.label("nested");
        let (mut open, mut close) = (String::new(), String::new());
        for _ in 0..1 + s.below(3) {
            let (a, b) = *s.pick(&NESTS);
            open.push_str(a);
            close.insert_str(0, b);
            if s.chance(90) {
                break;
            }
        }
        let f = *s.pick(&FRAMES);
        let (a, b) = f.split_once("{}").unwrap();
        let core = *s.pick(&CORES);
        return (vec![Piece::Once(a.into()), Piece::Rep(open), Piece::Once(core.into()), Piece::Rep(close), Piece::Once(b.into())], true);
    }
    let t: String = if s.chance(80) {
        any_string(s, c)
    } else {
        let segs = gen_query(s, qopts_parse());
        let st = Style::random(s);
        print::spelled(s, &segs, &st).0
    };
    grow::took();
    let mut cs: Vec<char> = t.chars().take(300).collect();
    if cs.is_empty() {
        cs.push('$');
    }
    c.label("part-repeated");
    // one part, or two, of the text repeated
    let parts = 1 + s.below(2);
    let mut cuts: Vec<(usize, usize)> = vec![];
    for _ in 0..parts {
        let i = s.below(cs.len());
        let n = if s.chance(60) { 1 + s.below(24) } else { 1 + s.below(5) };
        cuts.push((i, (i + n).min(cs.len())));
    }
    cuts.sort();
    let mut out = vec![];
    let mut at = 0;
    for (i, j) in cuts {
        if i < at {
            continue;
        }
        out.push(Piece::Once(cs[at..i].iter().collect()));
        out.push(Piece::Rep(cs[i..j].iter().collect()));
        at = j;
    }
    out.push(Piece::Once(cs[at..].iter().collect()));
    (out, false)
}

/// Time in nanoseconds and bytes allocated, the least of some runs.
#[derive(Clone, Copy, Debug)]
struct Cost {
    ns: u64,
    bytes: u64,
}

fn cost(runs: usize, mut f: impl FnMut() -> Result<(), Failure>) -> Result<Cost, Failure> {
    let mut best = Cost { ns: u64::MAX, bytes: u64::MAX };
    let start = meter::cpu();
    for _ in 0..runs {
        let (b0, t0) = (meter::allocated(), meter::cpu());
        f()?;
        let (t1, b1) = (meter::cpu(), meter::allocated());
        best.ns = best.ns.min(t1 - t0);
        best.bytes = best.bytes.min(b1 - b0);
        // long runs are steady enough
        if t1 - start > 50 * MS * runs as u64 {
            break;
        }
    }
    Ok(best)
}

const MS: u64 = 1_000_000;

/// How many times more it grew than what is `due`, if that is too much.
fn excess(small: Cost, big: Cost, due: f64) -> Option<String> {
    if big.ns > 4 * MS && big.ns as f64 > 5.0 * due * small.ns.max(1000) as f64 {
        return Some(format!("takes {:.3} ms and {:.3} ms", small.ns as f64 / 1e6, big.ns as f64 / 1e6));
    }
    if big.bytes > 1 << 18 && big.bytes as f64 > 3.0 * due * small.bytes.max(256) as f64 {
        return Some(format!("allocates {} and {} bytes", small.bytes, big.bytes));
    }
    None
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Lex,
    Parse,
    Display,
    Drop,
}

fn measure(p: Sut, what: What, t: &str, runs: usize) -> Result<Option<Cost>, Failure> {
    Ok(match what {
        What::Lex => Some(cost(runs, || {
            sut("hand.tokenize", || hand::lexer::tokenize(t).len())?;
            Ok(())
        })?),
        What::Parse => {
            let mut keep = vec![];
            Some(cost(runs, || {
                keep.push(standard(p, t)?);
                Ok(())
            })?)
        }
        What::Display => match standard(p, t)? {
            Ok(q) => Some(cost(runs, || {
                q.display()?;
                Ok(())
            })?),
            Err(_) => None,
        },
        What::Drop => {
            let mut qs = vec![];
            for _ in 0..runs {
                match standard(p, t)? {
                    Ok(q) => qs.push(q),
                    Err(_) => return Ok(None),
                }
            }
            Some(cost(runs, || {
                let q = qs.pop();
                sut("drop", || drop(q))
            })?)
        }
    })
}

/// The deepest nesting of brackets and parentheses, strings aside.
fn nesting(t: &str) -> usize {
    let (mut d, mut most, mut quote, mut esc) = (0usize, 0, None, false);
    for ch in t.chars() {
        if let Some(q) = quote {
            if esc {
                esc = false;
            } else if ch == '\\' {
                esc = true;
            } else if ch == q {
                quote = None;
            }
            continue;
        }
        match ch {
            '\'' | '"' => quote = Some(ch),
            '(' | '[' => {
                d += 1;
                most = most.max(d);
            }
            ')' | ']' => d = d.saturating_sub(1),
            _ => (),
        }
    }
    most.max(1)
}

const EACH: [(Sut, What, &str); 22] = {
    use What::*;
    [
        (Sut::Hand, Lex, "tokenize"),
        (Sut::Hand, Parse, "parse"),
        (Sut::Pest, Parse, "parse"),
        (Sut::PestRec, Parse, "parse"),
        (Sut::Serde, Parse, "parse"),
        (Sut::Iter, Parse, "parse"),
        (Sut::Loc, Parse, "parse"),
        (Sut::Sing, Parse, "parse"),
        (Sut::Hand, Display, "display"),
        (Sut::Pest, Display, "display"),
        (Sut::PestRec, Display, "display"),
        (Sut::Serde, Display, "display"),
        (Sut::Iter, Display, "display"),
        (Sut::Loc, Display, "display"),
        (Sut::Sing, Display, "display"),
        (Sut::Hand, Drop, "drop"),
        (Sut::Pest, Drop, "drop"),
        (Sut::PestRec, Drop, "drop"),
        (Sut::Serde, Drop, "drop"),
        (Sut::Iter, Drop, "drop"),
        (Sut::Loc, Drop, "drop"),
        (Sut::Sing, Drop, "drop"),
    ]
};

fn check_text(c: &mut Ctx, p: &[Piece], nested: bool, cap: usize) -> Res {
    // first at small sizes, where what doubles with every step shows already
    for n in [4usize, 8, 12, 16, 20, 24, 28, 32] {
        let t = build(p, n);
        if t.len() > 4_000 {
            break;
        }
        for (q, w, name) in EACH {
            if w != What::Parse && w != What::Display {
                continue;
            }
            c.eval();
            let Some(k) = measure(q, w, &t, 1)? else { continue };
            if k.ns > 1500 * MS {
                return c.fail(format!("explodes:{}:{name}", q.name()), format!("{}: {name} of the {} bytes of {} for n = {n} takes {} ms", q.name(), t.len(), show_pieces(p), k.ns / MS));
            }
        }
    }
    let deepest = 1_500;
    let mut big = (cap / unit_len(p)).max(16);
    if nested {
        big = big.min(deepest);
    }
    let sizes = |big: usize| ((big / 16).max(1), (big / 16).max(1) * 16);
    let (a, b) = sizes(big);
    let (ta, tb) = (build(p, a), build(p, b));
    let mut much = false;
    for (q, w, name) in EACH {
        c.eval();
        let due = |x: &str, y: &str| match w {
            What::Display => (y.len() * nesting(y)) as f64 / (x.len() * nesting(x)) as f64,
            _ => y.len() as f64 / x.len() as f64,
        };
        let (Some(x), Some(y)) = (measure(q, w, &ta, 3)?, measure(q, w, &tb, 2)?) else { continue };
        much |= y.ns > 2 * MS || y.bytes > 65_536;
        if excess(x, y, due(&ta, &tb)).is_none() {
            continue;
        }
        c.label("doubtful");
        // again, longer and more carefully
        let (a2, b2) = if nested { (a, b) } else { sizes(big * 3) };
        let (ta2, tb2) = (build(p, a2), build(p, b2));
        let (Some(x), Some(y)) = (measure(q, w, &ta2, 12)?, measure(q, w, &tb2, 6)?) else { continue };
        if let Some(e) = excess(x, y, due(&ta2, &tb2)) {
            c.fail(format!("grows:{}:{name}", q.name()), format!("{}: {name} of {} for n = {a2} and {b2} ({} and {} bytes) {e}", q.name(), show_pieces(p), ta2.len(), tb2.len()))?;
        }
    }
    if much {
        c.nontrivial(&show_pieces(p));
    }
    Ok(())
}

// ---------------------------------------------------------------- evaluation

#[derive(Clone, Copy, Debug)]
enum Grow {
    /// the children of the container are repeated
    Children,
    /// the value is wrapped again and again
    Wrap(bool),
    /// the string is repeated
    Text,
}

fn containers(v: &Value, at: &mut Vec<Part>, out: &mut Vec<(Vec<Part>, u8)>) {
    match v {
        Value::Array(a) => {
            if !a.is_empty() {
                out.push((at.clone(), 0));
            }
            for (i, x) in a.iter().enumerate() {
                at.push(Part::Index(i));
                containers(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            if !o.is_empty() {
                out.push((at.clone(), 0));
            }
            for (k, x) in o {
                at.push(Part::Name(k.clone()));
                containers(x, at, out);
                at.pop();
            }
        }
        Value::String(t) if !t.is_empty() => out.push((at.clone(), 1)),
        _ => (),
    }
}

fn locate_mut<'v>(v: &'v mut Value, at: &[Part]) -> &'v mut Value {
    at.iter().fold(v, |v, p| match p {
        Part::Name(n) => &mut v[n.as_str()],
        Part::Index(i) => &mut v[*i],
    })
}

fn grown(doc: &Value, at: &[Part], g: Grow, n: usize) -> Value {
    let mut d = doc.clone();
    let v = locate_mut(&mut d, at);
    match (g, &mut *v) {
        (Grow::Children, Value::Array(a)) => {
            let old = a.clone();
            *a = (0..n).flat_map(|_| old.iter().cloned()).collect();
        }
        (Grow::Children, Value::Object(o)) => {
            let old = o.clone();
            for i in 1..n {
                for (k, x) in &old {
                    o.insert(format!("{k}{i:06}"), x.clone());
                }
            }
        }
        (Grow::Text, Value::String(t)) => *t = t.repeat(n),
        (Grow::Wrap(obj), _) => {
            for i in 0..n {
                let x = v.take();
                *v = if obj && i % 2 == 0 { json!({ "a": x }) } else { json!([x]) };
            }
        }
        _ => (),
    }
    d
}

/// Work due by the model, evaluating as little as it may and as much: steps, sizes of paths, of
/// values, and of the queries started.
type Due = [u64; 12];

fn due_work(segs: &[Seg], doc: &Value) -> Option<Due> {
    let mut w = vec![];
    for eager in [true, false] {
        let env = Env { limit: 400_000, eager, metered: true, ..Env::std() };
        let r = find(&env, segs, doc);
        if env.spent(0) || r.len() > 100_000 {
            return None;
        }
        w.push(env.steps.get() + r.len() as u64 + segs.len() as u64 + 1);
        w.extend([env.paths.get() + 1, env.values.get() + 1, env.queries.get() + query_size(segs), env.made.get() + 1, env.nodes.get() + 1]);
    }
    Some(w.try_into().unwrap())
}

fn grows_by(a: &Due, b: &Due) -> f64 {
    a.iter().zip(b).map(|(x, y)| *y as f64 / *x as f64).fold(1.0, f64::max)
}

struct Sized_ {
    doc: Value,
    segs: Vec<Seg>,
    n: usize,
}

/// All pairs of sizes of a case, the least first: what grows too fast shows early.
fn check_works(c: &mut Ctx, what: &str, make: &dyn Fn(usize) -> Sized_, pairs: &[(usize, usize)], again: &dyn Fn((usize, usize)) -> (usize, usize)) -> Res {
    for p in pairs {
        if !check_work(c, what, make, *p, again(*p))? {
            if p == &pairs[0] {
                c.exclude("more work than a case is worth");
            }
            break;
        }
    }
    Ok(())
}

/// Both sizes of a case, measured and compared, by every evaluator; whether it was worth it.
fn check_work(c: &mut Ctx, what: &str, make: &dyn Fn(usize) -> Sized_, first: (usize, usize), second: (usize, usize)) -> Result<bool, Failure> {
    let mut much = false;
    let pair = |(x, y): (usize, usize)| {
        let (a, b) = (make(x), make(y));
        let (wa, wb) = (due_work(&a.segs, &a.doc)?, due_work(&b.segs, &b.doc)?);
        Some((a, b, grows_by(&wa, &wb), wb))
    };
    let Some((a, b, due, wb)) = pair(first) else { return Ok(false) };
    let (qa, qb) = (print::plain(&a.segs), print::plain(&b.segs));
    let mut again = None;
    for e in Eng::ALL {
        c.eval();
        let run = |k: &Sized_, q: &str, runs: usize| -> Result<Option<Cost>, Failure> {
            let q = match standard(e.sut(), q)? {
                Ok(q) => q,
                Err(_) => return Ok(None),
            };
            Ok(Some(cost(runs, || {
                let _ = suts::eval(e, &q, &k.doc, suts::envs())?;
                Ok(())
            })?))
        };
        let (Some(x), Some(y)) = (run(&a, &qa, 4)?, run(&b, &qb, 2)?) else { continue };
        much |= y.ns > 2 * MS || y.bytes > 65_536;
        if excess(x, y, due).is_none() || spare(y, &wb) {
            continue;
        }
        c.label("doubtful");
        let (a, b, due, wb) = match again.get_or_insert_with(|| pair(second)) {
            Some((a, b, d, w)) => (&*a, &*b, *d, *w),
            None => (&a, &b, due, wb),
        };
        let (qa, qb) = (print::plain(&a.segs), print::plain(&b.segs));
        let (Some(x), Some(y)) = (run(a, &qa, 12)?, run(b, &qb, 6)?) else { continue };
        if let Some(m) = excess(x, y, due) {
            if !spare(y, &wb) {
                c.fail(
                    format!("work:{}", e.name()),
                    format!("{}: evaluating {} where {what} {} and {} times {m}; {due:.1} times as much work is due ({wb:?})", e.name(), c.desc, a.n, b.n),
                )?;
            }
        }
    }
    if much {
        c.nontrivial(&c.desc.clone());
    }
    Ok(true)
}

/// Little by any measure for so much due: growth says nothing.
fn spare(y: Cost, w: &Due) -> bool {
    let due = w[0] * 1_000 + w[1] * 20 + w[2] * 50 + w[3] * 200;
    y.ns < due && y.bytes < 200 * w[0] + 8 * w[1] + 40 * w[2] + 200 * w[3]
}

const DEPTHS: [(usize, usize); 6] = [(6, 12), (6, 18), (6, 24), (4, 40), (8, 112), (24, 384)];

fn eval_case(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 1 + s.below(3), width: 1 + s.below(4), odd: 10, ctrl: 4, extreme: false, records: 90 };
    let doc = gen::doc(s, &d);
    let q = QOpts { filter: 90, filter_depth: 2, expr_depth: 2, desc: 40, max_segs: 4, regex: false, ..Default::default() };
    let segs = query_for(s, &doc, &q);
    let mut sites = vec![];
    containers(&doc, &mut vec![], &mut sites);
    let mode = s.below(8);
    if mode < 5 && !sites.is_empty() {
        let (at, kind) = s.pick(&sites).clone();
        let g = match (kind, s.below(4)) {
            (1, 0..=2) => Grow::Text,
            (0, 0..=2) => Grow::Children,
            _ => Grow::Wrap(s.chance(128)),
        };
        c.label(match g {
            Grow::Text => "longer-string",
            Grow::Children => "more-children",
            Grow::Wrap(_) => "deeper",
        });
        let make = |n: usize| Sized_ { doc: grown(&doc, &at, g, n), segs: segs.clone(), n };
        let what = format!("what is at {} is {}", normalized(&at), if matches!(g, Grow::Wrap(_)) { "wrapped" } else { "repeated" });
        c.desc = format!("{} on {}", print::plain(&segs), show_doc(&doc));
        return match g {
            Grow::Wrap(_) => check_works(c, &what, &make, &DEPTHS, &|p| p),
            _ => {
                // as many as the work allows
                let mut big = 512;
                while big < 32_768 && due_work(&segs, &make(big).doc).is_some_and(|w| w[0] < 60_000 && w[1] < 3_000_000 && w[2] < 6_000_000) {
                    big *= 4;
                }
                let pairs: Vec<_> = [512, 4_096, big].into_iter().filter(|n| n <= &big).map(|n| (n / 16, n)).collect();
                check_works(c, &what, &make, &pairs[(big == 512) as usize..], &|(a, b)| (a * 2, b * 2))
            }
        };
    }
    // the query grows
    let mut exprs = 0;
    let mut probe = segs.clone();
    walk_sels(&mut probe, &mut |x| exprs += matches!(x, Sel::Filter(_)) as usize);
    let pick = s.below(exprs.max(1));
    let how = s.below(7);
    let grow_query = |n: usize| -> Vec<Seg> {
        let mut q = segs.clone();
        if exprs == 0 || how == 6 {
            // more of the same selectors
            let Some(last) = q.last_mut() else {
                return vec![Seg { desc: false, sels: vec![Sel::Wild; n] }];
            };
            let old = last.sels.clone();
            last.sels = (0..n).flat_map(|_| old.iter().cloned()).collect();
            return q;
        }
        let mut i = 0;
        walk_sels(&mut q, &mut |x| {
            if let Sel::Filter(e) = x {
                i += 1;
                if i - 1 != pick {
                    return;
                }
                match how {
                    0 => {
                        for _ in 0..n {
                            *e = Expr::Not(Box::new(e.clone()));
                        }
                    }
                    1 => *e = and(vec![e.clone(); n]),
                    2 => *e = or(vec![e.clone(); n]),
                    3 => {
                        // every other operator within the other's operand
                        for k in 0..n {
                            let t = Expr::Path(false, vec![]);
                            *e = if k % 2 == 0 { and(vec![t, e.clone()]) } else { or(vec![Expr::Not(Box::new(t)), e.clone()]) };
                        }
                    }
                    4 => {
                        for _ in 0..n {
                            *e = Expr::Path(false, vec![Seg { desc: false, sels: vec![Sel::Filter(e.clone())] }]);
                        }
                    }
                    _ => {
                        for _ in 0..n {
                            let q = Expr::Path(false, vec![Seg { desc: false, sels: vec![Sel::Filter(e.clone())] }]);
                            *e = Expr::Cmp(Box::new(Expr::Call("count".into(), vec![q])), Op::Ge, Box::new(Expr::Num(Num::new("0"))));
                        }
                    }
                }
            }
        });
        q
    };
    let names = ["negated", "conjoined with itself", "disjoined with itself", "nested in operators", "nested in filters", "nested in counted filters", "repeated"];
    let deep = matches!(how, 0 | 3 | 4 | 5) && exprs > 0;
    c.label(if deep { "deeper-query" } else { "longer-query" });
    // something to test at every depth
    let doc = if deep && how != 0 { grown(&doc, &[], Grow::Wrap(false), 24) } else { doc };
    c.desc = format!("{} on {}", print::plain(&segs), show_doc(&doc));
    let what = format!("filter {pick} is {}", names[if exprs == 0 { 6 } else { how }]);
    let make = |n: usize| Sized_ { doc: doc.clone(), segs: grow_query(n), n };
    if deep {
        check_works(c, &what, &make, &DEPTHS[..3], &|p| p)
    } else {
        check_works(c, &what, &make, &[(20, 320)], &|(a, b)| (a * 2, b * 2))
    }
}

fn c32(s: &mut Src, c: &mut Ctx) -> Res {
    if s.below(2) == 0 {
        let (p, nested) = text_recipe(s, c);
        c.desc = show_pieces(&p);
        let cap = if s.chance(10) { 100_000 } else { 10_000 };
        return check_text(c, &p, nested, cap);
    }
    eval_case(s, c)
}

fn c32_fixed() -> Fixed {
    let mut v: Fixed = vec![];
    for (pre, a, mid, b, post) in [
        ("$", ".a", "", "", ""),
        ("$", "[0]", "", "", ""),
        ("$", "..*", "", "", ""),
        ("$[0", ",0", "", "", "]"),
        ("$['", "a", "", "", "']"),
        ("$['", "\\u0041", "", "", "']"),
        ("$['", "\\n", "", "", "']"),
        ("$.", "a", "", "", ""),
        ("$[", " ", "", "", "1]"),
        ("$[?@.a", "||@.b", "", "", "]"),
        ("$[?@.a", "&&@.b==1", "", "", "]"),
        ("$[?@.a==1", "0", "", "", "]"),
        ("$[?@.a", ",?@.b", "", "", "]"),
        ("$[?", "(", "@.a", ")", "]"),
        ("$[?", "!(", "@.a", ")", "]"),
        ("$[?", "(", "@.a==1", ")", "]"),
        ("$[?", "@[?", "@.a", "]", "]"),
        ("$[?", "count(@[?", "@.a", "])==1", "]"),
        ("$[?", "(", "@.a", "", "]"),
        ("$[?", "((", "@.a", ")", "]"),
        ("$[?", "length(", "@.a", ")", "==1]"),
        ("$[?", "(@.a||", "@.b", ")", "]"),
        ("$['", "é", "", "", ""),
        ("", "$", "", "", ""),
        ("$", " ", "", "", "a"),
    ] {
        let p: Vec<Piece> = [Piece::Once(pre.into()), Piece::Rep(a.into()), Piece::Once(mid.into()), Piece::Rep(b.into()), Piece::Once(post.into())].to_vec();
        let nested = !mid.is_empty();
        v.push(fixed_case(show_pieces(&p), move |c| check_text(c, &p, nested, 20_000)));
    }
    for (q, d) in [
        ("$[*]", "[1]"),
        ("$.*", "{\"a\":1}"),
        ("$..*", "[1]"),
        ("$[?@==1]", "[1,2]"),
        ("$[?@.a]", "[{\"a\":1}]"),
        ("$[?@.a]", "{\"a\":{\"a\":1}}"),
        ("$[::-1]", "[1]"),
        ("$[1:-1]", "[1,2]"),
        ("$[-1]", "[1,2]"),
        ("$['a','b']", "{\"a\":1,\"b\":1}"),
        ("$..a", "{\"a\":1,\"b\":1}"),
        ("$[?length(@)>0]", "[\"a\"]"),
        ("$[*][0]", "[[1]]"),
        ("$[*].a", "[{\"a\":1}]"),
        ("$..[0,1]", "[[1],2]"),
        ("$[?count(@.*)==1]", "[[1]]"),
        ("$[?$[0]==@]", "[1,2]"),
    ] {
        v.push(fixed_case(format!("{q} on {d} repeated"), move |c| {
            let doc: Value = serde_json::from_str(d).unwrap();
            let segs = recog::ast(q, &recog::Opts::default()).unwrap();
            c.desc = format!("{q} on {d}");
            let make = |n: usize| Sized_ { doc: grown(&doc, &[], Grow::Children, n), segs: segs.clone(), n };
            let make_deep = |n: usize| Sized_ { doc: grown(&doc, &[], Grow::Wrap(true), n), segs: segs.clone(), n };
            check_works(c, "the document is wrapped", &make_deep, &DEPTHS, &|p| p)?;
            check_works(c, "the document's children are repeated", &make, &[(64, 1_024), (512, 8_192)], &|(a, b)| (a * 2, b * 2))
        }));
    }
    v
}

