//! Shared pieces of the property checks.
pub use crate::engine::{fnv, no_fixed, sut, Ctx, Failure, Prop, Res, Src};
use crate::fresh;
pub use crate::grow;
pub use crate::gen::{self, DocOpts, Pool, QOpts, G};
pub use crate::model::*;
pub use crate::print::{self, Feat, Style};
pub use crate::recog;
pub use crate::suts::{self, standard, Eng, Parsers, Sut};
pub use serde_json::{json, Value};

pub type Fixed = Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)>;

pub fn show_doc(d: &Value) -> String {
    let t = d.to_string();
    if t.len() > 600 {
        format!("{}…", t.chars().take(600).collect::<String>())
    } else {
        t
    }
}

pub struct Features {
    pub desc: bool,
    pub filter: bool,
    pub nested_filter: bool,
    pub call: bool,
    pub slice: bool,
    pub multi: bool,
    pub root_in_filter: bool,
    pub logical: bool,
    pub regex: bool,
    pub cmp: bool,
}

pub fn features(segs: &[Seg]) -> Features {
    let mut f = Features {
        desc: false,
        filter: false,
        nested_filter: false,
        call: false,
        slice: false,
        multi: false,
        root_in_filter: false,
        logical: false,
        regex: false,
        cmp: false,
    };
    fn depth(segs: &[Seg]) -> usize {
        let mut m = 0;
        for s in segs {
            for sel in &s.sels {
                if let Sel::Filter(e) = sel {
                    m = m.max(1 + edepth(e));
                }
            }
        }
        m
    }
    fn edepth(e: &Expr) -> usize {
        match e {
            Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => v.iter().map(edepth).max().unwrap_or(0),
            Expr::Not(x) => edepth(x),
            Expr::Cmp(a, _, b) => edepth(a).max(edepth(b)),
            Expr::Path(_, q) => depth(q),
            _ => 0,
        }
    }
    let d = depth(segs);
    f.filter = d > 0;
    f.nested_filter = d > 1;
    visit_segs(segs, &mut |s| {
        f.desc |= s.desc;
        f.multi |= s.sels.len() > 1;
        for x in &s.sels {
            f.slice |= matches!(x, Sel::Slice(..));
        }
    });
    visit_exprs(segs, &mut |e| match e {
        Expr::Call(n, _) => {
            f.call = true;
            f.regex |= n == "match" || n == "search";
        }
        Expr::Path(true, _) => f.root_in_filter = true,
        Expr::Or(_) | Expr::And(_) | Expr::Not(_) => f.logical = true,
        Expr::Cmp(..) => f.cmp = true,
        _ => (),
    });
    f
}

pub fn label_features(c: &mut Ctx, f: &Features) {
    if let Some(t) = grow::took() {
        c.label(t);
    }
    c.label_if(f.desc, "descendant");
    c.label_if(f.filter, "filter");
    c.label_if(f.nested_filter, "nested-filter");
    c.label_if(f.call, "call");
    c.label_if(f.slice, "slice");
    c.label_if(f.multi, "multi-selector");
    c.label_if(f.root_in_filter, "root-in-filter");
    c.label_if(f.logical, "logical");
    c.label_if(f.regex, "regex");
    c.label_if(f.cmp, "comparison");
}

/// True if some regex pattern literal of the query is outside what the
/// evaluators can decide (see known-findings: multi-digit quantifiers), or
/// contains carets whose reading RFC 9485 leaves open.
pub fn regex_unsettled(segs: &[Seg], doc: &Value) -> bool {
    let mut has = false;
    let mut lits = vec![];
    let mut dynamic = false;
    visit_exprs(segs, &mut |e| {
        if let Expr::Call(n, a) = e {
            if n == "match" || n == "search" {
                has = true;
                match a.get(1) {
                    Some(Expr::Str(s)) => lits.push(s.clone()),
                    _ => dynamic = true,
                }
            }
        }
    });
    if !has {
        return false;
    }
    if dynamic {
        let p = gen::pool(doc);
        for s in p.scalars {
            if let Value::String(t) = s {
                lits.push(t);
            }
        }
        visit_exprs(segs, &mut |e| {
            if let Expr::Str(t) = e {
                lits.push(t.clone())
            }
        });
    }
    lits.iter().any(|p| pattern_unsettled(p))
}

pub fn pattern_unsettled(p: &str) -> bool {
    match crate::iregex::parse(p) {
        crate::iregex::Parse::Invalid => false,
        crate::iregex::Parse::Unspecified => true,
        crate::iregex::Parse::Ok(re) => {
            crate::iregex::has_carets(&re) || crate::iregex::wide_quantifier(p)
        }
    }
}

/// Model evaluation with a work limit; `None` when too big or out of model.
pub fn model_find<'v>(segs: &[Seg], doc: &'v Value) -> Option<Vec<MNode<'v>>> {
    let env = Env { limit: 400_000, ..Env::std() };
    let r = find(&env, segs, doc);
    if env.out_of_model.get() || r.len() > 20_000 || heavy(segs, doc) {
        return None;
    }
    Some(r)
}

/// No evaluation takes more steps than this, or it is more than can be told cheaply.
fn most_work(segs: &[Seg], nodes: f64) -> f64 {
    fn expr(e: &Expr, n: f64) -> f64 {
        match e {
            Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => 1.0 + v.iter().map(|x| expr(x, n)).sum::<f64>(),
            Expr::Not(x) => 1.0 + expr(x, n),
            Expr::Cmp(a, _, b) => 1.0 + expr(a, n) + expr(b, n),
            Expr::Path(_, q) => 1.0 + most_work(q, n),
            _ => 1.0,
        }
    }
    let (mut work, mut cur) = (1.0, 1.0);
    for s in segs {
        let mut out = 0.0;
        for sel in &s.sels {
            let (w, k) = match sel {
                Sel::Name(_) | Sel::Index(_) => (1.0, 1.0),
                Sel::Filter(e) => (nodes * (1.0 + expr(e, nodes)), nodes),
                Sel::Singular(q) => (1.0 + most_work(q, nodes), 1.0),
                _ => (1.0, nodes),
            };
            work += cur * w * if s.desc { nodes } else { 1.0 };
            out += k * if s.desc { nodes } else { 1.0 };
        }
        cur *= out;
    }
    work + cur
}

/// Would an evaluator that leaves nothing out do more work than a case is worth?
fn heavy(segs: &[Seg], doc: &Value) -> bool {
    if most_work(segs, gen::count_nodes(doc) as f64) < 1e6 {
        return false;
    }
    let env = Env { limit: 1_000_000, eager: true, ..Env::std() };
    let r = find(&env, segs, doc);
    env.steps.get() > env.limit || r.len() > 50_000
}

/// Cases whose evaluation is too much work by the model's own count are left
/// out (and counted as such): some filters take exponential time.
pub fn too_heavy(c: &mut Ctx, segs: &[Seg], doc: &Value) -> bool {
    let b = heavy(segs, doc);
    if b {
        c.exclude("more work than a case is worth");
    }
    b
}

/// The same of a text, in either dialect.
pub fn too_heavy_text(c: &mut Ctx, text: &str, doc: &Value) -> bool {
    match recog::parse(text, &recog::Opts { ext: true, ..Default::default() }) {
        Ok(r) if r.faults.is_empty() => too_heavy(c, &r.segs, doc),
        _ => false,
    }
}

pub fn show_paths(ns: &[MNode]) -> String {
    let v: Vec<String> = ns.iter().take(20).map(|n| normalized(&n.path)).collect();
    format!("[{}]{}", v.join(", "), if ns.len() > 20 { "…" } else { "" })
}
pub fn show_found(ns: &[suts::Found]) -> String {
    let v: Vec<String> = ns.iter().take(20).map(|n| n.loc.clone()).collect();
    format!("[{}]{}", v.join(", "), if ns.len() > 20 { "…" } else { "" })
}

/// Same nodes (by identity) in the same order.
pub fn same_nodes(want: &[MNode], got: &[suts::Found]) -> bool {
    want.len() == got.len() && want.iter().zip(got).all(|(w, g)| std::ptr::eq(w.value, g.value))
}

/// Runs all evaluators on a query text and compares node lists with the model.
pub fn check_against_model(c: &mut Ctx, text: &str, want: &[MNode], doc: &Value, class: &str) -> Res {
    for e in Eng::ALL {
        c.eval();
        let got = match suts::run(e, text, doc) {
            Ok(g) => g,
            Err(f) => {
                c.fail(f.key.clone(), format!("{} on {}", f.msg, show_doc(doc)))?;
                continue;
            }
        };
        if !same_nodes(want, &got) {
            c.fail(
                format!("nodes:{}:{class}", e.name()),
                format!(
                    "{} selects wrong nodes for {text:?} on {}\n  expected {}\n  got      {}",
                    e.name(),
                    show_doc(doc),
                    show_paths(want),
                    show_found(&got)
                ),
            )?;
        }
    }
    Ok(())
}

/// A fixed evaluation case against the model.
pub fn fixed_eval(cases: &[(&str, &str)]) -> Fixed {
    cases
        .iter()
        .map(|(q, d)| {
            let (q, d) = (q.to_string(), d.to_string());
            let name = format!("{q} on {d}");
            let f: Box<dyn Fn(&mut Ctx) -> Res + Send + Sync> = Box::new(move |c: &mut Ctx| {
                let doc: Value = serde_json::from_str(&d).unwrap();
                let segs = recog::ast(&q, &recog::Opts::default()).expect("fixed case must be valid");
                let want = model_find(&segs, &doc).expect("fixed case in model");
                check_against_model(c, &q, &want, &doc, "fixed")
            });
            (name, f)
        })
        .collect()
}

pub fn fixed_case(name: impl Into<String>, f: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static) -> (String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>) {
    (name.into(), Box::new(f))
}

/// Very wide documents, where a width of 16 bits would run out.
pub fn wide_doc(kind: &str) -> Value {
    const N: usize = 70_000;
    let numbers = || Value::Array((0..N).map(|i| json!(i)).collect());
    match kind {
        "numbers" => numbers(),
        "members" => Value::Object((0..N).map(|i| (format!("k{i:05}"), json!(i))).collect()),
        "arrays" => Value::Array((0..N).map(|i| json!([i])).collect()),
        "around" => json!([numbers(), [1, 2], wide_doc("members"), "é".repeat(N), "ab"]),
        _ => unreachable!(),
    }
}

/// Queries on very wide documents, by all evaluators; every node (and location) is compared.
pub fn wide(cases: &'static [(&'static str, &'static str)]) -> Fixed {
    cases
        .iter()
        .map(|(q, kind)| {
            fixed_case(format!("{q} on 70,000 {kind}"), move |c| {
                let doc = wide_doc(kind);
                let segs = recog::ast(q, &recog::Opts::default()).expect("valid");
                let want = find(&Env::std(), &segs, &doc);
                for e in Eng::ALL {
                    c.eval();
                    let got = match suts::run(e, q, &doc) {
                        Ok(g) => g,
                        Err(f) => {
                            c.fail(f.key.clone(), format!("{q} on 70,000 {kind}: {}", super::parse::clip(&f.msg)))?;
                            continue;
                        }
                    };
                    if !same_nodes(&want, &got) {
                        let at = got.iter().zip(&want).position(|(g, w)| !std::ptr::eq(g.value, w.value));
                        c.fail(format!("wide:{}", e.name()), format!("{}: {q} on 70,000 {kind} gives {} nodes {}, expected {} {}; first difference at {at:?}", e.name(), got.len(), show_found(&got), want.len(), show_paths(&want)))?;
                        continue;
                    }
                    if let Some((g, w)) = got.iter().zip(&want).map(|(g, w)| (g, normalized(&w.path))).find(|(g, w)| g.loc != *w) {
                        c.fail(format!("wide-location:{}", e.name()), format!("{}: {q} on 70,000 {kind} locates {w} at {}", e.name(), g.loc))?;
                    }
                }
                Ok(())
            })
        })
        .collect()
}

/// Queries about the edges of arrays of many lengths, by all evaluators against the model.
/// `{}` stands for an index or a slice at an edge.
pub fn edges(templates: &'static [&'static str]) -> Fixed {
    [1i64, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600]
        .into_iter()
        .map(|n| {
            fixed_case(format!("{templates:?} at the edges of {n} elements"), move |c| {
                let doc = json!({"a": (0..n).collect::<Vec<i64>>(), "b": [(0..n).rev().collect::<Vec<i64>>(), 7], "n": n - 1});
                let mut at: Vec<i64> = vec![0, 1, n / 2, n - 1, n, n + 1];
                at.extend([-1, -2, -n / 2, 1 - n, -n, -n - 1]);
                at.sort();
                at.dedup();
                let mut sels: Vec<String> = at.iter().map(|i| i.to_string()).collect();
                for i in &at {
                    sels.extend([format!("{i}:"), format!(":{i}"), format!("{i}::-1"), format!(":{i}:-1"), format!("::{i}")]);
                }
                for t in templates {
                    for x in sels.iter().filter(|x| !t.contains(['=', '<']) || !x.contains(':')) {
                        let q = t.replace("{}", x);
                        let segs = recog::ast(&q, &recog::Opts::default()).expect("valid");
                        let want = find(&Env::std(), &segs, &doc);
                        for e in Eng::ALL {
                            c.eval();
                            let got = match suts::run(e, &q, &doc) {
                                Ok(g) => g,
                                Err(f) => return c.fail(f.key.clone(), format!("{q} at {n} elements: {}", super::parse::clip(&f.msg))),
                            };
                            if !same_nodes(&want, &got) || want.iter().zip(&got).any(|(w, g)| normalized(&w.path) != g.loc) {
                                return c.fail(
                                    format!("edge:{}", e.name()),
                                    format!("{}: {q} on {{\"a\": [0, 1, … {}], \"b\": [[{1}, … 0], 7], \"n\": {1}}} gives {} nodes {}, expected {} {}", e.name(), n - 1, got.len(), show_found(&got), want.len(), show_paths(&want)),
                                );
                            }
                        }
                    }
                }
                Ok(())
            })
        })
        .collect()
}

/// Does the string hold a character that can only be written as `\u00XX`?
pub fn has_ctrl_only(segs: &[Seg]) -> bool {
    let mut b = false;
    visit_segs(segs, &mut |s| {
        for x in &s.sels {
            if let Sel::Name(n) = x {
                b |= n.chars().any(gen::is_ctrl_only);
            }
        }
    });
    visit_exprs(segs, &mut |e| {
        if let Expr::Str(t) = e {
            b |= t.chars().any(gen::is_ctrl_only);
        }
    });
    b
}

pub fn string_literals(segs: &[Seg]) -> Vec<String> {
    let mut v = vec![];
    visit_exprs(segs, &mut |e| {
        if let Expr::Str(t) = e {
            v.push(t.clone())
        }
    });
    v
}

/// Query text mutations: produce near-valid strings.
pub fn mutate(s: &mut Src, t: &str) -> String {
    const FRAG: [&str; 64] = [
        " ", "\n", "\t", "[", "]", "(", ")", "?", "@", "$", ".", "..", "*", ",", ":", "'", "\"", "\\", "!", "&&", "||",
        "==", "!=", "<", "<=", ">", ">=", "0", "1", "-", "-0", "01", "-1", "1.5", "1e3", "1E2", ".5", "e", "true", "false",
        "null", "'a'", "\"b\"", "a", "@.a", "$.b", "@[0]", "@.*", "@..a", "length(", "count(", "match(", "value(@.a)", "nosuch(@)",
        "length(@.a)", "count(@.*)", "search(@,'a')", "\u{0}", "\\u0041", "\\ud83d\\ude00", "9007199254740992", "é", "=", "&",
    ];
    let mut cs: Vec<char> = t.chars().collect();
    let n = 1 + if s.chance(80) { s.below(3) } else { 0 };
    for _ in 0..n {
        let len = cs.len();
        match s.below(12) {
            0 | 1 if len > 0 => {
                let i = s.below(len);
                cs.remove(i);
            }
            2 if len > 0 => {
                let i = s.below(len);
                let c = cs[i];
                cs.insert(i, c);
            }
            3 if len > 1 => {
                let i = s.below(len - 1);
                cs.swap(i, i + 1);
            }
            4..=6 => {
                let i = s.below(len + 1);
                let f: Vec<char> = fragment(s, &FRAG).chars().collect();
                for (k, c) in f.into_iter().enumerate() {
                    cs.insert(i + k, c);
                }
            }
            7 if len > 0 => {
                let i = s.below(len);
                let f: Vec<char> = fragment(s, &FRAG).chars().collect();
                cs.remove(i);
                for (k, c) in f.into_iter().enumerate() {
                    cs.insert(i + k, c);
                }
            }
            8 if len > 0 => {
                // delete a token-ish run
                let i = s.below(len);
                let mut j = i;
                while j < len && cs[j].is_alphanumeric() == cs[i].is_alphanumeric() && j - i < 6 {
                    j += 1;
                }
                cs.drain(i..j.max(i + 1));
            }
            9 if len > 0 => {
                let i = s.below(len);
                cs.truncate(i);
            }
            10 if len > 0 => {
                // duplicate a run
                let i = s.below(len);
                let j = (i + 1 + s.below(6)).min(len);
                let run: Vec<char> = cs[i..j].to_vec();
                for (k, c) in run.into_iter().enumerate() {
                    cs.insert(j + k, c);
                }
            }
            11 if len > 0 => {
                // move a run elsewhere
                let i = s.below(len);
                let j = (i + 1 + s.below(4)).min(len);
                let run: Vec<char> = cs.drain(i..j).collect();
                let k = s.below(cs.len() + 1);
                for (m, c) in run.into_iter().enumerate() {
                    cs.insert(k + m, c);
                }
            }
            _ => cs.push(*s.pick(&[' ', '\n', ']', ')', '.', '\u{0}', 'a', '\u{feff}'])),
        }
    }
    cs.into_iter().collect()
}

fn fragment(s: &mut Src, frags: &[&str]) -> String {
    if let Some(f) = fresh::string(s) {
        return f;
    }
    if let Some(c) = fresh::char(s) {
        return c.to_string();
    }
    s.pick(frags).to_string()
}

/// A small query pool for parser-only properties.
pub fn parse_pool() -> Pool {
    Pool {
        keys: ["a", "b", "c", "foo", "é", "a b", "'", "\"", "\\", "", "\n", "☺", "0", "a'b", "/", "😀", "_x", "\t"]
            .iter()
            .map(|s| s.to_string())
            .collect(),
        scalars: vec![
            json!(1),
            json!(-1),
            json!(0),
            json!(1.5),
            json!("a"),
            json!("b c"),
            json!(true),
            json!(null),
            json!("it's"),
            json!("\"q\""),
            json!("\\"),
            json!("é☺"),
            json!(9007199254740991i64),
            json!(100),
        ],
        max_len: 5,
    }
}

/// Short texts put together from a few tokens in a given setting: a random
/// beginning with every completion by up to two tokens.
pub fn small_texts(s: &mut Src, c: &mut Ctx) -> Vec<String> {
    type Setting = (&'static str, &'static [(&'static str, &'static str)], &'static [&'static str], usize);
    const SETTINGS: [Setting; 13] = [
        ("number", &[("$[?@.a==", "]"), ("$[?", "<@]"), ("$[?length(", ")==1]")], &["-", "+", "0", "1", "5", "9", ".", "e", "E", " "], 4),
        ("index", &[("$[", "]"), ("$..[", "]"), ("$[?@[", "]]"), ("$[?@.a==@[", "]]")], &["-", "0", "1", "9", ":", ",", " ", "+", "."], 5),
        ("slice", &[("$[", "]"), ("$[0,", "]"), ("$[?@[", "]]")], &[":", "1", "-1", " ", "0", "-0", ",", "\n", "*", "9007199254740991", "9007199254740992"], 5),
        (
            "segment",
            &[("$", ""), ("$.a", ""), ("$[?@", "]"), ("$[?1==@", "]"), ("$[?$", "]")],
            &[".", "..", "[", "]", "*", "a", "1", "'b'", " ", ",", "[0]", ".a", "@"],
            4,
        ),
        (
            "logical",
            &[("$[?", "]"), ("$[?(", ")]"), ("$[?@[?", "]]")],
            &["@", ".a", "(", ")", "!", "&&", "||", "==", "1", " ", "$", "@.b", "match(@,'a')", "true"],
            5,
        ),
        (
            "comparison",
            &[("$[?", "]"), ("$[?@.z||", "]"), ("$[?!(", ")]")],
            &["==", "!=", "<", "<=", ">", "=", "!", "@", "@.*", "1", "'a'", "null", "true", "length(@)", "match(@,'a')", " ", "(", ")"],
            3,
        ),
        (
            "arguments",
            &[("$[?count(", ")==1]"), ("$[?length(", ")==1]"), ("$[?match(", ")]"), ("$[?value(", ")==1]"), ("$[?search(@,", ")]")],
            &["@", ".*", ",", "(", ")", "1", "!", "==", "'a'", "length(", ".a", " ", "||", "$", "match(@,'a')", "count(@)"],
            4,
        ),
        (
            "call",
            &[("$[?", "]"), ("$[?@.a==", "]"), ("$[?!", "]")],
            &["count", "match", "(", ")", "@", ",", "'a'", "==", "1", " ", "value", "length", "_", "1", "nosuch", "T"],
            5,
        ),
        (
            "single-quoted",
            &[("$['", "']"), ("$[?@.a=='", "']"), ("$['a','", "']")],
            &["\\", "u", "0", "d8", "DC", "Dc", "00", "41", "'", "\"", "a", "n", "/", "b", "\u{1f}", "é", "x"],
            5,
        ),
        (
            "double-quoted",
            &[("$[\"", "\"]"), ("$[?@[\"", "\"]]"), ("$[?match(@,\"", "\")]")],
            &["\\", "u", "0", "D8", "dc", "DF", "00", "7f", "'", "\"", "f", "r", "t", "\n", "\u{7f}", "☺", "u d83d", "g"],
            5,
        ),
        ("escape", &[("$[\"\\u", "\"]"), ("$['\\u", "']"), ("$[\"\\uD83d\\u", "\"]")], &["0", "d", "D", "8", "b", "B", "c", "C", "F", "f", "e", "9", "g", "+", " "], 5),
        ("word", &[("$[?", "]"), ("$[?@.a==", "]"), ("$.", ""), ("$..", "")], &["t", "rue", "true", "false", "null", "n", "_", "1", "A", "é", "(", ")", "@", "-"], 3),
        ("name", &[("$.", ""), ("$..", ".b"), ("$[?@.", "]")], &["a", "_", "1", "-", "é", "\u{7f}", "\u{80}", "\u{d7ff}", "\u{e000}", "\u{10ffff}", " ", "$", "@", "*", "Z", "`", "{", "\\"], 3),
    ];
    let (name, frames, toks, longest) = *s.pick(&SETTINGS);
    c.label("small-texts");
    let _ = name;
    let (open, close) = *s.pick(frames);
    let n = s.below(longest);
    let mut pre = open.to_string();
    for _ in 0..n {
        pre.push_str(s.pick(toks));
    }
    let mut v = vec![format!("{pre}{close}")];
    for a in toks {
        v.push(format!("{pre}{a}{close}"));
        v.extend(toks.iter().map(|b| format!("{pre}{a}{b}{close}")));
    }
    v
}

/// A string that is easily mistaken for `p`.
pub fn twin_text(s: &mut Src, p: &str) -> String {
    let mut v: Vec<char> = p.chars().collect();
    let n = v.len();
    let i = s.below(n.max(1));
    match s.below(12) {
        0 | 1 => v.insert(s.below(n + 1), ' '),
        2 => v.insert(s.below(n + 1), *s.pick(&['\t', '\n', '_', '.', '\'', '"', '\\', '0', '-', '\u{301}'])),
        3 if v.contains(&' ') => v.retain(|c| *c != ' '),
        3..=4 if n > 0 => {
            let flip = |c: char| if c.is_lowercase() { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() };
            if s.chance(128) {
                v[i] = flip(v[i]);
            } else {
                v = v.into_iter().map(flip).collect();
            }
        }
        5 if n > 0 => {
            v.remove(i);
        }
        6 if n > 0 => v.insert(i, v[i]),
        7 if n > 1 => v.swap(i, (i + 1) % n),
        8 => v.reverse(),
        9 if n > 0 => {
            let last = n - 1;
            v[last] = char::from_u32(v[last] as u32 + 1).unwrap_or('z');
        }
        10 if n > 0 => v[i] = char::from_u32(v[i] as u32 ^ 1).filter(|c| *c >= ' ').unwrap_or('z'),
        _ => v.push(*s.pick(&['a', ' ', '1', 'é'])),
    }
    v.into_iter().collect()
}

/// One small edit of a query that gives it another meaning; the document gets
/// members by the new name beside those by the old one.
pub fn twin_query(s: &mut Src, segs: &mut [Seg], doc: &mut Value) -> bool {
    let (mut sels, mut strs, mut ops) = (0, 0, 0);
    walk_sels(segs, &mut |x| sels += matches!(x, Sel::Name(_) | Sel::Index(_)) as usize);
    walk_exprs(segs, &mut |e| {
        strs += matches!(e, Expr::Str(_) | Expr::Bool(_)) as usize;
        ops += matches!(e, Expr::Cmp(..)) as usize;
    });
    let total = sels + strs + ops + segs.len();
    if total == 0 {
        return false;
    }
    let k = s.below(total);
    if k < sels {
        let (mut i, mut names) = (0, None);
        walk_sels(segs, &mut |x| {
            if !matches!(x, Sel::Name(_) | Sel::Index(_)) {
                return;
            }
            if i == k {
                match x {
                    Sel::Name(n) => {
                        let t = twin_text(s, n);
                        names = Some((std::mem::replace(n, t.clone()), t));
                    }
                    Sel::Index(n) if s.chance(60) => *x = Sel::Name(n.to_string()),
                    Sel::Index(n) => {
                        *n = match s.below(4) {
                            0 => *n + 1,
                            1 => -*n - 1,
                            2 => *n * 10 % 1000,
                            _ => *n ^ 1,
                        }
                    }
                    _ => (),
                }
            }
            i += 1;
        });
        if let Some((old, new)) = names {
            fn add(v: &mut Value, old: &str, new: &str) {
                match v {
                    Value::Array(a) => a.iter_mut().for_each(|x| add(x, old, new)),
                    Value::Object(m) => {
                        m.values_mut().for_each(|x| add(x, old, new));
                        if let (Some(x), false) = (m.get(old), m.contains_key(new)) {
                            // (a copy of something big would be one of many)
                            let x = if gen::count_nodes(x) < 12 { x.clone() } else { json!([[1]]) };
                            m.insert(new.to_string(), x);
                        }
                    }
                    _ => (),
                }
            }
            if gen::count_nodes(doc) < 200 {
                add(doc, &old, &new);
            }
        }
    } else if k < sels + strs + ops {
        let (mut i, mut j) = (0, 0);
        let (at_str, at_op) = (k.wrapping_sub(sels), k.wrapping_sub(sels + strs));
        walk_exprs(segs, &mut |e| match e {
            Expr::Str(t) => {
                if i == at_str {
                    *t = twin_text(s, t);
                }
                i += 1;
            }
            Expr::Bool(b) => {
                if i == at_str {
                    *b = !*b;
                }
                i += 1;
            }
            Expr::Cmp(_, op, _) => {
                if j == at_op {
                    *op = match op {
                        Op::Eq => Op::Ne,
                        Op::Ne => Op::Eq,
                        Op::Lt => Op::Le,
                        Op::Le => Op::Lt,
                        Op::Gt => Op::Ge,
                        Op::Ge => Op::Gt,
                    };
                }
                j += 1;
            }
            _ => (),
        });
    } else {
        let x = &mut segs[k - sels - strs - ops];
        x.desc = !x.desc;
    }
    true
}
