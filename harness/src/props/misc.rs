//! The extended dialect, tokens, errors, integer range and size: C18, C19,
//! C20, C21, C24, C26.
use super::common::*;
use super::evalp::text_of;
use super::parse::{any_string, ast_diff, clip, gen_query, qopts_parse};
use crate::suts::{EKind, PErr, Query};
use std::cell::RefCell;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C18",
            rule: "distinct (query, document) pairs in which a singular query selector is reached with at least one node to select from",
            case: c18,
            fixed: c18_fixed,
            quick_cases: 700_000,
            thorough_cases: 8_000_000,
            assumptions: &["whether a floating-point number with no fraction (1.0) counts as an integer is left open"],
        },
        Prop {
            id: "C19",
            rule: "distinct (implicit spelling, document) pairs whose spelling leaves out at least one `$`",
            case: c19,
            fixed: c19_fixed,
            quick_cases: 600_000,
            thorough_cases: 6_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C20",
            rule: "distinct strings whose token sequence has at least five tokens",
            case: c20,
            fixed: c20_fixed,
            quick_cases: 3_000_000,
            thorough_cases: 30_000_000,
            assumptions: &["a number with an exponent and no fraction may be an integer or a float token"],
        },
        Prop {
            id: "C21",
            rule: "distinct invalid queries with faults of one kind only",
            case: c21,
            fixed: c21_fixed,
            quick_cases: 300_000,
            thorough_cases: 6_000_000,
            assumptions: &[
                "comparing a non-singular query, or using a literal as a test, may be reported as a syntax or as a type error",
                "text with a grammatical fault next to a call or an unfinished comparison may be reported by either",
            ],
        },
        Prop {
            id: "C24",
            rule: "distinct (query, document) shapes with at least 20000 children, 100 levels, 1000 segments or selectors, or 50 operators",
            case: c24,
            fixed: c24_fixed,
            quick_cases: 160,
            thorough_cases: 6_000,
            assumptions: &["threads with the default 2 MiB stack; unoptimised build", "documents at most 127 levels deep, the JSON parser's limit"],
        },
        Prop {
            id: "C26",
            rule: "distinct (range, query) pairs with an integer within 2 of a bound of the range or beyond it",
            case: c26,
            fixed: c26_fixed,
            quick_cases: 700_000,
            thorough_cases: 6_000_000,
            assumptions: &[],
        },
    ]
}

// ------------------------------------------------------------------------ C18

/// A document some of whose strings and integers name children of other parts.
fn lookup_doc(s: &mut Src) -> Value {
    let o = DocOpts { odd: 30, ctrl: 0, ..Default::default() };
    let data = gen::doc(s, &o);
    let p = gen::pool(&data);
    let mut names = vec![];
    let mut ix = vec![];
    for _ in 0..1 + s.below(4) {
        names.push(if p.keys.is_empty() || s.chance(30) { json!(gen::key(s, &o)) } else { json!(s.pick(&p.keys)) });
    }
    let l = p.max_len as i64;
    for _ in 0..1 + s.below(4) {
        ix.push(match s.below(12) {
            0 => json!(9007199254740993i64),
            1 => json!(*s.pick(&[i64::MIN, i64::MAX, -9007199254740993])),
            2 => json!(*s.pick(&[u64::MAX, 1 << 63])),
            3 => json!(-l - 1 - s.range(0, 1)),
            4 => json!(l + s.range(0, 1)),
            5 => json!(0.5),
            6..=7 => json!(-1 - s.range(0, (l - 1).max(0))),
            _ => json!(s.range(0, (l - 1).max(0))),
        });
    }
    let odd = gen::value(s, &o, 1);
    match s.below(4) {
        0 => json!([data, names, ix, odd]),
        1 => {
            // look up in the data itself
            match data {
                Value::Object(mut m) => {
                    m.insert("k".into(), names[0].clone());
                    m.insert("i".into(), ix[0].clone());
                    Value::Object(m)
                }
                Value::Array(mut a) => {
                    a.push(names[0].clone());
                    a.push(ix[0].clone());
                    Value::Array(a)
                }
                v => v,
            }
        }
        _ => json!({"d": data, "n": names, "x": ix, "o": odd}),
    }
}

fn find_sing<'v>(c: &mut Ctx, text: &str, doc: &'v Value) -> Result<Option<Vec<suts::Found<'v>>>, Failure> {
    match suts::run(Eng::Sing, text, doc) {
        Ok(v) => Ok(Some(v)),
        Err(f) => {
            c.fail(f.key.clone(), format!("{} on {}", f.msg, show_doc(doc)))?;
            Ok(None)
        }
    }
}

fn check_ext(c: &mut Ctx, text: &str, segs: &[Seg], doc: &Value) -> Res {
    let want = match model_find(segs, doc) {
        Some(w) => w,
        _ => {
            c.exclude("left open or too large");
            return Ok(());
        }
    };
    c.eval();
    let got = match find_sing(c, text, doc)? {
        Some(g) => g,
        None => return Ok(()),
    };
    if !same_nodes(&want, &got) {
        c.fail(
            "nodes:singular",
            format!("singular selects wrong nodes for {text:?} on {}\n  expected {}\n  got      {}", show_doc(doc), show_paths(&want), show_found(&got)),
        )?;
    } else {
        for (w, g) in want.iter().zip(&got) {
            if g.parts.as_ref() != Some(&w.path) {
                c.fail("loc:singular", format!("{text:?} on {}: node at {} located at {}", show_doc(doc), normalized(&w.path), g.loc))?;
                break;
            }
        }
    }
    c.label_if(!want.is_empty(), "nonempty");
    Ok(())
}

fn count_singular(segs: &[Seg]) -> usize {
    let mut n = 0;
    visit_segs(segs, &mut |s| n += s.sels.iter().filter(|x| matches!(x, Sel::Singular(_))).count());
    n
}

fn c18(s: &mut Src, c: &mut Ctx) -> Res {
    let mut doc = lookup_doc(s);
    let q = QOpts { singular_sel: 110, max_segs: 4, regex: false, odd: 24, filter: 40, ..Default::default() };
    let mut segs = super::evalp::query_for(s, &doc, &q);
    if count_singular(&segs) == 0 {
        // point one at whatever the query reaches
        let mut g = G::aimed(s, &doc, QOpts { singular_sel: 256, ..q.clone() });
        g.cur = model_find(&segs, &doc).map(|v| v.into_iter().map(|n| n.value).take(12).collect()).unwrap_or_default();
        if g.cur.is_empty() {
            g.cur = vec![&doc];
            segs.clear();
        }
        let t = g.seg(0);
        segs.push(t);
    }
    grow::both(s, &mut segs, &mut doc);
    if let Some(t) = grow::took() {
        c.label(t);
    }
    let text = text_of(s, &segs);
    c.desc = format!("{text} on {}", show_doc(&doc));
    // is some singular selector reached?
    let mut reached = false;
    let mut hit = false;
    for i in 0..segs.len() {
        if !segs[i].sels.iter().any(|x| matches!(x, Sel::Singular(_))) {
            continue;
        }
        if let Some(v) = model_find(&segs[..i], &doc) {
            reached |= v.iter().any(|n| n.value.is_array() || n.value.is_object());
            let only: Vec<Sel> = segs[i].sels.iter().filter(|x| matches!(x, Sel::Singular(_))).cloned().collect();
            let mut q = segs[..i].to_vec();
            q.push(Seg { desc: segs[i].desc, sels: only });
            hit |= model_find(&q, &doc).is_some_and(|v| !v.is_empty());
            c.label_if(segs[i].desc, "descendant");
            c.label_if(segs[i].sels.len() > 1, "multi-selector");
        }
    }
    c.label_if(hit, "selects");
    c.label_if(reached && !hit, "selects-nothing");
    c.label_if(count_singular(&segs) > 1, "several");
    if reached {
        let k = c.desc.clone();
        c.nontrivial(&k);
    }
    check_ext(c, &text, &segs, &doc)
}

fn ext_cases(cases: &[(&str, &str)]) -> Fixed {
    cases
        .iter()
        .map(|(q, d)| {
            let (q, d) = (q.to_string(), d.to_string());
            fixed_case(format!("{q} on {d}"), move |c| {
                let doc: Value = serde_json::from_str(&d).unwrap();
                let segs = recog::ast(&q, &recog::Opts { ext: true, ..Default::default() }).expect("fixed case must be valid");
                check_ext(c, &q, &segs, &doc)
            })
        })
        .collect()
}

fn c18_fixed() -> Fixed {
    const D: &str = r#"{"a":{"j":[1,2,3],"p":{"q":4},"":5,"0":6},"b":["j","p","zz",""],"n":[0,1,-1,2,3,-3,-4,1.5,true,null,18446744073709551615,-9223372036854775808,9223372036854775807],"s":"0","o":{"x":"j"}}"#;
    ext_cases(&[
        ("$.a[$.b[0]]", D),
        ("$.a[$.b[1]]", D),
        ("$.a[$.b[2]]", D),
        ("$.a[$.b[3]]", D),
        ("$.a[$.s]", D),
        ("$.a[$.n[0]]", D),
        ("$.b[$.s]", D),
        ("$.b[$.n[0],$.n[1],$.n[2],$.n[3],$.n[4],$.n[5],$.n[6]]", D),
        ("$.b[$.n[7]]", D),
        ("$.b[$.n[8]]", D),
        ("$.b[$.n[9]]", D),
        ("$.b[$.n[10]]", D),
        ("$.b[$.n[11]]", D),
        ("$.b[$.n[12]]", D),
        ("$.b[$.n]", D),
        ("$.a[$.a]", D),
        ("$.a[$.nope]", D),
        ("$.a[$]", D),
        ("$..[$.b[0]]", D),
        ("$..[$.n[1],'q',$.o.x]", D),
        ("$.a[$.b[0]][$.n[2]]", D),
        ("$.a[$.b[0],$.b[0],'j']", D),
        ("$.a[?@[$.n[0]]]", D),
        ("$[?@[$.b[0]]]", D),
        ("$[?count(@[$.b[0],$.b[1]])==2]", D),
        ("$.a[$['b'][-4]]", D),
        ("$.a[$ ['b'] [0]]", D),
        ("$.a[b[0]]", D),
        ("$.a[['b'][0]]", D),
        ("$[$[0]]", "[1,2]"),
        ("$[$[0]]", "[-3,2]"),
        ("$[$[1]]", "[-3,-2]"),
        ("$[$]", "\"a\""),
        ("$[$]", "0"),
    ])
}

// ------------------------------------------------------------------------ C19

fn c19(s: &mut Src, c: &mut Ctx) -> Res {
    let mut doc = lookup_doc(s);
    let q = QOpts { singular_sel: 60, regex: false, odd: 24, ..Default::default() };
    let mut segs = super::evalp::query_for(s, &doc, &q);
    if s.chance(200) {
        if let Some(f) = segs.first_mut() {
            f.desc = false;
        }
    }
    grow::both(s, &mut segs, &mut doc);
    if let Some(t) = grow::took() {
        c.label(t);
    }
    let mut st = Style::random(s);
    st.no_ctrl_u = true;
    let explicit = if s.chance(128) { print::plain(&segs) } else { print::spelled(s, &segs, &st).0 };
    st.implicit = *s.pick(&[256, 256, 128]);
    let (text, _, _) = print::spelled(s, &segs, &st);
    c.desc = format!("{text} on {}", show_doc(&doc));
    let bare = !text.starts_with('$');
    c.label_if(bare, "implicit-root");
    c.label_if(bare && !text.starts_with('['), "bare-name");
    let sing = count_singular(&segs);
    c.label_if(sing > 0, "singular-selector");
    if bare || (sing > 0 && text.matches('$').count() < explicit.matches('$').count()) {
        let k = c.desc.clone();
        c.nontrivial(&k);
    }
    check_same_meaning(c, &explicit, &text, &segs, &doc)?;
    // a standard query keeps its standard meaning
    if sing == 0 && !too_heavy(c, &segs, &doc) {
        c.eval();
        c.label("standard");
        let std = suts::run(Eng::Loc, &explicit, &doc);
        let ext = suts::run(Eng::Sing, &explicit, &doc);
        match (std, ext) {
            (Ok(a), Ok(b)) => {
                if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| !std::ptr::eq(x.value, y.value) || x.parts != y.parts) {
                    c.fail("std-meaning", format!("{explicit:?} on {}: locations {} singular {}", show_doc(&doc), show_found(&a), show_found(&b)))?;
                }
            }
            (Err(f), _) | (_, Err(f)) => c.fail(f.key.clone(), format!("{} on {}", f.msg, show_doc(&doc)))?,
        }
    }
    Ok(())
}

fn parse_sing(c: &mut Ctx, t: &str) -> Result<Option<Query>, Failure> {
    match standard(Sut::Sing, t) {
        Ok(Ok(q)) => Ok(Some(q)),
        Ok(Err(e)) => {
            c.fail("reject:singular", format!("singular rejects the valid extended query {t:?}: {}", e.msg))?;
            Ok(None)
        }
        Err(f) => {
            c.fail(f.key.clone(), format!("{} on {t:?}", f.msg))?;
            Ok(None)
        }
    }
}

fn check_same_meaning(c: &mut Ctx, explicit: &str, text: &str, segs: &[Seg], doc: &Value) -> Res {
    c.eval();
    let o = recog::Opts { ext: true, ..Default::default() };
    assert_eq!(recog::ast(text, &o).as_deref().map(norm_steps), Some(norm_steps(segs)), "recogniser and printer disagree on {text:?}");
    let (a, b) = match (parse_sing(c, explicit)?, parse_sing(c, text)?) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    let (da, db) = (a.display()?, b.display()?);
    if da != db {
        c.fail("display", format!("{explicit:?} displays {da:?} but {text:?} displays {db:?}"))?;
    }
    for (q, t) in [(&a, explicit), (&b, text)] {
        match q.segs(&o) {
            Ok(g) => {
                if let Some(d) = ast_diff(&norm_steps(segs), &norm_steps(&g)) {
                    c.fail("ast", format!("{t:?}: {d}"))?;
                }
            }
            Err(f) => c.fail(f.key.clone(), format!("{t:?}: {}", f.msg))?,
        }
    }
    let want = model_find(segs, doc);
    if want.is_none() && too_heavy(c, segs, doc) {
        return Ok(());
    }
    let mut nodes = vec![];
    for (q, t) in [(&a, explicit), (&b, text)] {
        match suts::eval(Eng::Sing, q, doc, suts::envs()) {
            Ok(Ok(g)) => nodes.push(g),
            Ok(Err(m)) => return c.fail("evalerr", format!("{t:?}: {m}")),
            Err(f) => return c.fail(f.key.clone(), format!("{t:?} on {}: {}", show_doc(doc), f.msg)),
        }
    }
    let same = nodes[0].len() == nodes[1].len() && nodes[0].iter().zip(&nodes[1]).all(|(x, y)| std::ptr::eq(x.value, y.value) && x.parts == y.parts);
    if !same {
        c.fail("nodes", format!("{explicit:?} gives {} but {text:?} gives {} on {}", show_found(&nodes[0]), show_found(&nodes[1]), show_doc(doc)))?;
    }
    if let Some(w) = want {
        if same && !same_nodes(&w, &nodes[1]) {
            c.fail(
                "nodes:model",
                format!("{text:?} on {}: expected {} got {}", show_doc(doc), show_paths(&w), show_found(&nodes[1])),
            )?;
        }
    } else {
        c.exclude("left open or too large for the model (compared with each other only)");
    }
    Ok(())
}

fn c19_fixed() -> Fixed {
    [
        ("$.a", "a"),
        ("$.a.b", "a.b"),
        ("$['a']", "['a']"),
        ("$[0]", "[0]"),
        ("$[*]", "[*]"),
        ("$[?@.a]", "[?@.a]"),
        ("$[0,1:2,'a']", "[0,1:2,'a']"),
        ("$.a..b", "a..b"),
        ("$.a[0]['b'] .c", "a[0]['b'] .c"),
        ("$.a[$.b]", "a[b]"),
        ("$.a[$.b.c[0]]", "a[b.c[0]]"),
        ("$.a[$['b'].c]", "a[['b'].c]"),
        ("$.a[$[0]]", "a[[0]]"),
        ("$.a[$.b, 0, $.c]", "a[b, 0, c]"),
        ("$..[$.b]", "$..[b]"),
        ("$[$.a]", "[a]"),
        ("$[$[0]]", "[[0]]"),
        ("$.true", "true"),
        ("$.null.false", "null.false"),
        ("$.é", "é"),
        ("$._", "_"),
        ("$.length", "length"),
        ("$.a[$.true]", "a[true]"),
        ("$.a[$.b .c]", "a[b .c]"),
        ("$[?@[$.b]==1]", ""),
        ("$[?@[$.b]]", "[?@[b]]"),
        ("$[?count(@[$.b])==1]", "[?count(@[b])==1]"),
    ]
    .iter()
    .filter(|(_, b)| !b.is_empty())
    .map(|(a, b)| {
        let (a, b) = (a.to_string(), b.to_string());
        fixed_case(format!("{b} is {a}"), move |c| {
            let doc: Value = json!({"a": {"b": {"c": 1, "0": 2}, "j": [1, 2]}, "b": "j", "c": "b", "true": "j", "null": {"false": 1}, "é": 1, "_": 2, "length": 3});
            let segs = recog::ast(&a, &recog::Opts { ext: true, ..Default::default() }).expect("valid");
            check_same_meaning(c, &a, &b, &segs, &doc)
        })
    })
    .collect()
}

// ------------------------------------------------------------------------ C20

fn tok_view(k: &hand::token::TokenType) -> (&'static str, Option<&str>) {
    use hand::token::TokenType as T;
    match k {
        T::Eoq => ("Eoq", Some("")),
        T::Error { .. } => ("Error", None),
        T::Colon => ("Colon", Some(":")),
        T::Comma => ("Comma", Some(",")),
        T::DoubleDot => ("DoubleDot", Some("..")),
        T::Filter => ("Filter", Some("?")),
        T::Index { value } => ("Index", Some(value)),
        T::LBracket => ("LBracket", Some("[")),
        T::Name { value } => ("Name", Some(value)),
        T::RBracket => ("RBracket", Some("]")),
        T::Root => ("Root", Some("$")),
        T::Wild => ("Wild", Some("*")),
        T::And => ("And", Some("&&")),
        T::Current => ("Current", Some("@")),
        T::DoubleQuoteString { value } => ("DoubleQuoteString", Some(value)),
        T::Eq => ("Eq", Some("==")),
        T::False => ("False", Some("false")),
        T::Float { value } => ("Float", Some(value)),
        T::Function { name } => ("Function", Some(name)),
        T::Ge => ("Ge", Some(">=")),
        T::Gt => ("Gt", Some(">")),
        T::Int { value } => ("Int", Some(value)),
        T::Le => ("Le", Some("<=")),
        T::LParen => ("LParen", Some("(")),
        T::Lt => ("Lt", Some("<")),
        T::Ne => ("Ne", Some("!=")),
        T::Not => ("Not", Some("!")),
        T::Null => ("Null", Some("null")),
        T::Or => ("Or", Some("||")),
        T::RParen => ("RParen", Some(")")),
        T::SingleQuoteString { value } => ("SingleQuoteString", Some(value)),
        T::True => ("True", Some("true")),
    }
}

/// Does the value of a token of this kind look like one?
fn well_formed(kind: &str, v: &str) -> bool {
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    match kind {
        "Index" => digits(v.strip_prefix('-').unwrap_or(v)),
        "Int" | "Float" => {
            let v = v.strip_prefix('-').unwrap_or(v);
            let (m, e) = match v.split_once(['e', 'E']) {
                Some((m, e)) => (m, Some(e)),
                None => (v, None),
            };
            let frac = m.contains('.');
            let m_ok = match m.split_once('.') {
                Some((a, b)) => digits(a) && digits(b),
                None => digits(m),
            };
            let e_ok = e.is_none_or(|e| digits(e.strip_prefix(['+', '-']).unwrap_or(e)));
            m_ok && e_ok && (kind == "Float" || !frac) && (kind == "Int" || frac || e.is_some())
        }
        "Name" => print::is_shorthand(v),
        "Function" => {
            let mut it = v.chars();
            it.next().is_some_and(|c| c.is_ascii_lowercase()) && it.all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_')
        }
        _ => true,
    }
}

fn check_tiling(c: &mut Ctx, t: &str) -> Result<usize, Failure> {
    c.eval();
    let toks = match sut("hand.tokenize", || hand::lexer::tokenize(t)) {
        Ok(v) => v,
        Err(f) => {
            c.fail(f.key.clone(), format!("{} on {t:?}", f.msg))?;
            return Ok(0);
        }
    };
    let n = toks.len();
    let show = || clip(&format!("{:?}", toks.iter().map(|t| (tok_view(&t.kind), t.span)).collect::<Vec<_>>()));
    if n == 0 {
        c.fail("empty", format!("no tokens for {t:?}"))?;
        return Ok(0);
    }
    let mut prev = 0;
    for (i, k) in toks.iter().enumerate() {
        let (a, b) = k.span;
        let (kind, val) = tok_view(&k.kind);
        if a > b || b > t.len() || !t.is_char_boundary(a) || !t.is_char_boundary(b) {
            c.fail(format!("span:{kind}"), format!("{t:?}: {kind} token with span {a}..{b} of {}\n  {}", t.len(), show()))?;
            return Ok(n);
        }
        if a < prev {
            c.fail(format!("overlap:{kind}"), format!("{t:?}: {kind} token at {a}..{b} overlaps the one before\n  {}", show()))?;
            return Ok(n);
        }
        if a == b && !matches!(kind, "Eoq" | "Error" | "SingleQuoteString" | "DoubleQuoteString") {
            c.fail(format!("blank:{kind}"), format!("{t:?}: empty {kind} token\n  {}", show()))?;
        }
        if kind != "Error" {
            if !t[prev..a].chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n' | '.' | '\'' | '"' | '(')) {
                c.fail(format!("gap:{kind}"), format!("{t:?}: {:?} lost before the {kind} token at {a}\n  {}", &t[prev..a], show()))?;
            }
            // a quote or call parenthesis in the gap must belong to a
            // neighbouring string or call
            let before = if i > 0 { tok_view(&toks[i - 1].kind).0 } else { "" };
            let mut quotes = 0;
            if before.ends_with("String") {
                quotes += 1
            }
            if kind.ends_with("String") {
                quotes += 1
            }
            let nq = t[prev..a].matches(['\'', '"']).count();
            let np = t[prev..a].matches('(').count();
            let nd = t[prev..a].matches('.').count();
            if nq != quotes || np != usize::from(before == "Function") || nd > usize::from(matches!(kind, "Name" | "Wild")) {
                c.fail(format!("gap:{kind}"), format!("{t:?}: gap {:?} before the {kind} token at {a}\n  {}", &t[prev..a], show()))?;
            }
        }
        if let Some(v) = val {
            if v != &t[a..b] {
                c.fail(format!("value:{kind}"), format!("{t:?}: {kind} token says {v:?} but the text at {a}..{b} is {:?}", &t[a..b]))?;
            }
            if !well_formed(kind, v) {
                c.fail(format!("form:{kind}"), format!("{t:?}: {v:?} at {a}..{b} cannot be a {kind} token"))?;
            }
            if kind == "SingleQuoteString" || kind == "DoubleQuoteString" {
                let q = if kind == "SingleQuoteString" { '\'' } else { '"' };
                if !t[..a].ends_with(q) || !t[b..].starts_with(q) {
                    c.fail(format!("quotes:{kind}"), format!("{t:?}: {kind} token at {a}..{b} is not between its quotes"))?;
                }
            }
            if kind == "Function" && !t[b..].starts_with('(') {
                c.fail("call", format!("{t:?}: Function token at {a}..{b} without a parenthesis after it"))?;
            }
        }
        let last = i + 1 == n;
        if last != matches!(kind, "Eoq" | "Error") {
            c.fail("end", format!("{t:?}: {kind} token at place {i} of {n}\n  {}", show()))?;
        }
        if kind == "Eoq" && (a, b) != (t.len(), t.len()) {
            c.fail("eoq-span", format!("{t:?}: end-of-query token at {a}..{b}, the text ends at {}", t.len()))?;
        }
        prev = b;
    }
    // `lex` is `tokenize` with the error token as an error
    let l = match sut("hand.lex", || hand::lexer::lex(t)) {
        Ok(l) => l,
        Err(f) => {
            c.fail(f.key.clone(), format!("{} on {t:?}", f.msg))?;
            return Ok(n);
        }
    };
    let err = matches!(tok_view(&toks[n - 1].kind).0, "Error");
    match l {
        Ok(v) if !err && v == toks => (),
        Err(e) if err && e.span == toks[n - 1].span => (),
        l => c.fail("lex", format!("{t:?}: tokenize gives {} but lex gives {l:?}", show()))?,
    }
    Ok(n)
}

fn check_exact(c: &mut Ctx, text: &str, want: &[print::Tok]) -> Res {
    let got = match sut("hand.tokenize", || hand::lexer::tokenize(text)) {
        Ok(v) => v,
        Err(f) => return c.fail(f.key.clone(), format!("{} on {text:?}", f.msg)),
    };
    for i in 0..want.len().max(got.len()) {
        let g = got.get(i).map(|k| (tok_view(&k.kind), k.span));
        let ok = match (want.get(i), &g) {
            (Some(w), Some(((kind, Some(v)), span))) => {
                let kind_ok = w.kind == *kind || (w.kind == "Float" && *kind == "Int" && !w.value.contains('.'));
                kind_ok && w.value == **v && w.span == *span
            }
            _ => false,
        };
        if !ok {
            return c.fail(
                format!("token:{}", want.get(i).map(|w| w.kind).unwrap_or("none")),
                format!("{text:?}: token {i} should be {:?}, is {g:?}", want.get(i)),
            );
        }
    }
    Ok(())
}

fn c20(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(110) {
        let segs = gen_query(s, QOpts { ctrl: 8, ..qopts_parse() });
        let mut st = Style::random(s);
        st.respell = s.chance(128);
        let (text, toks, _) = print::spelled(s, &segs, &st);
        c.desc = text.clone();
        c.label("valid");
        c.label_if(!text.is_ascii(), "non-ascii");
        if toks.len() >= 5 {
            c.nontrivial(&text);
        }
        check_exact(c, &text, &toks)?;
        check_tiling(c, &text)?;
    } else {
        let t = any_string(s, c);
        c.desc = t.clone();
        let n = check_tiling(c, &t)?;
        c.label_if(!t.is_ascii(), "non-ascii");
        if n >= 5 {
            c.nontrivial(&t);
        }
    }
    Ok(())
}

fn c20_fixed() -> Fixed {
    [
        "", "$", "$\u{0}", "$.a\u{0}", "$\u{0}\u{0}", "$[\u{0}", "$['a\u{0}']", "$[?@.a\u{0}]", "$[?\u{0}@]", " ", "$ ", "$.é..☺['😀']", "$[?@.é == '☺']", "$[?count((@.foo),1)>2]",
        "$[?@[0][1]]", "$[?@[?@[0]]]", "$[?count(@[0,1])==1]", "$[?match(@['a','b'],'c')]", "$[?count(@[?@.a])==1]", "$[?@.a==1E2]", "$[?@.a==1e2]", "$[?@.a==-1.5E-2]", "$[?@.a==1E]",
        "$[-0]", "$[-", "$[?-", "$[?-1", "$[?1.", "$[?1.5e", "$['", "$[\"", "$['\\", "$['\\q']", "$['a\\'b']", "$[\"a\\\"b\"]", "$[?f(", "$[?f()", "$[?f(g(1),(2)),3]", "$[?(((", "$[?)))]",
        "$[?(@.a])]", "$[?@.a=1]", "$[?@.a&1]", "$[?@.a|1]", "$.", "$..", "$. a", "$.. a", "$.1", "$a", "$[a]", "$[?a]", "$[?true]", "$[?true_x(1)]", "$[?nullable()]", "$[é", "$[?é", "$[?@é",
        "$[1é", "$[?1é", "$[?1.é", "$[?1eé", "$[?=é", "$[?&é", "$[?aé", "$[-é", "$[?-é", "é", "$.é é",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| {
            check_tiling(c, &q)?;
            Ok(())
        })
    })
    .collect()
}

// ------------------------------------------------------------------------ C21

#[derive(Clone, Debug, PartialEq)]
enum Expect {
    /// names of the unregistered functions called
    Name(Vec<String>),
    /// type error, with what is wrong
    Type(Vec<String>),
    Syntax,
    SyntaxOrType,
}

/// What a query with faults of one kind should be reported as; `None` if the
/// query is valid or has faults of several kinds.
fn expectation(text: &str, ext: bool) -> Option<(Expect, Vec<usize>)> {
    let o = recog::Opts { ext, ..Default::default() };
    let (r, notes) = recog::parse_noting(text, &o);
    match r {
        Ok(p) => {
            if p.faults.is_empty() {
                return None;
            }
            let pos = p.faults.iter().map(|f| f.pos).collect();
            use recog::Kind::*;
            if p.faults.iter().all(|f| f.kind == Name) {
                let names = p.faults.iter().map(|f| f.what.rsplit(' ').next().unwrap().to_string()).collect();
                return Some((Expect::Name(names), pos));
            }
            if p.faults.iter().all(|f| f.kind == Type) {
                return Some((Expect::Type(p.faults.iter().map(|f| f.what.clone()).collect()), pos));
            }
            if p.faults.iter().all(|f| matches!(f.kind, Range | Syntax)) {
                return Some((Expect::Syntax, pos));
            }
            if p.faults.iter().all(|f| f.kind != Name) {
                return Some((Expect::SyntaxOrType, pos));
            }
            None
        }
        Err(f) => {
            if !notes.is_empty() {
                return None;
            }
            let call = text.contains('(') && {
                let b = text.as_bytes();
                b.windows(2).any(|w| w[1] == b'(' && (w[0].is_ascii_alphanumeric() || w[0] == b'_'))
            };
            let filter = text.contains('?');
            if call {
                // a call cut short may be judged as a call or as text
                return None;
            }
            // without an operator or literal no typing rule is in sight
            let cmp = ["==", "!=", "<", ">"].iter().any(|o| text.contains(o));
            let multi = text.contains('*') || text.contains("..") || text.contains(':') || text.contains(',') || text.matches('?').count() > 1;
            let _ = f;
            if filter && ((cmp && multi) || f.kind == recog::Kind::SyntaxOrType || has_word_literal(text)) {
                return Some((Expect::SyntaxOrType, vec![]));
            }
            Some((Expect::Syntax, vec![]))
        }
    }
}

fn has_word_literal(t: &str) -> bool {
    t.contains('\'') || t.contains('"') || t.chars().any(|c| c.is_ascii_digit()) || ["true", "false", "null"].iter().any(|w| t.contains(w))
}

fn check_kind(c: &mut Ctx, text: &str, e: &PErr, p: Sut, want: &Expect, pos: &[usize]) -> Res {
    let ok = match want {
        Expect::Name(names) => {
            if e.kind == EKind::Name && !names.iter().any(|n| mentions(&e.msg, n)) {
                c.fail(
                    format!("unnamed:{}", p.name()),
                    format!("{}: the name error for {text:?} does not name {names:?}: {:?}", p.name(), e.msg),
                )?;
            }
            e.kind == EKind::Name
        }
        Expect::Type(whats) => {
            if e.kind == EKind::Type {
                if let Some(claim) = claim(&e.msg) {
                    c.label(if claim.starts_with("argument") { "claim:argument" } else { "claim:count" });
                    if !whats.contains(&claim) {
                        c.fail(
                            format!("untrue:{}", p.name()),
                            format!("{}: the type error for {text:?} says {:?}, but the fault is {whats:?}", p.name(), e.msg),
                        )?;
                    }
                }
            }
            e.kind == EKind::Type
        }
        Expect::Syntax => matches!(e.kind, EKind::Syntax | EKind::Lexer),
        Expect::SyntaxOrType => e.kind != EKind::Name,
    };
    if !ok {
        c.fail(
            format!("kind:{}:{:?}->{:?}", p.name(), std::mem::discriminant(want), e.kind),
            format!("{} reports {text:?} as {:?} ({:?}), expected {want:?}", p.name(), e.kind, e.msg),
        )?;
    }
    if let Some((a, b)) = e.span {
        if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
            c.fail(format!("span:{}", p.name()), format!("{}: error position {a}..{b} is outside {text:?} (length {}): {}", p.name(), text.len(), e.msg))?;
        } else if matches!(want, Expect::Name(_) | Expect::Type(_)) && ok {
            // exactly the name of a function at fault
            let n = text[a..].chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').count();
            if !pos.contains(&a) || b != a + n {
                c.fail(
                    format!("at:{}", p.name()),
                    format!("{}: the error for {text:?} ({}) is reported at {a}..{b}, not at the function's name ({pos:?})", p.name(), e.msg),
                )?;
            }
        }
    }
    Ok(())
}

/// What a type error's message says about a function's arguments, if it is worded like
/// "argument 1 of f()" or "f() takes 2 arguments but 1 were given".
fn claim(msg: &str) -> Option<String> {
    let num = |t: &str| -> Option<u32> { t.split(|c: char| !c.is_ascii_digit()).find(|t| !t.is_empty())?.parse().ok() };
    let word = |t: &str| -> Option<String> {
        let w: String = t.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
        (!w.is_empty() && t[w.len()..].starts_with("()")).then_some(w)
    };
    if let Some(t) = msg.strip_prefix("argument ") {
        let n: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
        let f = word(t.strip_prefix(n.as_str())?.strip_prefix(" of ")?)?;
        return Some(format!("argument {} of {f}()", n.parse::<u32>().ok()?));
    }
    let f = word(msg)?;
    let t = msg.strip_prefix(f.as_str())?.strip_prefix("() takes ")?;
    let (a, b) = t.split_once(" but ")?;
    Some(format!("{f}() takes {} arguments, {} given", num(a)?, num(b)?))
}

fn mentions(msg: &str, name: &str) -> bool {
    msg.match_indices(name).any(|(i, _)| {
        let id = |c: char| c.is_ascii_alphanumeric() || c == '_';
        !msg[..i].ends_with(id) && !msg[i + name.len()..].starts_with(id)
    })
}

fn check_errors(c: &mut Ctx, text: &str) -> Result<bool, Failure> {
    let mut any = false;
    for p in Sut::ALL {
        let (want, pos) = match expectation(text, p == Sut::Sing) {
            Some(x) => x,
            None => {
                // still: positions must be usable
                if p == Sut::Hand {
                    c.eval();
                    if let Ok(Err(e)) = standard(p, text) {
                        if let Some((a, b)) = e.span {
                            if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                                c.fail("span:hand", format!("hand: error position {a}..{b} is outside {text:?} (length {}): {}", text.len(), e.msg))?;
                            }
                        }
                    }
                }
                continue;
            }
        };
        any = true;
        if p == Sut::Hand && super::parse::ctrl_escape(text) {
            c.exclude("hand: control character escape (known finding of C01)");
            continue;
        }
        if p == Sut::Hand {
            c.label(match want {
                Expect::Name(_) => "name",
                Expect::Type(_) => "type",
                Expect::Syntax => "syntax",
                Expect::SyntaxOrType => "syntax-or-type",
            });
        }
        c.eval();
        match standard(p, text) {
            // acceptance is C02's business
            Ok(Ok(_)) => (),
            Ok(Err(e)) => check_kind(c, text, &e, p, &want, &pos)?,
            Err(f) => c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?,
        }
    }
    Ok(any)
}

/// Plants one typing fault in a valid query.
fn plant(s: &mut Src, segs: &mut [Seg]) -> bool {
    let mut calls = 0;
    visit_exprs(segs, &mut |e| {
        if matches!(e, Expr::Call(..)) {
            calls += 1
        }
    });
    if calls == 0 {
        return false;
    }
    let k = s.below(calls);
    let how = s.below(6);
    let lit = Expr::Num(Num::new("1"));
    let nosuch = s.pick(&["nosuch", "len", "counts", "m_atch", "value1", "x", "lengthy", "true_x", "nullable", "falsey", "truth"]).to_string();
    let arg = match s.below(6) {
        0 => Expr::Str("a".into()),
        1 => Expr::Path(false, vec![Seg { desc: false, sels: vec![Sel::Wild] }]),
        2 => Expr::Cmp(Box::new(Expr::Path(false, vec![])), Op::Eq, Box::new(lit.clone())),
        3 => Expr::Call("match".into(), vec![Expr::Path(false, vec![]), Expr::Str("a".into())]),
        4 => Expr::Call("count".into(), vec![Expr::Path(false, vec![])]),
        _ => lit.clone(),
    };
    let mut i = 0;
    let which = s.below(3);
    walk_exprs(segs, &mut |e| {
        if let Expr::Call(n, a) = e {
            if i == k {
                match how {
                    0..=1 => *n = nosuch.clone(),
                    2 => a.push(lit.clone()),
                    3 => {
                        a.pop();
                    }
                    _ => {
                        if !a.is_empty() {
                            let j = which % a.len();
                            a[j] = arg.clone();
                        }
                    }
                }
            }
            i += 1;
        }
    });
    true
}

/// A text that is mostly invalid, for one reason.
pub fn faulty(s: &mut Src) -> String {
    match s.below(10) {
        0..=3 => {
            // call-heavy query with one planted fault
            let mut o = qopts_parse();
            o.filter = 200;
            let mut segs = gen_query(s, o);
            if !segs.iter().any(|x| x.sels.iter().any(|y| matches!(y, Sel::Filter(_)))) {
                let mut g = G::new(s, parse_pool(), qopts_parse());
                let e = g.filter(2);
                segs.push(Seg { desc: false, sels: vec![Sel::Filter(e)] });
            }
            plant(s, &mut segs);
            let st = Style::random(s);
            print::spelled(s, &segs, &st).0
        }
        4..=5 => super::parse::ill_typed(s),
        6 => super::parse::out_of_range(s),
        _ => {
            let mut o = qopts_parse();
            o.filter_depth = 2;
            if s.chance(128) {
                o.filter = 0;
            }
            let segs = gen_query(s, o);
            let st = Style::random(s);
            let t = print::spelled(s, &segs, &st).0;
            mutate(s, &t)
        }
    }
}

fn c21(s: &mut Src, c: &mut Ctx) -> Res {
    let text = faulty(s);
    c.desc = text.clone();
    if check_errors(c, &text)? {
        c.nontrivial(&text);
    }
    Ok(())
}

fn c21_fixed() -> Fixed {
    [
        "$[?nosuch(@.a)]", "$[?nosuch(@.a)==1]", "$[?nosuch()]", "$[?@.a && nosuch(@)]", "$[?count(@[?nosuch(@)])==1]", "$[?length(nosuch(@.a))==1]", "$[?true_x(@)]", "$[?nullable(@.a)==1]",
        "$[?nullable()]", "$[?falsey(1)]", "$[?truth(@) && @.a]", "$[?count()==1]", "$[?count(@.a,@.b)==1]", "$[?match(@.a)]", "$[?length(@.*)==1]", "$[?count(1)==1]", "$[?value('a')==1]",
        "$[?count(@.a)]", "$[?length(@.a)]", "$[?!length(@.a)]", "$[?@.a&&count(@.b)]", "$[?match(@.a,'b')==true]", "$[?1==search(@.a,'b')]", "$[?length(match(@.a,'b'))==1]", "$[9007199254740992]",
        "$[1:9007199254740992]", "$[?@[9007199254740992]]", "$[?@.a==@[9007199254740992]]", "$[", "$]", "$.", "$..", "$[0 1]", "$['a", "$[?@.a=1]", "$[?@.a&@.b]", "$[?(@.a]", "$[?@.a)]", "", " ", "$ ", "$é",
        "$['\\u12']", "$['\\ud800']", "$['é\\ud800']", "$[\"é\\u+041\"]", "$[?@.a=='\\ud800\\u0041']", "$[?count(é)]", "$[?length(@.a==1)==1]", "$[?count(@.a==1)==1]", "$[?length(!@.a)==1]", "$[?count((@.a))==1]",
        "$[?length((@.a))==1]", "$[?count(@.a)==match(@.a,'b')]", "$[?@.é && nosuch(@)]", "$['☺'][?@.é == 'é' && count(1)>1]", "$[?count(@.a) > 1 && (length(@.b))]", "$[?(count(@.a))]",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| {
            check_errors(c, &q)?;
            Ok(())
        })
    })
    .collect()
}

// ------------------------------------------------------------------------ C26

fn range_of(s: &mut Src) -> (i64, i64) {
    match s.below(8) {
        0 => (-9007199254740991, 9007199254740991),
        1 => (i64::MIN, i64::MAX),
        2 => (i32::MIN as i64, i32::MAX as i64),
        3 => (0, s.range(0, 100)),
        4 => {
            let a = s.range(-20, 20);
            (a, a + s.range(0, 20))
        }
        5 => (-s.range(0, 9), i64::MAX),
        6 => (i64::MIN, s.range(0, 9)),
        _ => {
            let n = 1i64 << s.below(62);
            (-n, n)
        }
    }
}

fn edgy(s: &mut Src, lo: i64, hi: i64) -> i128 {
    match s.below(10) {
        0..=2 => lo as i128 + s.range(-2, 2) as i128,
        3..=5 => hi as i128 + s.range(-2, 2) as i128,
        6 => s.range(-3, 3) as i128,
        7 => {
            // inside
            let w = hi as i128 - lo as i128 + 1;
            let r = ((s.below(1 << 30) as i128) << 34) | ((s.below(1 << 30) as i128) << 4);
            lo as i128 + r.rem_euclid(w)
        }
        8 => *s.pick(&[i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, i64::MIN as i128 - 1, u64::MAX as i128, u64::MAX as i128 + 1]),
        _ => *s.pick(&[9007199254740991i128, 9007199254740992, -9007199254740991, -9007199254740992, 10i128.pow(30), -(10i128.pow(25))]),
    }
}

fn c26(s: &mut Src, c: &mut Ctx) -> Res {
    let (lo, hi) = range_of(s);
    let n = 1 + s.below(3);
    let mut edge = false;
    let mut ints: Vec<i128> = vec![];
    for _ in 0..n {
        // mostly good ones, so that single bad ones are seen
        let mut v = edgy(s, lo, hi);
        if !s.chance(110) {
            v = v.clamp(lo as i128, hi as i128);
        }
        edge |= (v - lo as i128).abs() <= 2 || (v - hi as i128).abs() <= 2 || v < lo as i128 || v > hi as i128;
        ints.push(v);
    }
    let mut k = 0;
    let mut int = || {
        k += 1;
        ints[(k - 1) % ints.len()].to_string()
    };
    let sp = if s.chance(40) { " " } else { "" };
    let sel = match s.below(9) {
        0..=2 => int(),
        3 => format!("{}{sp}:", int()),
        4 => format!(":{sp}{}", int()),
        5 => format!("::{sp}{}", int()),
        6 => format!("{}:{}", int(), int()),
        7 => format!("{}{sp}:{sp}{}{sp}:{sp}{}", int(), int(), int()),
        _ => format!("{},{sp}{}", int(), int()),
    };
    let single = !sel.contains([':', ',', ' ']);
    let lit = gen::number_text(s);
    let lit2 = *s.pick(&["9007199254740993", "-9007199254740993", "99999999999999999999", "1e30", "12345678901234567890", "9223372036854775808", "0", "5"]);
    let text = match s.below(14) {
        0..=2 => format!("$[{sel}]"),
        3 => format!("$..[{sel}]"),
        4 => format!("$.a['b', {sel}].c"),
        5 => format!("$[?@[{sel}]]"),
        6 => format!("$[?@.a || !$.b[{sel}]]"),
        7 => format!("$[?count(@[{sel}]) == 1]"),
        8 => format!("$[?@.b[?@[{sel}]]]"),
        9 => format!("$[?count($..a[?@.x[{sel}]]) > {lit}]"),
        10 if single => format!("$[?@[{sel}] == {lit2}]"),
        11 if single => format!("$[?{lit} < $.a[{sel}].b]"),
        12 if single => format!("$[?length(@[{sel}]) == {lit2} && match($[{sel}], 'a')]"),
        13 => format!("$[?@.a == {lit2} && ({lit} != @.b || {lit2} < {lit})]"),
        _ => format!("$[?(@.a && @..[{sel}])]"),
    };
    c.desc = format!("range {lo}..={hi}: {text}");
    c.label_if(text.contains('?'), "in-filter");
    if edge {
        let k = c.desc.clone();
        c.nontrivial(&k);
    }
    check_range(c, lo, hi, &text)
}

thread_local! {
    static RANGED: RefCell<Option<Parsers>> = const { RefCell::new(None) };
}

fn check_range(c: &mut Ctx, lo: i64, hi: i64, text: &str) -> Res {
    RANGED.with(|r| {
        let mut r = r.borrow_mut();
        let ps = r.get_or_insert_with(Parsers::new);
        ps.set_range(lo, hi);
        for p in Sut::ALL {
            let o = recog::Opts { lo, hi, ext: p == Sut::Sing, ..Default::default() };
            let parsed = recog::parse(text, &o);
            let (valid, range_only) = match &parsed {
                Ok(x) => (x.faults.is_empty(), x.faults.iter().all(|f| f.kind == recog::Kind::Range)),
                // -0 and friends
                Err(_) => (false, false),
            };
            if p == Sut::Hand {
                c.label(if valid { "accept" } else { "reject" });
            }
            c.eval();
            match ps.parse(p, text) {
                Ok(Ok(q)) => {
                    if !valid {
                        c.fail(format!("accept:{}", p.name()), format!("{} with range {lo}..={hi} accepts {text:?}", p.name()))?;
                        continue;
                    }
                    // the integers are the ones written
                    match q.segs(&o) {
                        Ok(g) => {
                            let w = &parsed.as_ref().unwrap().segs;
                            if !same_ints(w, &g) {
                                c.fail(format!("ints:{}", p.name()), format!("{} with range {lo}..={hi} reads {text:?} as {}", p.name(), clip(&format!("{g:?}"))))?;
                            }
                        }
                        Err(f) => c.fail(f.key.clone(), format!("{text:?}: {}", f.msg))?,
                    }
                }
                Ok(Err(e)) => {
                    if valid {
                        c.fail(format!("reject:{}", p.name()), format!("{} with range {lo}..={hi} rejects {text:?}: {}", p.name(), e.msg))?;
                    } else if range_only && !matches!(e.kind, EKind::Syntax | EKind::Lexer) {
                        c.fail(format!("kind:{}", p.name()), format!("{} with range {lo}..={hi} reports {text:?} as {:?}: {}", p.name(), e.kind, e.msg))?;
                    }
                }
                Err(f) => c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?,
            }
        }
        Ok(())
    })
}

/// Same indexes and slices (literals are C03's business).
fn same_ints(a: &[Seg], b: &[Seg]) -> bool {
    fn ints(q: &[Seg]) -> Vec<Sel> {
        let mut v = vec![];
        let q = norm_steps(q);
        visit_segs(&q, &mut |s| v.extend(s.sels.iter().filter(|x| matches!(x, Sel::Index(_) | Sel::Slice(..))).cloned()));
        v
    }
    ints(a) == ints(b)
}

fn c26_fixed() -> Fixed {
    let mut v: Fixed = vec![];
    for t in [
        "$[9007199254740991]", "$[-9007199254740991]", "$[9007199254740992]", "$[-9007199254740992]", "$[9007199254740991:]", "$[:9007199254740992]", "$[::9007199254740991]", "$[::-9007199254740992]",
        "$[?@[9007199254740992]]", "$[?@[9007199254740991] == 9007199254740992]", "$[?count(@[9007199254740992:])==0]", "$[?@.a == 9007199254740992]", "$[?@.a == -9007199254740993]", "$[99999999999999999999]",
        "$[9223372036854775807]", "$[-9223372036854775808]", "$[9223372036854775808]", "$[-9223372036854775809]",
    ] {
        for (lo, hi) in [(-9007199254740991i64, 9007199254740991i64), (i64::MIN, i64::MAX), (-3, 3)] {
            v.push(fixed_case(format!("range {lo}..={hi}: {t}"), move |c| check_range(c, lo, hi, t)));
        }
    }
    v
}

// ------------------------------------------------------------------------ C24

const STACK_2M: usize = 2 << 20;

/// Operators nest in the syntax tree and are parsed, evaluated and displayed
/// recursively: a few hundred is what fits a default stack without optimisation.
const OPERANDS: usize = 100;

/// Runs code under test on a thread with the default stack size.
fn small_stack<T: Send>(name: &str, f: impl FnOnce() -> T + Send) -> Result<T, Failure> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(std::env::var("VH_STACK").ok().and_then(|v| v.parse().ok()).unwrap_or(STACK_2M))
            .spawn_scoped(sc, || sut(name, f))
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| Err(Failure::new("thread", "harness thread panicked")))
    })
}

struct Big {
    doc: Value,
    text: String,
    shape: String,
    /// expected locations where known without the model
    count: Option<usize>,
}

fn big_doc(s: &mut Src, n: usize, hit_every: usize, obj: bool) -> Value {
    let kind = s.below(3);
    let cell = |i: usize| -> Value {
        let hit = hit_every > 0 && i % hit_every == hit_every - 1;
        match kind {
            0 => json!(if hit { 1 } else { 0 }),
            1 => {
                if hit {
                    json!({"a": 1})
                } else {
                    json!({"a": 0})
                }
            }
            _ => {
                if hit {
                    json!([1])
                } else {
                    json!([])
                }
            }
        }
    };
    if obj {
        Value::Object((0..n).map(|i| (format!("k{i:06}"), cell(i))).collect())
    } else {
        Value::Array((0..n).map(cell).collect())
    }
}

fn deep_doc(s: &mut Src, d: usize) -> Value {
    let kind = s.below(4);
    let mut v = json!(1);
    for i in 0..d {
        v = match kind {
            0 => json!([v]),
            1 => json!({ "a": v }),
            2 => {
                if i % 2 == 0 {
                    json!([v])
                } else {
                    json!({ "a": v })
                }
            }
            _ => json!([0, v, { "b": 1 }]),
        };
    }
    v
}

fn pick_size(s: &mut Src, lo: usize, hi: usize) -> usize {
    // zero tape byte means small
    let span = hi - lo;
    lo + span * s.below(64) / 63
}

fn big_case(s: &mut Src, thorough: bool) -> Big {
    let max = if thorough { 300_000 } else { 120_000 };
    match s.below(8) {
        0..=2 => {
            let n = pick_size(s, 20_000, max);
            let hit = *s.pick(&[0usize, n, 1000, n / 2, 7]);
            let obj = s.chance(128);
            let doc = big_doc(s, n, hit, obj);
            let mut text = match s.below(18) {
                0 => "$[?@ == 1]".to_string(),
                1 => "$[?@.a == 1]".into(),
                2 => "$[?@[0] == 1]".into(),
                3 => "$[?@.zz]".into(),
                4 => "$[?@ == 1 || @.a == 1 || @[0]]".into(),
                5 => "$..[?@ == 1]".into(),
                6 => "$..a".into(),
                7 => "$..[0]".into(),
                8 => "$.*.a".into(),
                9 => "$[*][0]".into(),
                10 => "$.*[?@ == 1]".into(),
                11 => "$.*..zz".into(),
                12 => "$[::-1][?@ == 1]".into(),
                13 => "$[-1,0,'k000000','zz']".into(),
                14 => "$[?!@.a && @ != 0]".into(),
                15 => "$[?count(@.*) > 1]".into(),
                16 => "$[?match(@.zz, 'a')]".into(),
                _ => "$[*]".into(),
            };
            if s.chance(60) {
                text.push_str(*s.pick(&[".zz", "[0]", "..zz", "[?@.zz]"]));
            }
            Big { shape: format!("{n} children, {} every {hit}", if obj { "object" } else { "array" }), doc, text, count: None }
        }
        3 => {
            let d = pick_size(s, 100, 127);
            let doc = deep_doc(s, d);
            let text = match s.below(10) {
                0 => "$..*".to_string(),
                1 => "$..[0]".into(),
                2 => "$..a".into(),
                3 => "$..[?@.a]".into(),
                4 => "$..[?@[0]]".into(),
                5 => "$..[?@..b]".into(),
                6 => "$..[?count(@..*) > 3]".into(),
                7 => "$..[1]..b".into(),
                8 => "$..[?@ == 1]".into(),
                _ => "$..[?@ == $]".into(),
            };
            Big { shape: format!("{d} levels"), doc, text, count: None }
        }
        4 => {
            let n = pick_size(s, 1000, if thorough { 5000 } else { 3000 });
            let d = s.below(127);
            let doc = deep_doc(s, d);
            let seg = *s.pick(&["[0]", ".a", ".*", "['a',0]", "[1]", "[-1]", "[::2]", "[?@]", "..zz", "[?@.a]"]);
            Big { shape: format!("{n} segments {seg} on {d} levels"), doc, text: format!("${}", seg.repeat(n)), count: None }
        }
        5 => {
            let n = pick_size(s, 1000, if thorough { 8000 } else { 4000 });
            let kind = s.below(5);
            let sels: Vec<String> = (0..n)
                .map(|i| match kind {
                    0 => format!("{i}"),
                    1 => format!("'k{i:06}'"),
                    2 => format!("-{}", i + 1),
                    3 => format!("'zz{i}'"),
                    _ => format!("{}:{}", i, i + 1),
                })
                .collect();
            let m = pick_size(s, 10, 1500);
            let obj = s.chance(128);
            let doc = big_doc(s, m, 3, obj);
            let pre = *s.pick(&["$", "$.zz", "$", "$.."]);
            let pre = if pre == "$.." && m > 100 { "$" } else { pre };
            Big { shape: format!("{n} selectors of kind {kind} on {m} children"), doc, text: format!("{pre}[{}]", sels.join(",")), count: None }
        }
        _ => {
            let n = pick_size(s, 20, OPERANDS);
            let op = *s.pick(&["&&", "||"]);
            let term = *s.pick(&["@.a == 1", "@.zz", "!@.zz", "@ != 0", "match(@.a,'a')", "(@.a == 0)", "@.a", "count(@.*) == 1"]);
            let mix = s.chance(60);
            let mut t = String::from(term);
            for i in 1..n {
                let o = if mix && i % 3 == 0 { if op == "&&" { "||" } else { "&&" } } else { op };
                t.push_str(&format!(" {o} {term}"));
            }
            let m = pick_size(s, 3, 40);
            let obj = s.chance(128);
            let doc = big_doc(s, m, 3, obj);
            Big { shape: format!("{n} operands {term} joined by {op}{}", if mix { " mixed" } else { "" }), doc, text: format!("$[?{t}]"), count: None }
        }
    }
}

fn c24(s: &mut Src, c: &mut Ctx) -> Res {
    let b = big_case(s, c.thorough);
    check_big(c, &b)
}

fn check_big(c: &mut Ctx, b: &Big) -> Res {
    c.desc = format!("{} on {}: {}", b.shape, if show_doc(&b.doc).len() > 80 { "…".into() } else { show_doc(&b.doc) }, clip(&b.text).chars().take(160).collect::<String>());
    let k = c.desc.clone();
    c.nontrivial(&k);
    c.label(b.shape.split([' ', ',']).nth(1).unwrap_or("?"));
    let segs = recog::ast(&b.text, &recog::Opts::default()).expect("valid");
    let env = Env::std();
    let want = find(&env, &segs, &b.doc);
    if let Some(n) = b.count {
        assert_eq!(n, want.len(), "model and closed form disagree");
    }
    c.label_if(!want.is_empty(), "nonempty");
    for p in [Sut::Hand, Sut::Pest, Sut::PestRec] {
        c.eval();
        let t = b.text.clone();
        let d = c.desc.clone();
        let long = segs.len() > 300;
        match small_stack(p.name(), move || {
            let r = standard(p, &t);
            match r {
                // the recursive crate links segments to each other, and displays them recursively
                Ok(Ok(_)) if p == Sut::PestRec && long => Ok(0),
                Ok(Ok(q)) => Ok(q.display().map(|d| d.len()).unwrap_or(0)),
                Ok(Err(e)) => Err(e.msg),
                Err(f) => Err(f.msg),
            }
        }) {
            Ok(Ok(_)) => (),
            Ok(Err(m)) => c.fail(format!("reject:{}", p.name()), format!("{} does not parse {d}: {}", p.name(), clip(&m)))?,
            Err(f) => c.fail(f.key.clone(), format!("{} on {d}", f.msg))?,
        }
    }
    for e in Eng::ALL {
        c.eval();
        let doc = &b.doc;
        let text = &b.text;
        let got = small_stack(e.name(), move || {
            // an environment of its own, so nothing is shared with the caller
            let r = suts::run(e, text, doc);
            r.map(|v| v.into_iter().map(|f| (f.value as *const Value as usize, f.loc)).collect::<Vec<_>>())
        });
        let got = match got {
            Ok(Ok(v)) => v,
            Ok(Err(f)) | Err(f) => {
                c.fail(f.key.clone(), format!("{} on {}", clip(&f.msg), c.desc))?;
                continue;
            }
        };
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.value as *const Value as usize);
        if !same {
            let at = got.iter().zip(&want).position(|(g, w)| g.0 != w.value as *const Value as usize);
            c.fail(
                format!("nodes:{}", e.name()),
                format!("{} on {}: {} nodes expected, {} found, first difference at {at:?}", e.name(), c.desc, want.len(), got.len()),
            )?;
            continue;
        }
        // locations: spot checks at both ends and in the middle
        for i in [0, got.len() / 2, got.len().saturating_sub(1)] {
            if let (Some(g), Some(w)) = (got.get(i), want.get(i)) {
                if g.1 != normalized(&w.path) {
                    c.fail(format!("loc:{}", e.name()), format!("{} on {}: node {i} located at {}, is at {}", e.name(), c.desc, clip(&g.1), clip(&normalized(&w.path))))?;
                }
            }
        }
    }
    Ok(())
}

fn c24_fixed() -> Fixed {
    let mut v: Fixed = vec![];
    for (n, q) in [
        (100_000usize, "$[?@ == 1]"),
        (100_000, "$[?@.a]"),
        (100_000, "$.*.a"),
        (100_000, "$.*[0]"),
        (100_000, "$.*.*"),
        (100_000, "$..zz"),
        (100_000, "$..[?@ == 1]"),
        (100_000, "$.*[?@ == 1]"),
        (100_000, "$[*,*]"),
    ] {
        for obj in [false, true] {
            v.push(fixed_case(format!("{q} on {} of {n} zeros", if obj { "an object" } else { "an array" }), move |c| {
                let doc = if obj {
                    Value::Object((0..n).map(|i| (format!("k{i:06}"), json!(0))).collect())
                } else {
                    Value::Array((0..n).map(|_| json!(0)).collect())
                };
                check_big(c, &Big { doc, text: q.into(), shape: format!("{n} children"), count: None })
            }));
        }
    }
    for q in ["$..*", "$..[0]", "$..[?@[0]]", "$..[?@..*]"] {
        v.push(fixed_case(format!("{q} on 127 levels"), move |c| {
            let mut doc = json!(1);
            for _ in 0..127 {
                doc = json!([doc]);
            }
            check_big(c, &Big { doc, text: q.into(), shape: "127 levels".into(), count: None })
        }));
    }
    for seg in [".a", "[0]", "[*]", "[?@]"] {
        v.push(fixed_case(format!("4000 segments {seg}"), move |c| {
            let mut doc = json!(1);
            for _ in 0..120 {
                doc = if seg == ".a" { json!({ "a": doc }) } else { json!([doc]) };
            }
            check_big(c, &Big { doc, text: format!("${}", seg.repeat(4000)), shape: format!("4000 segments {seg}"), count: Some(0) })
        }));
    }
    for op in ["&&", "||"] {
        v.push(fixed_case(format!("{OPERANDS} operands of {op}"), move |c| {
            let t = vec![if op == "&&" { "@ == 1" } else { "@ == 3" }; OPERANDS].join(&format!(" {op} "));
            check_big(c, &Big { doc: json!([0, 1, 2]), text: format!("$[?{t}]"), shape: format!("{OPERANDS} operands {op}"), count: Some(if op == "&&" { 1 } else { 0 }) })
        }));
    }
    v.push(fixed_case("5000 selectors", |c| {
        let t: Vec<String> = (0..5000).map(|i| format!("'zz{i}'")).collect();
        check_big(c, &Big { doc: json!({"a": 1}), text: format!("$[{}, 'a']", t.join(",")), shape: "5001 selectors".into(), count: Some(1) })
    }));
    v
}
