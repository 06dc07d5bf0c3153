//! Evaluation properties: C06–C10, C13, C14, C22, C23, C25.
use super::common::*;
use crate::suts::{envs, eval, Found, Query};
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            rule: "distinct (query, document) pairs with an extreme index, bound, step or number, a function call, or an empty or odd document",
            case: c06,
            fixed: c06_fixed,
            quick_cases: 160_000,
            thorough_cases: 4_000_000,
            assumptions: &["documents up to a few hundred nodes here (larger: C24)"],
        },
        Prop {
            id: "C07",
            rule: "distinct (query, document) pairs of child segments selecting at least one node or holding a slice",
            case: c07,
            fixed: c07_fixed,
            quick_cases: 2_000_000,
            thorough_cases: 6_000_000,
            assumptions: &["member order is the order serde_json iterates in"],
        },
        Prop {
            id: "C08",
            rule: "distinct (query, document) pairs with a descendant segment that selects at least two nodes",
            case: c08,
            fixed: c08_fixed,
            quick_cases: 1_000_000,
            thorough_cases: 3_000_000,
            assumptions: &["depth-first pre-order with member order as serde_json iterates"],
        },
        Prop {
            id: "C09",
            rule: "distinct (query, document) pairs whose outermost filters see both a true and a false child, or use `$` or a nested filter",
            case: c09,
            fixed: c09_fixed,
            quick_cases: 300_000,
            thorough_cases: 6_000_000,
            assumptions: &["numbers within the interoperable range; patterns outside RFC 9485's settled meaning are left to C12"],
        },
        Prop {
            id: "C10",
            rule: "distinct (operand, operator, operand) triples",
            case: c10,
            fixed: c10_fixed,
            quick_cases: 150_000,
            thorough_cases: 6_000_000,
            assumptions: &["integers within the interoperable range and finite doubles"],
        },
        Prop {
            id: "C13",
            rule: "distinct locations below the root that were evaluated again as queries",
            case: c13,
            fixed: c13_fixed,
            quick_cases: 600_000,
            thorough_cases: 2_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C14",
            rule: "distinct (query, document) pairs selecting at least one node, or mutated texts that start with `$`",
            case: c14,
            fixed: c14_fixed,
            quick_cases: 400_000,
            thorough_cases: 4_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C22",
            rule: "distinct queries with at least one segment",
            case: c22,
            fixed: c22_fixed,
            quick_cases: 500_000,
            thorough_cases: 4_000_000,
            assumptions: &["queries nested in filters are inspected in the five crates whose trees are public"],
        },
        Prop {
            id: "C23",
            rule: "distinct interleavings of at least two live iterators, one of which yields two or more nodes",
            case: c23,
            fixed: c23_fixed,
            quick_cases: 400_000,
            thorough_cases: 2_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C25",
            rule: "distinct (query, cut, document) triples with a non-empty result",
            case: c25,
            fixed: no_fixed,
            quick_cases: 400_000,
            thorough_cases: 2_000_000,
            assumptions: &["the second part contains no `$` inside filters"],
        },
    ]
}

// ----------------------------------------------------------------- generation

pub struct Case {
    pub doc: Value,
    pub segs: Vec<Seg>,
    pub text: String,
}

pub fn case_of(s: &mut Src, d: &DocOpts, q: &QOpts) -> Case {
    let mut doc = gen::doc(s, d);
    let mut segs = query_for(s, &doc, q);
    grow::both(s, &mut segs, &mut doc);
    let text = text_of(s, &segs);
    Case { doc, segs, text }
}

pub fn query_for(s: &mut Src, doc: &Value, q: &QOpts) -> Vec<Seg> {
    let n = gen::count_nodes(doc);
    let mut g = G::aimed(s, doc, sized(n, q));
    g.desc_left = if n > 60 { 1 } else { 2 };
    g.query()
}

/// Big documents get filters that do not multiply the work.
pub fn sized(nodes: usize, q: &QOpts) -> QOpts {
    let mut q = q.clone();
    if nodes > 100 {
        q.filter_depth = q.filter_depth.min(1);
        q.expr_depth = q.expr_depth.min(1);
        q.call_depth = q.call_depth.min(1);
        q.root_paths = false;
    }
    q
}

pub fn text_of(s: &mut Src, segs: &[Seg]) -> String {
    let st = if s.chance(64) { Style::random(s) } else { Style::plain() };
    let mut st = st;
    st.no_ctrl_u = true;
    print::spelled(s, segs, &st).0
}

fn describe(c: &mut Ctx, k: &Case) -> String {
    let d = format!("{} on {}", k.text, show_doc(&k.doc));
    c.desc = d.clone();
    d
}

// ------------------------------------------------------------------------ C06

thread_local! {
    static WIDE: Parsers = {
        let mut p = Parsers::new();
        p.set_range(i64::MIN, i64::MAX);
        p
    };
}

fn extreme_int(s: &mut Src) -> i64 {
    match s.below(6) {
        0 => *s.pick(&[9007199254740991, -9007199254740991, 9007199254740990, -9007199254740990]),
        1 => *s.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1]),
        2 => *s.pick(&[1 << 31, -(1 << 31), 1 << 32, -(1 << 32), (1 << 32) - 1, 1 << 62, -(1 << 62)]),
        3 => 0,
        _ => s.range(-7, 7),
    }
}

fn extreme_seg(s: &mut Src) -> Seg {
    let n = 1 + s.below(3);
    let sels = (0..n)
        .map(|_| match s.below(5) {
            0 => Sel::Index(extreme_int(s)),
            1 => Sel::Wild,
            _ => {
                let o = |s: &mut Src| if s.chance(80) { None } else { Some(extreme_int(s)) };
                let a = o(s);
                let b = o(s);
                let c = o(s);
                Sel::Slice(a, b, c)
            }
        })
        .collect();
    Seg { desc: s.chance(40), sels }
}

fn junk_pattern(s: &mut Src) -> String {
    match s.below(4) {
        0 => s
            .pick(&["(", "[", "a{", "a{2,1}", "*", "\\", "\\q", "[z-a]", "\\p{Xx}", "(?i)a", "a**", "[]", "[^]", "{", "a{9999999999}", "\\d", "\\b", "(?:a)", "a|*", "[[:alpha:]]", "\\u0041", "\\x41", "a{1001}", "(a{100}){100}", "((((a{99}){99}){99}){99})", "\\p{L", "\\P{}", "^", "$", "a^b", "(*)"])
            .to_string(),
        1 => {
            let n = s.below(10);
            (0..n).map(|_| *s.pick(&['a', '(', ')', '[', ']', '{', '}', '*', '+', '?', '|', '\\', '.', '^', '$', '-', ',', '1', '9', 'p', 'P', 'L', '&', '~', '\u{10ffff}', 'é'])).collect()
        }
        _ => {
            let re = gen::regex(s, 2);
            let mut t = gen::re_text(&re);
            t.retain(|c| !gen::is_ctrl_only(c));
            if s.chance(100) && !t.is_empty() {
                let mut cs: Vec<char> = t.chars().collect();
                let i = s.below(cs.len());
                cs.remove(i);
                t = cs.into_iter().collect();
            }
            t
        }
    }
}

fn c06(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 1 + s.below(4), width: 1 + s.below(6), odd: 60, ctrl: 20, extreme: true, records: 60 };
    let mut doc = gen::doc(s, &d);
    let q = QOpts { filter: 110, filter_depth: 2, odd: 40, expr_depth: 2, ..Default::default() };
    let mut segs = query_for(s, &doc, &q);
    let mut interesting = false;
    match s.below(8) {
        0..=1 => {
            let i = s.below(segs.len() + 1);
            segs.insert(i, extreme_seg(s));
            c.label("extreme-ints");
            interesting = true;
        }
        2 => {
            let pat = junk_pattern(s);
            let name = if s.chance(128) { "match" } else { "search" };
            let mut g = G::aimed(s, &doc, sized(gen::count_nodes(&doc), &q));
            let a = g.singular_path();
            let e = Expr::Call(name.into(), vec![a, Expr::Str(pat)]);
            segs.push(Seg { desc: s.chance(80), sels: vec![Sel::Filter(if s.chance(60) { Expr::Not(Box::new(e)) } else { e })] });
            c.label("junk-pattern");
            interesting = true;
        }
        3 => {
            // comparisons between whatever the document holds
            let op = *s.pick(&Op::ALL);
            let mut g = G::aimed(s, &doc, sized(gen::count_nodes(&doc), &q));
            let a = g.singular_path();
            let b = if g.s.chance(128) { g.literal() } else { g.singular_path() };
            segs.push(Seg { desc: s.chance(128), sels: vec![Sel::Filter(Expr::Cmp(Box::new(a), op, Box::new(b)))] });
            interesting = true;
        }
        _ => (),
    }
    let f = features(&segs);
    label_features(c, &f);
    grow::both(s, &mut segs, &mut doc);
    let text = text_of(s, &segs);
    let k = Case { doc, segs, text };
    let d = describe(c, &k);
    if interesting || f.call || !k.doc.is_array() && !k.doc.is_object() {
        c.nontrivial(&d);
    }
    if too_heavy(c, &k.segs, &k.doc) {
        return Ok(());
    }
    check_total(c, &k.text, &k.doc)
}

fn check_total(c: &mut Ctx, text: &str, doc: &Value) -> Res {
    let std = recog::accepts(text, &recog::Opts::default());
    for e in Eng::ALL {
        c.eval();
        let parsed = if std { standard(e.sut(), text) } else { WIDE.with(|w| w.parse(e.sut(), text)) };
        let q = match parsed {
            Ok(Ok(q)) => q,
            // acceptance is C01's business
            Ok(Err(_)) => {
                c.label("rejected");
                continue;
            }
            Err(f) => {
                c.fail(f.key.clone(), format!("{} parsing {text:?}", f.msg))?;
                continue;
            }
        };
        match eval(e, &q, doc, envs()) {
            Ok(Ok(ns)) => {
                if ns.iter().any(|n| n.loc.is_empty()) {
                    c.fail(format!("emptyloc:{}", e.name()), format!("{} gave an empty location for {text:?}", e.name()))?;
                }
            }
            Ok(Err(m)) => c.fail(format!("evalerr:{}", e.name()), format!("{} failed evaluating {text:?} on {}: {m}", e.name(), show_doc(doc)))?,
            Err(f) => c.fail(f.key.clone(), format!("{} evaluating {text:?} on {}", f.msg, show_doc(doc)))?,
        }
    }
    Ok(())
}

fn c06_fixed() -> Fixed {
    [
        ("$[?@==1]", "[18446744073709551615,9223372036854775808]"),
        ("$[?@<$[1]]", "[18446744073709551615,1e308,-1e308]"),
        ("$[?value(@..*)==1]", "[[18446744073709551615],{\"a\":9223372036854775808}]"),
        ("$[?@==$]", "[[18446744073709551615]]"),
        ("$[::0]", "[1,2]"),
        ("$[9007199254740991:-9007199254740991:-9007199254740991]", "[1,2,3]"),
        ("$[-9007199254740991:9007199254740991:9007199254740991]", "[1,2,3]"),
        ("$[9007199254740991::-1]", "[]"),
        ("$[-9223372036854775808]", "[1]"),
        ("$[9223372036854775807]", "[1]"),
        ("$[-9223372036854775808:9223372036854775807:9223372036854775807]", "[1,2,3]"),
        ("$[9223372036854775807:-9223372036854775808:-9223372036854775808]", "[1,2,3]"),
        ("$[5:7]", "[1,2]"),
        ("$[-5::-1]", "[1,2]"),
        ("$[?match(@,'(')]", "[\"a\"]"),
        ("$[?match(@,@)]", "[\"(\",1,null]"),
        ("$[?search($,@.a)]", "[{\"a\":\"[\"}]"),
        ("$[?length(@)<=length($)]", "[null,1,[],{},\"\"]"),
        ("$..[?@<@]", "{\"\":{\"\":{}},\"a\":[[]]}"),
        ("$[?!@.a]", "1"),
        ("$..*", "null"),
    ]
    .iter()
    .map(|(q, d)| {
        let (q, d) = (q.to_string(), d.to_string());
        fixed_case(format!("{q} on {d}"), move |c| {
            let doc: Value = serde_json::from_str(&d).unwrap();
            check_total(c, &q, &doc)
        })
    })
    .collect()
}

// ------------------------------------------------------------------------ C07

fn c07(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 1 + s.below(3), width: 1 + s.below(9), odd: 40, ctrl: 20, extreme: false, records: 60 };
    let q = QOpts { filter: 0, filter_depth: 0, desc: 0, max_sels: 4, odd: 40, ctrl: 20, ..Default::default() };
    let mut doc = gen::doc(s, &d);
    let mut segs = if s.chance(60) {
        // slice-centred: walk to some array, then slice it
        let mut g = G::aimed(s, &doc, q.clone());
        let mut v = vec![];
        for _ in 0..g.s.below(3) {
            v.push(Seg { desc: false, sels: vec![Sel::Wild] });
        }
        let n = 1 + g.s.below(2);
        let sels = (0..n).map(|_| g.slice()).collect();
        v.push(Seg { desc: false, sels });
        v
    } else {
        query_for(s, &doc, &q)
    };
    grow::both(s, &mut segs, &mut doc);
    let text = text_of(s, &segs);
    let k = Case { doc, segs, text };
    let d = describe(c, &k);
    let f = features(&k.segs);
    label_features(c, &f);
    let Some(want) = model_find(&k.segs, &k.doc) else { return Ok(()) };
    if !want.is_empty() && !k.segs.is_empty() || f.slice {
        c.nontrivial(&d);
    }
    c.label_if(want.is_empty(), "no-nodes");
    c.label_if(k.doc.is_object(), "object-root");
    check_against_model(c, &k.text, &want, &k.doc, "child")
}

fn c07_fixed() -> Fixed {
    // every slice with small bounds on arrays of length 0..4, one text per case
    let mut v: Fixed = fixed_eval(&[
        ("$[5:7]", "[0,1]"),
        ("$[2:1]", "[0,1,2]"),
        ("$[-5::-1]", "[0,1]"),
        ("$[-1:-5:-1]", "[0,1,2]"),
        ("$[5:0:-2]", "[0,1,2,3,4]"),
        ("$[1:1]", "[0,1,2]"),
        ("$[0]", "{\"0\":1}"),
        ("$['0']", "[1]"),
        ("$['a','a',0,*]", "{\"a\":1,\"b\":2}"),
        ("$[0,0,-1,*]", "[1,2]"),
        ("$['\\'']", "{\"'\":1}"),
        ("$['\\u0000']", "{\"\\u0000\":1}"),
        ("$[*][*]", "{\"a\":[1,2],\"b\":{\"c\":3},\"d\":4}"),
        ("$[::0]", "[1]"),
        ("$.length", "[1,2]"),
    ]);
    v.extend(edges(&["$.a[{}]", "$.b[0][{}]"]));
    v.push(fixed_case("all small slices", |c| {
        let b: Vec<Option<i64>> = std::iter::once(None).chain((-6..=6).map(Some)).collect();
        let st: Vec<Option<i64>> = [None, Some(0), Some(1), Some(2), Some(3), Some(-1), Some(-2), Some(-3), Some(7), Some(-7)].to_vec();
        let docs: Vec<Value> = (0..5).map(|n| Value::Array((0..n).map(Value::from).collect())).collect();
        for a in &b {
            for e in &b {
                for t in &st {
                    let segs = vec![Seg { desc: false, sels: vec![Sel::Slice(*a, *e, *t)] }];
                    let text = print::plain(&segs);
                    for e in Eng::ALL {
                        let q = match standard(e.sut(), &text)? {
                            Ok(q) => q,
                            Err(m) => return c.fail(format!("reject:{}", e.name()), format!("{text:?}: {}", m.msg)),
                        };
                        for doc in &docs {
                            let want = model_find(&segs, doc).unwrap();
                            c.eval();
                            let got = eval(e, &q, doc, envs())?.map_err(|m| Failure::new("evalerr", m))?;
                            if !same_nodes(&want, &got) {
                                c.fail(
                                    format!("nodes:{}:slice", e.name()),
                                    format!("{} selects wrong nodes for {text:?} on {doc}: expected {} got {}", e.name(), show_paths(&want), show_found(&got)),
                                )?;
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }));
    v.extend(wide(&[
        ("$[127,128,255,256,32767,32768,65535,65536,69999,70000]", "numbers"),
        ("$[-128,-129,-256,-257,-32768,-32769,-65535,-65536,-65537,-70000,-70001]", "numbers"),
        ("$[65530:65540]", "numbers"),
        ("$[-65540:-65530]", "numbers"),
        ("$[-65530:-65540:-1]", "numbers"),
        ("$[::32769]", "numbers"),
        ("$[::-32769]", "numbers"),
        ("$[:-69990, 69990:]", "numbers"),
        ("$[69990::65536]", "numbers"),
        ("$['k00000', 'k32768', 'k65536', 'k69999', 'k70000']", "members"),
        ("$.*", "members"),
        ("$[*][0]", "arrays"),
        ("$[*, -1, ::9999]", "numbers"),
    ]));
    v
}

// ------------------------------------------------------------------------ C08

fn c08(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 2 + s.below(5), width: 2 + s.below(4), odd: 30, ctrl: 6, extreme: false, records: 60 };
    let q = QOpts { filter: 16, filter_depth: 1, expr_depth: 1, desc: 120, regex: false, ..Default::default() };
    let mut doc = gen::doc(s, &d);
    let mut segs = query_for(s, &doc, &q);
    if !segs.iter().any(|x| x.desc) {
        if segs.is_empty() {
            segs.push(Seg { desc: true, sels: vec![Sel::Wild] });
        } else {
            // the last one most often: what it selects stays selected
            let i = if s.chance(70) { s.below(segs.len()) } else { segs.len() - 1 };
            segs[i].desc = true;
        }
    }
    grow::both(s, &mut segs, &mut doc);
    let text = text_of(s, &segs);
    let k = Case { doc, segs, text };
    let d = describe(c, &k);
    let f = features(&k.segs);
    label_features(c, &f);
    if regex_unsettled(&k.segs, &k.doc) {
        c.exclude("pattern outside settled I-Regexp meaning");
        return Ok(());
    }
    let Some(want) = model_find(&k.segs, &k.doc) else { return Ok(()) };
    if want.len() >= 2 {
        c.nontrivial(&d);
    }
    c.label_if(k.segs.iter().filter(|x| x.desc).count() > 1, "two-descendants");
    c.label_if(want.len() > 20, "many-nodes");
    check_against_model(c, &k.text, &want, &k.doc, "desc")
}

fn c08_fixed() -> Fixed {
    let mut v: Fixed = fixed_eval(&[
        ("$..*", "[[1,[2,3]],{\"a\":{\"b\":[4]}},5]"),
        ("$..[0]", "[[[1],2],[3]]"),
        ("$..a", "{\"a\":{\"a\":{\"a\":1}},\"b\":[{\"a\":2}]}"),
        ("$..['a','b']", "{\"a\":{\"b\":1,\"a\":2},\"b\":{\"a\":3}}"),
        ("$..[*]..[*]", "[[1,[2]],[3]]"),
        ("$..a..b", "{\"a\":{\"a\":{\"b\":1}}}"),
        ("$..[-1,0]", "[[1,2],[3,[4,5]]]"),
        ("$..[::-1]", "[[1,2],[3,[4,5]]]"),
        ("$..[?@.a]", "[{\"a\":[{\"a\":1}]}]"),
        ("$..*", "1"),
        ("$.a..b[0]", "{\"a\":{\"b\":[1],\"c\":[{\"b\":[2]}]}}"),
    ]);
    v.extend(wide(&[
        ("$..[65536]", "around"),
        ("$..[-65537]", "around"),
        ("$..*", "around"),
        ("$..k65536", "around"),
    ]));
    v.extend(edges(&["$..[{}]"]));
    v
}

// ------------------------------------------------------------------------ C09

fn c09(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 2 + s.below(3), width: 1 + s.below(5), odd: 16, ctrl: 4, extreme: s.chance(50), records: 190 };
    let q = QOpts { filter: 40, filter_depth: 3, expr_depth: 3, desc: 24, max_segs: 3, ..Default::default() };
    let mut doc = gen::doc(s, &d);
    let n = gen::count_nodes(&doc);
    let mut g = G::aimed(s, &doc, sized(n, &q));
    g.desc_left = if n > 60 { 1 } else { 2 };
    let mut segs: Vec<Seg> = vec![];
    for _ in 0..g.s.below(3) {
        let cur = g.cur.clone();
        let x = g.seg(1);
        if g.cur.iter().any(|v| v.is_array() || v.is_object()) {
            segs.push(x);
        } else {
            g.cur = cur;
        }
    }
    let e = g.filter(2);
    let mut sels = vec![Sel::Filter(e)];
    if g.s.chance(40) {
        let x = g.sel(2);
        sels.push(x);
    }
    let desc = g.s.chance(60);
    segs.push(Seg { desc, sels });
    if s.chance(40) {
        let mut g = G::new(s, gen::pool(&doc), q.clone());
        let x = g.seg(1);
        segs.push(x);
    }
    grow::both(s, &mut segs, &mut doc);
    let text = text_of(s, &segs);
    let k = Case { doc, segs, text };
    let d = describe(c, &k);
    let f = features(&k.segs);
    label_features(c, &f);
    if regex_unsettled(&k.segs, &k.doc) {
        c.exclude("pattern outside settled I-Regexp meaning");
        return Ok(());
    }
    let Some(want) = model_find(&k.segs, &k.doc) else { return Ok(()) };
    // does the filter discriminate?
    let wild: Vec<Seg> = {
        let mut w = k.segs.clone();
        for x in &mut w {
            for y in &mut x.sels {
                if matches!(y, Sel::Filter(_)) {
                    *y = Sel::Wild;
                }
            }
        }
        w
    };
    let all = model_find(&wild, &k.doc).map(|v| v.len()).unwrap_or(0);
    c.label_if(!want.is_empty() && want.len() < all, "discriminates");
    c.label_if(want.is_empty(), "no-nodes");
    if (!want.is_empty() && want.len() < all) || ((f.root_in_filter || f.nested_filter) && !want.is_empty()) {
        c.nontrivial(&d);
    }
    check_against_model(c, &k.text, &want, &k.doc, "filter")
}

fn c09_fixed() -> Fixed {
    let mut v: Fixed = fixed_eval(&[
        ("$.a[?@[?@.b==$.x]]", "{\"x\":1,\"a\":[[{\"b\":1}],[{\"b\":2}]]}"),
        ("$.a[?@[?$.x]]", "{\"x\":1,\"a\":[[1],[]]}"),
        ("$.a[?count(@[?@==$.x])==1]", "{\"x\":1,\"a\":[[1,2],[2,2]]}"),
        ("$.a[?@[?@[?@==$.x]]]", "{\"x\":1,\"a\":[[[1]],[[2]]]}"),
        ("$..[?@.v==$.v]", "{\"v\":1,\"a\":{\"v\":1,\"b\":{\"v\":1}}}"),
        ("$[?@.a]", "[{\"a\":null},{\"a\":false},{\"a\":0},{\"a\":\"\"},{\"a\":[]},{}]"),
        ("$[?!@.a]", "[{\"a\":null},{\"b\":1},1]"),
        ("$[?@]", "[null,false,0]"),
        ("$[?$]", "[1]"),
        ("$[?@.a&&@.b||@.c]", "[{\"a\":1},{\"a\":1,\"b\":1},{\"c\":1}]"),
        ("$[?@.a&&(@.b||@.c)]", "[{\"a\":1},{\"a\":1,\"b\":1},{\"c\":1}]"),
        ("$[?!(@.a||@.b)]", "[{\"a\":1},{},{\"b\":1}]"),
        ("$[?@.a]", "{\"x\":{\"a\":1},\"y\":{},\"z\":{\"a\":2}}"),
        ("$[?@>1]", "1"),
        ("$[?@.*]", "[[],[1],{},{\"a\":1},1]"),
        ("$[?@..a]", "[{\"b\":{\"a\":1}},{\"b\":1}]"),
        ("$[?@[?@>1]]", "[[1],[2],{\"a\":3}]"),
        ("$[?@.a==$[0].a]", "[{\"a\":1},{\"a\":2},{\"a\":1}]"),
        ("$[?length(@[?@.k==$[0].k][0])==1]", "[{\"k\":1}]").clone(),
    ]
    .iter()
    .filter(|(q, _)| recog::accepts(q, &recog::Opts::default()))
    .copied()
    .collect::<Vec<_>>()
    .as_slice());
    v.extend(wide(&[
        ("$[?@ >= 65530 && @ < 65540]", "numbers"),
        ("$[?@ == 69999 || @ == 32768]", "members"),
        ("$[?@[0] == 65536]", "arrays"),
        ("$[?@[65536] == 65536]", "around"),
        ("$[?@[?@ == 65537]]", "around"),
    ]));
    v.extend(edges(&["$[?@[{}]]", "$.b[?@[{}]==$.n]", "$.b[?@[{}]==$.a[{}]]"]));
    v
}

// ------------------------------------------------------------------------ C10

/// A value close to `v`: equal, equal in value but not in spelling, or nearly.
fn near(s: &mut Src, v: &Value) -> Value {
    match v {
        Value::Number(n) => match s.below(6) {
            0..=1 => v.clone(),
            2..=3 => {
                if let Some(i) = n.as_i64() {
                    gen::fnum(i as f64)
                } else {
                    let f = n.as_f64().unwrap();
                    if f == f.trunc() && f.abs() < 9e15 {
                        Value::from(f as i64)
                    } else {
                        v.clone()
                    }
                }
            }
            4 => gen::fnum(n.as_f64().unwrap() + *s.pick(&[1.0, -1.0, 0.5, 1e-9])),
            _ => Value::String(n.to_string()),
        },
        Value::String(t) => match s.below(5) {
            0..=1 => v.clone(),
            2 => Value::String(format!("{t}{}", s.pick(&["a", "é", "\u{0}", "\u{ffff}", "\u{10000}", "'", "\""]))),
            3 => Value::String(t.chars().take(t.chars().count().saturating_sub(1)).collect()),
            _ => Value::String(t.to_uppercase()),
        },
        Value::Array(a) => {
            let mut b: Vec<Value> = a.iter().map(|x| near(s, x)).collect();
            match s.below(6) {
                0 => b.push(Value::Null),
                1 => {
                    b.pop();
                }
                2 => b.reverse(),
                _ => (),
            }
            Value::Array(b)
        }
        Value::Object(o) => {
            let mut items: Vec<(String, Value)> = o.iter().map(|(k, x)| (k.clone(), near(s, x))).collect();
            match s.below(6) {
                0 => items.reverse(),
                1 => {
                    items.pop();
                }
                2 => items.push(("zz".into(), Value::Null)),
                3 => {
                    if let Some(x) = items.first_mut() {
                        x.0 = "zz".into();
                    }
                }
                _ => (),
            }
            Value::Object(items.into_iter().collect())
        }
        v => match s.below(3) {
            0 => Value::String(v.to_string()),
            _ => v.clone(),
        },
    }
}

fn cmp_scalar(s: &mut Src) -> Value {
    match s.below(4) {
        0 => Value::String(
            s.pick(&["", "a", "b", "ab", "aa", "A", "é", "e\u{301}", "\u{ffff}", "\u{10000}", "😀", "z", "10", "9", "null", "true", "\u{0}", "'", "\"", "\\", "~", "\u{7f}"]).to_string(),
        ),
        1 => gen::fnum(gen::float(s)),
        2 if s.chance(40) => match s.below(6) {
            0 => Value::from(u64::MAX - s.below(3) as u64),
            1 => Value::from((1u64 << 63) + 2048 * s.below(3) as u64),
            2 => Value::from(i64::MAX - 512 * s.below(4) as i64),
            3 => Value::from(i64::MIN + 1024 * s.below(3) as i64),
            4 => Value::from(1u64 << (53 + s.below(11))),
            _ => gen::fnum((1u64 << (53 + s.below(11))) as f64),
        },
        _ => gen::scalar(s, &DocOpts::default()),
    }
}

fn cmp_value(s: &mut Src) -> Value {
    match s.below(8) {
        0..=4 => cmp_scalar(s),
        5 => gen::value(s, &DocOpts { depth: 3, width: 3, ..Default::default() }, 3),
        6 => Value::Array((0..s.below(4)).map(|_| cmp_scalar(s)).collect()),
        _ => {
            let n = s.below(4);
            Value::Object((0..n).map(|_| (gen::KEYS[s.below(4)].to_string(), cmp_scalar(s))).collect())
        }
    }
}

fn c10(s: &mut Src, c: &mut Ctx) -> Res {
    // a document of pairs
    let n = 1 + s.below(6);
    let mut rows = vec![];
    for _ in 0..n {
        let l = cmp_value(s);
        let r = if s.chance(150) { near(s, &l) } else { cmp_value(s) };
        let mut m = serde_json::Map::new();
        if !s.chance(20) {
            m.insert("l".into(), l);
        }
        if !s.chance(20) {
            m.insert("r".into(), r);
        }
        rows.push(Value::Object(m));
    }
    grow::values(s, &mut rows);
    if let Some(t) = grow::took() {
        c.label(t);
    }
    let doc = Value::Array(rows);
    let name = |n: &str| vec![Seg { desc: false, sels: vec![Sel::Name(n.into())] }];
    let p = gen::pool(&doc);
    let operand = |s: &mut Src, side: &str| -> Expr {
        match s.below(16) {
            0..=8 => Expr::Path(false, name(side)),
            9..=11 => {
                let mut g = G::new(s, p.clone(), QOpts::default());
                g.literal()
            }
            12 => Expr::Call("value".into(), vec![Expr::Path(false, vec![Seg { desc: false, sels: vec![Sel::Name(side.into())] }])]),
            13 => Expr::Call("length".into(), vec![Expr::Path(false, name(side))]),
            14 => {
                let mut v = vec![Seg { desc: false, sels: vec![Sel::Index(s.range(-2, 2))] }];
                v.extend(name(side));
                Expr::Path(true, v)
            }
            _ => Expr::Call("count".into(), vec![Expr::Path(false, vec![Seg { desc: false, sels: vec![Sel::Name(side.into())] }, Seg { desc: false, sels: vec![Sel::Wild] }])]),
        }
    };
    let a = operand(s, "l");
    let b = operand(s, "r");
    let mut sets: HashMap<(&'static str, bool, &'static str), Vec<usize>> = HashMap::new();
    let base = print::plain(&[Seg { desc: false, sels: vec![Sel::Filter(Expr::Cmp(Box::new(a.clone()), Op::Eq, Box::new(b.clone())))] }]);
    c.desc = format!("{base} (all operators, both ways round) on {}", show_doc(&doc));
    for swap in [false, true] {
        for op in Op::ALL {
            let (x, y) = if swap { (b.clone(), a.clone()) } else { (a.clone(), b.clone()) };
            let e = Expr::Cmp(Box::new(x), op, Box::new(y));
            let segs = vec![Seg { desc: false, sels: vec![Sel::Filter(e)] }];
            let st = if s.chance(40) { Style::random(s) } else { Style::plain() };
            let text = print::spelled(s, &segs, &st).0;
            let Some(want) = model_find(&segs, &doc) else { return Ok(()) };
            for n in &want {
                if let Some(Part::Index(i)) = n.path.first() {
                    c.label(&format!("true:{}", op.text()));
                    let row = &doc[*i];
                    c.nontrivial(&format!("{} [{op:?}] {}", text, row));
                }
            }
            if want.len() < n {
                c.label(&format!("false:{}", op.text()));
            }
            for e in Eng::ALL {
                c.eval();
                let got = match suts::run(e, &text, &doc) {
                    Ok(g) => g,
                    Err(f) => {
                        c.fail(f.key.clone(), format!("{} on {}", f.msg, show_doc(&doc)))?;
                        continue;
                    }
                };
                let ix: Vec<usize> = got
                    .iter()
                    .filter_map(|g| doc.as_array().unwrap().iter().position(|r| std::ptr::eq(r, g.value)))
                    .collect();
                if !same_nodes(&want, &got) {
                    let wi: Vec<String> = want.iter().map(|w| normalized(&w.path)).collect();
                    let diff: Vec<String> = (0..n).filter(|i| ix.contains(i) != wi.contains(&format!("$[{i}]"))).map(|i| doc[i].to_string()).collect();
                    c.fail(
                        format!("cmp:{}", e.name()),
                        format!("{} decides {text:?} wrongly for {}\n  expected rows {wi:?}, got {ix:?} of {}", e.name(), diff.join(" and "), show_doc(&doc)),
                    )?;
                }
                sets.insert((e.name(), swap, op.text()), ix);
            }
        }
    }
    // the relations the statement names, on the engines' own answers
    for e in Eng::ALL {
        for i in 0..n {
            let t = |swap: bool, op: Op| sets.get(&(e.name(), swap, op.text())).map(|v| v.contains(&i));
            for sw in [false, true] {
                let (Some(eq), Some(ne), Some(lt), Some(le), Some(gt), Some(ge)) =
                    (t(sw, Op::Eq), t(sw, Op::Ne), t(sw, Op::Lt), t(sw, Op::Le), t(sw, Op::Gt), t(sw, Op::Ge))
                else {
                    continue;
                };
                let ok = eq != ne
                    && le == (lt || eq)
                    && ge == (gt || eq)
                    && !(lt && gt)
                    && !(lt && eq)
                    && t(!sw, Op::Gt) == Some(lt)
                    && t(!sw, Op::Ge) == Some(le)
                    && t(!sw, Op::Eq) == Some(eq);
                if !ok {
                    c.fail(format!("cmp-laws:{}", e.name()), format!("{}: operators disagree for {base:?} on {}", e.name(), doc[i]))?;
                }
            }
        }
    }
    Ok(())
}

fn c10_fixed() -> Fixed {
    fixed_eval(&[
        ("$[?@.a==@.b]", "[{},{\"a\":1},{\"b\":null},{\"a\":[1],\"b\":[1.0]},{\"a\":{\"x\":1},\"b\":{\"x\":1.0}},{\"a\":1,\"b\":1.0},{\"a\":-0.0,\"b\":0}]"),
        ("$[?@.a!=@.b]", "[{},{\"a\":1},{\"b\":null},{\"a\":[1],\"b\":[1.0]},{\"a\":[[[2]]],\"b\":[[[2.0]]]}]"),
        ("$[?@.a<=@.b]", "[{},{\"a\":1},{\"a\":null,\"b\":null},{\"a\":true,\"b\":true},{\"a\":false,\"b\":true},{\"a\":[1],\"b\":[1]},{\"a\":[1],\"b\":[2]}]"),
        ("$[?@.a<@.b]", "[{\"a\":\"\\uffff\",\"b\":\"\\ud800\\udc00\"},{\"a\":\"\\ud800\\udc00\",\"b\":\"\\uffff\"},{\"a\":\"a\",\"b\":\"ab\"},{\"a\":1,\"b\":1.5},{\"a\":\"1\",\"b\":2}]"),
        ("$[?@==1e2]", "[100,100.0,1e2,\"1e2\"]"),
        ("$[?@==-0.5]", "[-0.5,0.5,0,-5e-1]"),
        ("$[?@<-0.1]", "[-0.5,0.5,0,-1]"),
        ("$[?@==1e20]", "[1e20,100000000000000000000,9223372036854775807]"),
        ("$[?@<1e30]", "[1e20,9007199254740991,1e300]"),
        ("$[?@==-0]", "[0,-0.0,0.0,1]"),
        ("$[?@==0.1]", "[0.1,1e-1,0.10000000000000001,0.2]"),
        ("$[?@==null]", "[null,false,0,\"\",\"null\",[],{}]"),
        ("$[?@.a==null]", "[{\"a\":null},{},1]"),
        ("$[?@==true]", "[true,1,\"true\",[true]]"),
        ("$[?@==$[0]]", "[{\"a\":1,\"b\":2},{\"b\":2,\"a\":1},{\"a\":1},{\"a\":1,\"b\":2,\"c\":3}]"),
        ("$[?9007199254740991==@]", "[9007199254740991,9007199254740990,9007199254740991.0]"),
    ])
}

// ------------------------------------------------------------------------ C13

/// The nodes' locations are the model's, and each selects exactly its node.
fn check_locations(c: &mut Ctx, s: &mut Src, text: &str, doc: &Value) -> Res {
    // path of every value, by address
    let mut by_addr: HashMap<*const Value, Vec<Part>> = HashMap::new();
    let mut all = vec![];
    descend(&MNode { value: doc, path: vec![] }, &mut all);
    for n in &all {
        by_addr.insert(n.value as *const Value, n.path.clone());
    }
    for e in Eng::ALL {
        c.eval();
        let got = match suts::run(e, text, doc) {
            Ok(g) => g,
            Err(f) => {
                c.fail(f.key.clone(), format!("{} on {}", f.msg, show_doc(doc)))?;
                continue;
            }
        };
        let mut locs: HashMap<String, *const Value> = HashMap::new();
        for g in &got {
            let Some(parts) = by_addr.get(&(g.value as *const Value)) else {
                c.fail(format!("foreign:{}", e.name()), format!("{} returned a value that is not part of the document for {text:?} on {}", e.name(), show_doc(doc)))?;
                continue;
            };
            if parts.is_empty() {
                c.label("root-node");
            }
            let want = normalized(parts);
            if g.loc != want {
                c.fail(
                    format!("loc:{}", e.name()),
                    format!("{} gives location {:?} instead of {want:?} for a node of {text:?} on {}", e.name(), g.loc, show_doc(doc)),
                )?;
                continue;
            }
            if let Some(p) = &g.parts {
                if p != parts {
                    c.fail(format!("parts:{}", e.name()), format!("{} gives location parts {p:?} instead of {parts:?} for {text:?}", e.name()))?;
                }
            }
            if let Some(prev) = locs.insert(g.loc.clone(), g.value as *const Value) {
                if prev != g.value as *const Value {
                    c.fail(format!("dup:{}", e.name()), format!("{}: two nodes share location {:?} for {text:?}", e.name(), g.loc))?;
                }
            }
        }
        // re-evaluate a few
        let k = got.len().min(3);
        for _ in 0..k {
            let g = &got[s.below(got.len())];
            if by_addr.get(&(g.value as *const Value)).is_some_and(|p| !p.is_empty()) {
                c.nontrivial(&g.loc);
            }
            c.eval();
            match suts::run(e, &g.loc, doc) {
                Ok(r) => {
                    if r.len() != 1 || !std::ptr::eq(r[0].value, g.value) {
                        c.fail(
                            format!("reeval:{}", e.name()),
                            format!("{}: location {:?} evaluated as a query selects {} instead of that node on {}", e.name(), g.loc, show_found(&r), show_doc(doc)),
                        )?;
                    }
                }
                Err(f) => c.fail(format!("reeval:{}", e.name()), format!("{}: location {:?} is not usable as a query: {}", e.name(), g.loc, f.msg))?,
            }
        }
    }
    Ok(())
}

fn c13(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 1 + s.below(4), width: 1 + s.below(5), odd: 120, ctrl: 60, extreme: false, records: 60 };
    let mut doc = gen::doc(s, &d);
    if s.chance(60) {
        // random unicode member names
        let n = 1 + s.below(4);
        let mut m = serde_json::Map::new();
        for _ in 0..n {
            let l = s.below(4);
            let k: String = (0..l)
                .map(|_| {
                    let u = match s.below(5) {
                        0 => s.below(0x20) as u32,
                        1 => 0x20 + s.below(0x60) as u32,
                        2 => 0x80 + s.below(0x700) as u32,
                        3 => s.below(0x110000) as u32,
                        _ => *s.pick(&[0x27u32, 0x5c, 0x22, 0x7f, 0x2028, 0xfeff, 0x5b, 0x5d, 0x2e, 0x24]),
                    };
                    char::from_u32(u).unwrap_or('\u{fffd}')
                })
                .collect();
            m.insert(k, gen::value(s, &d, 1));
        }
        let inner = Value::Object(m);
        doc = if s.chance(128) { inner } else { Value::Array(vec![doc, inner]) };
    }
    let q = QOpts { filter: 30, filter_depth: 1, expr_depth: 1, desc: 110, regex: false, odd: 60, ctrl: 30, ..Default::default() };
    let mut segs = query_for(s, &doc, &q);
    grow::both(s, &mut segs, &mut doc);
    let text = text_of(s, &segs);
    let k = Case { doc, segs, text };
    describe(c, &k);
    label_features(c, &features(&k.segs));
    if too_heavy(c, &k.segs, &k.doc) {
        return Ok(());
    }
    check_locations(c, s, &k.text, &k.doc)
}

fn c13_fixed() -> Fixed {
    let mut v: Fixed = [
        ("$..*", "{\"'\":{\"\\\\\":1,\"\\\"\":2},\"\\n\":[1,{\"\":2}],\"\\u0000\":1,\"\\u001f\":{\"\\t\":1},\"\\u007f\":3,\"\\b\\f\\r\":4,\"a'b\":{\"a\\\\'b\":1}}"),
        ("$[*]", "{\"a'\":1,\"a\":2,\"'a\":3}"),
        ("$", "1"),
        ("$[-1,-2,0]", "[1,2]"),
        ("$[::-1]", "[1,2,3]"),
        ("$[?@.a][-1]", "[[1],{\"a\":1}]"),
        ("$..[?@]", "[[1,{\"☺\":1}],{\"\\u001b\":[true]}]"),
    ]
    .iter()
    .map(|(q, d)| {
        let (q, d) = (q.to_string(), d.to_string());
        fixed_case(format!("{q} on {d}"), move |c| {
            let doc: Value = serde_json::from_str(&d).unwrap();
            for k in 0..6 {
                let mut s = Src::random(k);
                check_locations(c, &mut s, &q, &doc)?;
            }
            Ok(())
        })
    })
    .collect();
    v.extend(wide(&[
        ("$[::-7]", "numbers"),
        ("$[?@ > 32000]", "numbers"),
        ("$..*", "around"),
        ("$[*][-32769]", "around"),
    ]));
    v.extend(edges(&["$..[{}]", "$.a[{}]"]));
    v
}

// ------------------------------------------------------------------------ C14

fn check_agree(c: &mut Ctx, text: &str, doc: &Value) -> Result<Option<usize>, Failure> {
    #[allow(clippy::type_complexity)]
    let mut res: Vec<(Eng, Option<Vec<Found>>)> = vec![];
    for e in Eng::ALL {
        c.eval();
        let q = match standard(e.sut(), text) {
            Ok(Ok(q)) => q,
            Ok(Err(_)) => {
                res.push((e, None));
                continue;
            }
            Err(f) => {
                c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?;
                continue;
            }
        };
        match eval(e, &q, doc, envs()) {
            Ok(Ok(v)) => res.push((e, Some(v))),
            Ok(Err(m)) => c.fail(format!("evalerr:{}", e.name()), format!("{} fails on {text:?}: {m}", e.name()))?,
            Err(f) => c.fail(f.key.clone(), format!("{} on {text:?} and {}", f.msg, show_doc(doc)))?,
        }
    }
    // the extended dialect may accept more than the standard
    let std_ok = recog::accepts(text, &recog::Opts::default());
    if !std_ok {
        let ext_ok = recog::accepts(text, &recog::Opts { ext: true, ..Default::default() });
        if ext_ok {
            res.retain(|(e, _)| *e != Eng::Sing);
            c.label("extension-text");
        }
    }
    let Some((e0, r0)) = res.first() else { return Ok(None) };
    for (e, r) in &res[1..] {
        let same = match (r0, r) {
            (None, None) => true,
            (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| std::ptr::eq(x.value, y.value) && x.loc == y.loc),
            _ => false,
        };
        if !same {
            let sh = |r: &Option<Vec<Found>>| r.as_ref().map(|v| show_found(v)).unwrap_or("rejects".into());
            let msg = format!("{} and {} disagree on {text:?} and {}\n  {}: {}\n  {}: {}", e0.name(), e.name(), show_doc(doc), e0.name(), sh(r0), e.name(), sh(r));
            let key = format!("disagree:{}", e.name());
            c.fail(key, msg)?;
        }
    }
    Ok(r0.as_ref().map(|v| v.len()))
}

fn c14(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 1 + s.below(5), width: 1 + s.below(5), odd: 40, ctrl: 10, extreme: s.chance(60), records: 60 };
    let mut doc = gen::doc(s, &d);
    let q = QOpts { filter: 80, filter_depth: 3, desc: 50, odd: 30, ctrl: 4, ..Default::default() };
    let mut segs = query_for(s, &doc, &q);
    grow::both(s, &mut segs, &mut doc);
    let st = Style::random(s);
    let mut text = print::spelled(s, &segs, &st).0;
    let mutant = s.chance(64);
    if mutant {
        text = mutate(s, &text);
        c.label("mutant");
    }
    label_features(c, &features(&segs));
    let k = Case { doc, segs, text };
    let d = describe(c, &k);
    if too_heavy_text(c, &k.text, &k.doc) {
        return Ok(());
    }
    let n = check_agree(c, &k.text, &k.doc)?;
    c.label(match n {
        None => "all-reject",
        Some(0) => "no-nodes",
        Some(1) => "one-node",
        Some(_) => "several-nodes",
    });
    if n.is_some_and(|n| n > 0) || mutant && k.text.starts_with('$') {
        c.nontrivial(&d);
    }
    Ok(())
}

fn c14_fixed() -> Fixed {
    let mut v: Fixed = [
        ("$..*", "[[1,[2,3]],{\"a\":{\"b\":[4]}},5]"),
        ("$..[?@.a==1]['a','a']", "[{\"a\":1,\"b\":{\"a\":1}},{\"a\":1}]"),
        ("$[?match(@,'a.*')]", "[\"abc\",\"b\",1]"),
        ("$[0:5:2,::-1]", "[1,2,3,4]"),
        ("$[?@==1.0]", "[1,1.0,\"1\"]"),
        ("$[?count(@.*)>1]", "[[1,2],{\"a\":1}]"),
        ("$[?length(@)==value($..n)]", "[\"ab\",{\"n\":2}]"),
        ("$[", "[]"),
        ("$[?@.a=1]", "[]"),
        ("", "[]"),
    ]
    .iter()
    .map(|(q, d)| {
        let (q, d) = (q.to_string(), d.to_string());
        fixed_case(format!("{q} on {d}"), move |c| {
            let doc: Value = serde_json::from_str(&d).unwrap();
            check_agree(c, &q, &doc).map(|_| ())
        })
    })
    .collect();
    v.extend(edges(&["$.a[{}]", "$..[{}]", "$[?@[{}]]"]));
    v
}

// ------------------------------------------------------------------------ C22

/// (is_singular, is_empty) of every query of a tree, in visiting order.
fn expected_preds(segs: &[Seg], out: &mut Vec<(bool, bool)>) {
    out.push((singular(segs), segs.is_empty()));
    visit_exprs(segs, &mut |e| {
        if let Expr::Path(_, q) = e {
            out.push((singular(q), q.is_empty()));
        }
    });
}

fn check_preds(c: &mut Ctx, text: &str, segs: &[Seg], ext: bool) -> Res {
    let mut want = vec![];
    expected_preds(segs, &mut want);
    for p in Sut::ALL {
        if ext && p != Sut::Sing {
            continue;
        }
        c.eval();
        let q = match standard(p, text) {
            Ok(Ok(q)) => q,
            Ok(Err(e)) => {
                if p == Sut::Hand && super::parse::ctrl_escape(text) {
                    c.exclude("hand: \\u escape of a control character (known finding of C01)");
                    continue;
                }
                c.fail(format!("reject:{}", p.name()), format!("{} rejects {text:?}: {}", p.name(), e.msg))?;
                continue;
            }
            Err(f) => {
                c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?;
                continue;
            }
        };
        let (si, em) = match sut(p.name(), || (q.is_singular(), q.is_empty())) {
            Ok(x) => x,
            Err(f) => {
                c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?;
                continue;
            }
        };
        if si != want[0].0 {
            c.fail(format!("singular:{}", p.name()), format!("{} says is_singular() == {si} of {text:?}", p.name()))?;
        }
        if let Some(em) = em {
            if em != want[0].1 {
                c.fail(format!("empty:{}", p.name()), format!("{} says is_empty() == {em} of {text:?}", p.name()))?;
            }
        }
        if let Some(inner) = q.inner_preds() {
            let w: Vec<(bool, Option<bool>)> = want[1..].iter().map(|(a, b)| (*a, inner.first().and_then(|x| x.1).map(|_| *b))).collect();
            if inner != w {
                c.fail(format!("inner:{}", p.name()), format!("{} reports (singular, empty) of the queries inside {text:?} as {inner:?}, not {w:?}", p.name()))?;
            }
        }
    }
    Ok(())
}

fn c22(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 1 + s.below(3), width: 1 + s.below(4), ..Default::default() };
    let mut doc = gen::doc(s, &d);
    let mut segs = match s.below(4) {
        0 => {
            let mut g = G::aimed(s, &doc, QOpts::default());
            let m = g.s.below(2);
            g.singular_segs(m)
        }
        1 => {
            // singular but for one segment
            let mut g = G::aimed(s, &doc, QOpts { filter: 20, ..Default::default() });
            let mut v = g.singular_segs(1);
            let i = g.s.below(v.len());
            match g.s.below(3) {
                0 => v[i].desc = true,
                1 => {
                    let x = g.sel(1);
                    v[i].sels.push(x);
                }
                _ => v[i].sels = vec![Sel::Wild],
            }
            v
        }
        _ => query_for(s, &doc, &QOpts { filter: 120, filter_depth: 3, ..Default::default() }),
    };
    grow::both(s, &mut segs, &mut doc);
    let text = text_of(s, &segs);
    let k = Case { doc, segs, text };
    let d = describe(c, &k);
    label_features(c, &features(&k.segs));
    let si = singular(&k.segs);
    c.label(if si { "singular" } else { "non-singular" });
    if !k.segs.is_empty() {
        c.nontrivial(&d);
    }
    check_preds(c, &k.text, &k.segs, false)?;
    // a query that reports itself singular selects at most one node
    for e in Eng::ALL {
        if let Ok(q) = standard(e.sut(), &k.text)? {
            if !sut(e.name(), || q.is_singular())? {
                continue;
            }
            c.eval();
            match eval(e, &q, &k.doc, envs())? {
                Ok(v) if v.len() > 1 => c.fail(
                    format!("singular-many:{}", e.name()),
                    format!("{}: {:?} reports itself singular but selects {} nodes of {}", e.name(), k.text, v.len(), show_doc(&k.doc)),
                )?,
                _ => (),
            }
        }
    }
    Ok(())
}

fn c22_fixed() -> Fixed {
    let mut v: Fixed = [
        "$", "$.a", "$['a']", "$[0]", "$[-1]", "$.a[0]['b']", "$..a", "$.*", "$[0:1]", "$[0,1]", "$['a','b']", "$[?@.a]", "$.a..b", "$.a.*", "$[?@==1]",
        "$[?@.a==$.b[0]]", "$[?count(@.*)==1]", "$[?@[?@.a.b]..c]", "$[?value($)==@]",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| {
            let segs = recog::ast(&q, &recog::Opts::default()).expect("valid");
            check_preds(c, &q, &segs, false)
        })
    })
    .collect();
    for q in ["a", "['a']", "[0][1]", "$[$.a]", "$.b[$.a]", "$[0][['k']]", "a.b", "[?@.a]"] {
        let q = q.to_string();
        v.push(fixed_case(format!("extended {q}"), move |c| {
            let o = recog::Opts { ext: true, ..Default::default() };
            let segs = recog::ast(&q, &o).expect("valid");
            // a bracketed query selects at most one node, but the statement
            // speaks of name and index selectors only
            check_preds(c, &q, &segs, true)
        }));
    }
    v
}

// ------------------------------------------------------------------------ C23

/// How many nodes to pass over when `left` are left.
fn strides(s: &mut Src, left: usize) -> usize {
    match s.below(8) {
        0 => s.below(left + 2),
        1 => *s.pick(&[left.saturating_sub(1), left, left + 1, left / 2, usize::MAX]),
        2 => s.below(40),
        _ => s.below(4),
    }
}

fn c23(s: &mut Src, c: &mut Ctx) -> Res {
    let nd = 1 + s.below(2);
    let d = DocOpts { depth: 1 + s.below(4), width: 1 + s.below(5), odd: 20, ctrl: 6, extreme: s.chance(40), records: 60 };
    let docs: Vec<Value> = (0..nd).map(|_| if s.chance(12) { gen::broad(s, &d) } else { gen::doc(s, &d) }).collect();
    let q = QOpts { filter: 60, filter_depth: 2, expr_depth: 2, desc: 80, ..Default::default() };
    let nq = 1 + s.below(3);
    let q = sized(docs.iter().map(gen::count_nodes).max().unwrap_or(0), &q);
    let mut qs: Vec<(String, Query)> = vec![];
    for _ in 0..nq {
        let di = s.below(nd);
        let mut segs = match s.below(16) {
            // everything, so that there is something to move over
            0 if gen::count_nodes(&docs[di]) > 40 => recog::ast(*s.pick(&["$..*", "$[*]", "$[*,*]", "$[*][*]", "$[::-1]", "$[?@]"]), &recog::Opts::default()).unwrap(),
            _ => query_for(s, &docs[di], &q),
        };
        if s.chance(6) {
            grow::inflate(s, &mut segs, true);
        }
        if docs.iter().any(|d| too_heavy(c, &segs, d)) {
            return Ok(());
        }
        let text = text_of(s, &segs);
        match standard(Sut::Iter, &text)? {
            Ok(q) => qs.push((text, q)),
            Err(_) => {
                c.label("rejected");
                return Ok(());
            }
        }
    }
    // eager results by the eager evaluator
    let mut eager: HashMap<(usize, usize), Vec<Found>> = HashMap::new();
    for (qi, (t, _)) in qs.iter().enumerate() {
        for (di, doc) in docs.iter().enumerate() {
            let r = match suts::run(Eng::Find, t, doc) {
                Ok(r) => r,
                Err(f) => return c.fail(f.key.clone(), f.msg),
            };
            eager.insert((qi, di), r);
        }
    }
    struct Live<'v> {
        it: Option<iterq::iter::QueryIter<'v>>,
        qi: usize,
        di: usize,
        pos: usize,
        ended: bool,
    }
    let env = envs().iter;
    let mut live: Vec<Live> = vec![];
    let mut held: Vec<(std::rc::Rc<iterq::node::Node>, *const Value, String)> = vec![];
    let mut log = String::new();
    let steps = 4 + s.below(60);
    let mut max_live = 0;
    let mut pulled = 0;
    let show = |qs: &Vec<(String, Query)>| qs.iter().map(|q| q.0.clone()).collect::<Vec<_>>().join(" ; ");
    c.desc = format!("{} on {}", show(&qs), docs.iter().map(show_doc).collect::<Vec<_>>().join(" ; "));
    for step in 0..steps {
        let op = if live.is_empty() { 0 } else { s.below(10) };
        match op {
            0 | 1 if live.len() < 4 => {
                let qi = s.below(qs.len());
                let di = s.below(nd);
                let Query::Iter(q) = &qs[qi].1 else { unreachable!() };
                let q = q.clone();
                let doc = &docs[di];
                let it = sut("iter", || iterq::iter::QueryIter::new(env, doc, q))?;
                log.push_str(&format!("open{}={qi}/{di} ", live.len()));
                live.push(Live { it: Some(it), qi, di, pos: 0, ended: false });
                max_live = max_live.max(live.len());
            }
            2 if live.len() > 1 => {
                let i = s.below(live.len());
                log.push_str(&format!("drop{i} "));
                live.remove(i);
            }
            3 if !held.is_empty() => {
                let i = s.below(held.len());
                log.push_str("release ");
                held.swap_remove(i);
            }
            _ => {
                if live.is_empty() {
                    continue;
                }
                let i = s.below(live.len());
                let l = &mut live[i];
                let want = &eager[&(l.qi, l.di)];
                let it = l.it.as_mut().unwrap();
                let left = want.len() - l.pos.min(want.len());
                let (lo, hi) = sut("iter", || it.size_hint())?;
                if lo > left || hi.is_some_and(|h| h < left) {
                    return c.fail("lazy-hint", format!("size_hint ({lo}, {hi:?}) of {:?} with {left} nodes left ({log}) on {}", qs[l.qi].0, show_doc(&docs[l.di])));
                }
                c.eval();
                let k = strides(s, left);
                let how = if s.chance(150) { 0 } else { 1 + s.below(5) };
                // every way of moving an iterator forward agrees with next()
                let run = || match how {
                    0 => it.next(),
                    1 => it.nth(k),
                    2 => it.by_ref().skip(k).next(),
                    3 => {
                        let mut left = k;
                        it.find(|_| {
                            left = left.wrapping_sub(1);
                            left == usize::MAX
                        })
                    }
                    4 => {
                        it.by_ref().take(k).for_each(drop);
                        it.next()
                    }
                    _ => {
                        let mut p = it.by_ref().peekable();
                        for _ in 0..k {
                            if p.next().is_none() {
                                break;
                            }
                        }
                        let seen = p.peek().cloned();
                        let got = p.next();
                        if seen.as_ref().map(|n| n.location.clone()) == got.as_ref().map(|n| n.location.clone()) {
                            got
                        } else {
                            None
                        }
                    }
                };
                match how {
                    0 => log.push_str(&format!("next{i} ")),
                    _ => log.push_str(&format!("{}{i}({k}) ", ["next", "nth", "skip", "find", "take", "peek"][how])),
                }
                let got = match sut("iter", run) {
                    Ok(g) => g,
                    Err(f) => return c.fail(f.key.clone(), format!("{}: {log} over {}", f.msg, show(&qs))),
                };
                if how > 0 {
                    l.pos = l.pos.saturating_add(k);
                    c.label("adaptor");
                    c.label_if(k > 15 && k < left, "long-stride");
                }
                match (got, want.get(l.pos)) {
                    (None, None) => {
                        l.ended = true;
                        c.label("end-reached");
                    }
                    (Some(n), Some(w)) => {
                        if !std::ptr::eq(n.value, w.value) || n.location != w.loc {
                            return c.fail(
                                "lazy-node",
                                format!("lazy node {} of {:?} is {} instead of {} after: {log}on {}", l.pos, qs[l.qi].0, n.location, w.loc, show_doc(&docs[l.di])),
                            );
                        }
                        let loc = n.location.clone();
                        held.push((n.clone(), w.value as *const Value, loc));
                        l.pos += 1;
                        pulled += 1;
                    }
                    (Some(n), None) => {
                        return c.fail("lazy-extra", format!("lazy evaluation of {:?} yields an extra node {} at step {step} ({log}) on {}", qs[l.qi].0, n.location, show_doc(&docs[l.di])))
                    }
                    (None, Some(w)) => {
                        return c.fail("lazy-short", format!("lazy evaluation of {:?} ends after {} nodes, before {} ({log}) on {}", qs[l.qi].0, l.pos, w.loc, show_doc(&docs[l.di])))
                    }
                }
            }
        }
        for (n, p, loc) in &held {
            if n.value as *const Value != *p || n.location != *loc {
                return c.fail("lazy-held", format!("a node already handed out changed from {loc} to {} ({log})", n.location));
            }
        }
    }
    // drain what is left
    for l in &mut live {
        let want = &eager[&(l.qi, l.di)];
        let rest: Vec<&Found> = want.iter().skip(l.pos).collect();
        let how = s.below(9);
        if how < 6 {
            // the consuming forms
            let it = l.it.take().unwrap();
            let locs: Vec<&String> = rest.iter().map(|f| &f.loc).collect();
            c.eval();
            let (name, got, exp): (&str, Vec<String>, Vec<String>) = match how {
                0 => ("count", vec![sut("iter", || it.count())?.to_string()], vec![rest.len().to_string()]),
                1 => ("last", sut("iter", || it.last())?.iter().map(|n| n.location.clone()).collect(), locs.last().iter().map(|x| x.to_string()).collect()),
                2 => (
                    "fold",
                    sut("iter", || {
                        it.fold(vec![], |mut v, n| {
                            v.push(n.location.clone());
                            v
                        })
                    })?,
                    locs.iter().map(|x| x.to_string()).collect(),
                ),
                3 => {
                    let k = 1 + strides(s, rest.len()).min(1 << 20);
                    ("step_by", sut("iter", || it.step_by(k).map(|n| n.location.clone()).collect())?, locs.iter().step_by(k).map(|x| x.to_string()).collect())
                }
                4 => {
                    let k = strides(s, rest.len());
                    ("skip", sut("iter", || it.skip(k).map(|n| n.location.clone()).collect())?, locs.iter().skip(k).map(|x| x.to_string()).collect())
                }
                _ => (
                    "collect",
                    sut("iter", || it.collect::<Vec<_>>())?.iter().map(|n| n.location.clone()).collect(),
                    locs.iter().map(|x| x.to_string()).collect(),
                ),
            };
            if got != exp {
                return c.fail("lazy-consume", format!("{name} over the rest of {:?} after ({log}) gives {got:?} instead of {exp:?} on {}", qs[l.qi].0, show_doc(&docs[l.di])));
            }
            c.label("consumed");
            continue;
        }
        let it = l.it.as_mut().unwrap();
        loop {
            c.eval();
            let got = sut("iter", || it.next())?;
            match (got, want.get(l.pos)) {
                (None, None) => break,
                (Some(n), Some(w)) if std::ptr::eq(n.value, w.value) && n.location == w.loc => l.pos += 1,
                (g, w) => {
                    return c.fail(
                        "lazy-drain",
                        format!("draining {:?} after ({log}) gives {:?} at {} instead of {:?} on {}", qs[l.qi].0, g.map(|n| n.location.clone()), l.pos, w.map(|w| w.loc.clone()), show_doc(&docs[l.di])),
                    )
                }
            }
        }
        for _ in 0..3 {
            if sut("iter", || it.next())?.is_some() {
                return c.fail("lazy-resurrect", format!("lazy evaluation of {:?} yields a node after its end ({log})", qs[l.qi].0));
            }
        }
        c.label("drained");
    }
    drop(live);
    for (n, p, loc) in &held {
        if n.value as *const Value != *p || n.location != *loc {
            return c.fail("lazy-held", format!("a node changed after its iterator was dropped: {loc} became {}", n.location));
        }
    }
    c.desc = format!("{log}over {} on {}", show(&qs), docs.iter().map(show_doc).collect::<Vec<_>>().join(" ; "));
    if max_live >= 2 && pulled >= 2 {
        let d = c.desc.clone();
        c.nontrivial(&d);
    }
    Ok(())
}

fn c23_fixed() -> Fixed {
    [
        ("$..*", "[[1,[2,3]],{\"a\":{\"b\":[4]}},5]"),
        ("$[*,*][0,-1]", "[[1,2],[3],[]]"),
        ("$[?@>1]", "[1,2,1,1,3,1]"),
        ("$..[?@.a]..b", "[{\"a\":{\"b\":1},\"b\":2}]"),
        ("$[::-1]", "[1,2,3]"),
        ("$", "1"),
        ("$.a", "1"),
        ("$[0,'a',*,1:,?@]", "{\"a\":1,\"b\":2}"),
    ]
    .iter()
    .map(|(q, d)| {
        let (q, d) = (q.to_string(), d.to_string());
        fixed_case(format!("{q} on {d}"), move |c| {
            let doc: Value = serde_json::from_str(&d).unwrap();
            let want = suts::run(Eng::Find, &q, &doc)?;
            let Ok(Query::Iter(pq)) = standard(Sut::Iter, &q)? else { panic!("rejected") };
            let mut it = iterq::iter::QueryIter::new(envs().iter, &doc, pq);
            let mut i = 0;
            loop {
                c.eval();
                let n = sut("iter", || it.next())?;
                match (n, want.get(i)) {
                    (None, None) => break,
                    (Some(n), Some(w)) if std::ptr::eq(n.value, w.value) && n.location == w.loc => i += 1,
                    (n, w) => return c.fail("lazy-node", format!("{q:?}: node {i} is {:?} instead of {:?}", n.map(|n| n.location.clone()), w.map(|w| w.loc.clone()))),
                }
            }
            for _ in 0..5 {
                if sut("iter", || it.next())?.is_some() {
                    return c.fail("lazy-resurrect", format!("{q:?} yields a node after its end"));
                }
            }
            Ok(())
        })
    })
    .chain(["$[*]", "$..*", "$[*,*]", "$[?@>=0]", "$[::-1]"].into_iter().map(|q| {
        fixed_case(format!("{q} on 700 numbers in strides"), move |c| {
            let doc: Value = (0..700).collect();
            let want = suts::run(Eng::Find, q, &doc)?;
            let Ok(Query::Iter(pq)) = standard(Sut::Iter, q)? else { panic!("rejected") };
            for k in (0..70).chain([126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 698, 699, 700, 701, 1399, 1400, 1 << 16, usize::MAX]) {
                for before in [0, 1, 5] {
                    c.eval();
                    let mut it = iterq::iter::QueryIter::new(envs().iter, &doc, pq.clone());
                    let mut pos = before;
                    for _ in 0..before {
                        sut("iter", || it.next())?;
                    }
                    while pos <= want.len() {
                        let left = want.len() - pos;
                        let (lo, hi) = sut("iter", || it.size_hint())?;
                        if lo > left || hi.is_some_and(|h| h < left) {
                            return c.fail("lazy-hint", format!("size_hint ({lo}, {hi:?}) of {q:?} with {left} nodes left, in strides of {k}"));
                        }
                        let n = sut("iter", || it.nth(k))?;
                        pos = pos.saturating_add(k);
                        match (n, want.get(pos)) {
                            (None, None) => (),
                            (Some(n), Some(w)) if std::ptr::eq(n.value, w.value) && n.location == w.loc => (),
                            (n, w) => return c.fail("lazy-node", format!("{q:?}: in strides of {k} node {pos} is {:?} instead of {:?}", n.map(|n| n.location.clone()), w.map(|w| w.loc.clone()))),
                        }
                        pos = pos.saturating_add(1);
                    }
                }
            }
            Ok(())
        })
    }))
    .collect()
}

// ------------------------------------------------------------------------ C25

fn has_root(segs: &[Seg]) -> bool {
    let mut b = false;
    visit_exprs(segs, &mut |e| b |= matches!(e, Expr::Path(true, _)));
    b
}

fn c25(s: &mut Src, c: &mut Ctx) -> Res {
    let d = DocOpts { depth: 2 + s.below(3), width: 1 + s.below(5), odd: 30, ctrl: 4, extreme: s.chance(40), records: 60 };
    let mut doc = gen::doc(s, &d);
    let root = s.chance(60);
    let q = QOpts { filter: 60, filter_depth: 2, expr_depth: 2, desc: 60, root_paths: root, max_segs: 4, ..Default::default() };
    let mut segs = query_for(s, &doc, &q);
    if segs.is_empty() {
        segs.push(Seg { desc: false, sels: vec![Sel::Wild] });
    }
    grow::both(s, &mut segs, &mut doc);
    if let Some(t) = grow::took() {
        c.label(t);
    }
    if too_heavy(c, &segs, &doc) {
        return Ok(());
    }
    let text = print::plain(&segs);
    let mode = s.below(3);
    let key = s.pick(&["k", "a", "'", "☺"]).to_string();
    let cut = s.below(segs.len() + 1);
    let multi: Vec<usize> = (0..segs.len()).filter(|i| segs[*i].sels.len() > 1 && !segs[*i].desc).collect();
    match mode {
        0 => {
            let (a, b) = (segs[..cut].to_vec(), segs[cut..].to_vec());
            if has_root(&b) {
                c.label("skipped-root");
                return Ok(());
            }
            let (ta, tb) = (print::plain(&a), print::plain(&b));
            c.desc = format!("{text} = {ta} then {tb} on {}", show_doc(&doc));
            let mut n = 0;
            for e in Eng::ALL {
                c.eval();
                let whole = suts::run(e, &text, &doc)?;
                let first = suts::run(e, &ta, &doc)?;
                let mut v: Vec<(*const Value, String)> = vec![];
                for f in &first {
                    for g in suts::run(e, &tb, f.value)? {
                        v.push((g.value as *const Value, format!("{}{}", f.loc, &g.loc[1..])));
                    }
                }
                let w: Vec<(*const Value, String)> = whole.iter().map(|g| (g.value as *const Value, g.loc.clone())).collect();
                n = w.len();
                if v != w {
                    c.fail(
                        format!("compose:{}", e.name()),
                        format!("{}: {text:?} gives {} but {ta:?} then {tb:?} gives {:?} on {}", e.name(), show_found(&whole), v.iter().map(|x| &x.1).take(20).collect::<Vec<_>>(), show_doc(&doc)),
                    )?;
                }
            }
            c.label("cut");
            if n > 0 {
                let d = c.desc.clone();
                c.nontrivial(&d);
            }
        }
        1 => {
            let (i, one) = match multi.first() {
                Some(i) => (*i, false),
                None => {
                    // give the last segment a second selector
                    let mut g = G::aimed(s, &doc, QOpts { root_paths: false, filter: 40, expr_depth: 1, ..Default::default() });
                    let x = g.sel(1);
                    let i = segs.len() - 1;
                    segs[i].desc = false;
                    segs[i].sels.push(x);
                    (i, true)
                }
            };
            let _ = one;
            segs.truncate(i + 1);
            if too_heavy(c, &segs, &doc) {
                return Ok(());
            }
            let text = print::plain(&segs);
            let pre = print::plain(&segs[..i]);
            if has_root(&segs[i..]) {
                c.label("skipped-root");
                return Ok(());
            }
            c.desc = format!("{text} selector by selector on {}", show_doc(&doc));
            let mut n = 0;
            for e in Eng::ALL {
                c.eval();
                let whole = suts::run(e, &text, &doc)?;
                let first = suts::run(e, &pre, &doc)?;
                let mut v: Vec<(*const Value, String)> = vec![];
                for f in &first {
                    for sel in &segs[i].sels {
                        let t = print::plain(&[Seg { desc: false, sels: vec![sel.clone()] }]);
                        for g in suts::run(e, &t, f.value)? {
                            v.push((g.value as *const Value, format!("{}{}", f.loc, &g.loc[1..])));
                        }
                    }
                }
                let w: Vec<(*const Value, String)> = whole.iter().map(|g| (g.value as *const Value, g.loc.clone())).collect();
                n = w.len();
                if v != w {
                    c.fail(
                        format!("concat:{}", e.name()),
                        format!("{}: {text:?} gives {} but its selectors one by one give {:?} on {}", e.name(), show_found(&whole), v.iter().map(|x| &x.1).take(20).collect::<Vec<_>>(), show_doc(&doc)),
                    )?;
                }
            }
            c.label("selectors");
            if n > 0 {
                let d = c.desc.clone();
                c.nontrivial(&d);
            }
        }
        _ => {
            if has_root(&segs) {
                c.label("skipped-root");
                return Ok(());
            }
            let (outer, pre) = if s.chance(128) {
                let mut m = serde_json::Map::new();
                m.insert("zz".into(), json!([1, {"a": 2}]));
                m.insert(key.clone(), doc.clone());
                (Value::Object(m), Part::Name(key.clone()))
            } else {
                (json!([{"a": 1}, doc.clone(), [0]]), Part::Index(1))
            };
            let way = match &pre {
                Part::Name(n) => Seg { desc: false, sels: vec![Sel::Name(n.clone())] },
                Part::Index(i) => Seg { desc: false, sels: vec![Sel::Index(if s.chance(128) { *i as i64 } else { -2 })] },
            };
            let mut qq = vec![way];
            qq.extend(segs.clone());
            let tt = print::plain(&qq);
            c.desc = format!("{text} on {} embedded: {tt}", show_doc(&doc));
            let prefix = normalized(&[pre]);
            let mut n = 0;
            for e in Eng::ALL {
                c.eval();
                let a = suts::run(e, &text, &doc)?;
                let b = suts::run(e, &tt, &outer)?;
                n = a.len();
                let ok = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.value == y.value && format!("{prefix}{}", &x.loc[1..]) == y.loc);
                if !ok {
                    c.fail(
                        format!("embed:{}", e.name()),
                        format!("{}: {text:?} gives {} but embedded at {prefix} gives {} on {}", e.name(), show_found(&a), show_found(&b), show_doc(&doc)),
                    )?;
                }
            }
            c.label("embedded");
            if n > 0 {
                let d = c.desc.clone();
                c.nontrivial(&d);
            }
        }
    }
    Ok(())
}
