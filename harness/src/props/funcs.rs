//! Function properties: C11, C12, C15, C16, C17.
use super::common::*;
use super::evalp::text_of;
use crate::iregex;
use crate::suts::{eval, Envs, Found, OwnedEnvs, Query};
use std::cell::RefCell;
use std::collections::HashMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "distinct (query, document) pairs comparing a length, count or value result, some child passing and some failing",
            case: c11,
            fixed: c11_fixed,
            quick_cases: 400_000,
            thorough_cases: 8_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C12",
            rule: "distinct (pattern, subjects) pairs where the pattern is a valid I-Regexp with an operator and some subject matches, or the pattern is invalid",
            case: c12,
            fixed: c12_fixed,
            quick_cases: 150_000,
            thorough_cases: 8_000_000,
            assumptions: &[
                "a bare ^ or $ may be read as an ordinary character (RFC 9485) or as an anchor (compliance suite), consistently per engine and pattern",
                "patterns in the grammar without an agreed meaning (reversed ranges, \\p{Cs}) are only required not to fail",
            ],
        },
        Prop {
            id: "C15",
            rule: "distinct histories of at least eight operations in which some query text is evaluated at least twice",
            case: c15,
            fixed: c15_fixed,
            quick_cases: 15_000,
            thorough_cases: 300_000,
            assumptions: &["thread interleavings are those the operating system happens to produce"],
        },
        Prop {
            id: "C16",
            rule: "distinct (signatures, query) pairs calling a registered function",
            case: c16,
            fixed: c16_fixed,
            quick_cases: 160_000,
            thorough_cases: 6_000_000,
            assumptions: &["function names follow the RFC's function-name grammar and are not true, false or null"],
        },
        Prop {
            id: "C17",
            rule: "distinct (signatures, query, document) triples in which a custom function was called",
            case: c17,
            fixed: no_fixed,
            quick_cases: 240_000,
            thorough_cases: 4_000_000,
            assumptions: &["function results are deterministic; how often and in what order functions are called is left open"],
        },
    ]
}

// ------------------------------------------------------------------------ C11

fn wide_string(s: &mut Src) -> String {
    let n = s.below(6);
    (0..n)
        .map(|_| *s.pick(&["a", "é", "😀", "z\u{301}", "\u{10ffff}", "日", "\u{200d}", "👨\u{200d}👩", " ", "\u{0}", "\n", "ß", "\u{ffff}", "🇩🇪"]))
        .collect()
}

fn counting_doc(s: &mut Src) -> Value {
    let cell = |s: &mut Src| -> Value {
        match s.below(8) {
            0..=2 => Value::String(wide_string(s)),
            3 => Value::Array((0..s.below(5)).map(|_| json!(s.range(0, 3))).collect()),
            4 => {
                let n = s.below(4);
                Value::Object((0..n).map(|i| (["a", "b", "é", "😀"][i].to_string(), json!(s.range(0, 3)))).collect())
            }
            5 => json!(s.range(0, 4)),
            6 => gen::scalar(s, &DocOpts::default()),
            _ => gen::value(s, &DocOpts::default(), 2),
        }
    };
    let n = 2 + s.below(6);
    if s.chance(120) {
        Value::Array((0..n).map(|_| cell(s)).collect())
    } else {
        Value::Array(
            (0..n)
                .map(|_| {
                    let mut m = serde_json::Map::new();
                    for k in ["a", "b", "c"] {
                        if !s.chance(60) {
                            m.insert(k.into(), cell(s));
                        }
                    }
                    Value::Object(m)
                })
                .collect(),
        )
    }
}

fn fcall(g: &mut G) -> Expr {
    match g.s.below(6) {
        0..=1 => {
            let a = match g.s.below(8) {
                0 => Expr::Str(wide_string(g.s).replace('\u{0}', "")),
                1 => g.literal(),
                2 => {
                    let p = g.path(1);
                    Expr::Call("value".into(), vec![p])
                }
                3 if g.s.chance(60) => fcall(g),
                _ => g.singular_path(),
            };
            Expr::Call("length".into(), vec![a])
        }
        2..=3 => {
            let p = match g.s.below(4) {
                0 => {
                    // overlapping selectors: duplicates count
                    let n = 2 + g.s.below(3);
                    let sels = (0..n).map(|_| g.sel(0)).collect();
                    let desc = g.s.chance(80);
                    Expr::Path(false, vec![Seg { desc, sels }])
                }
                1 => {
                    let p = g.path(1);
                    match p {
                        Expr::Path(a, mut v) => {
                            v.push(Seg { desc: g.s.chance(128), sels: vec![Sel::Wild] });
                            Expr::Path(a, v)
                        }
                        p => p,
                    }
                }
                _ => g.path(1),
            };
            Expr::Call("count".into(), vec![p])
        }
        _ => {
            let p = if g.s.chance(128) { g.singular_path() } else { g.path(1) };
            Expr::Call("value".into(), vec![p])
        }
    }
}

fn c11(s: &mut Src, c: &mut Ctx) -> Res {
    let mut doc = if s.chance(150) { counting_doc(s) } else { gen::doc(s, &DocOpts { depth: 3, width: 5, ..Default::default() }) };
    let mut g = G::aimed(s, &doc, QOpts { filter: 40, filter_depth: 1, desc: 30, max_segs: 2, regex: false, ..Default::default() });
    g.desc_left = 2;
    let mut segs = if g.s.chance(90) { g.query() } else { vec![] };
    let env = Env::std();
    let desc = g.s.chance(40);
    let e = g.in_filter(|g| {
        let a = fcall(g);
        let b = match g.s.below(8) {
            0..=3 => g.lit_for(&env, &a).unwrap_or_else(|| Expr::Num(Num::new(g.s.range(0, 5).to_string()))),
            4 => fcall(g),
            5 => g.comparable(0),
            6 => Expr::Path(false, vec![Seg { desc: false, sels: vec![Sel::Name("nosuch".into())] }]),
            _ => g.singular_path(),
        };
        let op = *g.s.pick(&Op::ALL);
        let e = if g.s.chance(60) { Expr::Cmp(Box::new(b), op, Box::new(a)) } else { Expr::Cmp(Box::new(a), op, Box::new(b)) };
        match g.s.below(10) {
            0 => Expr::Not(Box::new(e)),
            1 => and(vec![e, g.path(0)]),
            2 => or(vec![e, g.cmp(0)]),
            _ => e,
        }
    });
    segs.push(Seg { desc, sels: vec![Sel::Filter(e)] });
    grow::both(s, &mut segs, &mut doc);
    if let Some(t) = grow::took() {
        c.label(t);
    }
    let text = text_of(s, &segs);
    c.desc = format!("{text} on {}", show_doc(&doc));
    let Some(want) = model_find(&segs, &doc) else {
        c.label("out-of-model");
        return Ok(());
    };
    // the same query with the filter always true
    let mut all = segs.clone();
    all.last_mut().unwrap().sels = vec![Sel::Wild];
    let total = model_find(&all, &doc).map(|v| v.len()).unwrap_or(0);
    if !want.is_empty() && want.len() < total {
        let k = c.desc.clone();
        c.nontrivial(&k);
    }
    for f in ["length(", "count(", "value("] {
        c.label_if(text.contains(f), f.trim_end_matches('('));
    }
    check_against_model(c, &text, &want, &doc, "function")
}

fn c11_fixed() -> Fixed {
    let mut v: Fixed = fixed_eval(&[
        ("$[?length(@)==1]", "[\"a\",\"😀\",\"é\",\"z\u{301}\",[1],{\"a\":1},1,null,true]"),
        ("$[?length(@)==0]", "[\"\",[],{},null,0,false]"),
        ("$[?length(@.a)==length(@.b)]", "[{},{\"a\":1},{\"a\":\"xy\",\"b\":[1,2]},{\"a\":null,\"b\":2},{\"a\":\"\",\"b\":1}]"),
        ("$[?length(@.a)!=2]", "[{},{\"a\":\"xy\"},{\"a\":1}]"),
        ("$[?length(@.a)<=length(@.b)]", "[{},{\"a\":1}]"),
        ("$[?length('\\ud83d\\ude00')==1]", "[1]"),
        ("$[?count(@['a','a'])==2]", "[{\"a\":1},{\"b\":1},[1]]"),
        ("$[?count(@..*)==3]", "[[[1],2],[1,2,3],{\"a\":{\"b\":{\"c\":1}}},3]"),
        ("$[?count(@[0,0,-1])==3]", "[[1],[],[1,2]]"),
        ("$[?count(@)==1]", "[1,[],{}]"),
        ("$[?count($..*)>1]", "[1,2]"),
        ("$[?count(@.a)==0]", "[1,{\"a\":null},{\"a\":[]}]"),
        ("$[?value(@.*)==1]", "[[1],[1,1],[],1,{\"a\":1}]"),
        ("$[?value(@.*)==@.nosuch]", "[[1],[1,1],[],1,{\"a\":1}]"),
        ("$[?value(@.*)==value(@..*)]", "[[1],[[1]],[1,1],[null]]"),
        ("$[?value(@['a','a'])==1]", "[{\"a\":1},{}]"),
        ("$[?value(@..a)==$[0].a]", "[{\"a\":{\"b\":[1,2.0]}},{\"a\":{\"b\":[1.0,2]}},{\"a\":{\"a\":1}}]"),
        ("$[?length(value(@.*))==2]", "[[\"ab\"],[[1,2]],[1,2],[{\"a\":1,\"b\":2}]]"),
        ("$[?length(value($..nosuch))==value($..nosuch)]", "[1,2]"),
        ("$[?count(@.*)==length(@)]", "[[],[1],{\"a\":1},\"\",\"a\",0]"),
        ("$[?length(@)>length('aa')]", "[\"aaa\",\"aa\",[1,2,3]]"),
    ]);
    v.extend(wide(&[
        ("$[?length(@) == 70000]", "around"),
        ("$[?length(@) == 4464]", "around"),
        ("$[?count(@.*) == 70000]", "around"),
        ("$[?count(@[*,*]) == 140000]", "around"),
        ("$[?count(@[0,0,65536]) == 3]", "around"),
        ("$[?value(@[65536:65537]) == 65536]", "around"),
    ]));
    v
}

// ------------------------------------------------------------------------ C12

struct ReCase {
    pattern: String,
    subjects: Vec<Value>,
    kind: &'static str,
}

fn bad_pattern(s: &mut Src) -> String {
    match s.below(3) {
        0 => s
            .pick(&[
                "(", "[", "a{", "a{}", "a{,1}", "a{1", "*", "+a", "?", "a**", "a+?", "\\", "\\q", "\\d", "\\w", "\\s", "\\b", "\\u0041", "\\x41", "\\/", "\\-x\\", "(?:a)",
                "(?i)a", "(?=a)", "a)", "[]", "[^]", "]", "{", "}", "a{1}{2}", "[a", "\\p{Xx}", "\\p{}", "\\pL", "\\p{L", "\\p{l}", "[[:alpha:]]", "[a-[b]]", "[a&&[b]]", "\\A", "\\z", "a|*",
                "(a", "[\\d]", "[a-\\w]", "\\1", "a{-1}", "a{1,-2}", "a{a}", "(*)", "\\Q", "\\p{Greek}", "\\p{IsL}", "[\\q]", "a{ 1}", "\\p{Lx}", "x{0,1}?",
            ])
            .to_string(),
        _ => {
            let re = gen::regex(s, 2);
            let t = gen::re_text(&re);
            let mut cs: Vec<char> = t.chars().collect();
            if !cs.is_empty() && s.chance(128) {
                let i = s.below(cs.len());
                cs.remove(i);
            }
            let i = s.below(cs.len() + 1);
            cs.insert(i, *s.pick(&['(', ')', '[', ']', '{', '}', '*', '+', '?', '|', '\\', 'd', '-', '^', '1', ',', 'p', '&', '~']));
            cs.into_iter().collect()
        }
    }
}

fn re_case(s: &mut Src) -> ReCase {
    let (pattern, kind) = match s.below(8) {
        0 => (bad_pattern(s), "mutated"),
        1 => {
            // anchored spellings
            let re = gen::regex(s, 1);
            let t = gen::re_text(&re);
            let t = match s.below(4) {
                0 => format!("^{t}"),
                1 => format!("{t}$"),
                2 => format!("^{t}$"),
                _ => format!("{t}\\^"),
            };
            (t, "caret")
        }
        _ => {
            let d = 2 + s.below(2);
            (gen::re_text(&gen::regex(s, d)), "generated")
        }
    };
    // now and then a long pattern, or long subjects
    let (pattern, kind) = match s.chance(8) {
        true => {
            let k = *s.pick(&[9usize, 17, 33, 65, 130]) / (1 + pattern.len() / 8) + 1;
            match s.below(3) {
                0 => (pattern.repeat(k), "long"),
                1 => (format!("{}{pattern}", "ab".repeat(k * 4)), "long"),
                _ => (vec![pattern; k].join("|"), "long"),
            }
        }
        false => (pattern, kind),
    };
    let longer = s.chance(8);
    let mut subjects = vec![];
    let n = 2 + s.below(4);
    let parsed = iregex::parse(&pattern);
    for _ in 0..n {
        let t = match &parsed {
            iregex::Parse::Ok(re) if !s.chance(40) => {
                let mut t = gen::sample_re(s, re);
                match s.below(8) {
                    0 => t = format!("x{t}"),
                    1 => t = format!("{t}y"),
                    2 => t = format!("{t}{}", gen::sample_re(s, re)),
                    3 => t = format!("\n{t}"),
                    4 => t.push('\n'),
                    _ => (),
                }
                t
            }
            _ => {
                if s.chance(60) {
                    pattern.clone()
                } else {
                    gen::small_string(s)
                }
            }
        };
        let t = if longer && s.chance(150) {
            let k = *s.pick(&[20usize, 70, 130, 260, 300]);
            let pad = s.pick(&["a", "b", "\n", "é", "ab"]).repeat(k);
            match s.below(4) {
                0 => format!("{t}{pad}"),
                1 => format!("{pad}{t}"),
                2 => format!("{pad}{t}{pad}"),
                _ => t.repeat((k / t.len().max(1)).max(1)),
            }
        } else {
            t
        };
        subjects.push(Value::String(t));
    }
    if s.chance(50) {
        subjects.push(gen::value(s, &DocOpts::default(), 1));
    }
    ReCase { pattern, subjects, kind }
}

fn has_op(re: &iregex::Re) -> bool {
    use iregex::Re::*;
    match re {
        Char(_) => false,
        Cat(v) => v.iter().any(has_op),
        Group(_) | Alt(_) | Rep(..) | Dot | Class(..) | Cat_(..) => true,
    }
}

fn c12(s: &mut Src, c: &mut Ctx) -> Res {
    let k = re_case(s);
    let parsed = iregex::parse(&k.pattern);
    c.label(k.kind);
    c.label(match parsed {
        iregex::Parse::Ok(_) => "valid",
        iregex::Parse::Invalid => "invalid",
        iregex::Parse::Unspecified => "unspecified",
    });
    let whole = s.chance(128);
    let name = if whole { "match" } else { "search" };
    // where pattern and subject come from
    let lit_ok = !k.pattern.chars().any(gen::is_ctrl_only);
    let form = if lit_ok { s.below(5) } else { 3 };
    let negate = s.chance(30);
    let at = |n: &str| Expr::Path(false, vec![Seg { desc: false, sels: vec![Sel::Name(n.into())] }]);
    let root = |n: &str| Expr::Path(true, vec![Seg { desc: false, sels: vec![Sel::Name(n.into())] }]);
    let (doc, pre, a, b) = match form {
        0..=2 => (Value::Array(k.subjects.clone()), vec![], Expr::Path(false, vec![]), Expr::Str(k.pattern.clone())),
        3 => (
            json!({"p": k.pattern, "s": k.subjects}),
            vec![Seg { desc: false, sels: vec![Sel::Name("s".into())] }],
            Expr::Path(false, vec![]),
            root("p"),
        ),
        _ => (
            Value::Array(k.subjects.iter().map(|t| json!({"t": t, "p": k.pattern})).collect()),
            vec![],
            at("t"),
            Expr::Call("value".into(), vec![at("p")]),
        ),
    };
    let call = Expr::Call(name.into(), vec![a, b]);
    let mut segs = pre;
    segs.push(Seg { desc: false, sels: vec![Sel::Filter(if negate { Expr::Not(Box::new(call)) } else { call })] });
    let text = print::plain(&segs);
    c.desc = format!("{text} on {}", show_doc(&doc));
    // expected outcomes per subject under either reading of carets
    let decide = |cr: Carets| -> Option<Vec<bool>> {
        k.subjects
            .iter()
            .map(|v| match v {
                Value::String(t) => iregex::decide(&k.pattern, t, whole, cr),
                _ => Some(false),
            })
            .collect()
    };
    let (anch, lit) = (decide(Carets::Anchor), decide(Carets::Literal));
    let settled = anch.is_some() && lit.is_some();
    if !settled {
        c.label("undecided-by-oracle");
    }
    let wide = iregex::wide_quantifier(&k.pattern);
    match &parsed {
        iregex::Parse::Ok(re) => {
            let some = anch.as_ref().is_some_and(|v| v.iter().any(|b| *b));
            c.label_if(some, "some-match");
            if has_op(re) && some {
                c.nontrivial(&format!("{name} {:?} {:?}", k.pattern, k.subjects));
            }
        }
        iregex::Parse::Invalid => c.nontrivial(&format!("{name} {:?} {:?}", k.pattern, k.subjects)),
        _ => (),
    }
    let subjects: Vec<&Value> = match &doc {
        Value::Array(a) => a.iter().collect(),
        Value::Object(o) => o["s"].as_array().unwrap().iter().collect(),
        _ => unreachable!(),
    };
    for e in Eng::ALL {
        c.eval();
        let got = match suts::run(e, &text, &doc) {
            Ok(g) => g,
            Err(f) => {
                c.fail(f.key.clone(), f.msg)?;
                continue;
            }
        };
        let bits: Vec<bool> = subjects.iter().map(|v| got.iter().any(|f| std::ptr::eq(f.value, *v)) != negate).collect();
        if wide {
            c.exclude("multi-digit quantifier (known finding)");
            continue;
        }
        if !settled {
            continue;
        }
        if Some(&bits) != anch.as_ref() && Some(&bits) != lit.as_ref() {
            c.fail(
                format!("regex:{}:{name}", e.name()),
                format!(
                    "{}: {name} of {:?} against {:?}: expected {:?}, got {:?}",
                    e.name(),
                    k.subjects.iter().map(|v| v.to_string()).collect::<Vec<_>>(),
                    k.pattern,
                    anch.as_ref().unwrap(),
                    bits
                ),
            )?;
        }
    }
    Ok(())
}

fn re_fixed(name: String, pattern: &'static str, whole: bool, yes: &'static [&'static str], no: &'static [&'static str]) -> (String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>) {
    fixed_case(name, move |c| {
        let f = if whole { "match" } else { "search" };
        let q = print::plain(&[Seg {
            desc: false,
            sels: vec![Sel::Filter(Expr::Call(f.into(), vec![Expr::Path(false, vec![]), Expr::Str(pattern.into())]))],
        }]);
        let doc: Value = yes.iter().chain(no.iter()).map(|t| json!(t)).collect::<Vec<_>>().into();
        for e in Eng::ALL {
            c.eval();
            let got = suts::run(e, &q, &doc)?;
            let got: Vec<&str> = got.iter().map(|f| f.value.as_str().unwrap()).collect();
            if got != yes {
                c.fail(format!("regex-fixed:{}", e.name()), format!("{}: {f}(…, {pattern:?}) holds for {got:?}, expected {yes:?}", e.name()))?;
            }
        }
        Ok(())
    })
}

fn c12_fixed() -> Fixed {
    let cases: &[(&str, bool, &[&str], &[&str])] = &[
        ("a.c", true, &["abc", "a😀c", "a\u{2028}c"], &["a\nc", "a\rc", "abcd", "xabc"]),
        ("a.c", false, &["xabcx", "a\u{85}c"], &["a\nc", "a\rc"]),
        ("a|b", true, &["a", "b"], &["ab", "ac", "xb"]),
        ("a|b", false, &["xa", "bx"], &["c", ""]),
        ("[a&&b]", true, &["a", "b", "&"], &["c"]),
        ("[a~~b]", true, &["a", "b", "~"], &["c"]),
        ("[&-&]", true, &["&"], &["a"]),
        ("[^a]", true, &["b", "\n", "\r", "é"], &["a", ""]),
        ("[\\n]", true, &["\n"], &["n", "\\"]),
        ("[a\\]b]", true, &["]", "a"], &["\\"]),
        ("[.]", true, &["."], &["a"]),
        ("[^.]", true, &["a", "\n"], &["."]),
        ("a\\.c", true, &["a.c"], &["abc"]),
        ("\\.", false, &["a."], &["ab"]),
        ("a{2}", true, &["aa"], &["a", "aaa"]),
        ("a{1,2}", true, &["a", "aa"], &["", "aaa"]),
        ("a{2,}", true, &["aa", "aaaa"], &["a"]),
        ("a{0}b", true, &["b"], &["ab"]),
        ("\\p{Lu}+", true, &["A", "ÀÉ"], &["a", "A1"]),
        ("\\P{Lu}", true, &["a", "1"], &["A"]),
        ("[\\p{L}\\-]+", true, &["a-b"], &["a_b"]),
        ("[^\\p{L}]", true, &["1", "\n"], &["a"]),
        ("", true, &[""], &["a"]),
        ("", false, &["", "a"], &[]),
        ("(a|)b", true, &["ab", "b"], &["a"]),
        ("()", true, &[""], &["a"]),
        ("(ab)*c?", true, &["", "abab", "abc", "c"], &["aab"]),
        ("^a", true, &["a"], &["ab", "ba"]),
        ("a$", true, &["a"], &["ba", "ab"]),
        ("^ab.*", true, &["ab", "abc"], &["b", "xab"]),
        ("a|b$", true, &["a", "b"], &["xb", "ax"]),
        ("^a|b", true, &["a", "b"], &["ax", "xb"]),
        (" a ", true, &[" a "], &["a"]),
        ("a#b", true, &["a#b"], &["a"]),
        ("a-b", true, &["a-b"], &["ab"]),
        ("/", true, &["/"], &[]),
        ("<a>", true, &["<a>"], &["a"]),
        ("a\"b'", true, &["a\"b'"], &[]),
        ("A", true, &["A"], &["a"]),
        ("\\^", true, &["^"], &["\\^"]),
        ("a\\d", true, &[], &["a1", "ad"]),
        ("(?:a)", true, &[], &["a"]),
        ("(", false, &[], &["(", ""]),
        ("a**", false, &[], &["a"]),
        ("[a", false, &[], &["a"]),
        ("\\p{Foo}", false, &[], &["a"]),
        ("[\\w]", false, &[], &["w", "a"]),
        ("a{10}", true, &["aaaaaaaaaa"], &["a"]),
    ];
    cases
        .iter()
        .map(|(p, w, y, n)| re_fixed(format!("{} {p:?}", if *w { "match" } else { "search" }), p, *w, y, n))
        .collect()
}

// ------------------------------------------------------------------------ C15

#[derive(Clone, Debug)]
enum HOp {
    /// evaluate query q on document d with engine e; reuse the parsed query?
    Eval(usize, usize, usize, bool),
    /// many distinct patterns through one function's cache
    Flood(bool, usize),
    /// parse text t with a shared parser object
    Parse(usize),
    /// evaluate query q on document d by one of engine e's entry points
    Entry(usize, usize, usize, usize),
    /// evaluate query q on document d, which replaces another one in its place
    Replaced(usize, usize, usize, bool),
}

thread_local! {
    static PLACE: std::cell::RefCell<Value> = const { std::cell::RefCell::new(Value::Null) };
}

fn texts_of(found: &[Found]) -> Vec<String> {
    found.iter().map(|f| f.loc.clone()).collect()
}

type Outcome = Result<Vec<String>, String>;

fn one_eval(e: Eng, text: &str, parsed: Option<&Query>, doc: &Value, env: &Envs) -> Result<Outcome, Failure> {
    let fresh;
    let q = match parsed {
        Some(q) => q,
        None => match standard(e.sut(), text)? {
            Ok(q) => {
                fresh = q;
                &fresh
            }
            Err(m) => return Ok(Err(format!("parse: {}", m.msg))),
        },
    };
    Ok(eval(e, q, doc, env)?.map(|f| texts_of(&f)))
}

fn flood_doc() -> Value {
    Value::Array((0..150).map(|i| json!(format!("a{}b{}d?", "x?".repeat(i % 7), "c?".repeat(i / 7)))).collect())
}

fn iregex_settled(p: &str) -> bool {
    !p.chars().any(gen::is_ctrl_only) && !pattern_unsettled(p)
}

/// A pattern that is easily mistaken for `p`.
fn twin(s: &mut Src, p: &str) -> String {
    let mut v: Vec<char> = p.chars().collect();
    let n = v.len();
    match s.below(8) {
        0 => v.reverse(),
        1..=2 if n > 1 => {
            let i = s.below(n);
            let j = s.below(n);
            v.swap(i, j);
        }
        3 if n > 1 => {
            let k = 1 + s.below(n - 1);
            v.rotate_left(k);
        }
        4 => v = v.iter().flat_map(|c| if c.is_ascii_uppercase() { c.to_lowercase().collect::<Vec<_>>() } else { c.to_uppercase().collect() }).collect(),
        5 => v.push(*s.pick(&['a', ' ', '?', '*', '.'])),
        6 if n > 0 => {
            let i = s.below(n);
            v.remove(i);
        }
        _ if n > 0 => {
            let i = s.below(n);
            v[i] = *s.pick(&['a', 'b', 'c', '.', '1', '2', 'é']);
        }
        _ => v.push('a'),
    }
    v.into_iter().collect()
}

/// Several threads meet an environment's first sight of many patterns, each in
/// an order of its own; afterwards every pattern is asked for once more.
fn stress(c: &mut Ctx, e: usize, whole: bool, npat: usize, threads: usize, seed: u64) -> Res {
    let eng = Eng::ALL[e];
    let name = if whole { "match" } else { "search" };
    let pat = |i: usize| format!("p{i}[x-z]");
    let env = OwnedEnvs::new();
    let q = match standard(eng.sut(), &format!("$.p[?{name}($.s,@)]"))? {
        Ok(q) => q,
        Err(m) => return c.fail("reject", format!("{}: {}", eng.name(), m.msg)),
    };
    // each thread's documents: one subject, then all patterns in some order
    let orders: Vec<Vec<Value>> = (0..threads)
        .map(|t| {
            let mut r = crate::engine::Rng::new(seed ^ (t as u64) << 40);
            (0..3)
                .map(|_| {
                    let mut ix: Vec<usize> = (0..npat).collect();
                    for i in (1..npat).rev() {
                        ix.swap(i, (r.next() % (i as u64 + 1)) as usize);
                    }
                    let subject = ix[(r.next() % npat as u64) as usize];
                    json!({"s": format!("p{subject}y"), "p": ix.iter().map(|i| pat(*i)).collect::<Vec<_>>()})
                })
                .collect()
        })
        .collect();
    let wanted = |d: &Value| -> Vec<String> {
        let subject = d["s"].as_str().unwrap().trim_end_matches('y').to_string() + "[x-z]";
        let i = d["p"].as_array().unwrap().iter().position(|v| v.as_str() == Some(&subject)).unwrap();
        vec![format!("$['p'][{i}]")]
    };
    let ask = |d: &Value, when: &str| -> Res {
        let got = eval(eng, &q, d, &env.0)?.map(|f| texts_of(&f));
        if got != Ok(wanted(d)) {
            return Err(Failure::new(
                format!("stress:{}", eng.name()),
                format!("{}: {name}({}, …) selects {got:?} instead of {:?} {when} {threads} threads compile {npat} patterns at once", eng.name(), d["s"], wanted(d)),
            ));
        }
        Ok(())
    };
    let bad: std::sync::Mutex<Option<Failure>> = std::sync::Mutex::new(None);
    let start = std::sync::Barrier::new(threads);
    std::thread::scope(|sc| {
        for docs in &orders {
            let (bad, ask, start) = (&bad, &ask, &start);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    start.wait();
                    for d in docs {
                        if let Err(f) = ask(d, "while") {
                            bad.lock().unwrap().get_or_insert(f);
                            return;
                        }
                    }
                })
                .unwrap();
        }
    });
    c.evals += (threads * 3) as u64;
    if let Some(f) = bad.into_inner().unwrap() {
        return c.fail(f.key, f.msg);
    }
    for i in 0..npat {
        c.eval();
        let d = json!({"s": format!("p{i}y"), "p": (0..npat).map(pat).collect::<Vec<_>>()});
        if let Err(f) = ask(&d, "after") {
            return c.fail(f.key, f.msg);
        }
    }
    Ok(())
}

fn c15(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(2) {
        let (e, whole) = (s.below(5), s.chance(128));
        let most = if s.chance(40) { 118 } else { 40 };
        let npat = 2 + s.below(most);
        let threads = 2 + s.below(7);
        let seed = s.below(1 << 24) as u64;
        c.desc = format!("{} {} stressed by {threads} threads with {npat} patterns, seed {seed}", Eng::ALL[e].name(), if whole { "match" } else { "search" });
        c.label("stress");
        c.nontrivial(&c.desc.clone());
        return stress(c, e, whole, npat, threads, seed);
    }
    // patterns used by both regex functions, from literals and from documents
    let npat = 2 + s.below(3);
    let mut pats: Vec<String> = vec![];
    for _ in 0..npat {
        // near twins: patterns a cache might confuse
        if !pats.is_empty() && s.chance(110) {
            let t = twin(s, &pats[pats.len() - 1].clone());
            if iregex_settled(&t) {
                c.label("twin-patterns");
                pats.push(t);
                continue;
            }
        }
        pats.push(loop {
            let p = if s.chance(30) { bad_pattern(s) } else { gen::re_text(&gen::regex(s, 2)) };
            if iregex_settled(&p) {
                break p;
            }
            if s.pos > 4000 {
                break "a.c".into();
            }
        });
    }
    let mut docs = vec![];
    for p in &pats {
        let subj: Vec<Value> = (0..4)
            .map(|_| match iregex::parse(p) {
                iregex::Parse::Ok(re) => {
                    let t = gen::sample_re(s, &re);
                    json!(if s.chance(90) { format!("x{t}") } else { t })
                }
                _ => json!(gen::small_string(s)),
            })
            .collect();
        docs.push(json!({"p": p, "s": subj}));
    }
    docs.push(gen::doc(s, &DocOpts { depth: 3, width: 4, ..Default::default() }));
    docs.push(Value::Array(docs.iter().take(2).map(|d| d["s"].clone()).collect()));
    let mut texts: Vec<String> = vec![];
    let ntext = 3 + s.below(4);
    for _ in 0..ntext {
        let p = s.pick(&pats).clone();
        let f = if s.chance(128) { "match" } else { "search" };
        let lit = {
            let mut z = Src::replay(vec![]);
            let mut pr = print::Printer::new(&mut z, Style::plain());
            pr.string(&p);
            pr.out
        };
        let t = match s.below(6) {
            0..=1 => format!("$.s[?{f}(@,{lit})]"),
            2 => format!("$.s[?{f}(@,$.p)]"),
            3 => format!("$..[?match(@,{lit}) && search(@,{lit})]"),
            4 => format!("$..[?!{f}(@,{lit})]"),
            _ => {
                let di = s.below(docs.len());
                let mut segs = super::evalp::query_for(s, &docs[di], &QOpts { filter: 120, regex: false, ..Default::default() });
                // and queries that are easily mistaken for it
                for _ in 0..if s.chance(100) { 1 + s.below(2) } else { 0 } {
                    let mut other = segs.clone();
                    if twin_query(s, &mut other, &mut docs[di]) {
                        c.label("twin-queries");
                        texts.push(plain(&other));
                        if s.chance(60) {
                            segs = other;
                        }
                    }
                }
                if s.chance(60) { text_of(s, &segs) } else { plain(&segs) }
            }
        };
        texts.push(t);
    }
    let ntext = texts.len();
    let near = |s: &mut Src, last: &mut usize| {
        // the same text again, or one next to it
        *last = match s.below(4) {
            0 => *last,
            1 => (*last + 1) % ntext,
            2 => (*last + ntext - 1) % ntext,
            _ => s.below(ntext),
        };
        *last
    };
    let mut last = 0;
    let nops = 6 + s.below(20);
    let ops: Vec<HOp> = (0..nops)
        .map(|_| match s.below(24) {
            0 => HOp::Flood(s.chance(128), s.below(5)),
            1..=2 => HOp::Parse(near(s, &mut last)),
            3..=7 => HOp::Entry(near(s, &mut last), s.below(docs.len()), s.below(5), if s.chance(128) { 1 } else { s.below(12) }),
            8..=10 => HOp::Replaced(near(s, &mut last), s.below(docs.len()), s.below(5), s.chance(128)),
            _ => HOp::Eval(near(s, &mut last), s.below(docs.len()), s.below(5), s.chance(128)),
        })
        .collect();
    let mut heavy = HashMap::new();
    let ops: Vec<HOp> = ops
        .into_iter()
        .filter(|o| match o {
            HOp::Eval(q, d, ..) | HOp::Entry(q, d, ..) | HOp::Replaced(q, d, ..) => !*heavy.entry((*q, *d)).or_insert_with(|| too_heavy_text(c, &texts[*q], &docs[*d])),
            _ => true,
        })
        .collect();
    let threads = if s.chance(32) { 2 + s.below(3) } else { 1 };
    c.label(if threads > 1 { "threads" } else { "sequential" });
    c.label_if(ops.iter().any(|o| matches!(o, HOp::Flood(..))), "flood");
    c.desc = format!("texts {texts:?}; docs {:?}; ops {ops:?}; threads {threads}", docs.iter().map(show_doc).collect::<Vec<_>>());
    let mut seen = HashMap::new();
    for o in &ops {
        if let HOp::Eval(q, ..) | HOp::Entry(q, ..) | HOp::Replaced(q, ..) = o {
            *seen.entry(*q).or_insert(0) += 1;
        }
    }
    if ops.len() >= 8 && seen.values().any(|n| *n > 1) {
        let k = c.desc.clone();
        c.nontrivial(&k);
    }
    run_history(c, &texts, &docs, &ops, threads)
}

fn run_history(c: &mut Ctx, texts: &[String], docs: &[Value], ops: &[HOp], threads: usize) -> Res {
    // what every evaluation must give: alone, and (where the model speaks) by the model
    let mut base: HashMap<(usize, usize, usize), Outcome> = HashMap::new();
    for o in ops {
        if let HOp::Eval(q, d, e, _) | HOp::Entry(q, d, e, _) | HOp::Replaced(q, d, e, _) = o {
            if base.contains_key(&(*q, *d, *e)) {
                continue;
            }
            let env = OwnedEnvs::new();
            let r = one_eval(Eng::ALL[*e], &texts[*q], None, &docs[*d], &env.0)?;
            if let (Some(segs), Ok(got)) = (recog::ast(&texts[*q], &recog::Opts::default()), &r) {
                if !regex_unsettled(&segs, &docs[*d]) {
                    if let Some(w) = model_find(&segs, &docs[*d]) {
                        let w: Vec<String> = w.iter().map(|n| normalized(&n.path)).collect();
                        if &w != got {
                            c.fail(
                                format!("model:{}", Eng::ALL[*e].name()),
                                format!("{} gives {got:?} for {} on {}, expected {w:?}", Eng::ALL[*e].name(), texts[*q], show_doc(&docs[*d])),
                            )?;
                        }
                    }
                }
            }
            base.insert((*q, *d, *e), r);
        }
    }
    let fd = flood_doc();
    let flood_want: Vec<Vec<String>> = [true, false]
        .iter()
        .map(|m| {
            let segs = recog::ast(flood_text(*m), &recog::Opts::default()).unwrap();
            model_find(&segs, &fd).unwrap().iter().map(|n| normalized(&n.path)).collect()
        })
        .collect();
    let shared = OwnedEnvs::new();
    let parsers = Parsers::new();
    // queries parsed once and reused
    let mut parsed: Vec<Vec<Option<Query>>> = vec![];
    for t in texts {
        let mut v = vec![];
        for e in Eng::ALL {
            v.push(standard(e.sut(), t)?.ok());
        }
        parsed.push(v);
    }
    let mut fresh_display: Vec<Vec<Option<String>>> = vec![];
    for t in texts {
        let mut v = vec![];
        for p in Sut::ALL {
            v.push(match standard(p, t)? {
                Ok(q) => Some(q.display()?),
                Err(_) => None,
            });
        }
        fresh_display.push(v);
    }
    let run_op = |o: &HOp, i: usize| -> Result<Option<Failure>, Failure> {
        match o {
            HOp::Eval(q, d, e, reuse) => {
                let eng = Eng::ALL[*e];
                let pq = if *reuse { parsed[*q][*e].as_ref() } else { None };
                let got = one_eval(eng, &texts[*q], pq, &docs[*d], &shared.0)?;
                let want = &base[&(*q, *d, *e)];
                if got != *want {
                    return Ok(Some(Failure::new(
                        format!("history:{}", eng.name()),
                        format!("step {i}: {} gives {got:?} for {} on {}, alone it gives {want:?}", eng.name(), texts[*q], show_doc(&docs[*d])),
                    )));
                }
            }
            HOp::Entry(q, d, e, k) => {
                let (way, got) = super::api::by_way(&texts[*q], &docs[*d], *e, *k)?;
                let want = &base[&(*q, *d, *e)];
                if got.as_ref() != want.as_ref().ok() {
                    return Ok(Some(Failure::new(
                        format!("entry:{}", Eng::ALL[*e].name()),
                        format!("step {i}: {} ({way}) gives {got:?} for {} on {}, alone it gives {want:?}", Eng::ALL[*e].name(), texts[*q], show_doc(&docs[*d])),
                    )));
                }
            }
            HOp::Replaced(q, d, e, reuse) => {
                let eng = Eng::ALL[*e];
                let pq = if *reuse { parsed[*q][*e].as_ref() } else { None };
                let got = PLACE.with(|p| {
                    *p.borrow_mut() = docs[*d].clone();
                    one_eval(eng, &texts[*q], pq, &p.borrow(), &shared.0)
                })?;
                let want = &base[&(*q, *d, *e)];
                if got != *want {
                    return Ok(Some(Failure::new(
                        format!("replaced:{}", eng.name()),
                        format!("step {i}: {} gives {got:?} for {} on {} in the place of another document, alone it gives {want:?}", eng.name(), texts[*q], show_doc(&docs[*d])),
                    )));
                }
            }
            HOp::Flood(m, e) => {
                let eng = Eng::ALL[*e];
                let got = one_eval(eng, flood_text(*m), None, &fd, &shared.0)?;
                let want = &flood_want[if *m { 0 } else { 1 }];
                if got.as_ref() != Ok(want) {
                    return Ok(Some(Failure::new(format!("flood:{}", eng.name()), format!("step {i}: {} gives {got:?} for {}, expected {want:?}", eng.name(), flood_text(*m)))));
                }
            }
            HOp::Parse(t) => {
                for (k, p) in Sut::ALL.iter().enumerate() {
                    // a failing parse in between must not matter either
                    let _ = parsers.parse(*p, "$[?nosuch(@.a]")?;
                    let got = match parsers.parse(*p, &texts[*t])? {
                        Ok(q) => Some(q.display()?),
                        Err(_) => None,
                    };
                    if got != fresh_display[*t][k] {
                        return Ok(Some(Failure::new(
                            format!("reparse:{}", p.name()),
                            format!("step {i}: {} with a reused parser reads {} as {got:?}, a new one as {:?}", p.name(), texts[*t], fresh_display[*t][k]),
                        )));
                    }
                }
            }
        }
        Ok(None)
    };
    if threads == 1 {
        for (i, o) in ops.iter().enumerate() {
            c.eval();
            match run_op(o, i) {
                Ok(None) => (),
                Ok(Some(f)) | Err(f) => c.fail(f.key, f.msg)?,
            }
        }
        return Ok(());
    }
    let bad: std::sync::Mutex<Vec<(usize, Failure)>> = std::sync::Mutex::new(vec![]);
    let start = std::sync::Barrier::new(threads);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (bad, run_op, start) = (&bad, &run_op, &start);
            let mut order: Vec<usize> = (0..ops.len()).collect();
            order.rotate_left(t * ops.len() / threads);
            // parsed queries hold no interior mutability; each thread reads them
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    start.wait();
                    for i in order {
                        if let Ok(Some(f)) | Err(f) = run_op(&ops[i], i) {
                            bad.lock().unwrap().push((i, f));
                            return;
                        }
                    }
                })
                .unwrap();
        }
    });
    c.evals += (ops.len() * threads) as u64;
    let mut b = bad.into_inner().unwrap();
    b.sort_by_key(|x| x.0);
    if let Some((_, f)) = b.into_iter().next() {
        c.fail(format!("threads:{}", f.key), format!("with {threads} threads: {}", f.msg))?;
    }
    Ok(())
}

fn plain(segs: &[Seg]) -> String {
    let mut z = Src::replay(vec![]);
    let mut st = Style::plain();
    st.no_ctrl_u = true;
    print::spelled(&mut z, segs, &st).0
}

fn flood_text(m: bool) -> &'static str {
    if m {
        "$[?match('axxbcc',@)]"
    } else {
        "$[?search('zaxbc',@)]"
    }
}

fn c15_fixed() -> Fixed {
    let sv = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut v: Fixed = vec![];
    for e in 0..5 {
        v.push(fixed_case(format!("same pattern through match and search, {}", Eng::ALL[e].name()), move |c| {
            let texts = sv(&["$[?match(@,'a.c')]", "$[?search(@,'a.c')]", "$[?match(@,'b')]"]);
            let docs = vec![json!(["abc", "xabcx", "b", "", 1, "a\nc"]), json!({"k": "zabc"})];
            let mut ops = vec![];
            for r in 0..3 {
                for q in 0..3 {
                    ops.push(HOp::Eval(q, r % 2, e, r > 0));
                    ops.push(HOp::Eval((q + 1) % 3, 0, e, false));
                }
                ops.push(HOp::Flood(true, e));
                ops.push(HOp::Flood(false, e));
            }
            run_history(c, &texts, &docs, &ops, 1)?;
            run_history(c, &texts, &docs, &ops, 4)
        }));
        v.push(fixed_case(format!("threads meeting new patterns, {}", Eng::ALL[e].name()), move |c| {
            for r in 0..40 {
                stress(c, e, r % 2 == 0, 24 + r, 2 + r % 7, r as u64)?;
            }
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------------------ C16

const FNAMES: [&str; 24] = [
    "f", "g", "foo", "bar", "f1", "f_2", "true_x", "nullable", "false1", "nulls", "truex", "length", "count", "value", "match", "search", "lengths", "counter", "matches", "a", "zz", "value_of", "not",
    "is_ok",
];

fn ty(s: &mut Src) -> Ty {
    *s.pick(&[Ty::Value, Ty::Nodes, Ty::Logical])
}

/// Any name the grammar allows for a function, up to some hundred characters long.
fn fname(s: &mut Src) -> String {
    let n = if s.chance(16) { s.below(300) } else { s.below(12) };
    let mut v = String::from((b'a' + s.below(26) as u8) as char);
    for _ in 0..n {
        v.push(*s.pick(&['a', 'b', 'z', '_', '0', '9', 'e', 'm', 'q', '1']));
    }
    v
}

fn gen_sigs(s: &mut Src, names: &[&str]) -> Vec<Sig> {
    let n = if s.chance(3) { 5 + s.below(60) } else { 1 + s.below(4) };
    (0..n)
        .map(|_| {
            let name = if s.chance(24) { fname(s) } else { s.pick(names).to_string() };
            let most = if s.chance(24) { 60 } else { 9 };
            let np = if s.chance(24) { 4 + s.below(most) } else { [1, 1, 1, 2, 2, 3, 0][s.below(7)] };
            Sig { name, params: (0..np).map(|_| ty(s)).collect(), ret: ty(s) }
        })
        .collect()
}

/// The signatures in force: later registrations replace earlier ones.
fn in_force(sigs: &[Sig]) -> Vec<Sig> {
    let mut v: Vec<Sig> = vec![];
    for s in sigs {
        v.retain(|t| t.name != s.name);
        v.push(s.clone());
    }
    v
}

fn any_call(g: &mut G, sigs: &[Sig]) -> Expr {
    let sig = g.s.pick(sigs).clone();
    g.call(&sig, 1)
}

/// One edit that may or may not make a call ill-typed.
fn disturb(g: &mut G, segs: &mut [Seg], sigs: &[Sig]) {
    let mut n = 0;
    walk_exprs(segs, &mut |e| {
        if matches!(e, Expr::Call(..) | Expr::Cmp(..) | Expr::Path(..) | Expr::Not(_)) {
            n += 1
        }
    });
    if n == 0 {
        return;
    }
    let k = g.s.below(n);
    let mut i = 0;
    walk_exprs(segs, &mut |e| {
        if !matches!(e, Expr::Call(..) | Expr::Cmp(..) | Expr::Path(..) | Expr::Not(_)) {
            return;
        }
        let hit = i == k;
        i += 1;
        if !hit {
            return;
        }
        match e {
            Expr::Call(name, args) => match g.s.below(10) {
                0 if !args.is_empty() => {
                    let i = g.s.below(args.len());
                    args.remove(i);
                }
                1 if !args.is_empty() => {
                    let i = g.s.below(args.len());
                    args.insert(i, args[i].clone());
                }
                2 => {
                    let t = ty(g.s);
                    let a = g.arg(t, 0);
                    args.push(a);
                }
                3..=5 if !args.is_empty() => {
                    let i = g.s.below(args.len());
                    let t = ty(g.s);
                    args[i] = g.arg(t, 0);
                }
                6 if !args.is_empty() => {
                    let i = g.s.below(args.len());
                    args[i] = any_call(g, sigs);
                }
                7 => *name = g.s.pick(sigs).name.clone(),
                8 => *name = g.s.pick(&FNAMES).to_string(),
                _ if !args.is_empty() => {
                    let i = g.s.below(args.len());
                    args[i] = match g.s.below(3) {
                        0 => g.literal(),
                        1 => g.cmp(0),
                        _ => {
                            let p = g.path(0);
                            Expr::Not(Box::new(p))
                        }
                    };
                }
                _ => (),
            },
            Expr::Cmp(a, _, b) => {
                let c = any_call(g, sigs);
                if g.s.chance(128) {
                    **a = c
                } else {
                    **b = c
                }
            }
            Expr::Path(..) | Expr::Not(_) => *e = any_call(g, sigs),
            _ => (),
        }
    });
}

fn show_sigs(sigs: &[Sig]) -> String {
    sigs.iter().map(|s| format!("{}{:?}->{:?}", s.name, s.params, s.ret)).collect::<Vec<_>>().join(" ")
}

fn c16(s: &mut Src, c: &mut Ctx) -> Res {
    let custom = gen_sigs(s, &FNAMES);
    let mut all = std_sigs();
    all.extend(custom.iter().cloned());
    let force = in_force(&all);
    let o = QOpts {
        max_segs: 2,
        filter: 200,
        filter_depth: 2,
        expr_depth: 2,
        call_depth: 2,
        regex: true,
        sigs: in_force(&custom),
        ..super::parse::qopts_parse()
    };
    let mut g = G::new(s, parse_pool(), o);
    g.call_left = 8;
    let mut segs = g.query();
    // make sure there is a call
    let e = match g.s.below(4) {
        0 => g.test_call(1),
        1..=2 => {
            let a = g.value_call(1);
            a.map(|a| {
                let b = g.comparable(0);
                Expr::Cmp(Box::new(a), *g.s.pick(&Op::ALL), Box::new(b))
            })
        }
        _ => None,
    };
    if let Some(e) = e {
        let e = match g.s.below(6) {
            0 => Expr::Not(Box::new(e)),
            1 => and(vec![e, g.path(0)]),
            2 => or(vec![g.cmp(0), e]),
            _ => e,
        };
        segs.push(Seg { desc: false, sels: vec![Sel::Filter(e)] });
    }
    if g.s.chance(150) {
        disturb(&mut g, &mut segs, &force);
        if g.s.chance(60) {
            disturb(&mut g, &mut segs, &force);
        }
    }
    let st = Style { sigs: force.clone(), ..if s.chance(60) { Style::random(s) } else { Style { shorthand: 256, ..Style::plain() } } };
    let text = print::spelled(s, &segs, &st).0;
    check_sigs(c, &custom, &text)
}

fn check_sigs(c: &mut Ctx, custom: &[Sig], text: &str) -> Res {
    let mut all = std_sigs();
    all.extend(custom.iter().cloned());
    let opts = recog::Opts { sigs: in_force(&all), ..Default::default() };
    let want = recog::parse(text, &opts);
    let (ok, only_name, name) = match &want {
        Ok(p) => (
            p.faults.is_empty(),
            !p.faults.is_empty() && p.faults.iter().all(|f| f.kind == recog::Kind::Name),
            p.faults.first().map(|f| f.what.clone()).unwrap_or_default(),
        ),
        Err(_) => (false, false, String::new()),
    };
    c.label(if ok {
        "well-typed"
    } else if want.is_err() {
        "ungrammatical"
    } else {
        "ill-typed"
    });
    c.desc = format!("{} | {text}", show_sigs(custom));
    if custom.iter().any(|s| text.contains(&format!("{}(", s.name))) {
        let k = c.desc.clone();
        c.nontrivial(&k);
    }
    let mut ps = Parsers::new();
    for s in custom {
        ps.add(s);
    }
    let std_ok = recog::accepts(text, &recog::Opts::default());
    for p in Sut::ALL {
        if p == Sut::Hand && super::parse::hand_cannot_judge(text) {
            c.exclude("hand: control character escape or whitespace in compared brackets (known findings of C01 and C02)");
            continue;
        }
        c.eval();
        match ps.parse(p, text)? {
            Ok(q) => {
                if !ok {
                    c.fail(
                        format!("accept:{}", p.name()),
                        format!("{} with [{}] accepts {text:?}: {}", p.name(), show_sigs(custom), fault_text(&want)),
                    )?;
                } else if p != Sut::Loc && p != Sut::Sing {
                    let got = q.segs(&opts)?;
                    let ast = &want.as_ref().unwrap().segs;
                    if let Some(d) = super::parse::ast_diff(&norm_steps(ast), &norm_steps(&got)) {
                        c.fail(format!("ast:{}", p.name()), format!("{} with [{}] misreads {text:?}: {d}", p.name(), show_sigs(custom)))?;
                    }
                }
            }
            Err(e) => {
                if ok {
                    c.fail(
                        format!("reject:{}", p.name()),
                        format!("{} with [{}] rejects {text:?}: {}", p.name(), show_sigs(custom), e.msg),
                    )?;
                } else if only_name && e.kind != suts::EKind::Name {
                    c.fail(
                        format!("kind:{}", p.name()),
                        format!("{} with [{}] on {text:?} ({name}): reports {:?} {:?}", p.name(), show_sigs(custom), e.kind, e.msg),
                    )?;
                }
            }
        }
        // registering on one parser leaves others alone
        match standard(p, text)? {
            Ok(_) if !std_ok && p != Sut::Sing => c.fail(format!("leak:{}", p.name()), format!("{}'s standard parser accepts {text:?}", p.name()))?,
            Err(e) if std_ok => c.fail(format!("stdreject:{}", p.name()), format!("{}'s standard parser rejects {text:?}: {}", p.name(), e.msg))?,
            _ => (),
        }
    }
    Ok(())
}

fn fault_text(p: &Result<recog::Parsed, recog::Fault>) -> String {
    match p {
        Ok(p) => p.faults.iter().map(|f| f.what.clone()).collect::<Vec<_>>().join("; "),
        Err(f) => f.what.clone(),
    }
}

fn c16_fixed() -> Fixed {
    let v = |name: &str, p: &[Ty], r: Ty| Sig::new(name, p, r);
    use Ty::*;
    let sigs = vec![
        v("vv", &[Value], Value),
        v("nv", &[Nodes], Value),
        v("lv", &[Logical], Value),
        v("vl", &[Value], Logical),
        v("nl", &[Nodes], Logical),
        v("ll", &[Logical], Logical),
        v("vn", &[Value], Nodes),
        v("nn", &[Nodes], Nodes),
        v("ln", &[Logical], Nodes),
        v("z", &[], Value),
        v("zl", &[], Logical),
        v("zn", &[], Nodes),
        v("true_x", &[Value], Value),
        v("nullable", &[Value], Logical),
        v("three", &[Value, Nodes, Logical], Value),
    ];
    let args = ["1", "'a'", "true", "null", "@", "@.a", "$.a", "@.*", "$..a", "@.a==1", "!@.a", "(@.a)", "(@.a==1)", "@.a&&@.b", "@.a || @.b", "z()", "zl()", "zn()", "vv(1)", "nn(@.*)", "!zl()", "zl()&&@.a", "z()==1", ""];
    let mut out: Fixed = vec![];
    for f in ["vv", "nv", "lv", "vl", "nl", "ll", "vn", "nn", "ln", "true_x", "nullable"] {
        let sigs = sigs.clone();
        out.push(fixed_case(format!("every argument form for {f}"), move |c| {
            for a in args {
                for t in [format!("$[?{f}({a})]"), format!("$[?{f}({a})==1]"), format!("$[?!{f}({a})]"), format!("$[?@.x && {f}({a})]"), format!("$[?ll({f}({a}))]"), format!("$[?1 < {f}({a})]")] {
                    check_sigs(c, &sigs, &t)?;
                }
            }
            Ok(())
        }));
    }
    let sg = sigs.clone();
    out.push(fixed_case("three parameters", move |c| {
        for a in ["1,@.*,@.a==1", "@.a,@.a,@.a", "1,2,3", "@.*,@.*,@.*", "@,@,@,@", "@,@", "z(),zn(),zl()", "zn(),zn(),zn()", "z(),z(),z()", "zl(),zn(),zl()"] {
            check_sigs(c, &sg, &format!("$[?three({a})==1]"))?;
            check_sigs(c, &sg, &format!("$[?vv(three({a}))==1]"))?;
        }
        Ok(())
    }));
    out.push(fixed_case("replacing a standard function", move |c| {
        for s in [v("length", &[Nodes], Logical), v("count", &[Value, Value], Nodes), v("match", &[Value], Value), v("value", &[], Value)] {
            for t in [
                "$[?length(@.*)]", "$[?length(@.a)==1]", "$[?length(@.a)]", "$[?count(@.a,1)]", "$[?count(@.*)==1]", "$[?count(count(@.a,1),2)]", "$[?match(@.a)==1]", "$[?match(@.a,'b')]",
                "$[?value()==1]", "$[?value(@.a)==1]",
            ] {
                check_sigs(c, &[s.clone()], t)?;
            }
        }
        // registered twice: the last one counts
        let two = [v("f", &[Value], Value), v("f", &[Nodes, Value], Logical)];
        for t in ["$[?f(1)==1]", "$[?f(@.*,1)]", "$[?f(@.*,1)==1]", "$[?f(@.*)]", "$[?f(1,1)]"] {
            check_sigs(c, &two, t)?;
        }
        Ok(())
    }));
    out
}

// ------------------------------------------------------------------------ C17

thread_local! {
    static BAD: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static CALLS: RefCell<u64> = const { RefCell::new(0) };
}

fn bad(m: String) {
    BAD.with(|b| b.borrow_mut().push(m));
}

/// Text of a value in which equal JSON values look the same.
fn canon(v: &Value, o: &mut String) {
    match v {
        Value::Null => o.push('n'),
        Value::Bool(b) => o.push(if *b { 't' } else { 'f' }),
        Value::Number(n) => canon_num(n.as_f64().unwrap(), o),
        Value::String(s) => o.push_str(&format!("s{s:?}")),
        Value::Array(a) => {
            o.push('[');
            a.iter().for_each(|x| canon(x, o));
            o.push(']');
        }
        Value::Object(m) => {
            o.push('{');
            for (k, x) in m {
                o.push_str(&format!("{k:?}"));
                canon(x, o);
            }
            o.push('}');
        }
    }
}

fn canon_num(f: f64, o: &mut String) {
    o.push_str(&format!("#{:?};", if f == 0.0 { 0.0 } else { f }));
}

enum Out {
    Nothing,
    Int(i64),
    Str(&'static str),
    Bool(bool),
    Null,
    /// the n-th argument unchanged
    Arg(usize),
    /// at most n nodes of the k-th argument
    Take(usize, usize),
    NoNodes,
}

/// The deterministic behaviour of a probe function given its digested arguments.
fn outcome(name: &str, params: &[Ty], ret: Ty, digest: &str) -> Out {
    let h = fnv(format!("{name}|{digest}").as_bytes());
    match ret {
        Ty::Value => {
            if name.starts_with('h') {
                return Out::Int((h % 1_000_003) as i64);
            }
            match h % 8 {
                0 => Out::Nothing,
                1 => Out::Int((h / 8 % 3) as i64),
                2 => Out::Str(["a", "b"][(h / 8 % 2) as usize]),
                3 => Out::Bool(h / 8 % 2 == 0),
                4 => Out::Null,
                _ => match params.iter().position(|t| *t == Ty::Value) {
                    Some(i) => Out::Arg(i),
                    None => Out::Int((h / 8 % 5) as i64),
                },
            }
        }
        Ty::Logical => Out::Bool(h % 2 == 0),
        Ty::Nodes => match params.iter().position(|t| *t == Ty::Nodes) {
            Some(i) => Out::Take(i, [usize::MAX, 0, 1, 2, usize::MAX][(h % 5) as usize]),
            None => Out::NoNodes,
        },
    }
}

macro_rules! probe {
    ($name:ident, $m:ident, $res:path, $who:literal) => {
        mod $name {
            use super::*;
            use $m::function::{ExpressionType as ET, FunctionExtension, FunctionSignature};
            use $res as R;
            pub struct Probe(pub Sig);
            fn t(t: Ty) -> ET {
                match t {
                    Ty::Value => ET::Value,
                    Ty::Nodes => ET::Nodes,
                    Ty::Logical => ET::Logical,
                }
            }
            fn digest(a: &R, want: Ty, name: &str, i: usize) -> String {
                let mut o = String::new();
                let kind = match a {
                    R::Bool(b) => {
                        o.push_str(if *b { "t" } else { "f" });
                        if want == Ty::Logical {
                            Ty::Logical
                        } else {
                            Ty::Value
                        }
                    }
                    R::Int(i) => {
                        canon_num(*i as f64, &mut o);
                        Ty::Value
                    }
                    R::Float(f) => {
                        canon_num(*f, &mut o);
                        Ty::Value
                    }
                    R::Null => {
                        o.push('n');
                        Ty::Value
                    }
                    R::String(s) => {
                        o.push_str(&format!("s{s:?}"));
                        Ty::Value
                    }
                    R::Array(v) => {
                        if !v.is_array() {
                            bad(format!("{}: argument {i} of {name} is tagged as an array but is {v}", $who));
                        }
                        canon(v, &mut o);
                        Ty::Value
                    }
                    R::Object(v) => {
                        if !v.is_object() {
                            bad(format!("{}: argument {i} of {name} is tagged as an object but is {v}", $who));
                        }
                        canon(v, &mut o);
                        Ty::Value
                    }
                    R::Nodes(ns) => {
                        for n in ns.iter() {
                            canon(n.value, &mut o);
                            o.push(',');
                        }
                        Ty::Nodes
                    }
                    R::Nothing => {
                        o.push('-');
                        Ty::Value
                    }
                };
                if kind != want {
                    bad(format!("{}: argument {i} of {name} should be {want:?} and is {kind:?} {o}", $who));
                }
                o
            }
            impl FunctionExtension for Probe {
                fn call<'a>(&self, args: Vec<R<'a>>) -> R<'a> {
                    CALLS.with(|c| *c.borrow_mut() += 1);
                    let s = &self.0;
                    if args.len() != s.params.len() {
                        bad(format!("{}: {} called with {} arguments, declared with {}", $who, s.name, args.len(), s.params.len()));
                        return R::Nothing;
                    }
                    let d: Vec<String> = args.iter().enumerate().map(|(i, a)| digest(a, s.params[i], &s.name, i)).collect();
                    match outcome(&s.name, &s.params, s.ret, &d.join("|")) {
                        Out::Nothing => R::Nothing,
                        Out::Int(i) => R::Int(i),
                        Out::Str(t) => R::String(t.to_string()),
                        Out::Bool(b) => R::Bool(b),
                        Out::Null => R::Null,
                        Out::Arg(i) => args.into_iter().nth(i).unwrap(),
                        Out::Take(i, n) => match args.into_iter().nth(i).unwrap() {
                            R::Nodes(ns) => R::Nodes(ns.into_iter().take(n).collect()),
                            x => x,
                        },
                        Out::NoNodes => R::Nodes(vec![]),
                    }
                }
                fn sig(&self) -> FunctionSignature {
                    FunctionSignature { param_types: self.0.params.iter().map(|x| t(*x)).collect(), return_type: t(self.0.ret) }
                }
            }
            pub fn env(sigs: &[Sig]) -> $m::env::Environment {
                let mut e = $m::env::Environment::new();
                for s in sigs {
                    e.function_register.insert(s.name.clone(), Box::new(Probe(s.clone())));
                }
                e
            }
        }
    };
}

probe!(p_serde, serdeq, serdeq::ast::FilterExpressionResult, "serde");
probe!(p_iter, iterq, iterq::filter::FilterExpressionResult, "iter");
probe!(p_loc, locq, locq::filter::FilterExpressionResult, "locations");
probe!(p_sing, singq, singq::filter::FilterExpressionResult, "singular");

fn model_probe<'v>(sigs: &[Sig], name: &str, args: Vec<Val<'v>>) -> Val<'v> {
    let s = find_sig(sigs, name).unwrap();
    let d: Vec<String> = args
        .iter()
        .map(|a| {
            let mut o = String::new();
            match a {
                Val::Nothing => o.push('-'),
                Val::Ref(v) => canon(v, &mut o),
                Val::Own(v) => canon(v, &mut o),
                Val::Lit(f, i) => canon_num(i.map(|i| i as f64).unwrap_or(*f), &mut o),
                Val::Nodes(ns) => {
                    for n in ns {
                        canon(n, &mut o);
                        o.push(',');
                    }
                }
                Val::Logical(b) => o.push(if *b { 't' } else { 'f' }),
            }
            o
        })
        .collect();
    match outcome(name, &s.params, s.ret, &d.join("|")) {
        Out::Nothing => Val::Nothing,
        Out::Int(i) => Val::Lit(i as f64, Some(i)),
        Out::Str(t) => Val::Own(json!(t)),
        Out::Bool(b) => {
            if s.ret == Ty::Logical {
                Val::Logical(b)
            } else {
                Val::Own(json!(b))
            }
        }
        Out::Null => Val::Own(Value::Null),
        Out::Arg(i) => args.into_iter().nth(i).unwrap(),
        Out::Take(i, n) => match args.into_iter().nth(i).unwrap() {
            Val::Nodes(ns) => Val::Nodes(ns.into_iter().take(n).collect()),
            x => x,
        },
        Out::NoNodes => Val::Nodes(vec![]),
    }
}

const PNAMES: [&str; 12] = ["f", "g", "h", "h1", "hash", "p_1", "is_x", "pick", "length", "value", "count", "q"];

fn c17(s: &mut Src, c: &mut Ctx) -> Res {
    let sigs = in_force(&gen_sigs(s, &PNAMES));
    let mut all = std_sigs();
    all.extend(sigs.iter().cloned());
    let doc = gen::doc(s, &DocOpts { depth: 3, width: 4, records: 100, ..Default::default() });
    let mut g = G::aimed(
        s,
        &doc,
        QOpts { max_segs: 2, filter: 60, filter_depth: 1, expr_depth: 1, call_depth: 2, desc: 25, regex: false, sigs: in_force(&all), ..Default::default() },
    );
    g.call_left = 8;
    g.desc_left = 2;
    let sg = sigs.clone();
    let mp = ModelProbe(sg);
    let f = mp.as_fn();
    let env = Env { sigs: all.clone(), custom: Some(&*f), ..Env::std() };
    let mut segs = if g.s.chance(90) { g.query() } else { vec![] };
    let e = g.in_filter(|g| {
        let sig = g.s.pick(&sigs).clone();
        let call = g.call(&sig, 1);
        let e = if sig.ret == Ty::Value {
            let b = if g.s.chance(160) { g.lit_for(&env, &call) } else { None };
            let b = match b {
                Some(b) => b,
                None => g.comparable(0),
            };
            let op = *g.s.pick(&[Op::Eq, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
            if g.s.chance(60) {
                Expr::Cmp(Box::new(b), op, Box::new(call))
            } else {
                Expr::Cmp(Box::new(call), op, Box::new(b))
            }
        } else {
            call
        };
        match g.s.below(8) {
            0 => Expr::Not(Box::new(e)),
            1 => and(vec![g.path(0), e]),
            2 => or(vec![g.cmp(0), e]),
            _ => e,
        }
    });
    let desc = g.s.chance(30);
    segs.push(Seg { desc, sels: vec![Sel::Filter(e)] });
    let st = Style { sigs: all.clone(), no_ctrl_u: true, shorthand: 200, ..Style::plain() };
    let text = print::spelled(s, &segs, &st).0;
    c.desc = format!("{} | {text} on {}", show_sigs(&sigs), show_doc(&doc));
    let env = Env { sigs: all.clone(), custom: Some(&*f), limit: 400_000, ..Env::std() };
    let want = find(&env, &segs, &doc);
    if env.out_of_model.get() || want.len() > 5000 {
        c.label("out-of-model");
        return Ok(());
    }
    c.label_if(!want.is_empty(), "selects");
    let mut ps = Parsers::new();
    for s in &sigs {
        ps.add(s);
    }
    let owned = OwnedEnvs::with(p_serde::env(&sigs), p_iter::env(&sigs), p_loc::env(&sigs), p_sing::env(&sigs));
    CALLS.with(|n| *n.borrow_mut() = 0);
    for e in Eng::ALL {
        c.eval();
        BAD.with(|b| b.borrow_mut().clear());
        let q = match ps.parse(e.sut(), &text)? {
            Ok(q) => q,
            Err(m) => {
                c.fail(format!("reject:{}", e.name()), format!("{} with [{}] rejects {text:?}: {}", e.name(), show_sigs(&sigs), m.msg))?;
                continue;
            }
        };
        let got = match eval(e, &q, &doc, &owned.0)? {
            Ok(g) => g,
            Err(m) => {
                c.fail(format!("evalerr:{}", e.name()), format!("{}: {m} for {}", e.name(), c.desc))?;
                continue;
            }
        };
        let b = BAD.with(|b| b.borrow().first().cloned());
        if let Some(b) = b {
            c.fail(format!("args:{}", e.name()), format!("{b}\n  for {}", c.desc))?;
        }
        if !same_nodes(&want, &got) {
            c.fail(
                format!("result:{}", e.name()),
                format!("{} selects {} instead of {} for {}", e.name(), show_found(&got), show_paths(&want), c.desc),
            )?;
        }
    }
    if CALLS.with(|n| *n.borrow()) > 0 {
        let k = c.desc.clone();
        c.nontrivial(&k);
        c.label("called");
    }
    Ok(())
}

struct ModelProbe(Vec<Sig>);
impl ModelProbe {
    fn as_fn(self) -> Box<CustomFn> {
        Box::new(move |n, a| model_probe(&self.0, n, a))
    }
}
