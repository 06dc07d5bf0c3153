//! The rest of the public interface: source spans in the tree (C27), the
//! entry points (C28), location lists (C29), trees built by hand (C30).
use super::common::*;
use super::evalp::{query_for, text_of};
use super::parse::{any_string, ast_diff, clip, ctrl_escape, gen_query, qopts_parse, quote_pin};
use crate::suts::{envs, Found, Query};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C27",
            rule: "distinct query texts with a filter, an escape, optional whitespace or a multi-byte character whose nodes' spans were compared",
            case: c27,
            fixed: c27_fixed,
            quick_cases: 900_000,
            thorough_cases: 10_000_000,
            assumptions: &["the span of an infix expression is that of its left operand"],
        },
        Prop {
            id: "C28",
            rule: "distinct (text, document) pairs whose text is rejected or selects a node",
            case: c28,
            fixed: c28_fixed,
            quick_cases: 60_000,
            thorough_cases: 4_000_000,
            assumptions: &[],
        },
        Prop {
            id: "C29",
            rule: "distinct histories of at least eight operations over at least two lists that share elements",
            case: c29,
            fixed: c29_fixed,
            quick_cases: 500_000,
            thorough_cases: 8_000_000,
            assumptions: &["lists up to about 300 elements in histories, and two million in fixed cases"],
        },
        Prop {
            id: "C30",
            rule: "distinct trees with a filter, built by hand and displayed or evaluated",
            case: c30,
            fixed: c30_fixed,
            quick_cases: 60_000,
            thorough_cases: 3_000_000,
            assumptions: &["only trees that stand for a valid query are built", "the trees of the location-list and singular evaluators cannot be named outside their crates"],
        },
    ]
}

// ------------------------------------------------------------------------ C27

mod walk {
    use super::*;
    use hand::query::{FilterExpression as FE, Query, Segment, Selector};

    /// Follows the printed tokens through the tree.
    pub struct Walk<'t> {
        toks: &'t [print::Tok],
        i: usize,
        pub bad: Option<String>,
    }

    type Span = (usize, usize);

    impl<'t> Walk<'t> {
        pub fn new(toks: &'t [print::Tok]) -> Self {
            Walk { toks, i: 0, bad: None }
        }
        fn skip(&mut self) {
            while self.toks.get(self.i).is_some_and(|t| {
                matches!(t.kind, "LParen" | "RParen" | "RBracket" | "Comma" | "And" | "Or" | "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge")
            }) {
                self.i += 1;
            }
        }
        fn fail(&mut self, m: String) {
            if self.bad.is_none() {
                self.bad = Some(m)
            }
        }
        fn at(&mut self, what: &str, kinds: &[&str], span: Span, eat: bool) {
            if self.bad.is_some() {
                return;
            }
            self.skip();
            let Some(t) = self.toks.get(self.i) else {
                return self.fail(format!("{what} {span:?} stands past the last token"));
            };
            if !kinds.contains(&t.kind) {
                return self.fail(format!("{what} {span:?} stands where the text has {} {:?}", t.kind, t.span));
            }
            if t.span != span {
                return self.fail(format!("{what} has span {span:?}; its text is at {:?} ({:?})", t.span, t.value));
            }
            if eat {
                self.i += 1;
            }
        }
        pub fn query(&mut self, q: &Query) {
            for s in &q.segments {
                let sels = match s {
                    Segment::Child { span, selectors } => {
                        self.skip();
                        let br = self.toks.get(self.i).is_some_and(|t| t.kind == "LBracket");
                        self.at("child segment", &["LBracket", "Name", "Wild"], *span, br);
                        selectors
                    }
                    Segment::Recursive { span, selectors } => {
                        self.at("descendant segment", &["DoubleDot"], *span, true);
                        if self.toks.get(self.i).is_some_and(|t| t.kind == "LBracket") {
                            self.i += 1;
                        }
                        selectors
                    }
                };
                for x in sels {
                    self.selector(x);
                }
            }
        }
        fn selector(&mut self, x: &Selector) {
            match x {
                Selector::Name { span, .. } => self.at("name selector", &["Name", "SingleQuoteString", "DoubleQuoteString"], *span, true),
                Selector::Index { span, .. } => self.at("index selector", &["Index"], *span, true),
                Selector::Slice { span, .. } => {
                    self.at("slice selector", &["Index", "Colon"], *span, true);
                    while self.toks.get(self.i).is_some_and(|t| matches!(t.kind, "Index" | "Colon")) {
                        self.i += 1;
                    }
                }
                Selector::Wild { span } => self.at("wildcard", &["Wild"], *span, true),
                Selector::Filter { span, expression } => {
                    self.at("filter selector", &["Filter"], *span, true);
                    self.expr(expression);
                }
            }
        }
        fn expr(&mut self, e: &FE) {
            match e {
                FE::True { span } => self.at("true", &["True"], *span, true),
                FE::False { span } => self.at("false", &["False"], *span, true),
                FE::Null { span } => self.at("null", &["Null"], *span, true),
                FE::String { span, .. } => self.at("string literal", &["SingleQuoteString", "DoubleQuoteString"], *span, true),
                FE::Int { span, .. } | FE::Float { span, .. } => self.at("number", &["Int", "Float"], *span, true),
                FE::Not { span, expression } => {
                    self.at("negation", &["Not"], *span, true);
                    self.expr(expression);
                }
                FE::Logical { span, left, right, .. } | FE::Comparison { span, left, right, .. } => {
                    if *span != left.span() {
                        self.fail(format!("infix expression has span {span:?}, its left operand {:?}", left.span()));
                    }
                    self.expr(left);
                    self.expr(right);
                }
                FE::RelativeQuery { span, query } => {
                    self.at("relative query", &["Current"], *span, true);
                    self.query(query);
                }
                FE::RootQuery { span, query } => {
                    self.at("root query", &["Root"], *span, true);
                    self.query(query);
                }
                FE::Function { span, name, args } => {
                    self.skip();
                    if let Some(t) = self.toks.get(self.i) {
                        if t.kind == "Function" && t.value != *name {
                            self.fail(format!("call of {name:?} stands where the text calls {:?}", t.value));
                        }
                    }
                    self.at("call", &["Function"], *span, true);
                    args.iter().for_each(|a| self.expr(a));
                }
            }
            if self.bad.is_none() && e.span() != field_span(e) {
                self.fail(format!("span() is {:?}, the field {:?}", e.span(), field_span(e)));
            }
        }
        pub fn end(&mut self) {
            self.skip();
            if self.bad.is_none() && self.toks.get(self.i).is_none_or(|t| t.kind != "Eoq") {
                let m = format!("the tree ends before {:?}", self.toks.get(self.i));
                self.fail(m);
            }
        }
    }

    fn field_span(e: &FE) -> Span {
        match e {
            FE::True { span }
            | FE::False { span }
            | FE::Null { span }
            | FE::String { span, .. }
            | FE::Int { span, .. }
            | FE::Float { span, .. }
            | FE::Not { span, .. }
            | FE::Logical { span, .. }
            | FE::Comparison { span, .. }
            | FE::RelativeQuery { span, .. }
            | FE::RootQuery { span, .. }
            | FE::Function { span, .. } => *span,
        }
    }
}

fn check_spans(c: &mut Ctx, text: &str, toks: &[print::Tok]) -> Res {
    c.eval();
    let q = match standard(Sut::Hand, text)? {
        Ok(Query::Hand(q)) => q,
        Ok(_) => unreachable!(),
        Err(e) => return c.fail("reject:hand", format!("hand rejects the valid query {text:?}: {}", e.msg)),
    };
    let mut w = walk::Walk::new(&toks[1..]);
    w.query(&q);
    w.end();
    match w.bad {
        None => Ok(()),
        Some(m) => c.fail("span", format!("{text:?}: {m}\n  tree {}", clip(&format!("{q:?}")))),
    }
}

fn c27(s: &mut Src, c: &mut Ctx) -> Res {
    let segs = gen_query(s, qopts_parse());
    let st = Style::random(s);
    let (text, toks, feat) = print::spelled(s, &segs, &st);
    c.desc = text.clone();
    if ctrl_escape(&text) {
        c.exclude("hand: \\u escape of a control character (known finding C01-hand-ctrl)");
        return Ok(());
    }
    let f = features(&segs);
    label_features(c, &f);
    c.label_if(feat.ws, "whitespace");
    c.label_if(!text.is_ascii(), "multi-byte");
    if f.filter || feat.ws || feat.escapes || !text.is_ascii() {
        c.nontrivial(&text);
    }
    check_spans(c, &text, &toks)
}

fn c27_fixed() -> Fixed {
    [
        "$..foo[0]",
        "$.é['ü',\"\\u00e9\",-1,1:2:3,:,::2,*,?@.a]..*..['x']",
        "$[?!(@.a == 'x' && $.b >= 1.5e3) || count(@..*) < length('é') && match(@.b, \"a.\")]",
        "$ [ ?\n! @.a ]\t.b",
        "$[?true==@.a&&null!=$.x||false<=@[0]]",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| {
            // the spans of these texts are found by an independent scan
            let segs = recog::ast(&q, &recog::Opts::default()).expect("valid");
            let toks = scan(&q);
            let _ = segs;
            check_spans(c, &q, &toks)
        })
    })
    .collect()
}

/// A plain scan of a valid query for the tokens that start tree nodes.
fn scan(q: &str) -> Vec<print::Tok> {
    let b = q.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    // (in filter, bracket depth at which it ends)
    let mut filters: Vec<usize> = vec![];
    let mut depth = 0;
    let mut push = |kind, a: usize, z: usize| v.push(print::Tok { kind, value: q[a..z].to_string(), span: (a, z) });
    let word = |i: usize| -> usize {
        let mut j = i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] >= 0x80) {
            j += 1
        }
        j
    };
    while i < b.len() {
        let infilter = !filters.is_empty();
        let ch = b[i];
        match ch {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'$' => {
                push("Root", i, i + 1);
                i += 1
            }
            b'@' => {
                push("Current", i, i + 1);
                i += 1
            }
            b'.' if b.get(i + 1) == Some(&b'.') => {
                push("DoubleDot", i, i + 2);
                i += 2;
                let j = word(i);
                if j > i {
                    push("Name", i, j);
                    i = j
                }
            }
            b'.' => {
                i += 1;
                let j = word(i);
                if j > i {
                    push("Name", i, j);
                    i = j
                }
            }
            b'[' => {
                depth += 1;
                push("LBracket", i, i + 1);
                i += 1
            }
            b']' => {
                if filters.last() == Some(&depth) {
                    filters.pop();
                }
                depth -= 1;
                push("RBracket", i, i + 1);
                i += 1
            }
            b',' => {
                push("Comma", i, i + 1);
                i += 1
            }
            b':' => {
                push("Colon", i, i + 1);
                i += 1
            }
            b'*' => {
                push("Wild", i, i + 1);
                i += 1
            }
            b'?' => {
                filters.push(depth);
                push("Filter", i, i + 1);
                i += 1
            }
            b'(' | b')' => i += 1,
            b'!' if b.get(i + 1) == Some(&b'=') => i += 2,
            b'!' => {
                push("Not", i, i + 1);
                i += 1
            }
            b'&' | b'|' | b'=' | b'<' | b'>' => i += 1,
            b'\'' | b'"' => {
                let mut j = i + 1;
                while b[j] != ch {
                    j += if b[j] == b'\\' { 2 } else { 1 }
                }
                push(if ch == b'"' { "DoubleQuoteString" } else { "SingleQuoteString" }, i + 1, j);
                i = j + 1
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_digit() || matches!(b[j], b'.' | b'e' | b'E' | b'+')) {
                    j += 1
                }
                push(if infilter && q[..i].trim_end().ends_with(['=', '<', '>', '(', '?', '&', '|']) { "Int" } else { "Index" }, i, j);
                i = j
            }
            _ => {
                let j = word(i);
                match &q[i..j] {
                    "true" => push("True", i, j),
                    "false" => push("False", i, j),
                    "null" => push("Null", i, j),
                    _ => push("Function", i, j),
                }
                i = j
            }
        }
    }
    v.push(print::Tok { kind: "Eoq", value: String::new(), span: (q.len(), q.len()) });
    v
}

// ------------------------------------------------------------------------ C28

#[derive(PartialEq, Debug, Clone)]
enum Outcome {
    /// address and location of each node
    Nodes(Vec<(usize, String)>),
    Rejected(&'static str, String),
}

fn brief(o: &Outcome) -> String {
    match o {
        Outcome::Nodes(v) => {
            let p: Vec<&str> = v.iter().take(20).map(|x| x.1.as_str()).collect();
            format!("{} nodes [{}]", v.len(), p.join(", "))
        }
        Outcome::Rejected(k, m) => format!("{k} error {m:?}"),
    }
}

macro_rules! kind {
    ($m:ident, $e:expr) => {
        match $e.kind {
            $m::errors::JSONPathErrorType::LexerError => "lexer",
            $m::errors::JSONPathErrorType::SyntaxError => "syntax",
            $m::errors::JSONPathErrorType::TypeError => "type",
            $m::errors::JSONPathErrorType::NameError => "name",
        }
    };
}

macro_rules! outcome {
    ($m:ident, $r:expr, $n:ident => $loc:expr) => {
        match $r {
            Ok(ns) => Outcome::Nodes(ns.into_iter().map(|$n| ($n.value as *const Value as usize, $loc)).collect()),
            Err(e) => Outcome::Rejected(kind!($m, e), e.msg),
        }
    };
}

macro_rules! tree {
    ($m:ident, $r:expr) => {
        match $r {
            Ok(q) => Ok(format!("{:?}", q)),
            Err(e) => Err((kind!($m, e), e.msg)),
        }
    };
}

type Way<'a> = (&'static str, Box<dyn Fn() -> Outcome + 'a>);
type TreeWay<'a> = (&'static str, Box<dyn Fn() -> Result<String, (&'static str, String)> + 'a>);

/// Every way to go from a text and a document to nodes; the first of each
/// group is the reference.
fn ways<'a>(t: &'a str, d: &'a Value) -> Vec<(&'static str, Vec<Way<'a>>)> {
    let e = envs();
    let serde: Vec<Way> = vec![
        ("Query::standard + Query::find", Box::new(move || outcome!(serdeq, serdeq::Query::standard(t).and_then(|q| q.find(d, &e.serde)), n => n.location))),
        ("find", Box::new(move || outcome!(serdeq, serdeq::find(t, d), n => n.location))),
        ("find_loop", Box::new(move || outcome!(serdeq, serdeq::find_loop(t, d), n => n.location))),
        ("jsonpath::find", Box::new(move || outcome!(serdeq, serdeq::jsonpath::find(t, d), n => n.location))),
        ("Query::find_loop", Box::new(move || outcome!(serdeq, serdeq::Query::standard(t).and_then(|q| q.find_loop(d, &e.serde)), n => n.location))),
        ("Environment::find", Box::new(move || outcome!(serdeq, e.serde.find(t, d), n => n.location))),
        ("Environment::find_loop", Box::new(move || outcome!(serdeq, e.serde.find_loop(t, d), n => n.location))),
        ("new Environment", Box::new(move || outcome!(serdeq, serdeq::env::Environment::new().find(t, d), n => n.location))),
        ("JSONPathParser::new", Box::new(move || outcome!(serdeq, serdeq::JSONPathParser::new().parse(t).and_then(|q| q.find(d, &e.serde)), n => n.location))),
        ("JSONPathParser::default", Box::new(move || outcome!(serdeq, serdeq::JSONPathParser::default().parse(t).and_then(|q| q.find(d, &e.serde)), n => n.location))),
        ("Query::new", Box::new(move || outcome!(serdeq, serdeq::Query::standard(t).and_then(|q| serdeq::Query::new(q.segments).find(d, &e.serde)), n => n.location))),
    ];
    let iter: Vec<Way> = vec![
        ("Query::standard + QueryIter::new", Box::new(move || outcome!(iterq, iterq::Query::standard(t).map(|q| iterq::iter::QueryIter::new(e.iter, d, q)), n => n.location.clone()))),
        ("find", Box::new(move || outcome!(iterq, iterq::find(t, d), n => n.location.clone()))),
        ("Environment::find", Box::new(move || outcome!(iterq, e.iter.find(t, d), n => n.location.clone()))),
        ("JSONPathParser::new", Box::new(move || outcome!(iterq, iterq::JSONPathParser::new().parse(t).map(|q| iterq::iter::QueryIter::new(e.iter, d, q)), n => n.location.clone()))),
        ("JSONPathParser::default", Box::new(move || outcome!(iterq, iterq::JSONPathParser::default().parse(t).map(|q| iterq::iter::QueryIter::new(e.iter, d, q)), n => n.location.clone()))),
        ("a clone of the query", Box::new(move || outcome!(iterq, iterq::Query::standard(t).map(|q| { let c = q.clone(); drop(q); iterq::iter::QueryIter::new(e.iter, d, c) }), n => n.location.clone()))),
        ("Query::new", Box::new(move || outcome!(iterq, iterq::Query::standard(t).map(|q| iterq::iter::QueryIter::new(e.iter, d, iterq::Query::new(q.segments))), n => n.location.clone()))),
    ];
    macro_rules! list_ways {
        ($m:ident, $e:expr) => {{
            let en = $e;
            let v: Vec<Way> = vec![
                ("Query::standard + Query::find", Box::new(move || outcome!($m, $m::Query::standard(t).map(|q| q.find(d, en)), n => n.path()))),
                ("find", Box::new(move || outcome!($m, $m::find(t, d), n => n.path()))),
                ("the exported ENV", Box::new(move || outcome!($m, $m::Query::standard(t).map(|q| q.find(d, &$m::ENV)), n => n.path()))),
                ("Environment::find", Box::new(move || outcome!($m, en.find(t, d), n => n.path()))),
                ("JSONPathParser::new", Box::new(move || outcome!($m, $m::JSONPathParser::new().parse(t).map(|q| q.find(d, en)), n => n.path()))),
                ("JSONPathParser::default", Box::new(move || outcome!($m, $m::JSONPathParser::default().parse(t).map(|q| q.find(d, en)), n => n.path()))),
                ("Query::new", Box::new(move || outcome!($m, $m::Query::standard(t).map(|q| $m::Query::new(q.segments).find(d, en)), n => n.path()))),
                ("Environment::default", Box::new(move || {
                    // a default environment per call is given back afterwards
                    let b = Box::into_raw(Box::new($m::env::Environment::default()));
                    let en: &'static $m::env::Environment = unsafe { &*b };
                    let r = outcome!($m, $m::Query::standard(t).map(|q| q.find(d, en)), n => n.path());
                    unsafe { drop(Box::from_raw(b)) };
                    r
                })),
            ];
            v
        }};
    }
    vec![
        ("serde", serde),
        ("iter", iter),
        ("locations", list_ways!(locq, e.loc)),
        ("singular", list_ways!(singq, e.sing)),
    ]
}

/// The locations of the selected nodes (`None` if the text is rejected) by the
/// `k`-th of an engine's ways; engines as in `Eng::ALL`.
pub fn by_way(t: &str, d: &Value, engine: usize, k: usize) -> Result<(&'static str, Option<Vec<String>>), Failure> {
    let (name, ws) = ways(t, d).swap_remove(engine.saturating_sub(1));
    let (way, f) = &ws[k % ws.len()];
    Ok((
        way,
        match sut(name, f)? {
            Outcome::Nodes(ns) => Some(ns.into_iter().map(|n| n.1).collect()),
            Outcome::Rejected(..) => None,
        },
    ))
}

fn tree_ways<'a>(t: &'a str) -> Vec<(&'static str, Vec<TreeWay<'a>>)> {
    vec![
        (
            "hand",
            vec![
                ("Query::standard", Box::new(move || tree!(hand, hand::Query::standard(t)))),
                ("Parser::new", Box::new(move || tree!(hand, hand::Parser::new().parse(t)))),
                ("Parser::default", Box::new(move || tree!(hand, hand::Parser::default().parse(t)))),
                (
                    "lex + parse_tokens",
                    Box::new(move || tree!(hand, hand::lexer::lex(t).and_then(|k| hand::Parser::new().parse_tokens(k)).map(hand::Query::new))),
                ),
            ],
        ),
        (
            "pest",
            vec![
                ("Query::standard", Box::new(move || tree!(pestq, pestq::ast::Query::standard(t)))),
                ("JSONPathParser::new", Box::new(move || tree!(pestq, pestq::JSONPathParser::new().parse(t)))),
                ("JSONPathParser::default", Box::new(move || tree!(pestq, pestq::JSONPathParser::default().parse(t)))),
            ],
        ),
        (
            "pest_recursive",
            vec![
                ("Query::standard", Box::new(move || tree!(pestrec, pestrec::ast::Query::standard(t)))),
                ("JSONPathParser::new", Box::new(move || tree!(pestrec, pestrec::JSONPathParser::new().parse(t)))),
                ("JSONPathParser::default", Box::new(move || tree!(pestrec, pestrec::JSONPathParser::default().parse(t)))),
            ],
        ),
    ]
}

fn check_ways(c: &mut Ctx, t: &str, d: &Value, want: Option<&[MNode]>) -> Res {
    for (name, ws) in ways(t, d) {
        let mut first: Option<Outcome> = None;
        for (w, f) in &ws {
            c.eval();
            let got = match sut(name, f) {
                Ok(o) => o,
                Err(f) => {
                    c.fail(f.key, format!("{} ({w}) on {t:?} and {}", f.msg, show_doc(d)))?;
                    continue;
                }
            };
            match &first {
                None => {
                    if let (Some(want), Outcome::Nodes(ns)) = (want, &got) {
                        if want.len() != ns.len() || want.iter().zip(ns).any(|(m, n)| m.value as *const Value as usize != n.0) {
                            c.fail(
                                format!("nodes:{name}"),
                                format!("{name} selects wrong nodes for {t:?} on {}\n  expected {}\n  got      {}", show_doc(d), show_paths(want), brief(&got)),
                            )?;
                        }
                    }
                    first = Some(got);
                }
                Some(o) if *o != got => {
                    c.fail(
                        format!("entry:{name}:{w}"),
                        format!("{name}: {w} differs from {} for {t:?} on {}\n  {}\n  {}", ws[0].0, show_doc(d), brief(&got), brief(o)),
                    )?;
                }
                _ => (),
            }
        }
    }
    for (name, ws) in tree_ways(t) {
        let mut first = None;
        for (w, f) in &ws {
            c.eval();
            let got = sut(name, f)?;
            match &first {
                None => first = Some(got),
                Some(o) if *o != got => {
                    c.fail(
                        format!("entry:{name}:{w}"),
                        format!("{name}: {w} differs from {} for {t:?}\n  {}\n  {}", ws[0].0, clip(&format!("{got:?}")), clip(&format!("{o:?}"))),
                    )?;
                }
                _ => (),
            }
        }
    }
    Ok(())
}

fn c28(s: &mut Src, c: &mut Ctx) -> Res {
    let mut doc = gen::doc(s, &DocOpts::default());
    let (text, segs) = if s.chance(80) {
        (any_string(s, c), None)
    } else {
        let mut segs = query_for(s, &doc, &QOpts::default());
        grow::both(s, &mut segs, &mut doc);
        if let Some(t) = grow::took() {
            c.label(t);
        }
        (text_of(s, &segs), Some(segs))
    };
    c.desc = format!("{text}  on  {}", show_doc(&doc));
    let want = match &segs {
        Some(q) if !regex_unsettled(q, &doc) => model_find(q, &doc),
        _ => None,
    };
    match &want {
        Some(w) if !w.is_empty() => {
            c.label("selects");
            c.nontrivial(&c.desc.clone());
        }
        None if segs.is_none() => {
            c.label("any-text");
            c.nontrivial(&c.desc.clone());
        }
        _ => (),
    }
    if want.is_none() && too_heavy_text(c, &text, &doc) {
        return Ok(());
    }
    check_ways(c, &text, &doc, want.as_deref())?;
    // a text that is easily mistaken for this one, and this one once more
    if let Some(mut q) = segs.filter(|_| s.chance(16)) {
        let mut doc = doc.clone();
        if let (true, Some(w)) = (twin_query(s, &mut q, &mut doc), &want) {
            let t2 = text_of(s, &q);
            let want2 = if regex_unsettled(&q, &doc) { None } else { model_find(&q, &doc) };
            if let Some(w2) = want2 {
                c.label("twin");
                check_ways(c, &t2, &doc, Some(&w2))?;
                let _ = w;
                let again = recog::ast(&text, &recog::Opts::default()).and_then(|q| model_find(&q, &doc));
                if let Some(w) = again {
                    check_ways(c, &text, &doc, Some(&w))?;
                }
            }
        }
    }
    Ok(())
}

fn c28_fixed() -> Fixed {
    [
        ("$", "[]"),
        ("$.a", r#"{"a":1}"#),
        ("$..*", r#"{"a":[1,{"b":null}]}"#),
        ("$[?match(@.a,'a.c')]", r#"[{"a":"abc"},{"a":"abcd"}]"#),
        ("$[?search(@.a,'b')]", r#"[{"a":"abc"},{"a":"xyz"}]"#),
        ("$[?length(@.a)==count($..*)]", r#"[{"a":"abc"}]"#),
        ("$[?value(@.a)>0]", r#"[{"a":1}]"#),
        ("", "[]"),
        ("$.", "[]"),
        ("$[?nosuch(@)]", "[]"),
        ("$[?length(@.*)==1]", "[]"),
        ("$[9007199254740992]", "[]"),
        ("$[", "[]"),
    ]
    .iter()
    .map(|(q, d)| {
        let (q, d) = (q.to_string(), d.to_string());
        fixed_case(format!("{q} on {d}"), move |c| {
            let doc: Value = serde_json::from_str(&d).unwrap();
            let segs = recog::ast(&q, &recog::Opts::default()).filter(|_| recog::accepts(&q, &recog::Opts::default()));
            let want = segs.as_ref().and_then(|s| model_find(s, &doc));
            check_ways(c, &q, &doc, want.as_deref())
        })
    })
    .collect()
}

// ------------------------------------------------------------------------ C29

macro_rules! location_history {
    ($fname:ident, $m:ident, $label:expr) => {
        /// A history over a pool of lists against vectors (front first).
        fn $fname(s: &mut Src, c: &mut Ctx) -> Res {
            use $m::node::{Location, Node, PathElement};
            fn elem(p: &Part) -> PathElement {
                match p {
                    Part::Index(i) => PathElement::Index(*i),
                    Part::Name(n) => PathElement::Name(n.clone()),
                }
            }
            fn part(p: &PathElement) -> Part {
                match p {
                    PathElement::Index(i) => Part::Index(*i),
                    PathElement::Name(n) => Part::Name(n.clone()),
                }
            }
            fn new_part(s: &mut Src) -> Part {
                match s.below(3) {
                    0 => Part::Index(s.below(40)),
                    1 => Part::Name(gen::key(s, &DocOpts::default())),
                    _ => Part::Index(*s.pick(&[0, 1, 9, 10, 1_000_000, usize::MAX, usize::MAX - 1, u32::MAX as usize + 1])),
                }
            }
            let value = json!(1);
            let mut pool: Vec<(Location, Vec<Part>)> = vec![(Location::new(), vec![]), (Location::default(), vec![])];
            let n = 1 + s.below(40);
            let mut log: Vec<String> = vec![];
            let mut sharing = 0;
            let verify = |l: &Location, v: &[Part]| -> Option<String> {
                let got: Vec<Part> = l.iter().map(part).collect();
                if got != v {
                    return Some(format!("iter gives {got:?}, want {v:?}"));
                }
                if let Some(i) = [0, 1, v.len() / 2, v.len().saturating_sub(1), v.len(), v.len() + 1, usize::MAX].iter().find(|i| l.iter().nth(**i).map(part) != v.get(**i).cloned()) {
                    return Some(format!("nth({i}) of its iterator is {:?}, want {:?}", l.iter().nth(*i), v.get(*i)));
                }
                if l.len() != v.len() || l.is_empty() != v.is_empty() {
                    return Some(format!("len {} / is_empty {} for {} elements", l.len(), l.is_empty(), v.len()));
                }
                if l.head().map(part) != v.first().cloned() {
                    return Some(format!("head is {:?}, want {:?}", l.head(), v.first()));
                }
                if l.last().map(part) != v.last().cloned() {
                    return Some(format!("last is {:?}, want {:?}", l.last(), v.last()));
                }
                let by_ref: Vec<Part> = l.into_iter().map(part).collect();
                if by_ref != v {
                    return Some(format!("into_iter gives {by_ref:?}, want {v:?}"));
                }
                if v.len() < 12 {
                    let (shown, want) = (format!("{l:?}"), format!("{:?}", l.iter().collect::<Vec<_>>()));
                    if shown != want {
                        return Some(format!("is shown as {shown}, want {want}"));
                    }
                }
                None
            };
            for step in 0..n {
                let i = s.below(pool.len());
                let op = s.weighted(&[60, 20, 20, 20, 15, 20, 25, 20, 12]);
                let mut msg = None;
                let r: Result<(), Failure> = sut($label, || {
                    match op {
                        0 => {
                            let k = 1 + if s.chance(30) { s.below(60) } else { 0 };
                            let (mut l, mut v) = (pool[i].0.clone(), pool[i].1.clone());
                            for _ in 0..k {
                                let p = new_part(s);
                                l = l.append(elem(&p));
                                v.insert(0, p);
                            }
                            log.push(format!("#{} = #{i} with {k} in front", pool.len()));
                            sharing += (v.len() > k) as usize;
                            pool.push((l, v));
                        }
                        1 => {
                            log.push(format!("#{} = #{i}.tail()", pool.len()));
                            let v = pool[i].1.iter().skip(1).cloned().collect();
                            pool.push((pool[i].0.tail(), v));
                            sharing += 1;
                        }
                        2 => {
                            let len = pool[i].1.len();
                            let k = *s.pick(&[0, 1, 2, len / 2, len.saturating_sub(1), len, len + 1, usize::MAX]);
                            log.push(format!("#{} = #{i}.tailn({k})", pool.len()));
                            let v = pool[i].1.iter().skip(k).cloned().collect();
                            pool.push((pool[i].0.tailn(k), v));
                            sharing += 1;
                        }
                        3 => {
                            let len = pool[i].1.len();
                            let k = *s.pick(&[0, 1, 2, len / 2, len.saturating_sub(1), len, len + 1, usize::MAX]);
                            log.push(format!("#{} = #{i}.lastn({k})", pool.len()));
                            let v = pool[i].1[len - k.min(len)..].to_vec();
                            pool.push((pool[i].0.lastn(k), v));
                            sharing += 1;
                        }
                        4 => {
                            let parts: Vec<Part> = (0..s.below(12)).map(|_| new_part(s)).collect();
                            log.push(format!("#{} = from_iter of {}", pool.len(), parts.len()));
                            let l: Location = parts.iter().map(elem).collect();
                            pool.push((l, parts.into_iter().rev().collect()));
                        }
                        5 => {
                            if pool.len() > 1 {
                                log.push(format!("drop #{i} (swap with last)"));
                                pool.swap_remove(i);
                            }
                        }
                        6 => {
                            // a child node's location
                            log.push(format!("#{} = child node of #{i}", pool.len()));
                            let p = new_part(s);
                            let node = match &p {
                                Part::Index(k) => Node::new_array_element(&value, &pool[i].0, *k),
                                Part::Name(k) => Node::new_object_member(&value, &pool[i].0, k.clone()),
                            };
                            let mut v = pool[i].1.clone();
                            v.insert(0, p);
                            let mut up: Vec<Part> = v.clone();
                            up.reverse();
                            if node.path() != normalized(&up) {
                                msg = Some(format!("path() is {:?}, want {:?}", node.path(), normalized(&up)));
                            }
                            if !std::ptr::eq(node.value, &value) {
                                msg = Some("the node's value is another value".to_string());
                            }
                            sharing += 1;
                            pool.push((node.location, v));
                        }
                        7 => {
                            // a partly used iterator and its clone
                            let v = &pool[i].1;
                            let k = s.below(v.len() + 2);
                            log.push(format!("{k} steps of #{i}.iter()"));
                            let mut it = pool[i].0.iter();
                            let mut pos = 0;
                            for _ in 0..k {
                                let left = v.len().saturating_sub(pos);
                                if it.size_hint() != (left, Some(left)) {
                                    msg = Some(format!("size_hint is {:?} with {left} left", it.size_hint()));
                                }
                                // next(), or another way of moving on
                                let j = match s.below(8) {
                                    0..=3 => 0,
                                    4..=6 => s.below(5),
                                    _ => *s.pick(&[left.saturating_sub(1), left, left + 1, left / 2, usize::MAX]),
                                };
                                let got = match s.below(3) {
                                    _ if j == 0 => it.next(),
                                    0 => it.nth(j),
                                    1 => it.by_ref().skip(j).next(),
                                    _ => {
                                        let mut n = j;
                                        it.find(|_| {
                                            n = n.wrapping_sub(1);
                                            n == usize::MAX
                                        })
                                    }
                                };
                                pos = pos.saturating_add(j);
                                if got.map(part) != v.get(pos).cloned() {
                                    msg = Some(format!("element {pos} is {got:?}, want {:?}", v.get(pos)));
                                }
                                pos = pos.saturating_add(1);
                            }
                            let (k, left) = (pos, v.len().saturating_sub(pos));
                            if it.size_hint() != (left, Some(left)) {
                                msg = Some(format!("size_hint is {:?} with {left} left", it.size_hint()));
                            }
                            let (cnt, end) = (it.clone().count(), it.clone().last().map(part));
                            if cnt != left || end != if left > 0 { v.last().cloned() } else { None } {
                                msg = Some(format!("with {left} left count() is {cnt} and last() {end:?}"));
                            }
                            let st = 1 + s.below(3);
                            let stepped: Vec<Part> = it.clone().step_by(st).map(part).collect();
                            if stepped != v.iter().skip(k).step_by(st).cloned().collect::<Vec<_>>() {
                                msg = Some(format!("with {left} left step_by({st}) gives {stepped:?}"));
                            }
                            let rest: Vec<Part> = it.clone().map(part).collect();
                            let rest2: Vec<Part> = it.map(part).collect();
                            if rest != rest2 || rest != v.iter().skip(k).cloned().collect::<Vec<_>>() {
                                msg = Some(format!("after {k} steps: {rest:?} and {rest2:?}"));
                            }
                        }
                        _ => {
                            log.push(format!("#{} = clone of #{i}", pool.len()));
                            let x = (pool[i].0.clone(), pool[i].1.clone());
                            pool.push(x);
                            sharing += 1;
                        }
                    }
                });
                c.eval();
                if let Err(f) = r {
                    return c.fail(f.key, format!("{}\n  history: {}", f.msg, log.join("; ")));
                }
                // the touched list each step, all of them at times
                let all = step + 1 == n || step % 8 == 7;
                if msg.is_none() {
                    let bad = sut($label, || {
                        if all {
                            pool.iter().enumerate().find_map(|(k, (l, v))| verify(l, v).map(|m| format!("#{k}: {m}")))
                        } else {
                            pool.last().and_then(|(l, v)| verify(l, v))
                        }
                    })?;
                    msg = bad;
                }
                if let Some(m) = msg {
                    c.desc = log.join("; ");
                    return c.fail(format!("location:{}", $label), format!("{}: {m}\n  history: {}", $label, log.join("; ")));
                }
            }
            c.desc = log.join("; ");
            if n >= 8 && sharing >= 2 {
                let k = format!("{}: {}", $label, log.join("; "));
                c.nontrivial(&k);
            }
            c.label_if(sharing >= 5, "much-sharing");
            sut($label, move || drop(pool))
        }
    };
}

location_history!(loc_history, locq, "locations");
location_history!(sing_history, singq, "singular");

fn c29(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(128) {
        loc_history(s, c)
    } else {
        sing_history(s, c)
    }
}

fn c29_fixed() -> Fixed {
    fn long<T: Send + 'static>(n: usize, name: &'static str, f: impl Fn(usize) -> T + Send + Sync + Copy + 'static) -> (String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)
    where
        T: PartialEq + std::fmt::Debug,
    {
        fixed_case(format!("{name}: {n} elements"), move |c| {
            c.eval();
            // a thread with a small stack of its own
            let h = std::thread::Builder::new().stack_size(256 * 1024).spawn(move || sut(name, || f(n))).unwrap();
            match h.join() {
                Ok(Ok(_)) => Ok(()),
                Ok(Err(f)) => Err(f),
                Err(_) => Err(Failure::new("long-list", "thread failed")),
            }
        })
    }
    macro_rules! walk {
        ($m:ident) => {
            |n: usize| {
                let l: $m::node::Location = (0..n).map($m::node::PathElement::Index).collect();
                assert_eq!(l.len(), n);
                let shared = l.tailn(n / 2);
                let last = l.lastn(3);
                drop(l);
                assert_eq!(shared.iter().count(), n - n / 2);
                drop(shared);
                let v: Vec<usize> = last
                    .iter()
                    .map(|p| match p {
                        $m::node::PathElement::Index(i) => *i,
                        _ => usize::MAX,
                    })
                    .collect();
                assert_eq!(v, vec![2, 1, 0]);
            }
        };
    }
    vec![
        long(10, "locations", walk!(locq)),
        long(100_000, "locations", walk!(locq)),
        long(2_000_000, "locations", walk!(locq)),
        long(10, "singular", walk!(singq)),
        long(100_000, "singular", walk!(singq)),
        long(2_000_000, "singular", walk!(singq)),
    ]
}

// ------------------------------------------------------------------------ C30

/// Choices in how a tree is put together that leave its meaning alone.
struct Build<'s> {
    s: &'s mut Src,
}

macro_rules! build_flat {
    ($name:ident, $q:path, $fe:path, $seg:path, $sel:path, $lo:path, $co:path, $T:ident, $F:ident, $S:ident, {$($span:tt)*}, {$($eoi:tt)*}, $mkq:expr) => {
        mod $name {
            use super::*;
            use $co as CO;
            use $fe as FE;
            use $lo as LO;
            use $q as Q;
            use $seg as SG;
            use $sel as SL;
            pub fn query(b: &mut Build, segs: &[Seg]) -> Q {
                #[allow(unused_mut)]
                let mut v: Vec<SG> = segs
                    .iter()
                    .map(|x| {
                        let selectors = x.sels.iter().map(|y| sel(b, y)).collect();
                        if x.desc {
                            SG::Recursive { $($span)* selectors }
                        } else {
                            SG::Child { $($span)* selectors }
                        }
                    })
                    .collect();
                let _ = &mut v;
                let with_eoi = b.s.chance(128);
                let _ = with_eoi;
                $( if with_eoi { v.push($eoi) } )*
                $mkq(v)
            }
            fn sel(b: &mut Build, x: &Sel) -> SL {
                match x {
                    Sel::Name(n) => SL::Name { $($span)* name: n.clone() },
                    Sel::Index(i) => SL::Index { $($span)* index: *i },
                    Sel::Slice(start, stop, step) => SL::Slice { $($span)* start: *start, stop: *stop, step: *step },
                    Sel::Wild => SL::Wild { $($span)* },
                    Sel::Filter(e) => SL::Filter { $($span)* expression: Box::new(expr(b, e)) },
                    Sel::Singular(_) => unreachable!(),
                }
            }
            fn chain(b: &mut Build, v: &[Expr], or: bool) -> FE {
                if v.len() == 1 {
                    return expr(b, &v[0]);
                }
                let k = 1 + b.s.below(v.len() - 1);
                let left = Box::new(chain(b, &v[..k], or));
                let right = Box::new(chain(b, &v[k..], or));
                FE::Logical { $($span)* left, operator: if or { LO::Or } else { LO::And }, right }
            }
            fn expr(b: &mut Build, e: &Expr) -> FE {
                match e {
                    Expr::Null => FE::Null { $($span)* },
                    Expr::Bool(true) => FE::$T { $($span)* },
                    Expr::Bool(false) => FE::$F { $($span)* },
                    Expr::Str(t) => FE::$S { $($span)* value: t.clone() },
                    Expr::Num(n) => match b.int(n) {
                        Some(i) => FE::Int { $($span)* value: i },
                        None => FE::Float { $($span)* value: n.f() },
                    },
                    Expr::Or(v) => chain(b, v, true),
                    Expr::And(v) => chain(b, v, false),
                    Expr::Not(x) => FE::Not { $($span)* expression: Box::new(expr(b, x)) },
                    Expr::Cmp(l, op, r) => FE::Comparison {
                        $($span)*
                        left: Box::new(expr(b, l)),
                        operator: match op {
                            Op::Eq => CO::Eq,
                            Op::Ne => CO::Ne,
                            Op::Lt => CO::Lt,
                            Op::Le => CO::Le,
                            Op::Gt => CO::Gt,
                            Op::Ge => CO::Ge,
                        },
                        right: Box::new(expr(b, r)),
                    },
                    Expr::Path(true, q) => FE::RootQuery { $($span)* query: Box::new(query(b, q)) },
                    Expr::Path(false, q) => FE::RelativeQuery { $($span)* query: Box::new(query(b, q)) },
                    Expr::Call(n, a) => FE::Function { $($span)* name: n.clone(), args: a.iter().map(|x| expr(b, x)).collect() },
                }
            }
        }
    };
}

build_flat!(b_hand, hand::query::Query, hand::query::FilterExpression, hand::query::Segment, hand::query::Selector, hand::query::LogicalOperator, hand::query::ComparisonOperator, True, False, String, {span: (0, 0),}, {}, Q::new);
build_flat!(b_pest, pestq::ast::Query, pestq::ast::FilterExpression, pestq::ast::Segment, pestq::ast::Selector, pestq::ast::LogicalOperator, pestq::ast::ComparisonOperator, True, False, String, {}, {(SG::Eoi)}, Q::new);
build_flat!(b_serde, serdeq::ast::Query, serdeq::ast::FilterExpression, serdeq::ast::Segment, serdeq::ast::Selector, serdeq::ast::LogicalOperator, serdeq::ast::ComparisonOperator, True, False, String, {}, {(SG::Eoi)}, Q::new);
build_flat!(b_iter, iterq::query::Query, iterq::filter::FilterExpression, iterq::segment::Segment, iterq::selector::Selector, iterq::filter::LogicalOperator, iterq::filter::ComparisonOperator, True, False, String, {}, {(SG::Eoi)}, Q::new);

mod b_rec {
    use super::*;
    use pestrec::ast::{ComparisonOperator as CO, FilterExpression as FE, LogicalOperator as LO, Query as Q, Segment as SG, Selector as SL};
    pub fn query(b: &mut Build, segs: &[Seg]) -> Q {
        let mut ast = SG::Root {};
        for x in segs {
            let selectors = x.sels.iter().map(|y| sel(b, y)).collect();
            let left = Box::new(ast);
            ast = if x.desc { SG::Recursive { left, selectors } } else { SG::Child { left, selectors } };
        }
        Q { ast }
    }
    fn sel(b: &mut Build, x: &Sel) -> SL {
        match x {
            Sel::Name(n) => SL::Name { name: n.clone() },
            Sel::Index(i) => SL::Index { index: *i },
            Sel::Slice(start, stop, step) => SL::Slice { start: *start, stop: *stop, step: *step },
            Sel::Wild => SL::Wild {},
            Sel::Filter(e) => SL::Filter { expression: Box::new(expr(b, e)) },
            Sel::Singular(_) => unreachable!(),
        }
    }
    fn chain(b: &mut Build, v: &[Expr], or: bool) -> FE {
        if v.len() == 1 {
            return expr(b, &v[0]);
        }
        let k = 1 + b.s.below(v.len() - 1);
        let left = Box::new(chain(b, &v[..k], or));
        let right = Box::new(chain(b, &v[k..], or));
        FE::Logical { left, operator: if or { LO::Or } else { LO::And }, right }
    }
    fn expr(b: &mut Build, e: &Expr) -> FE {
        match e {
            Expr::Null => FE::Null {},
            Expr::Bool(true) => FE::True_ {},
            Expr::Bool(false) => FE::False_ {},
            Expr::Str(t) => FE::StringLiteral { value: t.clone() },
            Expr::Num(n) => match b.int(n) {
                Some(i) => FE::Int { value: i },
                None => FE::Float { value: n.f() },
            },
            Expr::Or(v) => chain(b, v, true),
            Expr::And(v) => chain(b, v, false),
            Expr::Not(x) => FE::Not { expression: Box::new(expr(b, x)) },
            Expr::Cmp(l, op, r) => FE::Comparison {
                left: Box::new(expr(b, l)),
                operator: match op {
                    Op::Eq => CO::Eq,
                    Op::Ne => CO::Ne,
                    Op::Lt => CO::Lt,
                    Op::Le => CO::Le,
                    Op::Gt => CO::Gt,
                    Op::Ge => CO::Ge,
                },
                right: Box::new(expr(b, r)),
            },
            Expr::Path(true, q) => FE::RootQuery { query: Box::new(query(b, q)) },
            Expr::Path(false, q) => FE::RelativeQuery { query: Box::new(query(b, q)) },
            Expr::Call(n, a) => FE::Function { name: n.clone(), args: a.iter().map(|x| expr(b, x)).collect() },
        }
    }
}

impl<'s> Build<'s> {
    /// The integer to write a number as, `None` for a float.
    fn int(&mut self, n: &Num) -> Option<i64> {
        let i = n.exact_int()?;
        if i.unsigned_abs() < 1 << 53 && self.s.chance(64) {
            None
        } else {
            Some(i)
        }
    }
    fn build(&mut self, p: Sut, segs: &[Seg]) -> Result<Query, Failure> {
        sut(p.name(), || match p {
            Sut::Hand => Query::Hand(b_hand::query(self, segs)),
            Sut::Pest => Query::Pest(b_pest::query(self, segs)),
            Sut::PestRec => Query::PestRec(b_rec::query(self, segs)),
            Sut::Serde => Query::Serde(b_serde::query(self, segs)),
            Sut::Iter => Query::Iter(b_iter::query(self, segs)),
            _ => unreachable!(),
        })
    }
}

fn check_built(s: &mut Src, c: &mut Ctx, segs: &[Seg], doc: &Value, want: Option<&[MNode]>) -> Res {
    let o = recog::Opts::default();
    let norm = norm_steps(segs);
    let plain = print::plain(segs);
    for p in [Sut::Hand, Sut::Pest, Sut::PestRec, Sut::Serde, Sut::Iter] {
        let q = Build { s }.build(p, segs)?;
        c.eval();
        if q.is_singular() != singular(segs) {
            c.fail(format!("singular:{}", p.name()), format!("{}: the tree built for {plain:?} says is_singular {}", p.name(), q.is_singular()))?;
        }
        if q.is_empty().is_some_and(|e| e != segs.is_empty()) {
            c.fail(format!("empty:{}", p.name()), format!("{}: the tree built for {plain:?} says is_empty {:?}", p.name(), q.is_empty()))?;
        }
        if quote_pin(p, segs) {
            c.exclude("display of a string literal holding the delimiting quote (known finding C04-quote)");
        } else {
            c.label("displayed");
            let d = q.display()?;
            match recog::parse(&d, &o) {
                Ok(r) if r.faults.is_empty() => {
                    if let Some(diff) = ast_diff(&norm, &norm_steps(&r.segs)) {
                        c.fail(format!("built-display:{}", p.name()), format!("{}: the tree built for {plain:?} displays as {d:?}, a different query:\n  {diff}", p.name()))?;
                    }
                }
                Ok(r) => c.fail(format!("built-invalid:{}", p.name()), format!("{}: the tree built for {plain:?} displays as the invalid query {d:?}: {}", p.name(), r.faults[0].what))?,
                Err(f) => c.fail(format!("built-invalid:{}", p.name()), format!("{}: the tree built for {plain:?} displays as the invalid query {d:?}: {} at {}", p.name(), f.what, f.pos))?,
            }
            // the same parser reads it back, and shows it alike
            if !(p == Sut::Hand && ctrl_escape(&d)) {
                c.eval();
                match standard(p, &d)? {
                    Err(e) => c.fail(format!("built-reparse:{}", p.name()), format!("{}: the tree built for {plain:?} displays as {d:?}, which it rejects: {}", p.name(), e.msg))?,
                    Ok(back) => {
                        let d2 = back.display()?;
                        if let Some(diff) = ast_diff(&norm, &norm_steps(&back.segs(&o)?)) {
                            c.fail(format!("built-reparse-ast:{}", p.name()), format!("{}: the tree built for {plain:?} displays as {d:?}, read back as another:\n  {diff}", p.name()))?;
                        }
                        // the grouping of equal operators may be displayed
                        if d2 != d && !d.contains('(') {
                            c.fail(format!("built-idem:{}", p.name()), format!("{}: the tree built for {plain:?} displays as {d:?}, reparsed as {d2:?}", p.name()))?;
                        }
                    }
                }
            }
        }
        let Some(want) = want else { continue };
        for e in Eng::ALL {
            if e.sut() != p {
                continue;
            }
            c.eval();
            c.label("evaluated");
            let got: Vec<Found> = match suts::eval(e, &q, doc, envs())? {
                Ok(g) => g,
                Err(m) => {
                    c.fail(format!("built-evalerr:{}", e.name()), format!("{}: the tree built for {plain:?} fails to evaluate: {m}", e.name()))?;
                    continue;
                }
            };
            if !same_nodes(want, &got) {
                c.fail(
                    format!("built-nodes:{}", e.name()),
                    format!("{}: the tree built for {plain:?} selects wrong nodes on {}\n  expected {}\n  got      {}", e.name(), show_doc(doc), show_paths(want), show_found(&got)),
                )?;
            }
        }
    }
    Ok(())
}

fn c30(s: &mut Src, c: &mut Ctx) -> Res {
    let mut doc = gen::doc(s, &DocOpts::default());
    let segs = if s.chance(110) {
        gen_query(s, QOpts { wide_lits: false, ..qopts_parse() })
    } else {
        let mut q = query_for(s, &doc, &QOpts::default());
        grow::both(s, &mut q, &mut doc);
        q
    };
    c.desc = format!("{}  on  {}", print::plain(&segs), show_doc(&doc));
    let f = features(&segs);
    label_features(c, &f);
    if f.filter {
        c.nontrivial(&c.desc.clone());
    }
    let want = if regex_unsettled(&segs, &doc) { None } else { model_find(&segs, &doc) };
    check_built(s, c, &segs, &doc, want.as_deref())
}

fn c30_fixed() -> Fixed {
    [
        ("$", "[1]"),
        ("$['a','b']['\\u0000\\\\ \\'']", "{}"),
        ("$[?@.a==1&&@.b==2&&@.c==3||@.d]", r#"[{"a":1,"b":2,"c":3},{"d":0}]"#),
        ("$[?!(!@.a)]", r#"[{"a":1},{"b":2}]"#),
        ("$[?!(@.a==1)]", r#"[{"a":1},{"b":2}]"#),
        ("$[?@.a==-0.0]", r#"[{"a":0}]"#),
        ("$[?@.a==1e300]", r#"[{"a":1e300}]"#),
        ("$[?@.a==1e-7]", r#"[{"a":1e-7}]"#),
        ("$[?@.a==1e400]", r#"[{"a":1}]"#),
        ("$[?@.a=='\\b\\f\\n\\r\\t\\\\/\\u001f\\u007f']", r#"[{"a":1}]"#),
        ("$[::,1:,:1,::-1]", "[1,2,3]"),
    ]
    .iter()
    .map(|(q, d)| {
        let (q, d) = (q.to_string(), d.to_string());
        fixed_case(format!("{q} on {d}"), move |c| {
            let doc: Value = serde_json::from_str(&d).unwrap();
            let segs = recog::ast(&q, &recog::Opts::default()).expect("valid");
            let want = model_find(&segs, &doc);
            for seed in 0..20 {
                check_built(&mut Src::random(seed), c, &segs, &doc, want.as_deref())?;
            }
            Ok(())
        })
    })
    .collect()
}
