//! Parsing properties: C01–C05, C20, C21, C22 (parse side), C26.
use super::common::*;
use crate::recog::Kind;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "distinct accepted query texts holding a filter, an escape, optional whitespace or redundant parentheses",
            case: c01,
            fixed: c01_fixed,
            quick_cases: 300_000,
            thorough_cases: 3_000_000,
            assumptions: &["validity is decided by the generator (queries printed from well-typed trees) and, for mutated texts, by an independent recogniser of RFC 9535's ABNF and typing rules", "nesting up to about 60 levels"],
        },
        Prop {
            id: "C02",
            rule: "distinct query texts the recogniser rejects that begin with `$` and are one to three edits or one typing fault away from a valid query",
            case: c02,
            fixed: c02_fixed,
            quick_cases: 240_000,
            thorough_cases: 6_000_000,
            assumptions: &["invalidity is decided by an independent recogniser of RFC 9535's ABNF and typing rules (for the extended crate, of its dialect)"],
        },
        Prop {
            id: "C03",
            rule: "distinct query texts with a filter, slice, multiple selectors or escapes whose tree was compared",
            case: c03,
            fixed: c03_fixed,
            quick_cases: 300_000,
            thorough_cases: 3_000_000,
            assumptions: &["the two crates whose tree types are private are compared through their displayed text"],
        },
        Prop {
            id: "C04",
            rule: "distinct query trees with a filter, an odd name or a slice, displayed and parsed back",
            case: c04,
            fixed: c04_fixed,
            quick_cases: 45_000,
            thorough_cases: 2_000_000,
            assumptions: &["a slice without a step and one with step 1 are the same slice for display"],
        },
        Prop {
            id: "C05",
            rule: "distinct strings that are not valid queries",
            case: c05,
            fixed: c05_fixed,
            quick_cases: 300_000,
            thorough_cases: 8_000_000,
            assumptions: &["strings up to about 400 characters and nesting up to about 60, and 200 on an 8 MiB stack (deeper: known findings)"],
        },
    ]
}

pub fn qopts_parse() -> QOpts {
    QOpts { max_segs: 4, desc: 60, filter_depth: 3, filter: 90, expr_depth: 3, call_depth: 2, odd: 60, ctrl: 0, wide_lits: true, ..Default::default() }
}

pub fn gen_query(s: &mut Src, o: QOpts) -> Vec<Seg> {
    let mut g = G::new(s, parse_pool(), o);
    g.desc_left = 6;
    let mut q = g.query();
    grow::text(s, &mut q);
    q
}

/// Extra nesting: wraps the query's filters in parentheses / negations /
/// nested filters.
fn deepen(s: &mut Src, text: &str) -> String {
    // $[?((((@.a))))] style towers of valid nesting
    if s.chance(80) {
        return tower(s);
    }
    let n = 2 + s.below(50);
    match s.below(5) {
        0 => format!("$[?{}@.a{}]", "(".repeat(n), ")".repeat(n)),
        1 => format!("$[?{}@.a==1{}]", "!(".repeat(n), ")".repeat(n)),
        2 => format!("{}{}{}", "$[?@".to_string() + &"[?@".repeat(n.min(25)), ".a", "]".repeat(n.min(25) + 1)),
        3 => format!("{text}{}", ["[0]", ".a", "..b", "[*]", "['x',1]"][s.below(5)].repeat(n * 4)),
        _ => format!("$[?{}@.b]", "@.a && ".repeat(n * 2)),
    }
}

/// A few ways of nesting a filter expression, taken in turn, over and over:
/// a parser that tries a part of the text twice on some way takes for ever.
fn tower(s: &mut Src) -> String {
    const WAYS: [(&str, &str); 24] = [
        ("(", ")"),
        ("!(", ")"),
        ("( ", " )"),
        ("@[?", "]"),
        ("$[?", "]"),
        ("!@[?", "]"),
        ("@.a[?", "].b"),
        ("@['a'][?", "]"),
        ("@..[?", "]"),
        ("@[0,?", "]"),
        ("@[?", ",1:2]"),
        ("@['a',?", ", * ]"),
        ("@.b && ", ""),
        ("@.b || ", ""),
        ("@.a == 1 && (", ") || @.b"),
        ("(", ") && @.b"),
        ("(", ") || @.b == @.c"),
        ("count(@[?", "]) == 1"),
        ("1 != count(@[?", "])"),
        ("length(value(@[?", "])) > 1"),
        ("'a' < value($[?", "])"),
        ("match(value(@[?", "]),'x')"),
        ("!search(@.a,value(@[?", "]))"),
        ("count(@[?", "]) == count(@..*)"),
    ];
    let ways: Vec<_> = (0..1 + s.below(3)).map(|_| *s.pick(&WAYS)).collect();
    let n = 2 + s.below(48);
    let (mut open, mut close) = (String::from("$[?"), vec![]);
    for i in 0..n {
        let (o, c) = ways[i % ways.len()];
        open.push_str(o);
        close.push(c);
    }
    open.push_str(s.pick(&["@", "@.a", "@.a==1", "length(@.a)>1", "match(@.a,'b')"]));
    if s.chance(24) {
        // not a query
        open.push_str(s.pick(&[" ", "(", "=", "==", " && ", ")", "]", ","]));
    }
    for c in close.into_iter().rev() {
        open.push_str(c);
    }
    open + "]"
}

/// Runs `f` on each short text of a batch.
fn each_small(s: &mut Src, c: &mut Ctx, valid: bool, f: impl Fn(&mut Ctx, &str) -> Res) -> Res {
    let o = recog::Opts::default();
    for t in small_texts(s, c) {
        if recog::accepts(&t, &o) == valid {
            c.desc = t.clone();
            c.nontrivial(&t);
            f(c, &t)?;
        }
    }
    Ok(())
}

fn c01(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(24) {
        return each_small(s, c, true, |c, t| check_accept(c, t, ctrl_escape(t)));
    }
    let segs = gen_query(s, QOpts { ctrl: 8, ..qopts_parse() });
    let st = Style::random(s);
    let (mut text, _, mut feat) = print::spelled(s, &segs, &st);
    let o = recog::Opts::default();
    match s.below(16) {
        0 => {
            text = deepen(s, &text);
            if !recog::accepts(&text, &o) {
                // a broken tower
                return Ok(());
            }
            c.label("deep-or-long");
        }
        1..=4 => {
            let m = mutate(s, &text);
            if m != text && recog::accepts(&m, &o) {
                text = m;
                c.label("accepted-mutant");
            }
        }
        _ => (),
    }
    if text.contains("\\u00") && ctrl_escape(&text) {
        feat.ctrl_u = true;
    }
    c.desc = text.clone();
    let f = features(&segs);
    label_features(c, &f);
    c.label_if(feat.ws, "whitespace");
    c.label_if(feat.escapes, "unicode-escape");
    c.label_if(feat.redundant_parens, "redundant-parens");
    c.label_if(feat.ctrl_u, "control-escape");
    if f.filter || feat.ws || feat.escapes || feat.redundant_parens {
        c.nontrivial(&text);
    }
    check_accept(c, &text, feat.ctrl_u)
}

/// Does a text hold a `\u0000`…`\u001f` escape?
pub fn ctrl_escape(t: &str) -> bool {
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == '\\' {
            if b[i + 1] == 'u' && i + 5 < b.len() {
                let h: String = b[i + 2..i + 6].iter().collect();
                if let Ok(v) = u32::from_str_radix(&h, 16) {
                    if v < 0x20 {
                        return true;
                    }
                }
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    false
}

fn check_accept(c: &mut Ctx, text: &str, ctrl: bool) -> Res {
    for p in Sut::ALL {
        if p == Sut::Hand && ctrl {
            c.exclude("hand: \\u escape of a control character (known finding C01-hand-ctrl)");
            continue;
        }
        c.eval();
        match standard(p, text) {
            Ok(Ok(_)) => (),
            Ok(Err(e)) => c.fail(format!("reject:{}", p.name()), format!("{} rejects the valid query {text:?}: {}", p.name(), e.msg))?,
            Err(f) => c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?,
        }
    }
    Ok(())
}

fn accept_cases(qs: &[&str]) -> Fixed {
    qs.iter()
        .map(|q| {
            let q = q.to_string();
            fixed_case(q.clone(), move |c| {
                assert!(recog::accepts(&q, &recog::Opts::default()), "recogniser rejects {q:?}");
                check_accept(c, &q, ctrl_escape(&q))
            })
        })
        .collect()
}

fn c01_fixed() -> Fixed {
    let mut v = accept_cases(&[
        "$",
        "$[?@.a==-0.5]",
        "$[?@.a==-0e1]",
        "$[?@.a==-0]",
        "$[?@.a==1E2]",
        "$[?@.a==1e400]",
        "$[?@[0][1]]",
        "$[?@['a']['b']]",
        "$[?count(@[?@.a])==1]",
        "$[?count(@[?@.a,?@.b])==1]",
        "$[?length(value($[?@.a]))==1]",
        "$[\"\\ud83d\\ude00\"]",
        "$['\\/']",
        "$[?!(@.a==1)]",
        "$[?! ( @.a )]",
        "$ [0] .a ..b\n[*]",
        "$..[?@.a]",
        "$[?@ [ 'a' ]]",
        "$[?length(@[ 'a' ])==1]",
        "$[?@.a==true&&@.b!=null]",
        "$[1:2:3,:,::,1::,:1:,::-1 , 4 : 5 : 6]",
        "$[?(@.a)]",
        "$[?((@.a)&&(@.b==1))]",
        "$.\u{80}",
        "$[?match(@.a,'a')||search(@.b,\"b\")]",
        "$[?match('a','a')]",
        "$[?length('a')==1]",
        "$[?count(@)==1]",
        "$[?count(@..*)>1.5e0]",
        "$[?value(@..a)==value($..a)]",
        "$[?length(value(@.a))==1]",
        "$[?match(value(@.a),value($.b))]",
        "$[9007199254740991,-9007199254740991]",
        "$[?@.a==123456789012345678901234567890]",
        "$['\u{7f}']",
    ]);
    v.push(fixed_case("hand accepts $[\"\\u0013\"]", |c| {
        c.eval();
        match standard(Sut::Hand, "$[\"\\u0013\"]")? {
            Ok(_) => Ok(()),
            Err(e) => Err(Failure::new("hand-ctrl", format!("hand rejects the valid query $[\"\\u0013\"]: {}", e.msg))),
        }
    }));
    v
}

// ------------------------------------------------------------------- C02

/// Well-formed but ill-typed or out-of-range texts.
pub fn ill_typed(s: &mut Src) -> String {
    let lit = |s: &mut Src| s.pick(&["1", "'a'", "true", "false", "null", "-1.5", "\"b\"", "0"]).to_string();
    let sing = |s: &mut Src| s.pick(&["@.a", "@", "$.b", "@[0]", "$['x']", "@.a.b", "$"]).to_string();
    let multi = |s: &mut Src| s.pick(&["@.*", "@..a", "$..*", "@[0,1]", "@[1:2]", "@[?@.x]", "$[*]", "@['a','b']"]).to_string();
    let vcall = |s: &mut Src| s.pick(&["length(@.a)", "count(@.*)", "value(@..a)", "length('x')", "count($)"]).to_string();
    let lcall = |s: &mut Src| s.pick(&["match(@.a,'a')", "search(@.b,'b')"]).to_string();
    let op = |s: &mut Src| s.pick(&["==", "!=", "<", "<=", ">", ">="]).to_string();
    let core = match s.below(16) {
        0 => lit(s),
        1 => vcall(s),
        2 => format!("{} {} {}", multi(s), op(s), lit(s)),
        3 => format!("{} {} {}", sing(s), op(s), multi(s)),
        4 => format!("{} {} {}", lcall(s), op(s), lit(s)),
        5 => format!("{} {} {}", lit(s), op(s), lcall(s)),
        6 => format!("length({}) == 1", multi(s)),
        7 => format!("count({}) == 1", lit(s)),
        8 => format!("value({}) == 1", vcall(s)),
        9 => format!("length({}) == 1", lcall(s)),
        10 => format!("match({})", sing(s)),
        11 => format!("length({}, {}) == 1", sing(s), sing(s)),
        12 => format!("length() == 1"),
        13 => format!("match({}, {} {} {})", sing(s), sing(s), op(s), lit(s)),
        14 => format!("{}({}) == 1", s.pick(&["nosuch", "len", "counts", "lengt", "value1", "a", "m_atch"]), sing(s)),
        _ => format!("count({} {} {}) == 1", sing(s), op(s), lit(s)),
    };
    let wrapped = match s.below(9) {
        0 => format!("!{core}"),
        1 => format!("!({core})"),
        2 => format!("@.z && {core}"),
        3 => format!("{core} || @.z"),
        4 => format!("({core})"),
        5 => format!("@.y == 1 && ({core} || @.z)"),
        6 => format!("@[?{core}]"),
        7 => format!("count(@[?{core}]) > 1"),
        _ => core,
    };
    match s.below(5) {
        0 => format!("$..[?{wrapped}]"),
        1 => format!("$.a[0, ?{wrapped}]"),
        2 => format!("$[?{wrapped}, 'b'].c"),
        _ => format!("$[?{wrapped}]"),
    }
}

pub fn out_of_range(s: &mut Src) -> String {
    let big = s
        .pick(&[
            "9007199254740992",
            "-9007199254740992",
            "9223372036854775807",
            "9223372036854775808",
            "-9223372036854775808",
            "-9223372036854775809",
            "18446744073709551616",
            "100000000000000000000000000000000",
            "-0",
            "00",
            "01",
            "-01",
        ])
        .to_string();
    let ix = match s.below(8) {
        0..=2 => big,
        3 => format!("{big}:"),
        4 => format!(":{big}"),
        5 => format!("::{big}"),
        6 => format!("1:{big}:2"),
        _ => format!("0, {big}"),
    };
    match s.below(6) {
        0 => format!("$[?@[{ix}]]"),
        1 => format!("$[?count(@[{ix}]) == 1]"),
        2 => format!("$..[{ix}]"),
        3 => format!("$[?$.a[?@[{ix}]]]"),
        _ => format!("$[{ix}]"),
    }
}

fn c02(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(12) {
        return each_small(s, c, false, |c, t| {
            let ext = recog::accepts(t, &recog::Opts { ext: true, ..Default::default() });
            check_reject(c, t, true, !ext)
        });
    }
    let text = match s.below(16) {
        0..=9 => {
            let segs = gen_query(s, qopts_parse());
            let st = Style::random(s);
            let (t, _, _) = print::spelled(s, &segs, &st);
            c.label("mutant");
            mutate(s, &t)
        }
        10..=12 => {
            c.label("ill-typed");
            let t = ill_typed(s);
            if s.chance(30) {
                mutate(s, &t)
            } else {
                t
            }
        }
        13 => {
            c.label("int-range");
            out_of_range(s)
        }
        14 => {
            // mutate an accepted fixed text
            let f = s.pick(&FIXED_BASE).to_string();
            c.label("mutant-of-fixed");
            mutate(s, &f)
        }
        _ => {
            c.label("bad-string");
            bad_string(s)
        }
    };
    c.desc = text.clone();
    let std = recog::parse(&text, &recog::Opts::default());
    let ext = recog::parse(&text, &recog::Opts { ext: true, ..Default::default() });
    let bad = |p: &Result<recog::Parsed, recog::Fault>| match p {
        Ok(p) => !p.faults.is_empty(),
        Err(_) => true,
    };
    let (std_bad, ext_bad) = (bad(&std), bad(&ext));
    if std_bad {
        if text.starts_with('$') {
            c.nontrivial(&text);
        }
        match &std {
            Err(_) => c.label("fault:grammar"),
            Ok(p) => {
                let k = p.faults[0].kind;
                c.label(match k {
                    Kind::Syntax => "fault:grammar",
                    Kind::Range => "fault:range",
                    Kind::Type => "fault:type",
                    Kind::Name => "fault:name",
                    Kind::SyntaxOrType => "fault:nonsingular",
                });
            }
        }
    } else {
        c.label("still-valid");
    }
    check_reject(c, &text, std_bad, ext_bad)
}

const FIXED_BASE: [&str; 8] = [
    "$[?@.a==1&&(@.b||!@.c)]",
    "$[?count(@.*,1)>2]",
    "$[?match(@.a,'x.*')]['b',0,1:2:3]",
    "$..['a'][?length(@.b)>=2]",
    "$[?@['a'][0]=='it\\'s']",
    "$.a.b[0][1:2].*..c",
    "$[?value(@..a)==count(@['x','y'])]",
    "$[\"a\\u00e9\\n\"]",
];

fn bad_string(s: &mut Src) -> String {
    let e = s
        .pick(&[
            "\\", "\\x", "\\u", "\\u12", "\\u123", "\\u+041", "\\u 041", "\\u-041", "\\ud800", "\\ud800\\u0041", "\\udc00", "\\ud800\\ud800",
            "\\u0041\\", "\\uD83D\\uDE0", "\\uD83D\\x", "\\a", "\\0", "\\v", "\\U0041", "\u{1f}", "\u{0}", "\n", "\t", "\\\"x\\'", "\\u00e9\\u00g1",
            "\\ud83dx\\ude00", "\\ude00\\ud83d", "\\u０041",
        ])
        .to_string();
    let q = if s.chance(128) { '"' } else { '\'' };
    let pre = s.pick(&["", "a", "\\n", "é"]).to_string();
    let post = s.pick(&["", "b", "\\\\", "☺"]).to_string();
    let lit = format!("{q}{pre}{e}{post}{q}");
    match s.below(4) {
        0 => format!("$[{lit}]"),
        1 => format!("$[?@.a=={lit}]"),
        2 => format!("$[?@[{lit}]]"),
        _ => format!("$[?match(@.a,{lit})]"),
    }
}

/// Queries on which the hand-written parser is known to err.
pub fn hand_cannot_judge(text: &str) -> bool {
    ctrl_escape(text) || matches!(recog::parse(text, &recog::Opts::default()), Ok(p) if p.ws_in_singular)
}

/// Is whitespace inside the brackets of compared singular queries the only fault?
pub fn only_ws_in_singular(text: &str, o: &recog::Opts) -> bool {
    matches!(recog::parse(text, o), Ok(p) if p.ws_in_singular && p.faults.iter().all(|f| f.what.starts_with("whitespace inside")))
}

pub fn check_reject(c: &mut Ctx, text: &str, std_bad: bool, ext_bad: bool) -> Res {
    let ws_only = only_ws_in_singular(text, &recog::Opts::default());
    check_reject_by(c, text, std_bad, ext_bad, ws_only)
}

fn check_reject_by(c: &mut Ctx, text: &str, std_bad: bool, ext_bad: bool, ws_only: bool) -> Res {
    for p in Sut::ALL {
        let bad = if p == Sut::Sing { ext_bad } else { std_bad };
        if !bad {
            continue;
        }
        if p == Sut::Hand && ws_only {
            c.exclude("hand: whitespace inside the brackets of a compared singular query (known finding C02-hand-ws)");
            continue;
        }
        c.eval();
        match standard(p, text) {
            Ok(Err(_)) => (),
            Ok(Ok(_)) => c.fail(format!("accept:{}", p.name()), format!("{} accepts the invalid query {text:?}", p.name()))?,
            Err(f) => c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?,
        }
    }
    Ok(())
}

fn c02_fixed() -> Fixed {
    [
        "", " $", "$ ", "$\u{0}", "$.a\u{0}", "$\u{0}.a", "$[0 2]", "$[:::]", "$[1,]", "$[,1]", "$[1:2 3]", "$[1 2:3]", "$[]", "$[?]", "$[?@.a==]", "$[?==1]",
        "$[?!@.a==1]", "$[?!!@.a]", "$[?!true]", "$[?(1)==1]", "$[?(@.a)==1]", "$[?1==1==1]", "$[?@.a==(1)]", "$[?count((@.a))==1]", "$[?length((@.a))==1]",
        "$[?!length(@.a)]", "$[?@.b&&length(@.a)]", "$[?(length(@.a))]", "$[?@[ 'a' ]==1]", "$[?@[ 0]==1]", "$[?match(@.a 'b')]", "$[?match(@.a,'b',)]", "$[?match(,@.a,'b')]",
        "$[?length(@.a)==1.]", "$[?@.a==.5]", "$[?@.a==1e]", "$[?@.a==01]", "$[?@.a==-01]", "$[?@.a==+1]", "$[?@.a==-]", "$['\\u+041']", "$['\\u0041\\u0042",
        "$['\\ud800\\u0041']", "$[?@.a=1]", "$[?@.a&@.b]", "$[?@.a|@.b]", "$[?@.a===1]", "$.a b", "$. a", "$.. a", "$...a", "$..", "$.", "$.1", "$.-a", "a", ".a",
        "$a", "$$", "@", "@.a", "$[?@.a]]", "$[[0]]", "$[?(@.a]", "$[?@.a)]", "$[?length (@.a)==1]", "$[?Length(@.a)==1]", "$[?@.a==True]", "$[?@.a==nul]", "$[?@.a==nulla]",
        "$[?@.a in @.b]", "$[?@.a==@.*]", "$[?@.a==@..b]", "$[?count(1)==1]", "$[?length(@.*)==1]", "$[?match(@.a,'b')==true]", "$[?count(@.a)]", "$[?'a']", "$[?1]",
        "$[?true]", "$[?nosuch(@.a)]", "$[9007199254740992]", "$[-9007199254740992]", "$[?@[9007199254740992]]", "$[?@[::-9007199254740992]]", "$[-0]", "$[01]", "$[1.0]",
        "$[1e0]", "$['a''b']", "$['a' 'b']", "$['a'.b]", "$['a", "$[\"a']", "$[a]", "$['\t']", "$[?@.a=='\n']", "$[0:1:2:3]", "$[::a]", "$.*a", "$*", "$.**", "$[**]",
        "$[?@.a&&]", "$[?&&@.a]", "$[?@.a||]", "$[?@.a @.b]", "$[?()]", "$[?@.a,]", "$[??@.a]", "$[?@.a==1 2]", "$[?-@.a]", "$[?@.a<>1]", "$[?@.a=<1]", "$[?!]", "$[?(!)]",
        "$[?@.a==!@.b]", "$[?@.a == (@.b || @.c)]", "$['\\'\"]", "$[\"\\'\"]", "$['\\\"']", "$\u{feff}", "$[?@\u{a0}.a]", "$[?length(@.a,@.b)==1]", "$[?length()==1]",
        "$[?match(@.a)]", "$[?search(@.a,'a','b')]", "$[?value(@.a)]", "$[?value(1)==1]", "$[?count(length(@.a))==1]", "$[?length(match(@.a,'a'))==1]", "$[?match(@.a==1,'a')]",
        "$[?match(@.*,'a')]", "$[?length(@.a==1)==1]", "$[?length(!@.a)==1]",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| {
            assert!(!recog::accepts(&q, &recog::Opts::default()), "recogniser accepts {q:?}");
            let ext_bad = !recog::accepts(&q, &recog::Opts { ext: true, ..Default::default() });
            check_reject_by(c, &q, true, ext_bad, false)
        })
    })
    .collect()
}

// ------------------------------------------------------------------- C03

/// `None` if equal, else a description of the difference.
pub fn ast_diff(want: &[Seg], got: &[Seg]) -> Option<String> {
    if want == got {
        None
    } else {
        Some(format!("want {}\n  got  {}", clip(&format!("{want:?}")), clip(&format!("{got:?}"))))
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 900 {
        s.chars().take(900).collect::<String>() + "…"
    } else {
        s.to_string()
    }
}

fn c03(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(24) {
        return each_small(s, c, true, |c, t| {
            let segs = recog::ast(t, &recog::Opts::default()).expect("valid");
            check_ast(c, t, &segs)
        });
    }
    let segs = gen_query(s, QOpts { ctrl: 8, ..qopts_parse() });
    let mut st = Style::random(s);
    st.respell = false;
    let (text, _, feat) = print::spelled(s, &segs, &st);
    c.desc = text.clone();
    let f = features(&segs);
    label_features(c, &f);
    if f.filter || f.slice || f.multi || feat.escapes {
        c.nontrivial(&text);
    }
    check_ast(c, &text, &segs)
}

fn check_ast(c: &mut Ctx, text: &str, segs: &[Seg]) -> Res {
    let ctrl = ctrl_escape(text);
    let o = recog::Opts::default();
    for p in Sut::ALL {
        if p == Sut::Hand && ctrl {
            c.exclude("hand: \\u escape of a control character (known finding C01-hand-ctrl)");
            continue;
        }
        let by_text = matches!(p, Sut::Loc | Sut::Sing);
        if by_text && quote_pin(Sut::Pest, segs) {
            c.exclude("tree read through displayed text holding a single quote in a string literal (known finding C04-quote)");
            continue;
        }
        c.eval();
        let q = match standard(p, text) {
            Ok(Ok(q)) => q,
            Ok(Err(e)) => {
                c.fail(format!("reject:{}", p.name()), format!("{} rejects the valid query {text:?}: {}", p.name(), e.msg))?;
                continue;
            }
            Err(f) => {
                c.fail(f.key.clone(), format!("{} on {text:?}", f.msg))?;
                continue;
            }
        };
        let got = match q.segs(&o) {
            Ok(g) => g,
            Err(f) => {
                c.fail(f.key.clone(), format!("{} for {text:?}", f.msg))?;
                continue;
            }
        };
        let (w, g) = if by_text { (norm_steps(segs), norm_steps(&got)) } else { (segs.to_vec(), got) };
        if let Some(d) = ast_diff(&w, &g) {
            c.fail(format!("ast:{}", p.name()), format!("{} reads {text:?} as a different query:\n  {d}", p.name()))?;
        }
    }
    Ok(())
}

fn c03_fixed() -> Fixed {
    [
        "$[?@.a==-0.5]",
        "$[?@.a==-0.25e1]",
        "$[?@.a==-0e1]",
        "$[?@.a==1e2]",
        "$[?@.a==1e-2]",
        "$[?@.a==1e30]",
        "$[?@.a==-1e30]",
        "$[?@.a==100000000000000000000]",
        "$[?@.a==1.5E3]",
        "$[?@.a==9007199254740993]",
        "$[?@.a||@.b&&@.c]",
        "$[?@.a&&@.b||@.c]",
        "$[?(@.a||@.b)&&@.c]",
        "$[?!@.a&&@.b]",
        "$[?!(@.a&&@.b)]",
        "$[?!(!@.a)]",
        "$[?!@.a||!@.b]",
        "$[?@.a==1||@.b!=2&&@.c<3||@.d>=4]",
        "$[\"\\u0041\\u0042\"]",
        "$['\\u00e9\\u00e8']",
        "$[\"\\ud83d\\ude00\\u0041\"]",
        "$['a\\'b',\"a\\\"b\"]",
        "$['\\b\\f\\n\\r\\t\\/\\\\']",
        "$[::,1:,:1,::1,1:2:3,-1:-2:-3]",
        "$[?count(@[?@.a,?@.b])==1]",
        "$[?match(@.a,value($.b))]",
        "$..a..[0]..*",
        "$[?@['a','b']]",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| {
            let segs = recog::ast(&q, &recog::Opts::default()).expect("valid");
            check_ast(c, &q, &segs)
        })
    })
    .collect()
}

// ------------------------------------------------------------------- C04

/// String literals whose display is pinned by the crates' own tests although
/// it is not a valid string (known findings).
pub fn quote_pin(p: Sut, segs: &[Seg]) -> bool {
    let q = match p {
        Sut::Hand => '"',
        Sut::Pest | Sut::PestRec => '\'',
        _ => return false,
    };
    string_literals(segs).iter().any(|t| t.contains(q))
}

fn c04(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(12) {
        return each_small(s, c, true, |c, t| {
            if ctrl_escape(t) {
                return Ok(());
            }
            let segs = recog::ast(t, &recog::Opts::default()).expect("valid");
            let t2 = print::plain(&segs);
            check_display(c, &segs, t, &t2)
        });
    }
    let segs = gen_query(s, QOpts { ctrl: 0, max_segs: 3, ..qopts_parse() });
    let mut st = Style::random(s);
    st.no_ctrl_u = true;
    let (t1, _, _) = print::spelled(s, &segs, &st);
    let mut st2 = Style::random(s);
    st2.no_ctrl_u = true;
    st2.respell = true;
    let (t2, _, _) = print::spelled(s, &segs, &st2);
    c.desc = format!("{t1}   ~   {t2}");
    let f = features(&segs);
    label_features(c, &f);
    c.label_if(t1 != t2, "two-spellings");
    if f.filter || f.slice || t1.contains('\\') {
        c.nontrivial(&t1);
    }
    check_display(c, &segs, &t1, &t2)
}

fn check_display(c: &mut Ctx, segs: &[Seg], t1: &str, t2: &str) -> Res {
    let want = norm_steps(segs);
    let o = recog::Opts::default();
    for p in Sut::ALL {
        if quote_pin(p, segs) {
            c.exclude("display of a string literal holding the delimiting quote (known finding C04-quote)");
            continue;
        }
        let one = |c: &mut Ctx| -> Res {
            let parse = |t: &str| -> Result<suts::Query, Failure> {
                match standard(p, t)? {
                    Ok(q) => Ok(q),
                    Err(e) => Err(Failure::new(format!("reject:{}", p.name()), format!("{} rejects {t:?}: {}", p.name(), e.msg))),
                }
            };
            c.eval();
            let q1 = parse(t1)?;
            let d1 = q1.display()?;
            match recog::parse(&d1, &o) {
                Ok(r) if r.faults.is_empty() => {
                    if let Some(d) = ast_diff(&want, &norm_steps(&r.segs)) {
                        return Err(Failure::new(
                            format!("display-ast:{}", p.name()),
                            format!("{} displays {t1:?} as {d1:?}, a different query:\n  {d}", p.name()),
                        ));
                    }
                }
                Ok(r) => {
                    return Err(Failure::new(
                        format!("display-invalid:{}", p.name()),
                        format!("{} displays {t1:?} as the invalid query {d1:?}: {}", p.name(), r.faults[0].what),
                    ))
                }
                Err(f) => {
                    return Err(Failure::new(
                        format!("display-invalid:{}", p.name()),
                        format!("{} displays {t1:?} as the invalid query {d1:?}: {} at {}", p.name(), f.what, f.pos),
                    ))
                }
            }
            // parses back, in every parser, to the same tree
            for r in Sut::ALL {
                c.eval();
                match standard(r, &d1)? {
                    Err(e) => {
                        return Err(Failure::new(
                            format!("display-reparse:{}:{}", p.name(), r.name()),
                            format!("{} displays {t1:?} as {d1:?}, which {} rejects: {}", p.name(), r.name(), e.msg),
                        ))
                    }
                    Ok(q) => {
                        if !quote_pin(r, segs) {
                            let g = norm_steps(&q.segs(&o)?);
                            if let Some(d) = ast_diff(&want, &g) {
                                return Err(Failure::new(
                                    format!("display-reparse-ast:{}:{}", p.name(), r.name()),
                                    format!("{} displays {t1:?} as {d1:?}, which {} reads differently:\n  {d}", p.name(), r.name()),
                                ));
                            }
                        }
                        if r == p {
                            let d = q.display()?;
                            if d != d1 {
                                return Err(Failure::new(
                                    format!("display-idem:{}", p.name()),
                                    format!("{}: displaying is not canonical: {t1:?} -> {d1:?} -> {d:?}", p.name()),
                                ));
                            }
                        }
                    }
                }
            }
            let d2 = parse(t2)?.display()?;
            if d1 != d2 {
                return Err(Failure::new(
                    format!("display-spelling:{}", p.name()),
                    format!("{}: two spellings display differently: {t1:?} -> {d1:?}, {t2:?} -> {d2:?}", p.name()),
                ));
            }
            Ok(())
        };
        if let Err(f) = one(c) {
            c.fail(f.key, f.msg)?;
        }
    }
    Ok(())
}

fn c04_fixed() -> Fixed {
    let mut v: Fixed = [
        ("$['a\\'b']", "$[\"a'b\"]"),
        ("$['\\\\']", "$[\"\\u005c\"]"),
        ("$['\\n\\t\\r\\b\\f']", "$[\"\\n\\t\\r\\b\\f\"]"),
        ("$[\"\\\"\"]", "$['\"']"),
        ("$[?!(@.a==1)]", "$[?! ( ( @.a==1 ) )]"),
        ("$[?!(@.a&&@.b)]", "$[?!((@.a)&&@.b)]"),
        ("$[?!(!@.a)]", "$[?!(!(@.a))]"),
        ("$[?@.a==1e30]", "$[?@.a==1.0E30]"),
        ("$[?@.a==1e300]", "$[?@.a==10e299]"),
        ("$[?@.a==1e-300]", "$[?@.a==1.0e-300]"),
        ("$[?@.a==1e400]", "$[?@.a==10e500]"),
        ("$[?-1e400<@.a]", "$[?-1.0E+401<@.a]"),
        ("$[?@.a==1e-400]", "$[?@.a==0]"),
        ("$[?@.a==-1e-400]", "$[?@.a==0.0]"),
        ("$[?@.a==1.7976931348623157e308]", "$[?@.a==17976931348623157e292]"),
        ("$[?@.a==5e-324]", "$[?@.a==4.9e-324]"),
        ("$[?@.a==-0.5]", "$[?@.a==-5e-1]"),
        ("$[?@.a==\"a\\\\b\"]", "$[?@.a=='a\\\\b']"),
        ("$[?@.a=='\\n']", "$[?@.a==\"\\n\"]"),
        ("$[?@.a==-0.0]", "$[?@.a==-0]"),
        ("$[?@.a==-0]", "$[?@.a==0]"),
        ("$[1:2]", "$[1:2:]"),
        ("$[?(@.a||@.b)&&@.c]", "$[?((@.a||@.b))&&(@.c)]"),
        ("$[?@.a||@.b&&@.c]", "$[?@.a||(@.b&&@.c)]"),
    ]
    .iter()
    .map(|(a, b)| {
        let (a, b) = (a.to_string(), b.to_string());
        fixed_case(format!("{a} ~ {b}"), move |c| {
            let segs = recog::ast(&a, &recog::Opts::default()).expect("valid");
            check_display(c, &segs, &a, &b)
        })
    })
    .collect();
    // Known findings: pinned displays.
    for (p, t) in [
        (Sut::Hand, "$[?@.a=='ba\"r']"),
        (Sut::Pest, "$[?@.a==\"ba'r\"]"),
        (Sut::PestRec, "$[?@.a==\"ba'r\"]"),
        (Sut::Serde, "$[?@.a==\"ba'r\"]"),
        (Sut::Iter, "$[?@.a==\"ba'r\"]"),
        (Sut::Loc, "$[?@.a==\"ba'r\"]"),
        (Sut::Sing, "$[?@.a==\"ba'r\"]"),
    ] {
        v.push(fixed_case(format!("{} displays {t} validly", p.name()), move |c| {
            c.eval();
            let q = standard(p, t)?.map_err(|e| Failure::new("reject", e.msg))?;
            let d = q.display()?;
            let want = recog::ast(t, &recog::Opts::default()).unwrap();
            match recog::ast(&d, &recog::Opts::default()) {
                Some(a) if a == want => Ok(()),
                _ => Err(Failure::new("quote-pin", format!("{} displays {t:?} as {d:?}, which is not the same query", p.name()))),
            }
        }));
    }
    v
}

// ------------------------------------------------------------------- C05

pub fn any_string(s: &mut Src, c: &mut Ctx) -> String {
    match s.below(10) {
        0 => {
            c.label("raw-bytes");
            let n = s.below(60);
            let b: Vec<u8> = (0..n).map(|_| s.byte()).collect();
            let t = String::from_utf8_lossy(&b).into_owned();
            if s.chance(128) {
                format!("${t}")
            } else {
                t
            }
        }
        1 => {
            c.label("raw-chars");
            let n = s.below(40);
            (0..n)
                .map(|_| match s.below(4) {
                    0 => char::from_u32(s.below(0x300) as u32).unwrap_or('x'),
                    1 => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
                    _ => (0x20 + s.below(0x5f) as u8) as char,
                })
                .collect()
        }
        2..=4 => {
            c.label("token-soup");
            const T: [&str; 58] = [
                "$", "@", ".", "..", "[", "]", "(", ")", "?", "*", ",", ":", "'", "\"", "\\", "!", "==", "!=", "<", "<=", ">", ">=", "&&", "||", " ", "\n", "\t",
                "0", "-", "-0", "1", "-1", "01", "1.5", ".5", "1.", "1e", "1e3", "1E-3", "9007199254740992", "99999999999999999999", "-99999999999999999999", "1e999",
                "true", "false", "null", "a", "é", "length", "count(", "match(", "nosuch(", "'a'", "\"b\"", "\\u00", "\\ud83d\\ude00", "\u{0}", "=",
            ];
            let n = s.below(30);
            let mut t = String::new();
            if !s.chance(40) {
                t.push_str(s.pick(&["$", "$[", "$[?", "$.", "$..", "$[?(", "$[?count("]));
            }
            for _ in 0..n {
                t.push_str(s.pick(&T));
            }
            t
        }
        5 => {
            c.label("bad-string");
            bad_string(s)
        }
        6 => {
            c.label("ill-typed");
            let t = ill_typed(s);
            mutate(s, &t)
        }
        7 => {
            c.label("deep");
            let t = deepen(s, "$");
            mutate(s, &t)
        }
        _ => {
            c.label("mutant");
            let segs = gen_query(s, qopts_parse());
            let st = Style::random(s);
            let (t, _, _) = print::spelled(s, &segs, &st);
            let t = mutate(s, &t);
            if s.chance(128) {
                mutate(s, &t)
            } else {
                t
            }
        }
    }
}

fn c05(s: &mut Src, c: &mut Ctx) -> Res {
    if s.chance(8) {
        return each_small(s, c, false, check_total);
    }
    let t = any_string(s, c);
    c.desc = t.clone();
    if !recog::accepts(&t, &recog::Opts::default()) {
        c.nontrivial(&t);
    }
    check_total(c, &t)
}

fn check_total(c: &mut Ctx, t: &str) -> Res {
    for p in Sut::ALL {
        c.eval();
        match standard(p, t) {
            Ok(Ok(q)) => {
                if let Err(f) = q.display() {
                    c.fail(f.key.clone(), format!("displaying {t:?}: {}", f.msg))?;
                }
            }
            Ok(Err(_)) => (),
            Err(f) => c.fail(f.key.clone(), format!("{} while parsing {t:?}", f.msg))?,
        }
    }
    c.eval();
    if let Err(f) = sut("hand.tokenize", || hand::lexer::tokenize(t).len()) {
        c.fail(f.key.clone(), format!("{} while tokenizing {t:?}", f.msg))?;
    }
    if let Err(f) = sut("hand.lex", || hand::lexer::lex(t).is_ok()) {
        c.fail(f.key.clone(), format!("{} while lexing {t:?}", f.msg))?;
    }
    // parse_tokens on the raw token sequence, error token included
    if let Err(f) = sut("hand.parse_tokens", || {
        let toks = hand::lexer::tokenize(t);
        hand::Parser::new().parse_tokens(toks).is_ok()
    }) {
        c.fail(f.key.clone(), format!("{} in parse_tokens of {t:?}", f.msg))?;
    }
    Ok(())
}

fn c05_fixed() -> Fixed {
    [
        "$[0 2]", "$[:::]", "$[?count((@.a)]", "$[?count(", "$[?count(@", "$[?@.a==-]", "$[?@.a==1e]", "$['\\", "$['\\u", "$['\\ud83d\\u", "$['\\ud83d", "$[?(", "$[?(((",
        "$[?length(((@.a)", "$[?@.a==1e999]", "$[?@.a==-1e999]", "$[99999999999999999999999]", "$[?@[99999999999999999999999]]", "$[1:99999999999999999999]",
        "$[?@.a==99999999999999999999999999]", "\u{0}", "$\u{0}", "$[\u{0}]", "$[?\u{0}]", "$['\u{0}']", "$[?!]", "$[!]", "$[)]", "$[?)]", "$[?count)]", "$[?a(]", "$[?a(]]",
        "$[?@.a==]", "$[,]", "$[?,]", "$]", "$)", "$(", "$[?(]", "$[?[]", "$[?@[]", "$[?@[?]", "$[?@[?@[?", "é", "$é", "$[é]", "$[?é]", "$[?@é]", "$.é", "$..é", "$[-é]", "$[?-é]",
        "$[1é]", "$[?1é]", "$[?1.é]", "$[?1eé]", "$['é", "$[\"\\é\"]", "$['\\ué']", "$['\\uéééé']", "$['\\ud83d\\ué']", "$['\\u00é']",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| check_total(c, &q))
    })
    .chain(nesting())
    .chain(repeated())
    .collect()
}

/// A token over and over, beyond the range of sixteen bits: the lexer does not recurse, and stays total.
fn repeated() -> Fixed {
    let mut v: Fixed = vec![];
    for lead in ["$", "$[", "$[?", "$[?f(", "$[?@.a[?", "$..", "$['", "$[?f(f("] {
        for unit in ["(", ")", "[", "]", "f(", "[?", "!", "@", "$", ".a", "..", "[0]", "*", ",", "-", "1", ":", " ", "a", "\\n", "()", "(@", "?@", "==", "&&", "||", "\"a\"", "'", "é"] {
            v.push(fixed_case(format!("lexer on {lead}, then {unit:?} 70000 times"), move |c| {
                let t = format!("{lead}{}", unit.repeat(70_000));
                c.eval();
                match sut("lexer", || hand::lexer::tokenize(&t).len()) {
                    Ok(_) => Ok(()),
                    Err(f) => c.fail("lexer|repeated", format!("{} on {lead}, then {unit:?} 70000 times", f.msg)),
                }
            }));
        }
    }
    v
}

/// Nesting, in child processes with 8 MiB stacks: running out of stack is an
/// abort. The deep ones are known findings.
fn nesting() -> Fixed {
    let wrap = |open: &str, mid: &str, close: &str, n: usize| format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    let mut v: Fixed = vec![];
    for p in Sut::ALL {
        for (n, what) in [(200, "200"), (50_000, "50000")] {
            let t = format!("$[?{}]", wrap("(", "@.a", ")", n));
            v.push(fixed_case(format!("{} does not abort on {what} nested parentheses", p.name()), move |c| survives(c, p, &t)));
        }
        for (name, t) in [
            ("filters", format!("${}", wrap("[?@", "", "]", 200))),
            ("open filters", format!("${}", "[?@".repeat(200))),
            ("negations", format!("$[?{}]", wrap("!(", "@.a", ")", 200))),
            ("calls", format!("$[?{}==1]", wrap("length(", "@.a", ")", 200))),
            ("open calls", format!("$[?{}", "count(".repeat(200))),
            ("brackets", format!("${}", wrap("[", "0", "]", 200))),
        ] {
            v.push(fixed_case(format!("{} does not abort on 200 {name}", p.name()), move |c| survives(c, p, &t)));
        }
        // beyond the range of an octet
        for (name, t) in [
            ("parentheses in a call", format!("$[?count({})==1]", wrap("(", "@.a", ")", 300))),
            ("calls", format!("$[?{}==1]", wrap("length(", "@.a", ")", 300))),
            ("parentheses", format!("$[?{}]", wrap("(", "@.a", ")", 300))),
            ("filters", format!("${}", wrap("[?@", "", "]", 300))),
        ] {
            v.push(fixed_case(format!("{} does not abort on 300 {name}", p.name()), move |c| survives(c, p, &t)));
        }
    }
    v
}

fn survives(c: &mut Ctx, p: Sut, t: &str) -> Res {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let file = std::env::temp_dir().join(format!("vh-nest-{}-{n}", std::process::id()));
    std::fs::write(&file, t).expect("scratch file");
    let out = Command::new(std::env::current_exe().expect("exe"))
        .args(["parse-file", p.name(), file.to_str().expect("path"), "8388608"])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output();
    let _ = std::fs::remove_file(&file);
    let out = out.expect("child");
    c.eval();
    let said = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if let Some(sig) = out.status.signal().filter(|s| [4, 6, 7, 8, 11].contains(s)) {
        c.fail(format!("{}|nesting", p.name()), format!("{} aborts (signal {sig}) while parsing {} ... ({} bytes)", p.name(), &t[..20], t.len()))?;
    } else if said.starts_with("failed") {
        c.fail(format!("{}|nesting", p.name()), format!("{}: {said} on {} ... ({} bytes)", p.name(), &t[..20], t.len()))?;
    } else {
        assert!(said == "accepted" || said == "rejected", "child said {said:?}, {:?}", out.status);
    }
    Ok(())
}
