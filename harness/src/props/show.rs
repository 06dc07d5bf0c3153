//! What errors, tokens and signatures show of themselves (C31).
use super::common::*;
use super::misc::faulty;
use super::parse::{any_string, clip, gen_query, qopts_parse};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "distinct rejected texts whose error names what it found, and distinct errors made by hand with a message of three characters or more",
        case: c31,
        fixed: c31_fixed,
        quick_cases: 240_000,
        thorough_cases: 8_000_000,
        assumptions: &["which words surround a kind, message, span or token is free; messages of an unknown form are taken to claim nothing"],
    }]
}

/// `text` shows `msg` in full, in other words between which `kind` and both ends of `span` come where they are due.
fn shows(text: &str, kind: Option<&str>, msg: &str, span: Option<(usize, usize)>) -> Result<(), String> {
    let ok = text.match_indices(msg).any(|(i, _)| {
        let (before, after) = (&text[..i], &text[i + msg.len()..]);
        let k = kind.is_none_or(|k| before.contains(k) || after.contains(k));
        let s = span.is_none_or(|(a, b)| {
            let nums = |t: &str| -> Vec<usize> { t.split(|c: char| !c.is_ascii_digit()).filter(|t| !t.is_empty()).filter_map(|t| t.parse().ok()).collect() };
            let want = vec![a, b];
            nums(before) == want || nums(after) == want
        });
        k && s
    });
    if ok {
        return Ok(());
    }
    Err(format!(
        "does not show {}the message {msg:?}{} but {text:?}",
        kind.map(|k| format!("{k:?} and ")).unwrap_or_default(),
        span.map(|(a, b)| format!(" and {a} and {b}")).unwrap_or_default()
    ))
}

macro_rules! kind_word {
    ($m:ident, $k:expr) => {
        match $k {
            $m::errors::JSONPathErrorType::LexerError => "lexer",
            $m::errors::JSONPathErrorType::SyntaxError => "syntax",
            $m::errors::JSONPathErrorType::TypeError => "type",
            $m::errors::JSONPathErrorType::NameError => "name",
        }
    };
}

/// The text an error's message says it met, if it says so in a form we know.
fn claimed(msg: &str) -> Option<(&str, char)> {
    const LEADS: [&str; 11] = [
        "found ",
        "unexpected selector token ",
        "unexpected infix operator ",
        "unexpected function argument token ",
        "unexpected descendant selection token ",
        "unexpected shorthand selector ",
        "unexpected filter expression token ",
        "invalid index ",
        "index out of range ",
        "unknown function ",
        "unknown keyword ",
    ];
    let (i, l) = LEADS.iter().filter_map(|l| msg.find(l).map(|i| (i, l))).min()?;
    let rest = &msg[i + l.len()..];
    for q in ['`', '\''] {
        if rest.len() >= 2 && rest.starts_with(q) && rest.ends_with(q) {
            return Some((&rest[1..rest.len() - 1], q));
        }
    }
    Some((rest, ' '))
}

/// Whether the error of the hand-written parser names what really stands at its span.
fn check_claim(c: &mut Ctx, text: &str, msg: &str, span: (usize, usize)) -> Res {
    if msg.contains("unclosed bracketed selection") && text.get(span.1..).is_some_and(|t| !t.trim_end_matches([' ', '\t', '\n', '\r']).is_empty()) {
        return c.fail("unclosed", format!("the error for {text:?} says {msg:?} at {span:?}, but that is not its end"));
    }
    if let Some((_, n)) = msg.split_once("unclosed string starting at index ") {
        c.label("unclosed-string");
        let quote = |i: Option<usize>| i.and_then(|i| text.as_bytes().get(i)).is_some_and(|b| matches!(b, b'\'' | b'"'));
        if let Ok(n) = n.parse::<usize>() {
            // of the quote or of what follows it
            if !quote(Some(n)) && !quote(n.checked_sub(1)) {
                return c.fail("unclosed", format!("the error for {text:?} says {msg:?}, but no string starts there"));
            }
        }
    }
    let Some((got, _)) = claimed(msg) else { return Ok(()) };
    let (a, b) = span;
    if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
        return Ok(()); // C21's to report
    }
    let here = &text[a..b];
    c.nontrivial(&text.to_string());
    c.label("names-a-token");
    if got == "\0" && b == text.len() {
        return Ok(());
    }
    let at_end = a >= text.trim_end_matches([' ', '\t', '\n', '\r']).len();
    if at_end && (got.contains("end") || got == "\0" || got.is_empty()) {
        return Ok(());
    }
    // a lexer error's span starts with what was read before the character it names
    if got == here || !here.is_empty() && here.ends_with(got) && got.chars().count() == 1 {
        return Ok(());
    }
    c.fail("claim", format!("the error for {text:?} says {msg:?}, at {a}..{b} stands {here:?}"))
}

/// Whether what an error of a parser without spans names, in backquotes, stands in the text, and is all of what stands there.
fn check_occurs(c: &mut Ctx, who: &str, text: &str, msg: &str) -> Res {
    let Some((got, '`')) = claimed(msg) else { return Ok(()) };
    let word = |ch: char| ch.is_ascii_alphanumeric() || ch == '_' || ch == '-';
    let bounded = |i: usize| {
        let (before, after) = (&text[..i], &text[i + got.len()..]);
        !before.ends_with(word) && !after.starts_with(word)
    };
    c.nontrivial(&text.to_string());
    c.label("names-in-backquotes");
    if got.is_empty() || !got.chars().all(word) || text.match_indices(got).any(|(i, _)| bounded(i)) {
        return Ok(());
    }
    c.fail(format!("named:{who}"), format!("{who}: the error for {text:?} says {msg:?}, which does not stand there"))
}

macro_rules! check_error {
    ($c:expr, $m:ident, $name:literal, $text:expr, $span:expr) => {{
        let text: &str = $text;
        $c.eval();
        match sut($name, || $m::Query::standard(text)) {
            Ok(Ok(_)) => false,
            Err(_) => false, // C05's to report
            Ok(Err(e)) => {
                let shown = match sut(concat!($name, " error display"), || e.to_string()) {
                    Ok(t) => t,
                    Err(f) => {
                        $c.fail(f.key.clone(), format!("{} for {text:?}", f.msg))?;
                        String::new()
                    }
                };
                let k = kind_word!($m, e.kind);
                let span: Option<(usize, usize)> = $span(&e);
                if let Err(m) = shows(&shown, span.map(|_| k), &e.msg, span) {
                    $c.fail(concat!("show:", $name), format!("{}: the error for {text:?} {m}", $name))?;
                }
                if !e.kind.to_string().contains(k) {
                    $c.fail(concat!("kind:", $name), format!("{}: the kind {:?} is shown as {:?}", $name, e.kind, e.kind.to_string()))?;
                }
                if !format!("{e:?}").contains(&format!("{:?}", e.msg)) {
                    $c.fail(concat!("debug:", $name), format!("{}: {e:?} lacks the message", $name))?;
                }
                let b: Box<dyn std::error::Error> = Box::new(e);
                if b.to_string() != shown {
                    $c.fail(concat!("boxed:", $name), format!("{}: the error for {text:?} reads {shown:?}, boxed {:?}", $name, b.to_string()))?;
                }
                true
            }
        }
    }};
}

fn check_text(c: &mut Ctx, text: &str) -> Res {
    let mut bad = check_error!(c, hand, "hand", text, |e: &hand::JSONPathError| Some(e.span));
    if let Ok(Err(e)) = sut("hand", || hand::Query::standard(text)) {
        check_claim(c, text, &e.msg, e.span)?;
    }
    macro_rules! occurs {
        ($m:ident, $name:literal) => {
            if let Ok(Err(e)) = sut($name, || $m::Query::standard(text)) {
                check_occurs(c, $name, text, &e.msg)?;
            }
        };
    }
    occurs!(pestq, "pest");
    occurs!(pestrec, "pest_recursive");
    occurs!(serdeq, "serde");
    occurs!(iterq, "iter");
    occurs!(locq, "locations");
    occurs!(singq, "singular");
    bad |= check_error!(c, pestq, "pest", text, |_: &_| None);
    bad |= check_error!(c, pestrec, "pest_recursive", text, |_: &_| None);
    bad |= check_error!(c, serdeq, "serde", text, |_: &_| None);
    bad |= check_error!(c, iterq, "iter", text, |_: &_| None);
    bad |= check_error!(c, locq, "locations", text, |_: &_| None);
    bad |= check_error!(c, singq, "singular", text, |_: &_| None);
    c.label(if bad { "rejected" } else { "accepted" });
    check_tokens(c, text)
}

/// Each token's text is that of its place in the query.
fn check_tokens(c: &mut Ctx, text: &str) -> Res {
    c.eval();
    let Ok(toks) = sut("hand.tokenize", || hand::lexer::tokenize(text)) else { return Ok(()) };
    for t in &toks {
        let shown = match sut("token display", || t.kind.to_string()) {
            Ok(t) => t,
            Err(f) => return c.fail(f.key.clone(), format!("{} for {:?}", f.msg, t.kind)),
        };
        use hand::token::TokenType as T;
        match &t.kind {
            T::Eoq => {
                if !shown.contains("end") {
                    c.fail("token:end", format!("the end of the query is shown as {shown:?}"))?;
                }
            }
            T::Error { msg } => {
                if !shown.contains(&**msg) {
                    c.fail("token:error", format!("the error token {msg:?} is shown as {shown:?}"))?;
                }
            }
            _ => {
                let Some(here) = text.get(t.span.0..t.span.1) else { continue };
                let inner = shown.strip_prefix('`').and_then(|s| s.strip_suffix('`')).unwrap_or(&shown);
                if inner != here {
                    c.fail(format!("token:{}", format!("{:?}", t.kind).split(' ').next().unwrap()), format!("the token {here:?} ({:?}) of {text:?} is shown as {shown:?}", t.kind))?;
                }
            }
        }
    }
    Ok(())
}

fn any_message(s: &mut Src) -> String {
    let n = if s.chance(10) { s.below(3000) } else { s.below(20) };
    (0..n).map(|_| *s.pick(&['a', 'b', ' ', ':', '(', ')', '.', '\'', '"', '`', '{', '}', '%', '\\', '\n', 'é', '☺', '\u{0}', '$', 'Z'])).collect()
}

fn check_made(c: &mut Ctx, s: &mut Src) -> Res {
    let msg = any_message(s);
    let edge = [0, 1, 2, 9, 10, 255, 256, 65535, 65536, usize::MAX];
    let span = if s.chance(128) { (*s.pick(&edge), *s.pick(&edge)) } else { (s.below(500), s.below(5000)) };
    let which = s.below(7);
    c.desc = format!("an error made with {msg:?}, {span:?} ({which})");
    c.label("made");
    if msg.chars().count() >= 3 {
        c.nontrivial(&format!("{msg} {span:?} {which}"));
    }
    macro_rules! one {
        ($m:ident, $name:literal, $e:expr, $kind:literal, $span:expr) => {{
            c.eval();
            let e: $m::errors::JSONPathError = $e;
            if kind_word!($m, e.kind) != $kind {
                c.fail(concat!("made-kind:", $name), format!("{}: a {} error made by hand has kind {:?}", $name, $kind, e.kind))?;
            }
            if e.msg != msg {
                c.fail(concat!("made-msg:", $name), format!("{}: an error made with {msg:?} holds {:?}", $name, e.msg))?;
            }
            if let Err(m) = shows(&e.to_string(), $span.map(|_: (usize, usize)| $kind), &msg, $span) {
                c.fail(concat!("made-show:", $name), format!("{}: {m}", $name))?;
            }
        }};
    }
    macro_rules! all {
        ($m:ident, $name:literal) => {{
            use $m::errors::{JSONPathError as E, JSONPathErrorType as K};
            one!($m, $name, E::syntax(msg.clone()), "syntax", None);
            one!($m, $name, E::typ(msg.clone()), "type", None);
            one!($m, $name, E::name(msg.clone()), "name", None);
            one!($m, $name, E::new(K::LexerError, msg.clone()), "lexer", None);
            one!($m, $name, E::new(K::SyntaxError, msg.clone()), "syntax", None);
            one!($m, $name, E::new(K::TypeError, msg.clone()), "type", None);
            one!($m, $name, E::new(K::NameError, msg.clone()), "name", None);
        }};
    }
    match which {
        0 => {
            use hand::errors::{JSONPathError as E, JSONPathErrorType as K};
            one!(hand, "hand", E::syntax(msg.clone(), span), "syntax", Some(span));
            one!(hand, "hand", E::typ(msg.clone(), span), "type", Some(span));
            one!(hand, "hand", E::name(msg.clone(), span), "name", Some(span));
            one!(hand, "hand", E::new(K::LexerError, msg.clone(), span), "lexer", Some(span));
            one!(hand, "hand", E::new(K::SyntaxError, msg.clone(), span), "syntax", Some(span));
            one!(hand, "hand", E::new(K::TypeError, msg.clone(), span), "type", Some(span));
            one!(hand, "hand", E::new(K::NameError, msg.clone(), span), "name", Some(span));
        }
        1 => all!(pestq, "pest"),
        2 => all!(pestrec, "pest_recursive"),
        3 => all!(serdeq, "serde"),
        4 => all!(iterq, "iter"),
        5 => all!(locq, "locations"),
        _ => all!(singq, "singular"),
    }
    Ok(())
}

/// The lazy evaluator's function register shows each function's signature.
struct Shown(Vec<u8>, u8);
fn ty(k: u8) -> iterq::function::ExpressionType {
    use iterq::function::ExpressionType as T;
    [T::Value, T::Logical, T::Nodes].into_iter().nth(k as usize).unwrap()
}
impl iterq::function::FunctionExtension for Shown {
    fn call<'a>(&self, _: Vec<iterq::filter::FilterExpressionResult<'a>>) -> iterq::filter::FilterExpressionResult<'a> {
        iterq::filter::FilterExpressionResult::Nothing
    }
    fn sig(&self) -> iterq::function::FunctionSignature {
        iterq::function::FunctionSignature { param_types: self.0.iter().map(|k| ty(*k)).collect(), return_type: ty(self.1) }
    }
}

fn check_signature(c: &mut Ctx, s: &mut Src) -> Res {
    let n = s.below(5);
    let f = Shown((0..n).map(|_| s.below(3) as u8).collect(), s.below(3) as u8);
    c.desc = format!("a function of {:?} returning {}", f.0, f.1);
    c.label("signature");
    c.eval();
    let want: Vec<String> = f.0.iter().chain([&f.1]).map(|k| format!("{:?}", ty(*k))).collect();
    let f: Box<dyn iterq::function::FunctionExtension + Sync> = Box::new(f);
    let shown = sut("iter function debug", || format!("{f:?}"))?;
    let got: Vec<&str> = shown.split(|c: char| !c.is_alphanumeric()).filter(|t| ["Value", "Logical", "Nodes"].contains(t)).collect();
    if got != want {
        c.fail("signature", format!("the signature {want:?} is shown as {shown:?}"))?;
    }
    Ok(())
}

fn c31(s: &mut Src, c: &mut Ctx) -> Res {
    let text = match s.below(16) {
        0 => return check_made(c, s),
        1 if s.chance(60) => return check_signature(c, s),
        1..=7 => faulty(s),
        8..=9 => {
            let segs = gen_query(s, qopts_parse());
            let st = Style::random(s);
            print::spelled(s, &segs, &st).0
        }
        _ => any_string(s, c),
    };
    c.desc = clip(&text);
    check_text(c, &text)
}

fn c31_fixed() -> Fixed {
    [
        "", "a", "é", "$ ", "$é", "$.", "$.é", "$..é", "$[", "$[1:2:3:4]", "$[:::]", "$['a':1]", "$[1,,2]", "$[,1]", "$['a' 'b']", "$[1 2]", "$[* *]", "$[?]", "$[?:]", "$[?,]", "$[?@.a<=]", "$[?<=1]",
        "$[?@.a||]", "$[?||@.a]", "$[?@.a&&]", "$[?&&@.a]", "$[?@.a==]", "$[?==1]", "$[?>=1]", "$[?>1]", "$[?<1]", "$[?!=1]", "$[?@.a<=<=1]", "$[?@.a||||@.b]", "$[?count(@.a @.b)==1]", "$[?count(@.a:)==1]",
        "$[?count(||)==1]", "$[?count(<=)==1]", "$[?(@.a @.b)]", "$[?(@.a 1)]", "$[?(@.a 1.5)]", "$[?(@.a 'b')]", "$[?(@.a ?)]", "$[?@.a 1]", "$[?@.a 1.5]", "$[?@.a 'x']", "$[?@.a 'x\\n']", "$[?@.a \"x\"]",
        "$[?@.a true]", "$[?@.a false]", "$[?@.a null]", "$[?@.a @.b]", "$[?@.a $.b]", "$[?@.a !@.b]", "$[?@.a (@.b)]", "$[?@.a count(@.b)]", "$[?@.a *]", "$[01]", "$[-0]", "$[-01]", "$[99999999999999999999]",
        "$[9007199254740992]", "$[?nosuch(@)]", "$[?true_x]", "$[?é]", "$[é]", "$[-é]", "$[?-é]", "$[?1é]", "$[?@.a=1]", "$[?@.a&@.b]", "$[?@.a|@.b]", "$[?@.a)]", "$]", "$*", "$?", "$a", "a$", "$$", "$[$]", "$[@]",
    ]
    .iter()
    .map(|q| {
        let q = q.to_string();
        fixed_case(q.clone(), move |c| check_text(c, &q))
    })
    .collect()
}
