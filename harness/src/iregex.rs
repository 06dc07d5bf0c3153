//! I-Regexp (RFC 9485): independent recogniser and matcher (set-of-states
//! simulation over a small syntax tree), plus a generator-facing AST.
use crate::model::Carets;

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Alt(Vec<Re>),
    Cat(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
    Char(char),
    Dot,
    Class(bool, Vec<Item>),
    Cat_(bool, String),
    Group(Box<Re>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    One(char),
    Range(char, char),
    Prop(bool, String),
}

pub const CATEGORIES: [&str; 37] = [
    "L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc",
    "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Z", "Zl", "Zp", "Zs", "S", "Sc", "Sk", "Sm", "So", "C",
    "Cc", "Cf", "Cn", "Co", "Cs",
];

#[derive(Debug, Clone, PartialEq)]
pub enum Parse {
    Ok(Re),
    /// Not in the RFC 9485 grammar.
    Invalid,
    /// In the grammar, but with no agreed meaning (`{3,2}`, `[z-a]`, `\p{Cs}`).
    Unspecified,
}

struct P {
    c: Vec<char>,
    i: usize,
    unspec: bool,
}

pub fn parse(p: &str) -> Parse {
    let mut s = P { c: p.chars().collect(), i: 0, unspec: false };
    match s.alt() {
        Some(r) if s.i == s.c.len() => {
            if s.unspec {
                Parse::Unspecified
            } else {
                Parse::Ok(r)
            }
        }
        _ => Parse::Invalid,
    }
}

fn is_normal(c: char) -> bool {
    let u = c as u32;
    u <= 0x27
        || c == ','
        || c == '-'
        || (0x2F..=0x3E).contains(&u)
        || (0x40..=0x5A).contains(&u)
        || (0x5E..=0x7A).contains(&u)
        || u >= 0x7E
}

fn is_cc(c: char) -> bool {
    let u = c as u32;
    u <= 0x2C || (0x2E..=0x5A).contains(&u) || u >= 0x5E
}

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.branch()?];
        while self.eat('|') {
            v.push(self.branch()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn branch(&mut self) -> Option<Re> {
        let mut v = Vec::new();
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            v.push(self.quant(a)?);
        }
        Some(Re::Cat(v))
    }
    fn quant(&mut self, a: Re) -> Option<Re> {
        Some(match self.peek() {
            Some('*') => {
                self.i += 1;
                Re::Rep(Box::new(a), 0, None)
            }
            Some('+') => {
                self.i += 1;
                Re::Rep(Box::new(a), 1, None)
            }
            Some('?') => {
                self.i += 1;
                Re::Rep(Box::new(a), 0, Some(1))
            }
            Some('{') => {
                self.i += 1;
                let n = self.int()?;
                let m = if self.eat(',') {
                    if self.peek() == Some('}') {
                        None
                    } else {
                        Some(self.int()?)
                    }
                } else {
                    Some(n)
                };
                if !self.eat('}') {
                    return None;
                }
                if m.is_some_and(|m| m < n) {
                    self.unspec = true;
                }
                Re::Rep(Box::new(a), n, m)
            }
            _ => a,
        })
    }
    fn int(&mut self) -> Option<u32> {
        let s = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        if s == self.i {
            return None;
        }
        let t: String = self.c[s..self.i].iter().collect();
        match t.parse::<u32>() {
            Ok(n) => Some(n),
            Err(_) => {
                self.unspec = true;
                Some(0)
            }
        }
    }
    fn escape(&mut self) -> Option<char> {
        // after the backslash
        let c = self.peek()?;
        let u = c as u32;
        self.i += 1;
        Some(match c {
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            '-' | '.' | '?' => c,
            _ if (0x28..=0x2B).contains(&u)
                || (0x5B..=0x5E).contains(&u)
                || (0x7B..=0x7D).contains(&u) =>
            {
                c
            }
            _ => return None,
        })
    }
    fn prop(&mut self) -> Option<(bool, String)> {
        // after the backslash, at p or P
        let neg = match self.peek()? {
            'p' => false,
            'P' => true,
            _ => return None,
        };
        self.i += 1;
        if !self.eat('{') {
            return None;
        }
        let s = self.i;
        while self.peek().is_some_and(|c| c != '}') {
            self.i += 1;
        }
        let name: String = self.c[s..self.i].iter().collect();
        if !self.eat('}') {
            return None;
        }
        if name == "Cs" || !CATEGORIES.contains(&name.as_str()) {
            return None;
        }
        Some((neg, name))
    }
    fn atom(&mut self) -> Option<Re> {
        let c = self.peek()?;
        match c {
            '(' => {
                self.i += 1;
                let r = self.alt()?;
                if !self.eat(')') {
                    return None;
                }
                Some(Re::Group(Box::new(r)))
            }
            '.' => {
                self.i += 1;
                Some(Re::Dot)
            }
            '\\' => {
                self.i += 1;
                if matches!(self.peek(), Some('p') | Some('P')) {
                    let (n, s) = self.prop()?;
                    Some(Re::Cat_(n, s))
                } else {
                    match self.escape()? {
                        // escaped, it is never an anchor
                        '^' => Some(Re::Class(false, vec![Item::One('^')])),
                        c => Some(Re::Char(c)),
                    }
                }
            }
            '[' => self.class(),
            c if is_normal(c) => {
                self.i += 1;
                Some(Re::Char(c))
            }
            _ => None,
        }
    }
    fn cc(&mut self) -> Option<char> {
        let c = self.peek()?;
        if c == '\\' {
            self.i += 1;
            return self.escape();
        }
        if is_cc(c) {
            self.i += 1;
            Some(c)
        } else {
            None
        }
    }
    fn class(&mut self) -> Option<Re> {
        self.i += 1; // [
        let neg = self.eat('^');
        if neg && self.peek() == Some(']') {
            // `[^]`: the grammar allows reading `^` as a class character
            self.unspec = true;
            self.i += 1;
            return Some(Re::Class(false, vec![Item::One('^')]));
        }
        let mut items = Vec::new();
        if self.eat('-') {
            items.push(Item::One('-'));
        }
        loop {
            let c = self.peek()?;
            if c == ']' {
                break;
            }
            if c == '-' {
                // only as the last character
                if self.c.get(self.i + 1) == Some(&']') {
                    self.i += 1;
                    items.push(Item::One('-'));
                    break;
                }
                return None;
            }
            if c == '\\' && matches!(self.c.get(self.i + 1), Some('p') | Some('P')) {
                self.i += 1;
                let (n, s) = self.prop()?;
                items.push(Item::Prop(n, s));
                continue;
            }
            let a = self.cc()?;
            if self.peek() == Some('-') && self.c.get(self.i + 1).is_some_and(|c| *c != ']') {
                self.i += 1;
                let b = self.cc()?;
                if b < a {
                    self.unspec = true;
                }
                items.push(Item::Range(a, b));
            } else {
                items.push(Item::One(a));
            }
        }
        if items.is_empty() || !self.eat(']') {
            return None;
        }
        Some(Re::Class(neg, items))
    }
}

/// General category of the characters the generators use. `None`: unknown.
pub fn category(c: char) -> Option<&'static str> {
    Some(match c {
        'a'..='z' | 'é' | 'ß' | 'λ' => "Ll",
        'A'..='Z' | 'É' | 'Σ' => "Lu",
        '0'..='9' | '٣' => "Nd",
        'ǅ' => "Lt",
        'ʰ' => "Lm",
        '日' | '本' | 'א' => "Lo",
        'Ⅷ' => "Nl",
        '½' | '²' => "No",
        '_' => "Pc",
        '-' => "Pd",
        '(' | '[' | '{' => "Ps",
        ')' | ']' | '}' => "Pe",
        '«' => "Pi",
        '»' => "Pf",
        '!' | '"' | '#' | '%' | '&' | '\'' | '*' | ',' | '.' | '/' | ':' | ';' | '?' | '@'
        | '\\' => "Po",
        '$' | '€' => "Sc",
        '+' | '<' | '=' | '>' | '|' | '~' => "Sm",
        '^' | '`' => "Sk",
        '☺' | '😀' => "So",
        ' ' | '\u{a0}' => "Zs",
        '\u{2028}' => "Zl",
        '\u{2029}' => "Zp",
        '\0'..='\u{1f}' | '\u{7f}'..='\u{9f}' => "Cc",
        '\u{ad}' | '\u{200b}' => "Cf",
        '\u{301}' => "Mn",
        '\u{e000}' => "Co",
        _ => return None,
    })
}

struct M<'a> {
    s: &'a [char],
    carets: Carets,
    unknown: bool,
    fuel: u64,
}

fn in_prop(c: char, name: &str) -> Option<bool> {
    let cat = category(c)?;
    Some(cat == name || (name.len() == 1 && cat.starts_with(name)))
}

impl M<'_> {
    /// All end positions reachable from `starts` (both sorted sets).
    fn run(&mut self, r: &Re, starts: &[usize]) -> Vec<usize> {
        if self.fuel == 0 {
            self.unknown = true;
            return vec![];
        }
        self.fuel -= 1;
        match r {
            Re::Alt(v) => {
                let mut out = Vec::new();
                for x in v {
                    out.extend(self.run(x, starts));
                }
                norm(out)
            }
            Re::Cat(v) => {
                let mut cur = starts.to_vec();
                for x in v {
                    if cur.is_empty() {
                        break;
                    }
                    cur = self.run(x, &cur);
                }
                cur
            }
            Re::Group(x) => self.run(x, starts),
            Re::Rep(x, n, m) => {
                let mut cur = starts.to_vec();
                for _ in 0..*n {
                    if cur.is_empty() {
                        return cur;
                    }
                    cur = self.run(x, &cur);
                }
                let mut all = cur.clone();
                let mut left = m.map(|m| m.saturating_sub(*n));
                while left != Some(0) {
                    let next: Vec<usize> =
                        self.run(x, &cur).into_iter().filter(|p| !all.contains(p)).collect();
                    if next.is_empty() {
                        break;
                    }
                    all.extend(next.iter());
                    cur = next;
                    if let Some(l) = left.as_mut() {
                        *l -= 1;
                    }
                }
                norm(all)
            }
            Re::Char(c) if self.carets == Carets::Anchor && *c == '^' => {
                starts.iter().copied().filter(|p| *p == 0).collect()
            }
            Re::Char(c) if self.carets == Carets::Anchor && *c == '$' => {
                let l = self.s.len();
                starts.iter().copied().filter(|p| *p == l).collect()
            }
            _ => {
                let mut out = Vec::new();
                for p in starts {
                    if let Some(c) = self.s.get(*p) {
                        if self.one(r, *c) {
                            out.push(p + 1);
                        }
                    }
                }
                out
            }
        }
    }
    fn one(&mut self, r: &Re, c: char) -> bool {
        match r {
            Re::Char(x) => *x == c,
            Re::Dot => c != '\n' && c != '\r',
            Re::Cat_(neg, n) => match in_prop(c, n) {
                Some(b) => b != *neg,
                None => {
                    self.unknown = true;
                    false
                }
            },
            Re::Class(neg, items) => {
                let mut b = false;
                for i in items {
                    b |= match i {
                        Item::One(x) => *x == c,
                        Item::Range(x, y) => *x <= c && c <= *y,
                        Item::Prop(n, name) => match in_prop(c, name) {
                            Some(b) => b != *n,
                            None => {
                                self.unknown = true;
                                false
                            }
                        },
                    };
                }
                b != *neg
            }
            _ => unreachable!(),
        }
    }
}

fn norm(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v.dedup();
    v
}

pub fn matches(re: &Re, s: &str, whole: bool, carets: Carets) -> Option<bool> {
    let cs: Vec<char> = s.chars().collect();
    let mut m = M { s: &cs, carets, unknown: false, fuel: 400_000 };
    let starts: Vec<usize> = if whole { vec![0] } else { (0..=cs.len()).collect() };
    let ends = m.run(re, &starts);
    let r = if whole { ends.contains(&cs.len()) } else { !ends.is_empty() };
    if m.unknown {
        None
    } else {
        Some(r)
    }
}

/// `None` when the model has no opinion.
pub fn decide(pattern: &str, s: &str, whole: bool, carets: Carets) -> Option<bool> {
    match parse(pattern) {
        Parse::Invalid => Some(false),
        Parse::Unspecified => None,
        Parse::Ok(re) => matches(&re, s, whole, carets),
    }
}

/// True if `^` or `$` occurs as an atom (so its reading matters).
pub fn has_carets(re: &Re) -> bool {
    match re {
        Re::Char('^') | Re::Char('$') => true,
        Re::Alt(v) | Re::Cat(v) => v.iter().any(has_carets),
        Re::Rep(x, _, _) | Re::Group(x) => has_carets(x),
        _ => false,
    }
}
/// True if a multi-digit quantifier occurs (rejected by the iregexp crate).
pub fn wide_quantifier(pattern: &str) -> bool {
    let c: Vec<char> = pattern.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' {
            i += 2;
            continue;
        }
        if c[i] == '{' {
            let mut run = 0;
            let mut j = i + 1;
            while j < c.len() && c[j] != '}' {
                if c[j].is_ascii_digit() {
                    run += 1;
                    if run > 1 {
                        return true;
                    }
                } else {
                    run = 0;
                }
                j += 1;
            }
        }
        i += 1;
    }
    false
}
