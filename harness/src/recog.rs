//! Independent strict recogniser for RFC 9535 (and, with `ext`, for the
//! singular-selector dialect). Written from the RFC's ABNF.
use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Syntax,
    /// integer outside the configured range (a syntax error by kind)
    Range,
    Type,
    Name,
    /// ill-formed use that some parsers see as grammar and others as typing
    /// (non-singular query compared)
    SyntaxOrType,
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: Kind,
    pub pos: usize,
    pub what: String,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub segs: Vec<Seg>,
    pub faults: Vec<Fault>,
    /// the integer literals seen where an index may stand, with out-of-range
    pub ints: usize,
    /// whitespace inside the brackets of a compared query was the fault
    pub ws_in_singular: bool,
}

#[derive(Clone)]
pub struct Opts {
    pub sigs: Vec<Sig>,
    pub lo: i64,
    pub hi: i64,
    pub ext: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { sigs: std_sigs(), lo: -9007199254740991, hi: 9007199254740991, ext: false }
    }
}

struct R<'a> {
    c: Vec<char>,
    b: Vec<usize>,
    i: usize,
    o: &'a Opts,
    faults: Vec<Fault>,
    ints: usize,
    ws_in_brackets: bool,
    ws_in_singular: bool,
    depth: usize,
}

type P<T> = Result<T, Fault>;

/// `Err` is a grammar fault; `Ok` may still carry typing faults.
pub fn parse(q: &str, o: &Opts) -> Result<Parsed, Fault> {
    parse_noting(q, o).0
}

/// Also returns the typing faults noted before a grammar fault was met.
pub fn parse_noting(q: &str, o: &Opts) -> (Result<Parsed, Fault>, Vec<Fault>) {
    let mut r = R {
        c: q.chars().collect(),
        b: q.char_indices().map(|(i, _)| i).chain([q.len()]).collect(),
        i: 0,
        o,
        faults: vec![],
        ints: 0,
        ws_in_brackets: false,
        ws_in_singular: false,
        depth: 0,
    };
    match r.top() {
        Ok(segs) => (Ok(Parsed { segs, faults: r.faults, ints: r.ints, ws_in_singular: r.ws_in_singular }), vec![]),
        Err(f) => (Err(f), r.faults),
    }
}

pub fn accepts(q: &str, o: &Opts) -> bool {
    matches!(parse(q, o), Ok(p) if p.faults.is_empty())
}

pub fn ast(q: &str, o: &Opts) -> Option<Vec<Seg>> {
    match parse(q, o) {
        Ok(p) if p.faults.is_empty() => Some(p.segs),
        _ => None,
    }
}

fn is_first(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0x80
}

impl R<'_> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.c.get(self.i + k).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn fault(&self, what: &str) -> Fault {
        Fault { kind: Kind::Syntax, pos: self.b[self.i.min(self.b.len() - 1)], what: what.into() }
    }
    fn note(&mut self, kind: Kind, at: usize, what: String) {
        let pos = self.b[at];
        self.faults.push(Fault { kind, pos, what });
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > s
    }

    fn top(&mut self) -> P<Vec<Seg>> {
        let mut segs = vec![];
        if self.eat('$') {
        } else if self.o.ext {
            match self.peek() {
                Some('[') => {
                    let sels = self.bracketed()?;
                    segs.push(Seg { desc: false, sels });
                }
                Some(c) if is_first(c) => {
                    let n = self.shorthand()?;
                    segs.push(Seg { desc: false, sels: vec![Sel::Name(n)] });
                }
                _ => return Err(self.fault("expected a query")),
            }
        } else {
            return Err(self.fault("expected $"));
        }
        segs.extend(self.segments()?);
        if self.i != self.c.len() {
            return Err(self.fault("trailing input"));
        }
        Ok(segs)
    }

    fn segments(&mut self) -> P<Vec<Seg>> {
        let mut v = vec![];
        loop {
            let save = self.i;
            self.ws();
            match self.peek() {
                Some('[') => {
                    let sels = self.bracketed()?;
                    v.push(Seg { desc: false, sels });
                }
                Some('.') => {
                    self.i += 1;
                    let desc = self.eat('.');
                    let sels = match self.peek() {
                        Some('*') => {
                            self.i += 1;
                            vec![Sel::Wild]
                        }
                        Some('[') if desc => self.bracketed()?,
                        Some(c) if is_first(c) => vec![Sel::Name(self.shorthand()?)],
                        _ => return Err(self.fault("bad segment after dot")),
                    };
                    v.push(Seg { desc, sels });
                }
                _ => {
                    self.i = save;
                    return Ok(v);
                }
            }
        }
    }

    fn shorthand(&mut self) -> P<String> {
        let s = self.i;
        if !self.peek().is_some_and(is_first) {
            return Err(self.fault("expected a name"));
        }
        while self.peek().is_some_and(|c| is_first(c) || c.is_ascii_digit()) {
            self.i += 1;
        }
        Ok(self.c[s..self.i].iter().collect())
    }

    fn bracketed(&mut self) -> P<Vec<Sel>> {
        self.i += 1;
        let mut v = vec![];
        loop {
            if self.ws() {
                self.ws_in_brackets = true;
            }
            v.push(self.selector()?);
            let w = self.ws();
            if w {
                self.ws_in_brackets = true;
            }
            if self.eat(',') {
                continue;
            }
            if self.eat(']') {
                return Ok(v);
            }
            return Err(self.fault("expected , or ]"));
        }
    }

    fn selector(&mut self) -> P<Sel> {
        match self.peek() {
            Some('\'' | '"') => Ok(Sel::Name(self.string()?)),
            Some('*') => {
                self.i += 1;
                Ok(Sel::Wild)
            }
            Some('?') => {
                self.i += 1;
                self.ws();
                let w = self.ws_in_brackets;
                let e = self.or_expr()?;
                self.ws_in_brackets = w;
                Ok(Sel::Filter(e))
            }
            Some(c) if c == ':' || c == '-' || c.is_ascii_digit() => self.index_or_slice(),
            Some('$') if self.o.ext => {
                self.i += 1;
                let q = self.singular_segs(vec![])?;
                Ok(Sel::Singular(q))
            }
            Some('[') if self.o.ext => {
                let f = self.singular_bracket()?;
                let q = self.singular_segs(vec![f])?;
                Ok(Sel::Singular(q))
            }
            Some(c) if self.o.ext && is_first(c) => {
                let n = self.shorthand()?;
                let q = self.singular_segs(vec![Seg { desc: false, sels: vec![Sel::Name(n)] }])?;
                Ok(Sel::Singular(q))
            }
            _ => Err(self.fault("expected a selector")),
        }
    }

    fn singular_bracket(&mut self) -> P<Seg> {
        self.i += 1;
        let sel = match self.peek() {
            Some('\'' | '"') => Sel::Name(self.string()?),
            _ => Sel::Index(self.int()?),
        };
        if !self.eat(']') {
            return Err(self.fault("expected ]"));
        }
        Ok(Seg { desc: false, sels: vec![sel] })
    }

    fn singular_segs(&mut self, mut v: Vec<Seg>) -> P<Vec<Seg>> {
        loop {
            let save = self.i;
            self.ws();
            match self.peek() {
                Some('[') => v.push(self.singular_bracket()?),
                Some('.') => {
                    self.i += 1;
                    let n = self.shorthand()?;
                    v.push(Seg { desc: false, sels: vec![Sel::Name(n)] });
                }
                _ => {
                    self.i = save;
                    return Ok(v);
                }
            }
        }
    }

    fn index_or_slice(&mut self) -> P<Sel> {
        let start = if self.peek() == Some(':') { None } else { Some(self.int()?) };
        let save = self.i;
        self.ws();
        if !self.eat(':') {
            self.i = save;
            return start.map(Sel::Index).ok_or_else(|| self.fault("expected :"));
        }
        // after ':' : S [end S] [":" [S step]]
        self.ws();
        let mut end = None;
        if matches!(self.peek(), Some(c) if c == '-' || c.is_ascii_digit()) {
            end = Some(self.int()?);
        }
        let mut step = None;
        let save = self.i;
        self.ws();
        if self.eat(':') {
            let save = self.i;
            self.ws();
            if matches!(self.peek(), Some(c) if c == '-' || c.is_ascii_digit()) {
                step = Some(self.int()?);
            } else {
                self.i = save;
            }
        } else {
            self.i = save;
        }
        Ok(Sel::Slice(start, end, step))
    }

    fn int_text(&mut self) -> P<String> {
        let s = self.i;
        if self.peek() == Some('0') {
            self.i += 1;
        } else {
            self.eat('-');
            match self.peek() {
                Some('1'..='9') => {
                    while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                        self.i += 1;
                    }
                }
                _ => return Err(self.fault("expected an integer")),
            }
        }
        if self.peek().is_some_and(|c| c.is_ascii_digit()) {
            return Err(self.fault("leading zero"));
        }
        Ok(self.c[s..self.i].iter().collect())
    }

    fn int(&mut self) -> P<i64> {
        let s = self.i;
        let t = self.int_text()?;
        self.ints += 1;
        match t.parse::<i64>() {
            Ok(v) if v >= self.o.lo && v <= self.o.hi => Ok(v),
            r => {
                self.note(Kind::Range, s, format!("integer {t} out of range"));
                Ok(r.unwrap_or(0))
            }
        }
    }

    fn number(&mut self) -> P<Num> {
        let s = self.i;
        if self.peek() == Some('-') && self.at(1) == Some('0') {
            self.i += 2;
            if self.peek().is_some_and(|c| c.is_ascii_digit()) {
                return Err(self.fault("leading zero"));
            }
        } else {
            self.int_text()?;
        }
        if self.peek() == Some('.') {
            self.i += 1;
            if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
                return Err(self.fault("expected a digit"));
            }
            while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                self.i += 1;
            }
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            if !self.peek().is_some_and(|c| c.is_ascii_digit()) {
                return Err(self.fault("expected a digit"));
            }
            while self.peek().is_some_and(|c| c.is_ascii_digit()) {
                self.i += 1;
            }
        }
        Ok(Num::new(self.c[s..self.i].iter().collect::<String>()))
    }

    fn hex4(&mut self) -> P<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| if c.is_ascii() { c.to_digit(16) } else { None });
            match d {
                Some(d) => v = v * 16 + d,
                None => return Err(self.fault("expected a hex digit")),
            }
            self.i += 1;
        }
        Ok(v)
    }

    fn string(&mut self) -> P<String> {
        let q = self.peek().unwrap();
        self.i += 1;
        let mut o = String::new();
        loop {
            let c = match self.peek() {
                Some(c) => c,
                None => return Err(self.fault("unclosed string")),
            };
            if c == q {
                self.i += 1;
                return Ok(o);
            }
            if c == '\\' {
                self.i += 1;
                let e = match self.peek() {
                    Some(e) => e,
                    None => return Err(self.fault("unclosed escape")),
                };
                self.i += 1;
                match e {
                    'b' => o.push('\u{8}'),
                    'f' => o.push('\u{c}'),
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    '/' => o.push('/'),
                    '\\' => o.push('\\'),
                    e if e == q => o.push(e),
                    'u' => {
                        let h = self.hex4()?;
                        if (0xD800..0xDC00).contains(&h) {
                            if !(self.eat('\\') && self.eat('u')) {
                                return Err(self.fault("lone high surrogate"));
                            }
                            let l = self.hex4()?;
                            if !(0xDC00..0xE000).contains(&l) {
                                return Err(self.fault("bad low surrogate"));
                            }
                            let cp = 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00);
                            o.push(char::from_u32(cp).unwrap());
                        } else if (0xDC00..0xE000).contains(&h) {
                            return Err(self.fault("lone low surrogate"));
                        } else {
                            o.push(char::from_u32(h).unwrap());
                        }
                    }
                    _ => {
                        self.i -= 1;
                        return Err(self.fault("bad escape"));
                    }
                }
                continue;
            }
            if (c as u32) < 0x20 {
                return Err(self.fault("control character in string"));
            }
            o.push(c);
            self.i += 1;
        }
    }

    // ------------------------------------------------------------- filters

    fn or_expr(&mut self) -> P<Expr> {
        self.depth += 1;
        if self.depth > 2000 {
            return Err(self.fault("too deep for the recogniser"));
        }
        let mut v = vec![self.and_expr()?];
        loop {
            let save = self.i;
            self.ws();
            if self.peek() == Some('|') && self.at(1) == Some('|') {
                self.i += 2;
                self.ws();
                v.push(self.and_expr()?);
            } else {
                self.i = save;
                break;
            }
        }
        self.depth -= 1;
        Ok(or(v))
    }

    fn and_expr(&mut self) -> P<Expr> {
        let mut v = vec![self.basic_expr()?];
        loop {
            let save = self.i;
            self.ws();
            if self.peek() == Some('&') && self.at(1) == Some('&') {
                self.i += 2;
                self.ws();
                v.push(self.basic_expr()?);
            } else {
                self.i = save;
                break;
            }
        }
        Ok(and(v))
    }

    fn cmp_op(&mut self) -> Option<Op> {
        let (op, n) = match (self.peek(), self.at(1)) {
            (Some('='), Some('=')) => (Op::Eq, 2),
            (Some('!'), Some('=')) => (Op::Ne, 2),
            (Some('<'), Some('=')) => (Op::Le, 2),
            (Some('>'), Some('=')) => (Op::Ge, 2),
            (Some('<'), _) => (Op::Lt, 1),
            (Some('>'), _) => (Op::Gt, 1),
            _ => return None,
        };
        self.i += n;
        Some(op)
    }

    fn basic_expr(&mut self) -> P<Expr> {
        let not = self.eat('!');
        if not {
            self.ws();
        }
        if self.eat('(') {
            self.ws();
            let e = self.or_expr()?;
            self.ws();
            if !self.eat(')') {
                return Err(self.fault("expected )"));
            }
            return Ok(if not { Expr::Not(Box::new(e)) } else { e });
        }
        let at = self.i;
        let (e, ws_l) = self.operand()?;
        let save = self.i;
        self.ws();
        if let Some(op) = self.cmp_op() {
            if not {
                self.i = save;
                return Err(self.fault("negated comparison without parentheses"));
            }
            self.ws();
            let at2 = self.i;
            let (r, ws_r) = self.operand()?;
            self.comparable(&e, at, ws_l)?;
            self.comparable(&r, at2, ws_r)?;
            return Ok(Expr::Cmp(Box::new(e), op, Box::new(r)));
        }
        self.i = save;
        match &e {
            Expr::Path(..) => (),
            Expr::Call(n, _) => {
                if let Some(s) = find_sig(&self.o.sigs, n) {
                    if s.ret == Ty::Value {
                        self.note(Kind::Type, at, format!("result of {n}() must be compared"));
                    }
                }
            }
            _ => {
                self.i = at;
                return Err(Fault { kind: Kind::SyntaxOrType, ..self.fault("uncompared literal") });
            }
        }
        Ok(if not { Expr::Not(Box::new(e)) } else { e })
    }

    fn comparable(&mut self, e: &Expr, at: usize, ws: bool) -> P<()> {
        match e {
            Expr::Path(_, segs) => {
                if !singular(segs) {
                    self.note(Kind::SyntaxOrType, at, "non-singular query compared".into());
                } else if ws {
                    self.ws_in_singular = true;
                    self.note(Kind::Syntax, at, "whitespace inside compared query's brackets".into());
                }
            }
            Expr::Call(n, _) => {
                if let Some(s) = find_sig(&self.o.sigs, n) {
                    if s.ret != Ty::Value {
                        self.note(Kind::Type, at, format!("result of {n}() is not comparable"));
                    }
                }
            }
            _ => (),
        }
        Ok(())
    }

    /// literal / query / function-expr; the flag says whether whitespace
    /// occurred inside the brackets of a query.
    fn operand(&mut self) -> P<(Expr, bool)> {
        match self.peek() {
            Some('@') | Some('$') => {
                let abs = self.peek() == Some('$');
                self.i += 1;
                let saved = std::mem::replace(&mut self.ws_in_brackets, false);
                let segs = self.segments()?;
                let w = std::mem::replace(&mut self.ws_in_brackets, saved);
                Ok((Expr::Path(abs, segs), w))
            }
            Some('\'' | '"') => Ok((Expr::Str(self.string()?), false)),
            Some(c) if c == '-' || c.is_ascii_digit() => Ok((Expr::Num(self.number()?), false)),
            Some('a'..='z') => {
                let s = self.i;
                while self.peek().is_some_and(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') {
                    self.i += 1;
                }
                let n: String = self.c[s..self.i].iter().collect();
                if self.peek() == Some('(') {
                    return Ok((self.call(n, s)?, false));
                }
                match n.as_str() {
                    "true" => Ok((Expr::Bool(true), false)),
                    "false" => Ok((Expr::Bool(false), false)),
                    "null" => Ok((Expr::Null, false)),
                    _ => {
                        self.i = s;
                        Err(self.fault("unknown word"))
                    }
                }
            }
            _ => Err(self.fault("expected an expression")),
        }
    }

    fn call(&mut self, name: String, at: usize) -> P<Expr> {
        self.depth += 1;
        if self.depth > 2000 {
            return Err(self.fault("too deep for the recogniser"));
        }
        self.i += 1; // (
        self.ws();
        let sig = find_sig(&self.o.sigs, &name).cloned();
        if sig.is_none() {
            self.note(Kind::Name, at, format!("unknown function {name}"));
        }
        let mut args: Vec<(Expr, bool)> = vec![];
        if !self.eat(')') {
            loop {
                let (e, logical) = self.argument()?;
                args.push((e, logical));
                self.ws();
                if self.eat(',') {
                    self.ws();
                    continue;
                }
                if self.eat(')') {
                    break;
                }
                return Err(self.fault("expected , or )"));
            }
        }
        if let Some(sig) = sig {
            if sig.params.len() != args.len() {
                self.note(Kind::Type, at, format!("{name}() takes {} arguments, {} given", sig.params.len(), args.len()));
            } else {
                for (k, (e, logical)) in args.iter().enumerate() {
                    let ret = match e {
                        Expr::Call(n, _) if !logical => match find_sig(&self.o.sigs, n) {
                            Some(s) => Some(s.ret),
                            None => continue, // already a name fault
                        },
                        _ => None,
                    };
                    let ok = match sig.params[k] {
                        Ty::Value => {
                            !logical
                                && match e {
                                    Expr::Path(_, s) => singular(s),
                                    Expr::Call(..) => ret == Some(Ty::Value),
                                    _ => true,
                                }
                        }
                        Ty::Nodes => {
                            !logical
                                && match e {
                                    Expr::Path(..) => true,
                                    Expr::Call(..) => ret == Some(Ty::Nodes),
                                    _ => false,
                                }
                        }
                        Ty::Logical => {
                            *logical
                                || match e {
                                    Expr::Path(..) => true,
                                    Expr::Call(..) => ret != Some(Ty::Value),
                                    _ => false,
                                }
                        }
                    };
                    if !ok {
                        self.note(Kind::Type, at, format!("argument {} of {name}()", k + 1));
                    }
                }
            }
        }
        self.depth -= 1;
        Ok(Expr::Call(name, args.into_iter().map(|a| a.0).collect()))
    }

    /// Returns the argument and whether it is a logical expression that is not
    /// a bare query, literal or function call.
    fn argument(&mut self) -> P<(Expr, bool)> {
        if matches!(self.peek(), Some('(' | '!')) {
            return Ok((self.or_expr()?, true));
        }
        let start = self.i;
        let nf = self.faults.len();
        let (e, _) = self.operand()?;
        let save = self.i;
        self.ws();
        let more = match (self.peek(), self.at(1)) {
            (Some('='), Some('=')) | (Some('!'), Some('=')) => true,
            (Some('<' | '>'), _) => true,
            (Some('&'), Some('&')) | (Some('|'), Some('|')) => true,
            _ => false,
        };
        if more {
            self.i = start;
            self.faults.truncate(nf);
            return Ok((self.or_expr()?, true));
        }
        self.i = save;
        Ok((e, false))
    }
}
