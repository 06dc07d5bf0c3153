//! Writes a model query as text in a random valid spelling, recording the
//! tokens the hand-written lexer should produce and the features used.
use crate::engine::Src;
use crate::fresh;
use crate::gen::{is_ctrl_only, respell};
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: &'static str,
    pub value: String,
    pub span: (usize, usize),
}

#[derive(Default, Clone, Debug)]
pub struct Feat {
    /// `\u00XX` escape of a control character was used
    pub ctrl_u: bool,
    pub ws: bool,
    pub escapes: bool,
    pub redundant_parens: bool,
}

#[derive(Clone)]
pub struct Style {
    /// chance/256 of whitespace at each optional place
    pub ws: u32,
    pub esc: u32,
    pub shorthand: u32,
    pub parens: u32,
    pub respell: bool,
    /// extended dialect: leave out `$` where it may be left out
    pub implicit: u32,
    /// avoid \u escapes of control characters even as optional spelling
    pub no_ctrl_u: bool,
    /// length of one long run of whitespace
    pub long_ws: usize,
    pub sigs: Vec<Sig>,
}

impl Style {
    pub fn plain() -> Self {
        Style { ws: 0, esc: 0, shorthand: 0, parens: 0, respell: false, implicit: 0, no_ctrl_u: false, long_ws: 0, sigs: std_sigs() }
    }
    pub fn random(s: &mut Src) -> Self {
        let ws = *s.pick(&[0u32, 0, 20, 60, 120]);
        let esc = *s.pick(&[0u32, 0, 20, 80]);
        let shorthand = *s.pick(&[0u32, 128, 200, 256]);
        let parens = *s.pick(&[0u32, 0, 20, 60]);
        let long_ws = match ws > 0 && s.chance(fresh::often(6)) {
            true if fresh::get().sizes.len() > 0 && s.chance(128) => fresh::size(s, 70_000).unwrap_or(20),
            true if s.chance(12) => 65_530 + s.below(12),
            true => *s.pick(&[20usize, 120, 250, 256, 257, 1_000]),
            false => 0,
        };
        Style { ws, esc, shorthand, parens, respell: false, implicit: 0, no_ctrl_u: false, long_ws, sigs: std_sigs() }
    }
}

pub struct Printer<'s> {
    pub out: String,
    pub toks: Vec<Tok>,
    pub feat: Feat,
    s: &'s mut Src,
    st: Style,
    /// inside a filter (number tokens are Int/Float rather than Index)
    in_filter: usize,
}

pub fn is_shorthand(n: &str) -> bool {
    let mut it = n.chars();
    match it.next() {
        Some(c) if c.is_ascii_alphabetic() || c == '_' || (c as u32) >= 0x80 => (),
        _ => return false,
    }
    it.all(|c| c.is_ascii_alphanumeric() || c == '_' || (c as u32) >= 0x80)
}

/// Plain, deterministic text (brackets, no whitespace).
pub fn plain(segs: &[Seg]) -> String {
    let mut s = Src::replay(vec![]);
    let mut p = Printer::new(&mut s, Style::plain());
    p.query(segs);
    p.out
}

pub fn spelled(s: &mut Src, segs: &[Seg], st: &Style) -> (String, Vec<Tok>, Feat) {
    let mut p = Printer::new(s, st.clone());
    p.query(segs);
    (p.out, p.toks, p.feat)
}

impl<'s> Printer<'s> {
    pub fn new(s: &'s mut Src, st: Style) -> Self {
        Printer { out: String::new(), toks: vec![], feat: Feat::default(), s, st, in_filter: 0 }
    }
    fn chance(&mut self, n: u32) -> bool {
        n > 0 && self.s.chance(n)
    }
    fn ws(&mut self) {
        if self.st.long_ws > 0 && self.chance(60) {
            self.out.push_str(&" ".repeat(self.st.long_ws));
            self.st.long_ws = 0;
            self.feat.ws = true;
        }
        while self.chance(self.st.ws) {
            let c = *self.s.pick(&[' ', ' ', ' ', '\t', '\n', '\r']);
            self.out.push(c);
            self.feat.ws = true;
        }
    }
    fn tok(&mut self, kind: &'static str, text: &str) {
        let a = self.out.len();
        self.out.push_str(text);
        self.toks.push(Tok { kind, value: text.to_string(), span: (a, self.out.len()) });
    }

    pub fn query(&mut self, segs: &[Seg]) {
        let implicit = match segs.first() {
            Some(s) if !s.desc && self.chance(self.st.implicit) => true,
            _ => false,
        };
        if implicit {
            let f = &segs[0];
            match &f.sels[..] {
                [Sel::Name(n)] if is_shorthand(n) && self.chance(160) => {
                    self.tok("Name", &n.clone());
                }
                _ => self.bracketed(&f.sels, true),
            }
            self.segs(&segs[1..], true);
        } else {
            self.tok("Root", "$");
            self.segs(segs, true);
        }
        let n = self.out.len();
        self.toks.push(Tok { kind: "Eoq", value: String::new(), span: (n, n) });
    }

    /// `inner_ws`: whitespace may appear inside brackets (not in singular
    /// queries used as comparables).
    fn segs(&mut self, segs: &[Seg], inner_ws: bool) {
        for s in segs {
            self.ws();
            self.seg(s, inner_ws);
        }
    }

    fn seg(&mut self, s: &Seg, inner_ws: bool) {
        let short = match &s.sels[..] {
            [Sel::Wild] => true,
            [Sel::Name(n)] => is_shorthand(n),
            _ => false,
        } && self.chance(self.st.shorthand);
        if s.desc {
            self.tok("DoubleDot", "..");
        }
        if short {
            if !s.desc {
                self.out.push('.');
            }
            match &s.sels[0] {
                Sel::Wild => self.tok("Wild", "*"),
                Sel::Name(n) => self.tok("Name", &n.clone()),
                _ => unreachable!(),
            }
        } else {
            self.bracketed(&s.sels, inner_ws);
        }
    }

    fn bracketed(&mut self, sels: &[Sel], inner_ws: bool) {
        self.tok("LBracket", "[");
        for (i, sel) in sels.iter().enumerate() {
            if i > 0 {
                self.tok("Comma", ",");
            }
            if inner_ws {
                self.ws();
            }
            self.sel(sel);
            if inner_ws {
                self.ws();
            }
        }
        self.tok("RBracket", "]");
    }

    fn sel(&mut self, sel: &Sel) {
        match sel {
            Sel::Name(n) => self.string(n),
            Sel::Index(i) => self.tok("Index", &i.to_string()),
            Sel::Wild => self.tok("Wild", "*"),
            Sel::Slice(a, b, c) => {
                if let Some(a) = a {
                    self.tok("Index", &a.to_string());
                    self.ws();
                }
                self.tok("Colon", ":");
                self.ws();
                if let Some(b) = b {
                    self.tok("Index", &b.to_string());
                    self.ws();
                }
                if let Some(c) = c {
                    self.tok("Colon", ":");
                    self.ws();
                    self.tok("Index", &c.to_string());
                } else if self.chance(self.st.parens) {
                    self.tok("Colon", ":");
                }
            }
            Sel::Filter(e) => {
                self.tok("Filter", "?");
                self.ws();
                self.in_filter += 1;
                self.expr(e, 0);
                self.in_filter -= 1;
            }
            Sel::Singular(q) => {
                // only the extended dialect
                let bare = !q.is_empty() && self.chance(self.st.implicit);
                if bare {
                    match &q[0].sels[0] {
                        Sel::Name(n) if is_shorthand(n) && self.chance(160) => {
                            let n = n.clone();
                            self.out.push_str(&n)
                        }
                        x => {
                            let x = x.clone();
                            self.bracketed(&[x], false)
                        }
                    }
                    self.segs(&q[1..], false);
                } else {
                    self.out.push('$');
                    self.segs(q, false);
                }
            }
        }
    }

    pub fn string(&mut self, t: &str) {
        let single = if t.contains('\'') && !t.contains('"') {
            self.chance(60)
        } else {
            !self.chance(100)
        };
        let (q, kind) = if single { ('\'', "SingleQuoteString") } else { ('"', "DoubleQuoteString") };
        let mut o = String::new();
        for c in t.chars() {
            let opt = self.chance(self.st.esc);
            match c {
                c if c == q => {
                    if opt && self.chance(90) {
                        self.hex(c, &mut o);
                    } else {
                        o.push('\\');
                        o.push(c);
                    }
                }
                '\\' => {
                    if opt && self.chance(128) {
                        self.hex(c, &mut o)
                    } else {
                        o.push_str("\\\\")
                    }
                }
                '\n' | '\r' | '\t' | '\u{8}' | '\u{c}' => {
                    if opt && !self.st.no_ctrl_u {
                        self.feat.ctrl_u = true;
                        self.hex(c, &mut o);
                    } else {
                        o.push_str(match c {
                            '\n' => "\\n",
                            '\r' => "\\r",
                            '\t' => "\\t",
                            '\u{8}' => "\\b",
                            _ => "\\f",
                        })
                    }
                }
                c if is_ctrl_only(c) => {
                    self.feat.ctrl_u = true;
                    self.hex(c, &mut o)
                }
                '/' if opt && self.chance(128) => o.push_str("\\/"),
                c => {
                    if opt {
                        self.hex(c, &mut o)
                    } else {
                        o.push(c)
                    }
                }
            }
        }
        self.out.push(q);
        self.tok(kind, &o);
        self.out.push(q);
    }

    fn hex(&mut self, c: char, o: &mut String) {
        self.feat.escapes = true;
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
            o.push_str("\\u");
            let case = self.s.below(4);
            let h = format!("{:04x}", u);
            for d in h.chars() {
                let up = match case {
                    0 | 1 => case == 1,
                    _ => self.chance(128),
                };
                o.push(if up { d.to_ascii_uppercase() } else { d });
            }
        }
    }

    /// prec: 0 any, 1 operand of ||, 2 operand of &&, 3 operand of !
    fn expr(&mut self, e: &Expr, prec: u8) {
        let need = match e {
            Expr::Or(_) => prec >= 1,
            Expr::And(_) => prec >= 2,
            Expr::Cmp(..) => prec >= 3,
            Expr::Not(_) => prec >= 3,
            _ => false,
        };
        let extra = !need && self.chance(self.st.parens);
        if extra {
            self.feat.redundant_parens = true;
        }
        if need || extra {
            self.tok("LParen", "(");
            self.ws();
            self.expr(e, 0);
            self.ws();
            self.tok("RParen", ")");
            return;
        }
        match e {
            Expr::Or(v) | Expr::And(v) => {
                let (t, k, p) = if matches!(e, Expr::Or(_)) { ("||", "Or", 1) } else { ("&&", "And", 2) };
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.ws();
                        self.tok(k, t);
                        self.ws();
                    }
                    self.expr(x, p);
                }
            }
            Expr::Not(x) => {
                self.tok("Not", "!");
                self.ws();
                self.expr(x, 3);
            }
            Expr::Cmp(a, op, b) => {
                self.operand(a, false);
                self.ws();
                let k = match op {
                    Op::Eq => "Eq",
                    Op::Ne => "Ne",
                    Op::Lt => "Lt",
                    Op::Le => "Le",
                    Op::Gt => "Gt",
                    Op::Ge => "Ge",
                };
                self.tok(k, op.text());
                self.ws();
                self.operand(b, false);
            }
            e => self.operand(e, true),
        }
    }

    fn operand(&mut self, e: &Expr, inner_ws: bool) {
        match e {
            Expr::Null => self.tok("Null", "null"),
            Expr::Bool(true) => self.tok("True", "true"),
            Expr::Bool(false) => self.tok("False", "false"),
            Expr::Str(t) => self.string(t),
            Expr::Num(n) => {
                let t = if self.st.respell { respell(self.s, &n.text) } else { n.text.clone() };
                let k = if t.contains(['.', 'e', 'E']) { "Float" } else { "Int" };
                self.tok(k, &t);
            }
            Expr::Path(abs, segs) => {
                if *abs {
                    self.tok("Root", "$")
                } else {
                    self.tok("Current", "@")
                }
                self.segs(segs, inner_ws);
            }
            Expr::Call(n, args) => {
                let n = n.clone();
                self.tok("Function", &n);
                self.out.push('(');
                self.ws();
                let sig = find_sig(&self.st.sigs, &n).cloned();
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.ws();
                        self.tok("Comma", ",");
                        self.ws();
                    }
                    let logical = sig.as_ref().and_then(|s| s.params.get(i)) == Some(&Ty::Logical);
                    match a {
                        Expr::Or(_) | Expr::And(_) | Expr::Not(_) | Expr::Cmp(..) => self.expr(a, 0),
                        a if logical => self.expr(a, 0),
                        a => self.operand(a, true),
                    }
                }
                self.ws();
                self.tok("RParen", ")");
            }
            e => self.expr(e, 0),
        }
    }
}
