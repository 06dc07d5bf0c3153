//! Reference model: JSONPath AST and an evaluator written directly from
//! RFC 9535 (no code shared with the crates under test).
use crate::iregex;
use serde_json::Value;
use std::cmp::Ordering;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub desc: bool,
    pub sels: Vec<Sel>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Name(String),
    Index(i64),
    Slice(Option<i64>, Option<i64>, Option<i64>),
    Wild,
    Filter(Expr),
    /// Extended dialect only: absolute singular query used as a selector.
    Singular(Vec<Seg>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

impl Op {
    pub const ALL: [Op; 6] = [Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];
    pub fn text(self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
}

/// A number literal: as written, and its value.
#[derive(Clone, Debug)]
pub struct Num {
    pub text: String,
}

impl Num {
    pub fn new(t: impl Into<String>) -> Self {
        Num { text: t.into() }
    }
    pub fn f(&self) -> f64 {
        self.text.parse::<f64>().unwrap()
    }
    /// Exact integer value if the literal denotes an integer that fits i64.
    pub fn exact_int(&self) -> Option<i64> {
        let t = self.text.to_ascii_lowercase();
        let (mant, exp) = match t.split_once('e') {
            Some((m, e)) => (m.to_string(), e.parse::<i64>().ok()?),
            None => (t.clone(), 0),
        };
        let (neg, mant) = match mant.strip_prefix('-') {
            Some(m) => (true, m.to_string()),
            None => (false, mant),
        };
        let (ip, fp) = match mant.split_once('.') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (mant, String::new()),
        };
        let mut digits = format!("{ip}{fp}");
        let mut scale = exp - fp.len() as i64;
        while scale < 0 && digits.ends_with('0') && digits.len() > 1 {
            digits.pop();
            scale += 1;
        }
        let trimmed = digits.trim_start_matches('0');
        if trimmed.is_empty() {
            return Some(0);
        }
        if scale < 0 || scale > 19 {
            return None;
        }
        let mut v: i128 = trimmed.parse::<i128>().ok()?;
        for _ in 0..scale {
            v = v.checked_mul(10)?;
        }
        if neg {
            v = -v;
        }
        i64::try_from(v).ok()
    }
}

impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        match (self.exact_int(), o.exact_int()) {
            (Some(a), Some(b)) => a == b,
            (Some(_), None) | (None, Some(_)) | (None, None) => self.f() == o.f(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Or(Vec<Expr>),
    And(Vec<Expr>),
    Not(Box<Expr>),
    Cmp(Box<Expr>, Op, Box<Expr>),
    /// `abs` true for `$…`, false for `@…`.
    Path(bool, Vec<Seg>),
    Call(String, Vec<Expr>),
    Null,
    Bool(bool),
    Num(Num),
    Str(String),
}

pub fn or(es: Vec<Expr>) -> Expr {
    let mut out = Vec::new();
    for e in es {
        match e {
            Expr::Or(v) => out.extend(v),
            e => out.push(e),
        }
    }
    if out.len() == 1 {
        out.pop().unwrap()
    } else {
        Expr::Or(out)
    }
}
pub fn and(es: Vec<Expr>) -> Expr {
    let mut out = Vec::new();
    for e in es {
        match e {
            Expr::And(v) => out.extend(v),
            e => out.push(e),
        }
    }
    if out.len() == 1 {
        out.pop().unwrap()
    } else {
        Expr::And(out)
    }
}

pub fn singular(segs: &[Seg]) -> bool {
    segs.iter().all(|s| {
        !s.desc && s.sels.len() == 1 && matches!(s.sels[0], Sel::Name(_) | Sel::Index(_))
    })
}

// ------------------------------------------------------------ AST utilities

/// Slice step `None` and `Some(1)` made the same (for canonical-text checks).
pub fn norm_steps(segs: &[Seg]) -> Vec<Seg> {
    let mut s = segs.to_vec();
    walk_sels(&mut s, &mut |sel| {
        if let Sel::Slice(_, _, step) = sel {
            if step.is_none() {
                *step = Some(1);
            }
        }
    });
    s
}

pub fn walk_sels(segs: &mut [Seg], f: &mut dyn FnMut(&mut Sel)) {
    for s in segs {
        for sel in &mut s.sels {
            f(sel);
            match sel {
                Sel::Filter(e) => walk_expr_sels(e, f),
                Sel::Singular(q) => walk_sels(q, f),
                _ => (),
            }
        }
    }
}
fn walk_expr_sels(e: &mut Expr, f: &mut dyn FnMut(&mut Sel)) {
    match e {
        Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => {
            for x in v {
                walk_expr_sels(x, f)
            }
        }
        Expr::Not(x) => walk_expr_sels(x, f),
        Expr::Cmp(a, _, b) => {
            walk_expr_sels(a, f);
            walk_expr_sels(b, f);
        }
        Expr::Path(_, q) => walk_sels(q, f),
        _ => (),
    }
}

/// Visit every expression of a query (pre-order).
pub fn visit_exprs<'a>(segs: &'a [Seg], f: &mut dyn FnMut(&'a Expr)) {
    for s in segs {
        for sel in &s.sels {
            match sel {
                Sel::Filter(e) => visit_expr(e, f),
                Sel::Singular(q) => visit_exprs(q, f),
                _ => (),
            }
        }
    }
}
pub fn visit_expr<'a>(e: &'a Expr, f: &mut dyn FnMut(&'a Expr)) {
    f(e);
    match e {
        Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => {
            for x in v {
                visit_expr(x, f)
            }
        }
        Expr::Not(x) => visit_expr(x, f),
        Expr::Cmp(a, _, b) => {
            visit_expr(a, f);
            visit_expr(b, f);
        }
        Expr::Path(_, q) => visit_exprs(q, f),
        _ => (),
    }
}
pub fn visit_segs<'a>(segs: &'a [Seg], f: &mut dyn FnMut(&'a Seg)) {
    for s in segs {
        f(s);
        for sel in &s.sels {
            match sel {
                Sel::Filter(e) => visit_expr_segs(e, f),
                Sel::Singular(q) => visit_segs(q, f),
                _ => (),
            }
        }
    }
}
pub fn walk_exprs(segs: &mut [Seg], f: &mut dyn FnMut(&mut Expr)) {
    for s in segs {
        for sel in &mut s.sels {
            match sel {
                Sel::Filter(e) => walk_expr(e, f),
                Sel::Singular(q) => walk_exprs(q, f),
                _ => (),
            }
        }
    }
}
/// Post-order.
pub fn walk_expr(e: &mut Expr, f: &mut dyn FnMut(&mut Expr)) {
    match e {
        Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => v.iter_mut().for_each(|x| walk_expr(x, f)),
        Expr::Not(x) => walk_expr(x, f),
        Expr::Cmp(a, _, b) => {
            walk_expr(a, f);
            walk_expr(b, f);
        }
        Expr::Path(_, q) => walk_exprs(q, f),
        _ => (),
    }
    f(e)
}
fn visit_expr_segs<'a>(e: &'a Expr, f: &mut dyn FnMut(&'a Seg)) {
    match e {
        Expr::Or(v) | Expr::And(v) | Expr::Call(_, v) => {
            for x in v {
                visit_expr_segs(x, f)
            }
        }
        Expr::Not(x) => visit_expr_segs(x, f),
        Expr::Cmp(a, _, b) => {
            visit_expr_segs(a, f);
            visit_expr_segs(b, f);
        }
        Expr::Path(_, q) => visit_segs(q, f),
        _ => (),
    }
}

// --------------------------------------------------------- normalized paths

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Part {
    Name(String),
    Index(usize),
}

pub fn normalized(parts: &[Part]) -> String {
    let mut s = String::from("$");
    for p in parts {
        match p {
            Part::Index(i) => {
                let _ = write!(s, "[{i}]");
            }
            Part::Name(n) => {
                s.push_str("['");
                for c in n.chars() {
                    match c {
                        '\u{8}' => s.push_str("\\b"),
                        '\u{c}' => s.push_str("\\f"),
                        '\n' => s.push_str("\\n"),
                        '\r' => s.push_str("\\r"),
                        '\t' => s.push_str("\\t"),
                        '\'' => s.push_str("\\'"),
                        '\\' => s.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(s, "\\u{:04x}", c as u32);
                        }
                        c => s.push(c),
                    }
                }
                s.push_str("']");
            }
        }
    }
    s
}

pub fn locate<'v>(root: &'v Value, parts: &[Part]) -> Option<&'v Value> {
    let mut v = root;
    for p in parts {
        v = match (p, v) {
            (Part::Name(n), Value::Object(o)) => o.get(n)?,
            (Part::Index(i), Value::Array(a)) => a.get(*i)?,
            _ => return None,
        };
    }
    Some(v)
}

// ------------------------------------------------------------------ functions

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Value,
    Logical,
    Nodes,
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Ty,
}

impl Sig {
    pub fn new(name: &str, params: &[Ty], ret: Ty) -> Self {
        Sig { name: name.to_string(), params: params.to_vec(), ret }
    }
}

pub fn std_sigs() -> Vec<Sig> {
    use Ty::*;
    vec![
        Sig::new("length", &[Value], Value),
        Sig::new("count", &[Nodes], Value),
        Sig::new("value", &[Nodes], Value),
        Sig::new("match", &[Value, Value], Logical),
        Sig::new("search", &[Value, Value], Logical),
    ]
}

pub fn find_sig<'a>(sigs: &'a [Sig], name: &str) -> Option<&'a Sig> {
    sigs.iter().rev().find(|s| s.name == name)
}

// ------------------------------------------------------------------ evaluator

#[derive(Clone, Debug)]
pub struct MNode<'v> {
    pub value: &'v Value,
    pub path: Vec<Part>,
}

/// What an argument or comparable evaluates to.
#[derive(Clone, Debug)]
pub enum Val<'v> {
    Nothing,
    Ref(&'v Value),
    Own(Value),
    /// number literal
    Lit(f64, Option<i64>),
    Nodes(Vec<&'v Value>),
    Logical(bool),
}

/// A custom function for the model: given converted arguments.
pub type CustomFn = dyn for<'v> Fn(&str, Vec<Val<'v>>) -> Val<'v>;

/// How `^`/`$` inside I-Regexps are read; RFC 9485 lets them be ordinary
/// characters, the compliance suite reads them as anchors.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Carets {
    Anchor,
    Literal,
}

pub struct Env<'e> {
    pub sigs: Vec<Sig>,
    pub carets: Carets,
    pub custom: Option<&'e CustomFn>,
    /// set when a pattern was outside the model's domain
    pub out_of_model: std::cell::Cell<bool>,
    pub steps: std::cell::Cell<u64>,
    /// evaluations with more steps are left undecided
    pub limit: u64,
    /// evaluate every operand of `&&` and `||`, to count the most work
    pub eager: bool,
    /// whether to count what follows
    pub metered: bool,
    /// the size of the paths of all visited, and of those selected only
    pub paths: std::cell::Cell<u64>,
    pub made: std::cell::Cell<u64>,
    /// how many were selected
    pub nodes: std::cell::Cell<u64>,
    /// the size of all operands and arguments
    pub values: std::cell::Cell<u64>,
    /// the size of every query started
    pub queries: std::cell::Cell<u64>,
}

/// Of a query, all it holds included.
pub fn query_size(segs: &[Seg]) -> u64 {
    let mut n = 1;
    visit_segs(segs, &mut |s| {
        n += 1 + s.sels.iter().map(|x| if let Sel::Name(t) = x { 1 + t.len() as u64 } else { 1 }).sum::<u64>();
    });
    visit_exprs(segs, &mut |e| {
        n += 1 + match e {
            Expr::Str(t) | Expr::Call(t, _) => t.len() as u64,
            _ => 0,
        }
    });
    n
}

fn path_size(p: &[Part]) -> u64 {
    p.iter().map(|x| if let Part::Name(n) = x { n.len() as u64 + 5 } else { 5 }).sum::<u64>() + 1
}

fn value_size(v: &Value) -> u64 {
    match v {
        Value::String(s) => 1 + s.len() as u64,
        Value::Array(a) => 1 + a.iter().map(value_size).sum::<u64>(),
        Value::Object(o) => 1 + o.iter().map(|(k, v)| k.len() as u64 + value_size(v)).sum::<u64>(),
        _ => 1,
    }
}

impl<'e> Env<'e> {
    pub fn std() -> Env<'e> {
        Env {
            sigs: std_sigs(),
            carets: Carets::Anchor,
            custom: None,
            out_of_model: std::cell::Cell::new(false),
            steps: std::cell::Cell::new(0),
            limit: u64::MAX,
            eager: false,
            metered: false,
            paths: std::cell::Cell::new(0),
            made: std::cell::Cell::new(0),
            nodes: std::cell::Cell::new(0),
            values: std::cell::Cell::new(0),
            queries: std::cell::Cell::new(0),
        }
    }
}

impl Env<'_> {
    fn measured(&self, v: &Val) {
        if self.metered {
            let n = match v {
                Val::Ref(v) => value_size(v),
                Val::Own(v) => value_size(v),
                Val::Nodes(ns) => 1 + ns.len() as u64,
                _ => 1,
            };
            self.values.set(self.values.get() + n);
        }
    }
    /// Counts work; true once there has been more of it than a case is worth.
    pub fn spent(&self, n: u64) -> bool {
        self.steps.set(self.steps.get() + n);
        // sizes add up faster
        let over = self.steps.get() > self.limit || (self.metered && (self.paths.get() / 20).max(self.values.get() / 20).max(self.queries.get() / 10) > self.limit);
        if over {
            self.out_of_model.set(true);
        }
        over
    }
}

pub fn find<'v>(env: &Env, segs: &[Seg], root: &'v Value) -> Vec<MNode<'v>> {
    eval_query(env, segs, root, MNode { value: root, path: vec![] })
}

pub fn eval_query<'v>(env: &Env, segs: &[Seg], root: &'v Value, start: MNode<'v>) -> Vec<MNode<'v>> {
    let mut nodes = vec![start];
    for s in segs {
        let mut out = Vec::new();
        for n in &nodes {
            if env.spent(s.sels.len() as u64) {
                return vec![];
            }
            if s.desc {
                let mut all = Vec::new();
                descend(n, &mut all);
                env.spent(all.len() as u64);
                if env.metered {
                    env.paths.set(env.paths.get() + all.iter().map(|n| path_size(&n.path)).sum::<u64>());
                }
                for d in &all {
                    for sel in &s.sels {
                        apply(env, sel, root, d, &mut out);
                    }
                }
            } else {
                for sel in &s.sels {
                    apply(env, sel, root, n, &mut out);
                }
            }
        }
        if env.metered {
            env.made.set(env.made.get() + out.iter().map(|n| path_size(&n.path)).sum::<u64>());
            env.nodes.set(env.nodes.get() + out.len() as u64);
        }
        nodes = out;
    }
    nodes
}

/// Pre-order: the node, then its descendants in document order.
pub fn descend<'v>(n: &MNode<'v>, out: &mut Vec<MNode<'v>>) {
    out.push(n.clone());
    for (p, v) in children(n.value) {
        let mut path = n.path.clone();
        path.push(p);
        descend(&MNode { value: v, path }, out);
    }
}

pub fn children(v: &Value) -> Vec<(Part, &Value)> {
    match v {
        Value::Array(a) => a.iter().enumerate().map(|(i, v)| (Part::Index(i), v)).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (Part::Name(k.clone()), v)).collect(),
        _ => vec![],
    }
}

fn child<'v>(n: &MNode<'v>, p: Part, v: &'v Value) -> MNode<'v> {
    let mut path = n.path.clone();
    path.push(p);
    MNode { value: v, path }
}

/// RFC 9535 section 2.3.4.2.2 in i128 so nothing can overflow.
pub fn slice_indices(len: usize, start: Option<i64>, end: Option<i64>, step: Option<i64>) -> Vec<usize> {
    let len = len as i128;
    let step = step.map(|s| s as i128).unwrap_or(1);
    if step == 0 {
        return vec![];
    }
    let norm = |i: i128| if i >= 0 { i } else { len + i };
    let (ds, de) = if step > 0 { (0, len) } else { (len - 1, -len - 1) };
    let n_start = norm(start.map(|v| v as i128).unwrap_or(ds));
    let n_end = norm(end.map(|v| v as i128).unwrap_or(de));
    let mut out = vec![];
    if step > 0 {
        let lower = n_start.max(0).min(len);
        let upper = n_end.max(0).min(len);
        let mut i = lower;
        while i < upper {
            out.push(i as usize);
            i += step;
        }
    } else {
        let upper = n_start.max(-1).min(len - 1);
        let lower = n_end.max(-1).min(len - 1);
        let mut i = upper;
        while lower < i {
            out.push(i as usize);
            i += step;
        }
    }
    out
}

fn apply<'v>(env: &Env, sel: &Sel, root: &'v Value, n: &MNode<'v>, out: &mut Vec<MNode<'v>>) {
    env.steps.set(env.steps.get() + 1);
    if env.metered {
        // at most every child gets a path
        let kids = match (sel, n.value) {
            (Sel::Wild | Sel::Filter(_) | Sel::Slice(..), Value::Array(a)) => a.len(),
            (Sel::Wild | Sel::Filter(_), Value::Object(o)) => o.len(),
            _ => 1,
        } as u64;
        env.paths.set(env.paths.get() + kids * (path_size(&n.path) + 5));
        env.steps.set(env.steps.get() + kids);
    }
    match sel {
        Sel::Name(k) => {
            if let Value::Object(o) = n.value {
                if let Some(v) = o.get(k) {
                    out.push(child(n, Part::Name(k.clone()), v));
                }
            }
        }
        Sel::Index(i) => {
            if let Value::Array(a) = n.value {
                let l = a.len() as i128;
                let j = if *i >= 0 { *i as i128 } else { l + *i as i128 };
                if j >= 0 && j < l {
                    out.push(child(n, Part::Index(j as usize), &a[j as usize]));
                }
            }
        }
        Sel::Slice(s, e, st) => {
            if let Value::Array(a) = n.value {
                for i in slice_indices(a.len(), *s, *e, *st) {
                    out.push(child(n, Part::Index(i), &a[i]));
                }
            }
        }
        Sel::Wild => {
            for (p, v) in children(n.value) {
                out.push(child(n, p, v));
            }
        }
        Sel::Filter(e) => {
            for (p, v) in children(n.value) {
                if test(env, e, root, v) {
                    out.push(child(n, p, v));
                }
            }
        }
        Sel::Singular(q) => {
            let r = eval_query(env, q, root, MNode { value: root, path: vec![] });
            if r.len() == 1 {
                match r[0].value {
                    Value::String(s) => apply(env, &Sel::Name(s.clone()), root, n, out),
                    Value::Number(num) => {
                        if let Some(i) = num.as_i64() {
                            apply(env, &Sel::Index(i), root, n, out)
                        } else if num.is_f64() && num.as_f64().is_some_and(|f| f.fract() == 0.0) {
                            // whether 1.0 is an integer is left open
                            env.out_of_model.set(true);
                        }
                    }
                    _ => (),
                }
            }
        }
    }
}

/// Truth of a logical expression with `cur` as `@`.
pub fn test<'v>(env: &Env, e: &Expr, root: &'v Value, cur: &'v Value) -> bool {
    if env.spent(1) {
        return false;
    }
    match e {
        Expr::Or(v) | Expr::And(v) if env.eager => {
            let r: Vec<bool> = v.iter().map(|x| test(env, x, root, cur)).collect();
            match e {
                Expr::Or(_) => r.contains(&true),
                _ => !r.contains(&false),
            }
        }
        Expr::Or(v) => v.iter().any(|x| test(env, x, root, cur)),
        Expr::And(v) => v.iter().all(|x| test(env, x, root, cur)),
        Expr::Not(x) => !test(env, x, root, cur),
        Expr::Cmp(a, op, b) => {
            let x = operand(env, a, root, cur);
            let y = operand(env, b, root, cur);
            env.measured(&x);
            env.measured(&y);
            UNSETTLED.set(false);
            let r = compare(&x, *op, &y);
            if UNSETTLED.get() {
                env.out_of_model.set(true);
            }
            r
        }
        Expr::Path(..) => !paths(env, e, root, cur).is_empty(),
        Expr::Call(..) => match call(env, e, root, cur) {
            Val::Logical(b) => b,
            Val::Nodes(ns) => !ns.is_empty(),
            v => panic!("model: function result {v:?} used as a test"),
        },
        _ => panic!("model: literal used as a test"),
    }
}

fn paths<'v>(env: &Env, e: &Expr, root: &'v Value, cur: &'v Value) -> Vec<&'v Value> {
    match e {
        Expr::Path(abs, segs) => {
            let start = if *abs { root } else { cur };
            if env.metered {
                env.queries.set(env.queries.get() + query_size(segs));
            }
            eval_query(env, segs, root, MNode { value: start, path: vec![] })
                .into_iter()
                .map(|n| n.value)
                .collect()
        }
        _ => panic!("model: not a path"),
    }
}

/// Value of a comparable (or ValueType argument).
pub fn operand<'v>(env: &Env, e: &Expr, root: &'v Value, cur: &'v Value) -> Val<'v> {
    match e {
        Expr::Null => Val::Own(Value::Null),
        Expr::Bool(b) => Val::Own(Value::Bool(*b)),
        Expr::Num(n) => Val::Lit(n.f(), n.exact_int()),
        Expr::Str(s) => Val::Own(Value::String(s.clone())),
        Expr::Path(..) => {
            let ns = paths(env, e, root, cur);
            match ns.len() {
                0 => Val::Nothing,
                1 => Val::Ref(ns[0]),
                _ => panic!("model: non-singular operand"),
            }
        }
        Expr::Call(..) => call(env, e, root, cur),
        _ => panic!("model: not an operand"),
    }
}

fn call<'v>(env: &Env, e: &Expr, root: &'v Value, cur: &'v Value) -> Val<'v> {
    let Expr::Call(name, args) = e else { unreachable!() };
    let sig = find_sig(&env.sigs, name).unwrap_or_else(|| panic!("model: unknown function {name}"));
    let mut vs: Vec<Val<'v>> = Vec::new();
    for (a, t) in args.iter().zip(&sig.params) {
        vs.push(match t {
            Ty::Value => operand(env, a, root, cur),
            Ty::Nodes => match a {
                Expr::Path(..) => Val::Nodes(paths(env, a, root, cur)),
                Expr::Call(..) => call(env, a, root, cur),
                _ => panic!("model: bad nodes argument"),
            },
            Ty::Logical => Val::Logical(test(env, a, root, cur)),
        });
    }
    vs.iter().for_each(|v| env.measured(v));
    let overridden = env.sigs.iter().rposition(|s| s.name == *name).is_some_and(|i| i >= 5);
    if let (true, Some(f)) = (overridden, env.custom) {
        return f(name, vs);
    }
    match name.as_str() {
        "length" => match &vs[0] {
            Val::Ref(v) => length(v),
            Val::Own(v) => length(v),
            _ => Val::Nothing,
        },
        "count" => match &vs[0] {
            Val::Nodes(ns) => Val::Lit(ns.len() as f64, Some(ns.len() as i64)),
            _ => panic!("model: count"),
        },
        "value" => match &vs[0] {
            Val::Nodes(ns) if ns.len() == 1 => Val::Ref(ns[0]),
            Val::Nodes(_) => Val::Nothing,
            _ => panic!("model: value"),
        },
        "match" | "search" => {
            let s = as_str(&vs[0]);
            let p = as_str(&vs[1]);
            let r = match (s, p) {
                (Some(s), Some(p)) => match iregex::decide(p, s, name == "match", env.carets) {
                    Some(b) => b,
                    None => {
                        env.out_of_model.set(true);
                        false
                    }
                },
                _ => false,
            };
            Val::Logical(r)
        }
        _ => (env.custom.expect("model: no custom function"))(name, vs),
    }
}

fn length<'v>(v: &Value) -> Val<'v> {
    let n = match v {
        Value::String(s) => s.chars().count(),
        Value::Array(a) => a.len(),
        Value::Object(o) => o.len(),
        _ => return Val::Nothing,
    };
    Val::Lit(n as f64, Some(n as i64))
}

fn as_str<'a>(v: &'a Val) -> Option<&'a str> {
    match v {
        Val::Ref(v) => v.as_str(),
        Val::Own(v) => v.as_str(),
        _ => None,
    }
}

// ---------------------------------------------------------------- comparison

enum N {
    I(i128),
    F(f64),
}

fn num_of(v: &Value) -> Option<N> {
    match v {
        Value::Number(n) => Some(if let Some(i) = n.as_i64() {
            N::I(i as i128)
        } else if let Some(u) = n.as_u64() {
            N::I(u as i128)
        } else {
            N::F(n.as_f64().unwrap())
        }),
        _ => None,
    }
}

/// Exact mathematical comparison of an integer and a double.
fn cmp_if(i: i128, f: f64) -> Ordering {
    if f >= 1e30 {
        return Ordering::Less;
    }
    if f <= -1e30 {
        return Ordering::Greater;
    }
    let t = f.trunc();
    let ti = t as i128;
    match i.cmp(&ti) {
        Ordering::Equal => {
            let frac = f - t;
            if frac > 0.0 {
                Ordering::Less
            } else if frac < 0.0 {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        }
        o => o,
    }
}

fn cmp_num(a: &N, b: &N) -> Ordering {
    let d = |n: &N| match n {
        N::I(i) => *i as f64,
        N::F(f) => *f,
    };
    let o = match (a, b) {
        (N::I(a), N::I(b)) => a.cmp(b),
        (N::I(a), N::F(b)) => cmp_if(*a, *b),
        (N::F(a), N::I(b)) => cmp_if(*b, *a).reverse(),
        (N::F(a), N::F(b)) => a.partial_cmp(b).unwrap(),
    };
    if o != Ordering::Equal && d(a) == d(b) {
        UNSETTLED.set(true);
    }
    o
}

thread_local! {
    /// set by a comparison of different numbers which are the same double:
    /// how integers beyond the interoperable range compare is left open
    static UNSETTLED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn deep_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(_), Value::Number(_)) => {
            cmp_num(&num_of(a).unwrap(), &num_of(b).unwrap()) == Ordering::Equal
        }
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| deep_eq(p, q))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| deep_eq(p, q)))
        }
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::String(x), Value::String(y)) => x == y,
        _ => false,
    }
}

fn lit_num(f: f64, i: Option<i64>) -> N {
    match i {
        Some(i) => N::I(i as i128),
        None => N::F(f),
    }
}

fn veq(a: &Val, b: &Val) -> bool {
    let f = |v: &Val| -> Option<N> {
        match v {
            Val::Ref(v) => num_of(v),
            Val::Own(v) => num_of(v),
            Val::Lit(f, i) => Some(lit_num(*f, *i)),
            _ => None,
        }
    };
    match (a, b) {
        (Val::Nothing, Val::Nothing) => true,
        (Val::Nothing, _) | (_, Val::Nothing) => false,
        _ => {
            if let (Some(x), Some(y)) = (f(a), f(b)) {
                return cmp_num(&x, &y) == Ordering::Equal;
            }
            match (val_json(a), val_json(b)) {
                (Some(x), Some(y)) => deep_eq(x, y),
                _ => false,
            }
        }
    }
}

fn val_json<'a>(v: &'a Val) -> Option<&'a Value> {
    match v {
        Val::Ref(v) => Some(v),
        Val::Own(v) => Some(v),
        _ => None,
    }
}

fn vlt(a: &Val, b: &Val) -> bool {
    let f = |v: &Val| -> Option<N> {
        match v {
            Val::Ref(v) => num_of(v),
            Val::Own(v) => num_of(v),
            Val::Lit(f, i) => Some(lit_num(*f, *i)),
            _ => None,
        }
    };
    if let (Some(x), Some(y)) = (f(a), f(b)) {
        return cmp_num(&x, &y) == Ordering::Less;
    }
    match (as_str(a), as_str(b)) {
        (Some(x), Some(y)) => x.chars().lt(y.chars()),
        _ => false,
    }
}

pub fn compare(a: &Val, op: Op, b: &Val) -> bool {
    match op {
        Op::Eq => veq(a, b),
        Op::Ne => !veq(a, b),
        Op::Lt => vlt(a, b),
        Op::Gt => vlt(b, a),
        Op::Le => vlt(a, b) || veq(a, b),
        Op::Ge => vlt(b, a) || veq(a, b),
    }
}
