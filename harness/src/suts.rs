//! Adaptors to the seven crates under test.
use crate::engine::{sut, Failure};
use crate::model::*;
use crate::recog;
use serde_json::Value;
use std::cell::OnceCell;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sut {
    Hand,
    Pest,
    PestRec,
    Serde,
    Iter,
    Loc,
    Sing,
}

impl Sut {
    pub const ALL: [Sut; 7] = [Sut::Hand, Sut::Pest, Sut::PestRec, Sut::Serde, Sut::Iter, Sut::Loc, Sut::Sing];
    pub fn name(self) -> &'static str {
        match self {
            Sut::Hand => "hand",
            Sut::Pest => "pest",
            Sut::PestRec => "pest_recursive",
            Sut::Serde => "serde",
            Sut::Iter => "iter",
            Sut::Loc => "locations",
            Sut::Sing => "singular",
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Eng {
    Find,
    Loop,
    Iter,
    Loc,
    Sing,
}

impl Eng {
    pub const ALL: [Eng; 5] = [Eng::Find, Eng::Loop, Eng::Iter, Eng::Loc, Eng::Sing];
    pub fn name(self) -> &'static str {
        match self {
            Eng::Find => "serde.find",
            Eng::Loop => "serde.find_loop",
            Eng::Iter => "iter",
            Eng::Loc => "locations",
            Eng::Sing => "singular",
        }
    }
    pub fn sut(self) -> Sut {
        match self {
            Eng::Find | Eng::Loop => Sut::Serde,
            Eng::Iter => Sut::Iter,
            Eng::Loc => Sut::Loc,
            Eng::Sing => Sut::Sing,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EKind {
    Lexer,
    Syntax,
    Type,
    Name,
}

#[derive(Clone, Debug)]
pub struct PErr {
    pub kind: EKind,
    pub msg: String,
    pub span: Option<(usize, usize)>,
}

macro_rules! perr {
    ($m:ident, $e:expr, $span:expr) => {{
        let e = $e;
        PErr {
            kind: match e.kind {
                $m::errors::JSONPathErrorType::LexerError => EKind::Lexer,
                $m::errors::JSONPathErrorType::SyntaxError => EKind::Syntax,
                $m::errors::JSONPathErrorType::TypeError => EKind::Type,
                $m::errors::JSONPathErrorType::NameError => EKind::Name,
            },
            span: $span(&e),
            msg: e.msg,
        }
    }};
}

pub enum Query {
    Hand(hand::Query),
    Pest(pestq::Query),
    PestRec(pestrec::Query),
    Serde(serdeq::Query),
    Iter(iterq::Query),
    Loc(locq::Query),
    Sing(singq::Query),
}

pub type ParseRes = Result<Query, PErr>;

/// `Query::standard` of each crate.
pub fn standard(s: Sut, q: &str) -> Result<ParseRes, Failure> {
    sut(s.name(), || match s {
        Sut::Hand => hand::Query::standard(q).map(Query::Hand).map_err(|e| perr!(hand, e, |e: &hand::JSONPathError| Some(e.span))),
        Sut::Pest => pestq::Query::standard(q).map(Query::Pest).map_err(|e| perr!(pestq, e, |_: &_| None)),
        Sut::PestRec => pestrec::Query::standard(q).map(Query::PestRec).map_err(|e| perr!(pestrec, e, |_: &_| None)),
        Sut::Serde => serdeq::Query::standard(q).map(Query::Serde).map_err(|e| perr!(serdeq, e, |_: &_| None)),
        Sut::Iter => iterq::Query::standard(q).map(Query::Iter).map_err(|e| perr!(iterq, e, |_: &_| None)),
        Sut::Loc => locq::Query::standard(q).map(Query::Loc).map_err(|e| perr!(locq, e, |_: &_| None)),
        Sut::Sing => singq::Query::standard(q).map(Query::Sing).map_err(|e| perr!(singq, e, |_: &_| None)),
    })
}

/// Parsers with extra function signatures and/or a different integer range.
pub struct Parsers {
    pub hand: hand::Parser,
    pub pest: pestq::JSONPathParser,
    pub pestrec: pestrec::JSONPathParser,
    pub serde: serdeq::JSONPathParser,
    pub iter: iterq::JSONPathParser,
    pub loc: locq::JSONPathParser,
    pub sing: singq::JSONPathParser,
}

macro_rules! ty {
    ($p:path, $t:expr) => {{
        use $p as T;
        match $t {
            Ty::Value => T::Value,
            Ty::Logical => T::Logical,
            Ty::Nodes => T::Nodes,
        }
    }};
}

impl Parsers {
    pub fn new() -> Self {
        Parsers {
            hand: hand::Parser::new(),
            pest: pestq::JSONPathParser::new(),
            pestrec: pestrec::JSONPathParser::new(),
            serde: serdeq::JSONPathParser::new(),
            iter: iterq::JSONPathParser::new(),
            loc: locq::JSONPathParser::new(),
            sing: singq::JSONPathParser::new(),
        }
    }
    pub fn add(&mut self, sig: &Sig) {
        let n = sig.name.as_str();
        self.hand.add_function(
            n,
            sig.params.iter().map(|t| ty!(hand::ExpressionType, t)).collect(),
            ty!(hand::ExpressionType, sig.ret),
        );
        self.pestrec.add_function(
            n,
            sig.params.iter().map(|t| ty!(pestrec::parser::ExpressionType, t)).collect(),
            ty!(pestrec::parser::ExpressionType, sig.ret),
        );
        macro_rules! ins {
            ($f:ident, $m:ident, $path:ident) => {
                self.$f.functions.insert(
                    n.to_string(),
                    $m::$path::FunctionSignature {
                        param_types: sig.params.iter().map(|t| ty!($m::$path::ExpressionType, t)).collect(),
                        return_type: ty!($m::$path::ExpressionType, sig.ret),
                    },
                );
            };
        }
        ins!(pest, pestq, parser);
        ins!(serde, serdeq, function);
        ins!(iter, iterq, function);
        ins!(loc, locq, function);
        ins!(sing, singq, function);
    }
    pub fn set_range(&mut self, lo: i64, hi: i64) {
        self.hand.index_range = lo..=hi;
        self.pest.index_range = lo..=hi;
        self.pestrec.index_range = lo..=hi;
        self.serde.index_range = lo..=hi;
        self.iter.index_range = lo..=hi;
        self.loc.index_range = lo..=hi;
        self.sing.index_range = lo..=hi;
    }
    pub fn parse(&self, s: Sut, q: &str) -> Result<ParseRes, Failure> {
        sut(s.name(), || match s {
            Sut::Hand => self.hand.parse(q).map(Query::Hand).map_err(|e| perr!(hand, e, |e: &hand::JSONPathError| Some(e.span))),
            Sut::Pest => self.pest.parse(q).map(Query::Pest).map_err(|e| perr!(pestq, e, |_: &_| None)),
            Sut::PestRec => self.pestrec.parse(q).map(Query::PestRec).map_err(|e| perr!(pestrec, e, |_: &_| None)),
            Sut::Serde => self.serde.parse(q).map(Query::Serde).map_err(|e| perr!(serdeq, e, |_: &_| None)),
            Sut::Iter => self.iter.parse(q).map(Query::Iter).map_err(|e| perr!(iterq, e, |_: &_| None)),
            Sut::Loc => self.loc.parse(q).map(Query::Loc).map_err(|e| perr!(locq, e, |_: &_| None)),
            Sut::Sing => self.sing.parse(q).map(Query::Sing).map_err(|e| perr!(singq, e, |_: &_| None)),
        })
    }
}

// ------------------------------------------------------------ AST conversion

macro_rules! flat_ast {
    ($name:ident, $m:ident, $q:path, $fe:path, $seg:path, $sel:path, $lo:path, $co:path) => {
        mod $name {
            use super::*;
            use $co as CO;
            use $fe as FE;
            use $lo as LO;
            use $q as Q;
            use $seg as SG;
            use $sel as SL;
            pub fn query(q: &Q) -> Vec<Seg> {
                conv_segs!(q, SG, seg)
            }
            fn seg(sels: &[SL], desc: bool) -> Seg {
                Seg { desc, sels: sels.iter().map(sel).collect() }
            }
            fn sel(s: &SL) -> Sel {
                match s {
                    SL::Name { name, .. } => Sel::Name(name.to_string()),
                    SL::Index { index, .. } => Sel::Index(*index),
                    SL::Slice { start, stop, step, .. } => Sel::Slice(*start, *stop, *step),
                    SL::Wild { .. } => Sel::Wild,
                    SL::Filter { expression, .. } => Sel::Filter(expr(expression)),
                }
            }
            pub fn expr(e: &FE) -> Expr {
                conv_expr!(e, FE, LO, CO, query, expr, True, False, String)
            }
            pub fn inner(q: &Q, out: &mut Vec<(bool, Option<bool>)>) {
                for s in &q.segments {
                    #[allow(unreachable_patterns)]
                    match s {
                        SG::Child { selectors, .. } | SG::Recursive { selectors, .. } => {
                            for x in selectors {
                                if let SL::Filter { expression, .. } = x {
                                    inner_expr(expression, out)
                                }
                            }
                        }
                        _ => (),
                    }
                }
            }
            fn inner_expr(e: &FE, out: &mut Vec<(bool, Option<bool>)>) {
                match e {
                    FE::Not { expression, .. } => inner_expr(expression, out),
                    FE::Logical { left, right, .. } | FE::Comparison { left, right, .. } => {
                        inner_expr(left, out);
                        inner_expr(right, out);
                    }
                    FE::Function { args, .. } => args.iter().for_each(|a| inner_expr(a, out)),
                    FE::RelativeQuery { query, .. } | FE::RootQuery { query, .. } => {
                        out.push((query.is_singular(), Some(query.is_empty())));
                        inner(query, out);
                    }
                    _ => (),
                }
            }
        }
    };
}

macro_rules! conv_segs {
    ($q:expr, $SG:ident, $seg:ident) => {
        $q.segments
            .iter()
            .filter_map(|s| {
                #[allow(unreachable_patterns)]
                match s {
                    $SG::Child { selectors, .. } => Some($seg(selectors, false)),
                    $SG::Recursive { selectors, .. } => Some($seg(selectors, true)),
                    _ => None,
                }
            })
            .collect()
    };
}

macro_rules! conv_expr {
    ($e:expr, $FE:ident, $LO:ident, $CO:ident, $query:ident, $expr:ident, $T:ident, $F:ident, $S:ident) => {
        match $e {
            $FE::$T { .. } => Expr::Bool(true),
            $FE::$F { .. } => Expr::Bool(false),
            $FE::Null { .. } => Expr::Null,
            $FE::$S { value, .. } => Expr::Str(value.to_string()),
            $FE::Int { value, .. } => Expr::Num(Num::new(value.to_string())),
            $FE::Float { value, .. } => Expr::Num(Num::new(format!("{:?}", value))),
            $FE::Not { expression, .. } => Expr::Not(Box::new($expr(expression))),
            $FE::Logical { left, operator, right, .. } => {
                let v = vec![$expr(left), $expr(right)];
                match operator {
                    $LO::And => and(v),
                    $LO::Or => or(v),
                }
            }
            $FE::Comparison { left, operator, right, .. } => Expr::Cmp(
                Box::new($expr(left)),
                match operator {
                    $CO::Eq => Op::Eq,
                    $CO::Ne => Op::Ne,
                    $CO::Lt => Op::Lt,
                    $CO::Le => Op::Le,
                    $CO::Gt => Op::Gt,
                    $CO::Ge => Op::Ge,
                },
                Box::new($expr(right)),
            ),
            $FE::RelativeQuery { query, .. } => Expr::Path(false, $query(query)),
            $FE::RootQuery { query, .. } => Expr::Path(true, $query(query)),
            $FE::Function { name, args, .. } => {
                Expr::Call(name.to_string(), args.iter().map($expr).collect())
            }
        }
    };
}

flat_ast!(a_hand, hand, hand::query::Query, hand::query::FilterExpression, hand::query::Segment, hand::query::Selector, hand::query::LogicalOperator, hand::query::ComparisonOperator);
flat_ast!(a_pest, pestq, pestq::ast::Query, pestq::ast::FilterExpression, pestq::ast::Segment, pestq::ast::Selector, pestq::ast::LogicalOperator, pestq::ast::ComparisonOperator);
flat_ast!(a_serde, serdeq, serdeq::ast::Query, serdeq::ast::FilterExpression, serdeq::ast::Segment, serdeq::ast::Selector, serdeq::ast::LogicalOperator, serdeq::ast::ComparisonOperator);
flat_ast!(a_iter, iterq, iterq::query::Query, iterq::filter::FilterExpression, iterq::segment::Segment, iterq::selector::Selector, iterq::filter::LogicalOperator, iterq::filter::ComparisonOperator);

mod a_rec {
    use super::*;
    use pestrec::ast::ComparisonOperator as CO;
    use pestrec::ast::FilterExpression as FE;
    use pestrec::ast::LogicalOperator as LO;
    use pestrec::ast::{Query as Q, Segment as SG, Selector as SL};
    pub fn query(q: &Q) -> Vec<Seg> {
        let mut v = vec![];
        let mut cur = &q.ast;
        loop {
            let (l, s, d) = match cur {
                SG::Root { .. } => break,
                SG::Child { left, selectors } => (left, selectors, false),
                SG::Recursive { left, selectors } => (left, selectors, true),
            };
            v.push(Seg { desc: d, sels: s.iter().map(sel).collect() });
            cur = l;
        }
        v.reverse();
        v
    }
    fn sel(s: &SL) -> Sel {
        match s {
            SL::Name { name, .. } => Sel::Name(name.to_string()),
            SL::Index { index, .. } => Sel::Index(*index),
            SL::Slice { start, stop, step, .. } => Sel::Slice(*start, *stop, *step),
            SL::Wild { .. } => Sel::Wild,
            SL::Filter { expression, .. } => Sel::Filter(expr(expression)),
        }
    }
    pub fn expr(e: &FE) -> Expr {
        conv_expr!(e, FE, LO, CO, query, expr, True_, False_, StringLiteral)
    }
    pub fn inner(q: &Q, out: &mut Vec<(bool, Option<bool>)>) {
        let mut chain = vec![];
        let mut cur = &q.ast;
        loop {
            match cur {
                SG::Root { .. } => break,
                SG::Child { left, selectors } | SG::Recursive { left, selectors } => {
                    chain.push(selectors);
                    cur = left;
                }
            }
        }
        for sels in chain.iter().rev() {
            for x in sels.iter() {
                if let SL::Filter { expression } = x {
                    inner_expr(expression, out)
                }
            }
        }
    }
    fn inner_expr(e: &FE, out: &mut Vec<(bool, Option<bool>)>) {
        match e {
            FE::Not { expression, .. } => inner_expr(expression, out),
            FE::Logical { left, right, .. } | FE::Comparison { left, right, .. } => {
                inner_expr(left, out);
                inner_expr(right, out);
            }
            FE::Function { args, .. } => args.iter().for_each(|a| inner_expr(a, out)),
            FE::RelativeQuery { query, .. } | FE::RootQuery { query, .. } => {
                out.push((query.is_singular(), None));
                inner(query, out);
            }
            _ => (),
        }
    }
}

impl Query {
    pub fn sut(&self) -> Sut {
        match self {
            Query::Hand(_) => Sut::Hand,
            Query::Pest(_) => Sut::Pest,
            Query::PestRec(_) => Sut::PestRec,
            Query::Serde(_) => Sut::Serde,
            Query::Iter(_) => Sut::Iter,
            Query::Loc(_) => Sut::Loc,
            Query::Sing(_) => Sut::Sing,
        }
    }
    pub fn display(&self) -> Result<String, Failure> {
        sut(self.sut().name(), || match self {
            Query::Hand(q) => q.to_string(),
            Query::Pest(q) => q.to_string(),
            Query::PestRec(q) => q.to_string(),
            Query::Serde(q) => q.to_string(),
            Query::Iter(q) => q.to_string(),
            Query::Loc(q) => q.to_string(),
            Query::Sing(q) => q.to_string(),
        })
    }
    /// The syntax tree; for the two crates whose tree is private, the tree of
    /// their displayed text.
    pub fn segs(&self, o: &recog::Opts) -> Result<Vec<Seg>, Failure> {
        let via_text = |t: String, ext: bool| {
            let oo = recog::Opts { ext, ..o.clone() };
            match recog::parse(&t, &oo) {
                Ok(p) => Ok(p.segs),
                Err(f) => Err(Failure::new(
                    format!("display-unreadable:{}", self.sut().name()),
                    format!("{}: displayed text {t:?} is not a query: {} at {}", self.sut().name(), f.what, f.pos),
                )),
            }
        };
        match self {
            Query::Hand(q) => Ok(a_hand::query(q)),
            Query::Pest(q) => Ok(a_pest::query(q)),
            Query::PestRec(q) => Ok(a_rec::query(q)),
            Query::Serde(q) => Ok(a_serde::query(q)),
            Query::Iter(q) => Ok(a_iter::query(q)),
            Query::Loc(_) => via_text(self.display()?, false),
            Query::Sing(_) => via_text(self.display()?, true),
        }
    }
    pub fn is_singular(&self) -> bool {
        match self {
            Query::Hand(q) => q.is_singular(),
            Query::Pest(q) => q.is_singular(),
            Query::PestRec(q) => q.is_singular(),
            Query::Serde(q) => q.is_singular(),
            Query::Iter(q) => q.is_singular(),
            Query::Loc(q) => q.is_singular(),
            Query::Sing(q) => q.is_singular(),
        }
    }
    /// (is_singular, is_empty) of the queries inside filters, in order, where
    /// the tree is public.
    pub fn inner_preds(&self) -> Option<Vec<(bool, Option<bool>)>> {
        let mut v = vec![];
        match self {
            Query::Hand(q) => a_hand::inner(q, &mut v),
            Query::Pest(q) => a_pest::inner(q, &mut v),
            Query::PestRec(q) => a_rec::inner(q, &mut v),
            Query::Serde(q) => a_serde::inner(q, &mut v),
            Query::Iter(q) => a_iter::inner(q, &mut v),
            Query::Loc(_) | Query::Sing(_) => return None,
        }
        Some(v)
    }
    pub fn is_empty(&self) -> Option<bool> {
        match self {
            Query::Hand(q) => Some(q.is_empty()),
            Query::Pest(q) => Some(q.is_empty()),
            Query::PestRec(_) => None,
            Query::Serde(q) => Some(q.is_empty()),
            Query::Iter(q) => Some(q.is_empty()),
            Query::Loc(q) => Some(q.is_empty()),
            Query::Sing(q) => Some(q.is_empty()),
        }
    }
}

// ------------------------------------------------------------------ evaluation

#[derive(Clone, Debug)]
pub struct Found<'v> {
    pub value: &'v Value,
    pub loc: String,
    /// location parts, where the crate exposes them (root first)
    pub parts: Option<Vec<Part>>,
}

pub struct Envs {
    pub serde: serdeq::env::Environment,
    pub iter: &'static iterq::env::Environment,
    pub loc: &'static locq::env::Environment,
    pub sing: &'static singq::env::Environment,
}

impl Envs {
    /// Leaks; create few.
    pub fn new() -> Self {
        Envs {
            serde: serdeq::env::Environment::new(),
            iter: Box::leak(Box::new(iterq::env::Environment::new())),
            loc: Box::leak(Box::new(locq::env::Environment::new())),
            sing: Box::leak(Box::new(singq::env::Environment::new())),
        }
    }
}

/// Environments that are given back on drop. No iterator made from them may
/// outlive the guard (`eval` collects before it returns).
pub struct OwnedEnvs(pub Envs);

impl OwnedEnvs {
    pub fn new() -> Self {
        Self::with(
            serdeq::env::Environment::new(),
            iterq::env::Environment::new(),
            locq::env::Environment::new(),
            singq::env::Environment::new(),
        )
    }
    pub fn with(
        serde: serdeq::env::Environment,
        iter: iterq::env::Environment,
        loc: locq::env::Environment,
        sing: singq::env::Environment,
    ) -> Self {
        OwnedEnvs(Envs {
            serde,
            iter: Box::leak(Box::new(iter)),
            loc: Box::leak(Box::new(loc)),
            sing: Box::leak(Box::new(sing)),
        })
    }
}

impl Drop for OwnedEnvs {
    fn drop(&mut self) {
        unsafe {
            drop(Box::from_raw(self.0.iter as *const _ as *mut iterq::env::Environment));
            drop(Box::from_raw(self.0.loc as *const _ as *mut locq::env::Environment));
            drop(Box::from_raw(self.0.sing as *const _ as *mut singq::env::Environment));
        }
    }
}

thread_local! {
    static ENVS: OnceCell<&'static Envs> = const { OnceCell::new() };
}

/// Per-thread standard environments.
pub fn envs() -> &'static Envs {
    ENVS.with(|c| *c.get_or_init(|| Box::leak(Box::new(Envs::new()))))
}

fn rec_parts<'a>(
    it: impl Iterator<Item = Part> + 'a,
) -> Vec<Part> {
    let mut v: Vec<Part> = it.collect();
    v.reverse();
    v
}

pub fn eval<'v>(eng: Eng, q: &Query, doc: &'v Value, e: &Envs) -> Result<Result<Vec<Found<'v>>, String>, Failure> {
    sut(eng.name(), || match (eng, q) {
        (Eng::Find, Query::Serde(q)) => q
            .find(doc, &e.serde)
            .map(|ns| ns.into_iter().map(|n| Found { value: n.value, loc: n.location, parts: None }).collect())
            .map_err(|e| e.to_string()),
        (Eng::Loop, Query::Serde(q)) => q
            .find_loop(doc, &e.serde)
            .map(|ns| ns.into_iter().map(|n| Found { value: n.value, loc: n.location, parts: None }).collect())
            .map_err(|e| e.to_string()),
        (Eng::Iter, Query::Iter(q)) => Ok(iterq::iter::QueryIter::new(e.iter, doc, q.clone())
            .map(|n| Found { value: n.value, loc: n.location.clone(), parts: None })
            .collect()),
        (Eng::Loc, Query::Loc(q)) => Ok(q
            .find(doc, e.loc)
            .into_iter()
            .map(|n| Found {
                value: n.value,
                loc: n.path(),
                parts: Some(rec_parts(n.location.iter().map(|p| match p {
                    locq::node::PathElement::Index(i) => Part::Index(*i),
                    locq::node::PathElement::Name(s) => Part::Name(s.clone()),
                }))),
            })
            .collect()),
        (Eng::Sing, Query::Sing(q)) => Ok(q
            .find(doc, e.sing)
            .into_iter()
            .map(|n| Found {
                value: n.value,
                loc: n.path(),
                parts: Some(rec_parts(n.location.iter().map(|p| match p {
                    singq::node::PathElement::Index(i) => Part::Index(*i),
                    singq::node::PathElement::Name(s) => Part::Name(s.clone()),
                }))),
            })
            .collect()),
        _ => panic!("harness: engine/query mismatch"),
    })
}

/// Parse with the engine's own standard parser and evaluate.
pub fn run<'v>(eng: Eng, q: &str, doc: &'v Value) -> Result<Vec<Found<'v>>, Failure> {
    let pq = match standard(eng.sut(), q)? {
        Ok(p) => p,
        Err(e) => {
            return Err(Failure::new(
                format!("reject:{}", eng.name()),
                format!("{} rejected a valid query {q:?}: {}", eng.name(), e.msg),
            ))
        }
    };
    match eval(eng, &pq, doc, envs())? {
        Ok(v) => Ok(v),
        Err(m) => Err(Failure::new(
            format!("evalerr:{}", eng.name()),
            format!("{} failed to evaluate {q:?}: {m}", eng.name()),
        )),
    }
}
