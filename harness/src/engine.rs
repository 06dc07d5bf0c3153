//! The generation engine: byte-tape source, per-case context, sharded runner,
//! shrinking, replay, evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed ^ fnv(prop.as_bytes()).rotate_left(17));
    let a = r.next();
    let mut r = Rng::new(a ^ index.wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

/// Source of choices: a byte tape. Bytes past the end come from the RNG (and
/// are recorded) or, on replay, are zero. Zero is always the simplest choice.
pub struct Src {
    pub data: Vec<u8>,
    pub pos: usize,
    rng: Option<Rng>,
    limit: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { data: Vec::with_capacity(512), pos: 0, rng: Some(Rng::new(seed)), limit: 1 << 16 }
    }
    pub fn replay(data: Vec<u8>) -> Self {
        Src { data, pos: 0, rng: None, limit: 1 << 16 }
    }
    pub fn byte(&mut self) -> u8 {
        let b = if self.pos < self.data.len() {
            self.data[self.pos]
        } else if let Some(r) = self.rng.as_mut() {
            if self.pos >= self.limit {
                0
            } else {
                let v = r.next();
                let bs = v.to_le_bytes();
                self.data.extend_from_slice(&bs);
                bs[0]
            }
        } else {
            0
        };
        self.pos += 1;
        b
    }
    /// Uniform-ish in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 256 {
            (self.byte() as usize) * n / 256
        } else {
            let v = ((self.byte() as u64) << 24)
                | ((self.byte() as u64) << 16)
                | ((self.byte() as u64) << 8)
                | self.byte() as u64;
            ((v * n as u64) >> 32) as usize
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True with probability about `num`/256; zero byte means false.
    pub fn chance(&mut self, num: u32) -> bool {
        (self.byte() as u32) >= 256 - num.min(256)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Weighted index.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut k = self.below(total as usize) as u32;
        for (i, w) in ws.iter().enumerate() {
            if k < *w {
                return i;
            }
            k -= w;
        }
        ws.len() - 1
    }
    pub fn consumed(&self) -> Vec<u8> {
        self.data[..self.pos.min(self.data.len())].to_vec()
    }
}

// ------------------------------------------------------------------ context

#[derive(Clone, Debug)]
pub struct Failure {
    /// Short class, used to bucket failures in survey mode.
    pub key: String,
    pub msg: String,
}

impl Failure {
    pub fn new(key: impl Into<String>, msg: impl Into<String>) -> Self {
        Failure { key: key.into(), msg: msg.into() }
    }
}

pub type Res = Result<(), Failure>;

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub excluded: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub sample_every: u64,
    pub case_no: u64,
    /// Human-readable description of the current case.
    pub desc: String,
    pub thorough: bool,
    /// collect all failures (survey mode) rather than returning the first
    pub survey: bool,
    pub soft: Vec<Failure>,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        if let Some(v) = self.labels.get_mut(l) {
            *v += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn exclude(&mut self, l: &str) {
        *self.excluded.entry(l.to_string()).or_insert(0) += 1;
    }
    /// One execution of the code under test with the oracle consulted.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Records the case as non-trivial under the property's rule.
    pub fn nontrivial(&mut self, key: &str) {
        let h = fnv(key.as_bytes());
        if self.nontrivial.insert(h) && self.samples.len() < 12 && h % 97 < 7 {
            let mut s = key.to_string();
            if s.chars().count() > 400 {
                s = s.chars().take(400).collect::<String>() + "…";
            }
            self.samples.push(s);
        }
    }
    /// Report a failure: returned at once normally, collected in survey mode.
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) -> Res {
        let f = Failure::new(key, msg);
        if self.survey {
            self.soft.push(f);
            Ok(())
        } else {
            Err(f)
        }
    }
}

// ------------------------------------------------------------ panic handling

thread_local! {
    static IN_SUT: RefCell<Option<String>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
        } else {
            default(info)
        }
    }));
}

/// Run code under test. A panic inside becomes `Err(Failure)`.
pub fn sut<T>(name: &str, f: impl FnOnce() -> T) -> Result<T, Failure> {
    let prevq = QUIET.with(|q| q.replace(true));
    IN_SUT.with(|s| *s.borrow_mut() = Some(name.to_string()));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| *s.borrow_mut() = None);
    QUIET.with(|q| q.set(prevq));
    r.map_err(|_| {
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        let loc = p.rsplit('[').next().unwrap_or("").trim_end_matches(']').to_string();
        let loc = loc.rsplit("/crates/").next().unwrap_or("").to_string();
        Failure::new(format!("panic:{name}:{loc}"), format!("{name} panicked: {p}"))
    })
}

pub enum CaseResult {
    Ok,
    Fail(Failure),
    HarnessPanic(String),
}

/// Run one property case, turning harness panics into an explicit outcome.
pub fn guarded(f: impl FnOnce() -> Res) -> CaseResult {
    let prevq = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prevq));
    match r {
        Ok(Ok(())) => CaseResult::Ok,
        Ok(Err(f)) => CaseResult::Fail(f),
        Err(_) => CaseResult::HarnessPanic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

// ---------------------------------------------------------------- properties

pub struct Prop {
    pub id: &'static str,
    /// Rule by which a case counts as non-trivial.
    pub rule: &'static str,
    /// Random case.
    pub case: fn(&mut Src, &mut Ctx) -> Res,
    /// Fixed (regression / boundary) cases; (name, run).
    pub fixed: fn() -> Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)>,
    pub quick_cases: u64,
    pub thorough_cases: u64,
    pub assumptions: &'static [&'static str],
}

pub fn no_fixed() -> Vec<(String, Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>)> {
    Vec::new()
}

// ------------------------------------------------------------------ shrinking

/// Greedy tape minimisation: `fails(tape)` must be true for the input.
pub fn shrink(mut tape: Vec<u8>, budget: usize, mut fails: impl FnMut(&[u8]) -> bool) -> Vec<u8> {
    let mut left = budget;
    let mut try_ = |t: &[u8], left: &mut usize| -> bool {
        if *left == 0 {
            return false;
        }
        *left -= 1;
        fails(t)
    };
    // drop the tail first
    loop {
        let start_len = tape.len();
        let before = tape.clone();
        let mut cut = tape.len() / 2;
        while cut > 0 {
            if tape.len() > cut {
                let t = tape[..tape.len() - cut].to_vec();
                if try_(&t, &mut left) {
                    tape = t;
                    continue;
                }
            }
            cut /= 2;
        }
        let mut size = (tape.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < tape.len() {
                let end = (i + size).min(tape.len());
                let mut t = tape[..i].to_vec();
                t.extend_from_slice(&tape[end..]);
                if try_(&t, &mut left) {
                    tape = t;
                    continue;
                }
                if tape[i..end].iter().any(|b| *b != 0) {
                    let mut t = tape.clone();
                    t[i..end].iter_mut().for_each(|b| *b = 0);
                    if try_(&t, &mut left) {
                        tape = t;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..tape.len() {
            let mut lo = 0u8;
            let mut hi = tape[i];
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut t = tape.clone();
                t[i] = mid;
                if try_(&t, &mut left) {
                    tape = t;
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                if left == 0 {
                    break;
                }
            }
        }
        if left == 0 || (tape.len() == start_len && tape == before) {
            break;
        }
    }
    tape
}
