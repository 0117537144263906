//! A small choice-sequence property-testing engine: every random decision of a case is one number
//! drawn from `Src`, so a case is its list of choices, shrinking is editing that list, and a replay
//! file is that list. 0 is always the simplest choice.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- choices

enum Mode {
    Rand(u64),
    Replay(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut h = splitmix(seed ^ 0x5eed);
    for b in id.bytes() {
        h = splitmix(h ^ u64::from(b));
    }
    splitmix(h ^ index)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { mode: Mode::Rand(seed), pos: 0, rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { mode: Mode::Replay(choices), pos: 0, rec: vec![] }
    }
    pub fn bytes(data: &[u8]) -> Self {
        Src { mode: Mode::Bytes(data.to_vec()), pos: 0, rec: vec![] }
    }
    /// A number in 0..=max
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Rand(state) => {
                *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let r = splitmix(*state);
                if max == u64::MAX { r } else { r % (max + 1) }
            }
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0).min(max);
                self.pos += 1;
                v
            }
            Mode::Bytes(b) => {
                let width = if max < 256 { 1 } else if max < 65536 { 2 } else { 8 };
                let mut v = 0u64;
                for _ in 0..width {
                    v = (v << 8) | u64::from(b.get(self.pos).copied().unwrap_or(0));
                    self.pos += 1;
                }
                if max == u64::MAX { v } else { v % (max + 1) }
            }
        };
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.draw(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.draw((hi - lo) as u64) as i64)
    }
    /// True with probability num/den; the simplest choice is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den - 1) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        xs[self.below(xs.len())]
    }
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
        let mut v = self.draw(total - 1);
        for (i, x) in w.iter().enumerate() {
            if v < u64::from(*x) {
                return i;
            }
            v -= u64::from(*x);
        }
        unreachable!()
    }
    /// A length in lo..=hi, skewed to small values
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        let mut n = lo;
        while n < hi && self.chance(3, 5) {
            n += 1;
        }
        n
    }
}

// ---------------------------------------------------------------- cases

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail { msg: msg.into() }
    }
}

pub type Outcome = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::new(format!($($t)*))) };
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// Run code of the library under test; a panic in it is a failure of the case
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| Fail::new(format!("{what} panicked: {}", last_panic())))
}

pub struct Cx {
    pub labels: BTreeMap<String, u64>,
    pub key: Option<u64>,
    pub sample: Option<String>,
    /// how many checks of the oracle the case made
    pub want_sample: bool,
}

impl Cx {
    pub fn new(want_sample: bool) -> Self {
        Cx { labels: BTreeMap::new(), key: None, sample: None, want_sample }
    }
    pub fn label(&mut self, l: &str) {
        if let Some(n) = self.labels.get_mut(l) {
            *n += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    /// Declare the case non-trivial, identified by `k` when counting distinct ones
    pub fn nontrivial<K: Hash>(&mut self, k: K) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut h);
        if let Some(old) = self.key {
            old.hash(&mut h);
        }
        self.key = Some(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Cx) -> Outcome,
    /// concrete cases that run before the generated ones; returns how many it ran
    pub fixed: Option<fn(bool) -> Result<u64, Fail>>,
    pub assumptions: &'static [&'static str],
}

pub enum CaseEnd {
    Ok,
    Fail(Fail),
    Harness(String),
}

pub fn run_case(check: &Check, src: &mut Src, cx: &mut Cx) -> CaseEnd {
    match catch_unwind(AssertUnwindSafe(|| (check.run)(src, cx))) {
        Ok(Ok(())) => CaseEnd::Ok,
        Ok(Err(f)) => CaseEnd::Fail(f),
        Err(_) => CaseEnd::Harness(last_panic()),
    }
}

#[derive(Default)]
pub struct Summary {
    pub evaluations: u64,
    pub labels: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: BTreeMap<u64, String>,
    pub failure: Option<(u64, Vec<u64>, Fail)>,
    pub harness_error: Option<(u64, String)>,
}

const SAMPLES: usize = 6;
pub const STACK: usize = 512 << 20;

/// Run cases 0..n on all cores; the result does not depend on how they are scheduled
pub fn campaign(check: &Check, seed: u64, n: u64, journal: Option<&std::fs::File>) -> Summary {
    let next = AtomicU64::new(0);
    let slow: u64 = std::env::var("VERIF_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let broken = AtomicBool::new(false);
    let total = Mutex::new(Summary::default());
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop_at, broken, total) = (&next, &stop_at, &broken, &total);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut me = Summary::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || i >= stop_at.load(Ordering::Relaxed) || broken.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(j) = journal {
                            let _ = j.write_all_at(&(i + 1).to_le_bytes(), t as u64 * 8);
                        }
                        let mut src = Src::random(case_seed(seed, check.id, i));
                        let mut cx = Cx::new(me.samples.len() < SAMPLES);
                        let t0 = std::time::Instant::now();
                        let end = run_case(check, &mut src, &mut cx);
                        if slow > 0 && t0.elapsed().as_millis() as u64 > slow {
                            eprintln!("case {i} took {:?}", t0.elapsed());
                        }
                        me.evaluations += 1;
                        for (l, c) in cx.labels {
                            *me.labels.entry(l).or_insert(0) += c;
                        }
                        if let Some(k) = cx.key {
                            me.distinct.insert(k);
                            if let Some(s) = cx.sample {
                                if me.samples.len() < SAMPLES {
                                    me.samples.insert(i, s);
                                }
                            }
                        }
                        match end {
                            CaseEnd::Ok => {}
                            CaseEnd::Fail(f) => {
                                stop_at.fetch_min(i, Ordering::Relaxed);
                                if me.failure.as_ref().is_none_or(|(j, ..)| i < *j) {
                                    me.failure = Some((i, src.rec, f));
                                }
                            }
                            CaseEnd::Harness(m) => {
                                broken.store(true, Ordering::Relaxed);
                                me.harness_error = Some((i, m));
                            }
                        }
                    }
                    if let Some(j) = journal {
                        let _ = j.write_all_at(&0u64.to_le_bytes(), t as u64 * 8);
                    }
                    let mut all = total.lock().unwrap();
                    all.evaluations += me.evaluations;
                    for (l, c) in me.labels {
                        *all.labels.entry(l).or_insert(0) += c;
                    }
                    all.distinct.extend(me.distinct);
                    all.samples.extend(me.samples);
                    if let Some(f) = me.failure {
                        if all.failure.as_ref().is_none_or(|(j, ..)| f.0 < *j) {
                            all.failure = Some(f);
                        }
                    }
                    all.harness_error = all.harness_error.take().or(me.harness_error);
                })
                .expect("spawn");
        }
    });
    let mut all = total.into_inner().unwrap();
    while all.samples.len() > SAMPLES {
        all.samples.pop_last();
    }
    all
}

/// Minimise a failing list of choices
pub fn shrink(check: &Check, first: Vec<u64>, fail: Fail) -> (Vec<u64>, Fail, u64) {
    let mut best = first;
    let mut best_fail = fail;
    let mut runs = 0u64;
    // what is left to try when the time is over is not tried
    let t0 = std::time::Instant::now();
    const BUDGET: u64 = 6000;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_fail: &mut Fail| -> bool {
        runs += 1;
        let mut src = Src::replay(cand);
        let mut cx = Cx::new(false);
        if let CaseEnd::Fail(f) = run_case(check, &mut src, &mut cx) {
            let mut rec = src.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            if (rec.len(), rec.iter().copied().fold(0u128, |a, b| a + u128::from(b)))
                < (best.len(), best.iter().copied().fold(0u128, |a, b| a + u128::from(b)))
            {
                *best = rec;
                *best_fail = f;
                return true;
            }
        }
        false
    };
    let mut used = 0u64;
    loop {
        let before = best.clone();
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 && used < BUDGET && t0.elapsed().as_secs() < 100 {
                i = i.saturating_sub(size);
                let end = (i + size).min(best.len());
                if i >= end {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..end);
                used += 1;
                if attempt(c, &mut best, &mut best_fail) {
                    i = i.min(best.len());
                    continue;
                }
                let mut c = best.clone();
                if c[i..end].iter().any(|x| *x != 0) {
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    used += 1;
                    attempt(c, &mut best, &mut best_fail);
                }
                i = i.min(best.len());
            }
        }
        let mut i = 0;
        while i < best.len() && used < BUDGET && t0.elapsed().as_secs() < 100 {
            let v = best[i];
            for cand in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    used += 1;
                    attempt(c, &mut best, &mut best_fail);
                }
            }
            // lower a count and drop one of the choices behind it
            if i < best.len() && best[i] > 0 {
                for k in 1..=6 {
                    if i + k < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..(i + 1 + k).min(c.len()));
                        used += 1;
                        attempt(c, &mut best, &mut best_fail);
                    }
                }
            }
            i += 1;
        }
        if best == before || used >= BUDGET || t0.elapsed().as_secs() >= 100 {
            return (best, best_fail, runs);
        }
    }
}

// ---------------------------------------------------------------- allocation counting

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

pub static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// More than this many bytes live at once is a runaway evaluation: no case needs a hundredth of it
pub const LIVE_LIMIT: i64 = 8 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
        if l.size() > 65536 && LIVE.fetch_add(l.size() as i64, Ordering::Relaxed) > LIVE_LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 65536 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
        if n > 65536 {
            let delta = n as i64 - if l.size() > 65536 { l.size() as i64 } else { 0 };
            if LIVE.fetch_add(delta, Ordering::Relaxed) > LIVE_LIMIT {
                return std::ptr::null_mut();
            }
        } else if l.size() > 65536 {
            LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn alloc_count() -> (u64, u64) {
    (ALLOCS.with(|c| c.get()), BYTES.with(|c| c.get()))
}
