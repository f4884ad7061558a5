//! Small property-testing engine with integrated shrinking.
//!
//! A test case is a pure function of a *tape* of integers (the recorded random choices of its
//! generator).  Fresh cases fill the tape from a seeded PRNG; failures are minimised by editing the
//! tape (deleting, zeroing and lowering choices) and re-running, so every generator shrinks for
//! free and a replay file is just a tape.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: u64,
    random: bool,
    record: Option<std::fs::File>,
}

/// stack of every thread that runs cases: what std gives a spawned thread by default
pub const STACK: usize = 2 << 20;

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        Src { tape: Vec::with_capacity(64), pos: 0, rng: seed, random: true, record: None }
    }
    pub fn from_tape(tape: Vec<u64>) -> Src {
        Src { tape, pos: 0, rng: 0, random: false, record: None }
    }
    /// Uniform choice in 0..n (n >= 1); 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        if self.random {
            let v = if n == 1 { 0 } else { splitmix(&mut self.rng) % n };
            self.tape.push(v);
            self.pos += 1;
            if let Some(f) = &mut self.record {
                use std::io::Write;
                let _ = f.write_all(&v.to_le_bytes());
            }
            v
        } else {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            let v = if v < n { v } else { v % n };
            if self.pos < self.tape.len() {
                self.tape[self.pos] = v;
            }
            self.pos += 1;
            v
        }
    }
    /// write every draw to a file (to recover the tape of a case that kills the process)
    pub fn record_to(&mut self, f: std::fs::File) {
        self.record = Some(f);
    }
    /// record v (must be below n) as the choice, unless choices come from a tape
    fn force(&mut self, v: u64, n: u64) -> u64 {
        if self.random {
            self.tape.push(v);
            self.pos += 1;
            if let Some(f) = &mut self.record {
                use std::io::Write;
                let _ = f.write_all(&v.to_le_bytes());
            }
            v
        } else {
            self.below(n)
        }
    }
    /// a value in 0..n from the dictionary of constants, from around powers of two, or any
    pub fn lit(&mut self, n: u64) -> u64 {
        if !self.random {
            return self.below(n);
        }
        let d = crate::dict::get();
        for _ in 0..12 {
            let r = splitmix(&mut self.rng);
            let k = (splitmix(&mut self.rng) >> 8) as usize;
            let base = match r % 10 {
                0..=5 if !d.new.is_empty() => d.new[k % d.new.len()],
                0..=7 if !d.old.is_empty() => d.old[k % d.old.len()],
                8 => 1u64 << (k % 64),
                _ => splitmix(&mut self.rng) % n,
            };
            let v = match (r >> 32) % 8 {
                0 | 1 => base.wrapping_add(1),
                2 => base.wrapping_sub(1),
                _ => base,
            };
            if v < n {
                return self.force(v, n);
            }
        }
        self.below(n)
    }
    /// octets from the dictionary of constants (may be empty)
    pub fn lit_bytes(&mut self) -> Vec<u8> {
        let mut v: &[u8] = &[];
        if self.random {
            let d = crate::dict::get();
            let r = splitmix(&mut self.rng);
            let k = (r >> 8) as usize;
            let l = if r % 3 > 0 && !d.new_bytes.is_empty() { &d.new_bytes } else { &d.old_bytes };
            if !l.is_empty() {
                v = &l[k % l.len()];
            }
        }
        let n = self.force(v.len() as u64, 65) as usize;
        (0..n).map(|i| self.force(v.get(i).copied().unwrap_or(0) as u64, 256) as u8).collect()
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    pub fn pick<'b, T>(&mut self, s: &'b [T]) -> &'b T {
        let i = self.usize(s.len());
        &s[i]
    }
    /// index according to weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    pub fn used_tape(&self) -> Vec<u64> {
        let n = self.pos.min(self.tape.len());
        self.tape[..n].to_vec()
    }
}

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub quiet: bool,
    pub sample_every: u64,
}

const DISTINCT_CAP: usize = 3_000_000;

impl Cov {
    pub fn label(&mut self, l: &'static str) {
        if !self.quiet {
            *self.labels.entry(l).or_insert(0) += 1;
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    /// Record a non-trivial case (identified by its bytes)
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, id: &T, show: impl FnOnce() -> String) {
        if self.quiet {
            return;
        }
        self.nontrivial += 1;
        if self.distinct.len() < DISTINCT_CAP {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            id.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 6 {
            if self.sample_every == 0 {
                self.sample_every = 1;
            }
            if self.nontrivial % self.sample_every == 0 {
                let mut s = show();
                if s.len() > 300 {
                    let mut k = 300;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                    s.push_str("...");
                }
                self.samples.push(s);
                self.sample_every *= 7;
            }
        }
    }
    fn merge(&mut self, o: Cov) {
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        if self.distinct.len() < DISTINCT_CAP {
            self.distinct.extend(o.distinct);
        }
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Cov) -> Result<(), String>;

#[derive(Clone, Copy)]
pub enum Size {
    /// number of random cases (quick, thorough)
    Random(u64, u64),
    /// enumerate all indices 0..n : the tape starts with the index (quick, thorough)
    Exhaustive(u64, u64),
    /// the tape starts with one of these values (for quick or thorough)
    List(fn(bool) -> Vec<u64>),
}

pub struct Sub {
    pub name: &'static str,
    pub size: Size,
    pub run: CaseFn,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Pass,
    Fail(String),
    /// the harness itself is broken (panic located in harness code)
    Broken(String),
}

pub fn run_case(f: CaseFn, src: &mut Src, cov: &mut Cov) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(src, cov)));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let m = format!("panic at {loc}: {msg}");
            if loc.starts_with("src/") || loc.contains("/verif/") {
                Outcome::Broken(m)
            } else {
                Outcome::Fail(m)
            }
        }
    }
}

/// Call library code and turn a panic into Err (for properties that want to name the call)
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let lp = LAST_PANIC.with(|p| p.borrow_mut().take());
            if let Some((loc, msg)) = lp {
                if loc.starts_with("src/") || loc.contains("/verif/") {
                    LAST_PANIC.with(|q| *q.borrow_mut() = Some((loc, msg)));
                    std::panic::resume_unwind(p);
                }
                return Err(format!("{what}: panic at {loc}: {msg}"));
            }
            Err(format!("{what}: panic"))
        }
    }
}

pub struct Failure {
    pub sub: &'static str,
    pub tape: Vec<u64>,
    pub msg: String,
    pub idx: u64,
}

pub struct RunResult {
    pub cov: Cov,
    pub per_sub: Vec<(&'static str, u64, u64)>,
    pub failure: Option<Failure>,
    pub broken: Option<String>,
}

/// which case each thread is running, and since when
pub struct Journal {
    file: Option<std::fs::File>,
    slots: Vec<[std::sync::atomic::AtomicU64; 3]>,
    t0: std::time::Instant,
}
impl Journal {
    pub fn open(path: Option<&str>) -> Journal {
        let file = path.map(|p| {
            std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("journal")
        });
        let slots = (0..33).map(|_| std::array::from_fn(|_| std::sync::atomic::AtomicU64::new(0))).collect();
        Journal { file, slots, t0: std::time::Instant::now() }
    }
    /// slot of work outside the numbered cases
    pub const EXTRA: usize = 32;
    pub fn begin(&self, slot: usize, sub: u64, idx: u64) {
        use std::sync::atomic::Ordering::Relaxed;
        let s = &self.slots[slot % 33];
        s[0].store(0, Relaxed);
        s[1].store(sub, Relaxed);
        s[2].store(idx, Relaxed);
        s[0].store(self.t0.elapsed().as_millis() as u64 + 1, std::sync::atomic::Ordering::Release);
    }
    pub fn end(&self, slot: usize) {
        self.slots[slot % 33][0].store(0, std::sync::atomic::Ordering::Relaxed);
    }
    /// a case that has been running for longer than `ms`: (slot, sub, idx)
    pub fn overdue(&self, ms: u64) -> Option<(usize, u64, u64)> {
        use std::sync::atomic::Ordering::{Acquire, Relaxed};
        let now = self.t0.elapsed().as_millis() as u64;
        self.slots.iter().enumerate().find_map(|(k, s)| {
            let t = s[0].load(Acquire);
            (t > 0 && now > t + ms).then(|| (k, s[1].load(Relaxed), s[2].load(Relaxed)))
        })
    }
    fn note(&self, thread: usize, sub: u64, idx: u64) {
        self.begin(thread, sub, idx);
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(sub + 1).to_le_bytes());
            b[8..].copy_from_slice(&idx.to_le_bytes());
            let _ = f.write_all_at(&b, thread as u64 * 16);
        }
    }
}

pub fn case_src(seed: u64, sub: &Sub, idx: u64) -> Src {
    match sub.size {
        Size::Random(..) => Src::from_seed(mix(mix(seed, hash_str(sub.name)), idx)),
        Size::Exhaustive(..) | Size::List(_) => Src::from_tape(vec![idx]),
    }
}

pub fn run_subs(subs: &[Sub], seed: u64, thorough: bool, scale: f64, threads: usize, journal: &Journal) -> RunResult {
    use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
    let mut total = RunResult { cov: Cov::default(), per_sub: vec![], failure: None, broken: None };
    for (si, sub) in subs.iter().enumerate() {
        let list = match sub.size {
            Size::List(f) => f(thorough),
            _ => vec![],
        };
        let n = match (sub.size, thorough) {
            (Size::List(_), _) => list.len() as u64,
            (Size::Random(q, _), false) => ((q as f64 * scale) as u64).max(1),
            (Size::Random(_, t), true) => ((t as f64 * scale) as u64).max(1),
            (Size::Exhaustive(q, _), false) => q,
            (Size::Exhaustive(_, t), true) => t,
        };
        let stop = AtomicBool::new(false);
        let min_fail = AtomicU64::new(u64::MAX);
        let next = AtomicU64::new(0);
        let chunk = (n / (threads as u64 * 16)).clamp(1, 4096);
        let results: Vec<(Cov, Option<Failure>, Option<String>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (stop, min_fail, next, list) = (&stop, &min_fail, &next, &list);
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            let mut cov = Cov::default();
                            let mut fail: Option<Failure> = None;
                            let mut broken = None;
                            'outer: loop {
                                let base = next.fetch_add(chunk, Ordering::Relaxed);
                                if base >= n || base > min_fail.load(Ordering::Relaxed) {
                                    break;
                                }
                                for idx in base..(base + chunk).min(n) {
                                    if stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    let code = list.get(idx as usize).copied().unwrap_or(idx);
                                    journal.note(t, si as u64, code);
                                    let mut src = case_src(seed, sub, code);
                                    cov.evals += 1;
                                    match run_case(sub.run, &mut src, &mut cov) {
                                        Outcome::Pass => {}
                                        Outcome::Fail(msg) => {
                                            min_fail.fetch_min(idx, Ordering::Relaxed);
                                            if fail.as_ref().map_or(true, |f| f.idx > idx) {
                                                fail = Some(Failure { sub: sub.name, tape: src.used_tape(), msg, idx });
                                            }
                                            break 'outer;
                                        }
                                        Outcome::Broken(m) => {
                                            broken = Some(format!("{} case {}: {}", sub.name, idx, m));
                                            stop.store(true, Ordering::Relaxed);
                                            break 'outer;
                                        }
                                    }
                                }
                            }
                            journal.end(t);
                            (cov, fail, broken)
                        })
                        .expect("spawn")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
        });
        let mut evals = 0;
        let before = total.cov.distinct.len() as u64;
        for (cov, fail, broken) in results {
            evals += cov.evals;
            total.cov.merge(cov);
            if let Some(f) = fail {
                if total.failure.as_ref().map_or(true, |g| g.idx > f.idx) {
                    total.failure = Some(f);
                }
            }
            if total.broken.is_none() {
                total.broken = broken;
            }
        }
        total.per_sub.push((sub.name, evals, total.cov.distinct.len() as u64 - before));
        if total.failure.is_some() || total.broken.is_some() {
            break;
        }
    }
    total
}

fn better(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Shrink a failing tape. `fails` returns the (possibly normalised) tape and message if it still fails.
pub fn shrink(mut best: Vec<u64>, mut msg: String, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<(Vec<u64>, String)>) -> (Vec<u64>, String) {
    let mut left = budget;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String, left: &mut usize| -> bool {
        if *left == 0 || !better(&cand, best) {
            return false;
        }
        *left -= 1;
        if let Some((t, m)) = fails(&cand) {
            let t = if better(&t, &cand) { t } else { cand };
            *best = t;
            *msg = m;
            true
        } else {
            false
        }
    };
    loop {
        let start = best.clone();
        // delete chunks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut msg, &mut left) {
                    i += 1.max(size / 2);
                }
            }
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    attempt(c, &mut best, &mut msg, &mut left);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            let mut lo = 0u64;
            let mut hi = v;
            while lo < hi && left > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if attempt(c, &mut best, &mut msg, &mut left) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                attempt(c, &mut best, &mut msg, &mut left);
                // lower one value while deleting the next (lists)
                if i + 1 < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.remove(i + 1);
                    attempt(c, &mut best, &mut msg, &mut left);
                }
            }
            i += 1;
        }
        if best == start || left == 0 {
            return (best, msg);
        }
    }
}
