//! Simulator core: one integer decides everything.
//!
//! Every choice a run makes (schedules, faults, generated operations, values)
//! is drawn from a [`Tape`].  In search mode the tape is filled by a PRNG
//! seeded from VERIF_SEED, the property and the run number; in replay mode it
//! is read back from a file.  A run is therefore a pure function of its tape,
//! and shrinking a failure means shrinking its tape.  By convention the value
//! 0 of every choice is the simplest one (no fault, first node, small value).
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

/// xoshiro256**
#[derive(Clone, Debug)]
pub struct Prng([u64; 4]);

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0u64; 4];
        let mut z = seed;
        for e in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *e = mix(z);
        }
        Prng(s)
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

impl rand::Rng for Prng {
    fn next_u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
}

#[derive(Clone)]
pub struct Tape {
    rng: Prng,
    replay: Option<Vec<u64>>,
    pos: usize,
    rec: Vec<u64>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { rng: Prng::new(seed), replay: None, pos: 0, rec: vec![] }
    }
    pub fn replay(vals: Vec<u64>) -> Self {
        Tape { rng: Prng::new(0), replay: Some(vals), pos: 0, rec: vec![] }
    }
    /// A tape that was played elsewhere.
    pub fn recorded(vals: Vec<u64>) -> Self {
        Tape { rng: Prng::new(0), replay: Some(vals.clone()), pos: vals.len(), rec: vals }
    }
    /// `n == 0` means the full 64-bit range.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if n > 0 {
                    v.min(n - 1)
                } else {
                    v
                }
            }
            None => {
                if n > 0 {
                    self.rng.below(n)
                } else {
                    self.rng.next()
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable class: shrinking keeps it fixed.
    pub class: String,
    pub detail: String,
}

impl Violation {
    pub fn new<C: Into<String>, D: Into<String>>(class: C, detail: D) -> Self {
        Violation { class: class.into(), detail: detail.into() }
    }
}

pub type Outcome = Result<(), Violation>;

#[macro_export]
macro_rules! violated {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::core::Violation::new($class, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::core::Violation::new($class, format!($($arg)*)));
        }
    };
}

/// Per-run context: the tape, the event log, the counters.
pub struct Ctx {
    tape: RefCell<Tape>,
    pub log: RefCell<Vec<String>>,
    pub faults: RefCell<BTreeMap<String, u64>>,
    pub probes: RefCell<BTreeMap<String, u64>>,
    pub checks: Cell<u64>,
    pub ops: Cell<u64>,
    pub simtime: Cell<u64>,
    pub states: RefCell<Vec<u64>>,
    pub thorough: bool,
    loghash: Cell<u64>,
}

impl Ctx {
    pub fn new(tape: Tape, thorough: bool) -> Self {
        Ctx {
            tape: RefCell::new(tape),
            log: RefCell::new(vec![]),
            faults: RefCell::new(BTreeMap::new()),
            probes: RefCell::new(BTreeMap::new()),
            checks: Cell::new(0),
            ops: Cell::new(0),
            simtime: Cell::new(0),
            states: RefCell::new(vec![]),
            thorough,
            loghash: Cell::new(0),
        }
    }
    pub fn draw(&self, n: u64) -> u64 {
        self.tape.borrow_mut().draw(n)
    }
    pub fn below(&self, n: usize) -> usize {
        self.draw(n.max(1) as u64) as usize
    }
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; 0 on the tape is `false`.
    /// A size: below `small` nearly always, now and then up to `big`.
    pub fn size(&self, small: usize, rarely: u64, big: usize) -> usize {
        if self.draw(rarely) == rarely - 1 {
            match self.draw(3) {
                // around the powers of two
                0 => ((1usize << self.range(3, 12)) + self.below(3)).saturating_sub(1).min(big),
                _ => self.range(small, big),
            }
        } else {
            self.below(small)
        }
    }
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'t, T>(&self, v: &'t [T]) -> &'t T {
        &v[self.below(v.len())]
    }
    pub fn u64(&self) -> u64 {
        self.draw(0)
    }
    /// A PRNG for bulk data, seeded by one tape entry.
    pub fn prng(&self) -> Prng {
        Prng::new(self.draw(0))
    }
    pub fn event<S: Into<String>>(&self, s: S) {
        let s = s.into();
        self.loghash.set(mix(self.loghash.get() ^ hash_str(&s)));
        self.log.borrow_mut().push(s);
    }
    pub fn fault(&self, kind: &str) {
        *self.faults.borrow_mut().entry(kind.to_string()).or_insert(0) += 1;
        self.loghash.set(mix(self.loghash.get() ^ hash_str(kind)));
    }
    pub fn probe(&self, kind: &str) {
        *self.probes.borrow_mut().entry(kind.to_string()).or_insert(0) += 1;
    }
    pub fn probe_n(&self, kind: &str, n: u64) {
        *self.probes.borrow_mut().entry(kind.to_string()).or_insert(0) += n;
    }
    pub fn checked(&self) {
        self.checks.set(self.checks.get() + 1);
    }
    pub fn op(&self) {
        self.ops.set(self.ops.get() + 1);
    }
    pub fn state(&self, h: u64) {
        self.states.borrow_mut().push(h);
        self.loghash.set(mix(self.loghash.get() ^ h));
    }
    pub fn advance(&self, dt: u64) {
        self.simtime.set(self.simtime.get() + dt);
    }
    pub fn trace_hash(&self) -> u64 {
        self.loghash.get()
    }
    pub fn set_hash(&self, h: u64) {
        self.loghash.set(h);
    }
    pub fn recorded(&self) -> Vec<u64> {
        self.tape.borrow().rec.clone()
    }
    pub fn n_draws(&self) -> usize {
        self.tape.borrow().rec.len()
    }
    pub fn n_faults(&self) -> u64 {
        self.faults.borrow().values().sum()
    }
}

/// Runs library code that may legitimately refuse by panicking.
/// `Err` carries the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|e| panic_text(&e))
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

thread_local! {
    pub static QUIET: Cell<u32> = const { Cell::new(0) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
