//! Monitor runtime: deterministic cases, guarded calls into the library under
//! test, step and memory accounting, violation bookkeeping.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- random
#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed), mix(seed ^ 0xdead_beef) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            ((self.u64() >> 11) % n as u64) as usize
        }
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// small sizes mostly, sometimes large
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.below(10) {
            0 => max,
            1..=3 => max.min(64),
            4..=6 => max.min(16),
            _ => max.min(5),
        };
        self.range(0, m)
    }
    /// the length of a text or payload: as size(), and now and then beyond a
    /// power of two at which a narrower type would wrap
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(4000) {
            0 => *self.pick(&[16_383, 16_384, 16_385, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000]),
            1..=12 => *self.pick(&[126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097]),
            _ => self.size(max),
        }
    }
    /// a number of fields, frames or pieces: as given, and now and then at or
    /// beyond a power of two at which a table or counter would fill
    pub fn count(&mut self, usual: usize) -> usize {
        match self.below(1500) {
            0 => *self.pick(&[255, 256, 257, 300, 511, 513, 1000, 1025]),
            1..=3 => *self.pick(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129]),
            _ => usual,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn from_set(&mut self, set: &[u8], n: usize) -> Vec<u8> {
        (0..n).map(|_| *self.pick(set)).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- allocator
pub const ALLOC_CAP: isize = 2 << 30;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static IN_TARGET: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
}

pub struct CountingAlloc;

#[cfg(not(miri))]
unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if !account(l.size() as isize) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        account(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if !account(l.size() as isize) {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if !account(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}

#[cfg(not(miri))]
fn account(d: isize) -> bool {
    CUR.try_with(|c| {
        let v = c.get().saturating_add(d);
        if d > 0 && v > ALLOC_CAP {
            return false;
        }
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    })
    .unwrap_or(true)
}

/// Runs `f` and returns the peak of live bytes this thread allocated during it.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, peak - base)
}
pub fn live_bytes() -> isize {
    CUR.with(|c| c.get())
}

// ---------------------------------------------------------------- panics
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("panic".into(), String::new()))
}

/// Calls the code under test. `Err` carries the panic message and place.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    IN_TARGET.with(|t| t.set(t.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_TARGET.with(|t| t.set(t.get() - 1));
    r.map_err(|_| take_panic())
}

// ---------------------------------------------------------------- context
#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub part: usize,
    pub idx: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: &'static str,
    pub part: usize,
    pub idx: u64,
    pub tier: Tier,
    pub verbose: bool,
    pub viols: BTreeMap<String, (u64, Viol)>,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub harness_errors: Vec<String>,
    pub checks: u64,
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier) -> Ctx {
        Ctx {
            prop,
            part: 0,
            idx: 0,
            tier,
            verbose: false,
            viols: BTreeMap::new(),
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            harness_errors: vec![],
            checks: 0,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let key = format!("max:{}", k);
        let v = self.counters.entry(key).or_insert(0);
        if n > *v {
            *v = n;
        }
    }
    /// records a distinct non-trivial case
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        self.seen(hash_bytes(b) ^ mix(self.part as u64));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 && self.idx % 97 == 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, sig: &str, detail: String) {
        let sig = format!("{}/{}", self.prop, sig);
        if self.verbose {
            println!("  violation {}: {}", sig, detail);
        }
        let (part, idx) = (self.part, self.idx);
        self.viols
            .entry(sig.clone())
            .and_modify(|v| v.0 += 1)
            .or_insert((1, Viol { sig, detail, part, idx }));
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            let mut d = detail();
            if d.len() > 4000 {
                let mut n = 4000;
                while !d.is_char_boundary(n) {
                    n -= 1;
                }
                d.truncate(n);
            }
            self.violation(sig, d);
        }
        ok
    }
    pub fn eq<A: PartialEq + std::fmt::Debug>(
        &mut self,
        got: &A,
        want: &A,
        sig: &str,
        detail: impl FnOnce() -> String,
    ) -> bool {
        let ok = got == want;
        self.check(ok, sig, || format!("got {:?}, want {:?}; {}", got, want, detail()))
    }
    /// guarded call: a panic in the code under test is a violation
    pub fn call<T>(&mut self, what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err((msg, loc)) => {
                if msg.starts_with(BUDGET_MSG) {
                    self.violation(&format!("steps:{}", what), format!("{}; input {}", msg, input()));
                } else {
                    self.violation(
                        &format!("panic:{}", what),
                        format!("{} at {}; input {}", msg, loc, input()),
                    );
                }
                None
            }
        }
    }
    pub fn run_case(&mut self, f: fn(&mut Rng, &mut Ctx, u64), part: usize, idx: u64, seed: u64) {
        self.part = part;
        self.idx = idx;
        IN_TARGET.with(|t| t.set(0));
        let mut rng = Rng::new(seed);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, self, idx)));
        if r.is_err() {
            let (msg, loc) = take_panic();
            if loc.contains("/repo/src/") {
                self.violation("panic:uncaught", format!("{} at {}", msg, loc));
            } else {
                // A case is a pure function of its seed and only uses results
                // its oracle already relies on: when the workload itself cannot
                // go on, the library refused or altered something it must take.
                self.violation("unexpected", format!("the workload could not go on: {} at {}", msg, loc));
            }
        }
    }
}

pub fn case_seed(seed: u64, prop: &str, part: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(prop.as_bytes())) ^ hash_bytes(part.as_bytes()) ^ mix(idx))
}

#[derive(Clone)]
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Rng, &mut Ctx, u64),
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
    pub assumptions: Vec<&'static str>,
}

pub fn part(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Rng, &mut Ctx, u64)) -> Part {
    Part { name, quick, thorough, f }
}

// ---------------------------------------------------------------- formatting
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        if i > 400 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        for e in std::ascii::escape_default(*c) {
            s.push(e as char);
        }
    }
    s
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        if i > 300 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", c));
    }
    s
}

// ---------------------------------------------------------------- buffers
use algorithm::buf::{Binary, Bt};

pub const BUDGET_MSG: &str = "step budget exhausted";

/// A read buffer that counts every access to it and stops a reader which needs
/// more than `budget` accesses, so that an endless loop is found without a clock.
#[derive(Debug)]
pub struct CountBt {
    data: Vec<u8>,
    pos: usize,
    steps: Cell<u64>,
    budget: u64,
}

impl CountBt {
    pub fn new(data: Vec<u8>) -> CountBt {
        let budget = 20_000 + 400 * data.len() as u64;
        CountBt { data, pos: 0, steps: Cell::new(0), budget }
    }
    pub fn steps(&self) -> u64 {
        self.steps.get()
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    fn tick(&self) {
        let n = self.steps.get() + 1;
        self.steps.set(n);
        if n > self.budget {
            panic!("{} after {} accesses to {} bytes", BUDGET_MSG, n, self.data.len());
        }
    }
}

impl From<Vec<u8>> for CountBt {
    fn from(v: Vec<u8>) -> CountBt {
        CountBt::new(v)
    }
}

impl Bt for CountBt {
    fn remaining(&self) -> usize {
        self.tick();
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        self.tick();
        &self.data[self.pos..]
    }
    fn advance(&mut self, n: usize) {
        self.tick();
        assert!(n <= self.data.len() - self.pos, "advance {} past the end", n);
        self.pos += n;
    }
    fn advance_chunk(&mut self, n: usize) -> &[u8] {
        self.tick();
        assert!(n <= self.data.len() - self.pos, "advance_chunk {} past the end", n);
        let p = self.pos;
        self.pos += n;
        &self.data[p..p + n]
    }
    fn into_binary(self) -> Binary {
        Binary::from(self.data[self.pos..].to_vec())
    }
}
