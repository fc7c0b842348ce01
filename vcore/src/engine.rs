//! Choice-sequence generation, shrinking, case running, accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

// ---------------------------------------------------------------- allocator
pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

extern "C" {
    fn _exit(code: i32) -> !;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}
#[inline]
fn grow(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed)
    }
    if live > CAP.load(Relaxed) {
        unsafe { _exit(98) }
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size())
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: Counting = Counting;

/// Runs `f` with at most `cap` further bytes allocated at any moment; going beyond ends the
/// process with status 98. Returns the result and the peak.
pub fn capped<T>(cap: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    let old = CAP.swap(base.saturating_add(cap), Relaxed);
    PEAK.store(base, Relaxed);
    // restored on unwinding too
    struct Back(usize);
    impl Drop for Back {
        fn drop(&mut self) {
            CAP.store(self.0, Relaxed)
        }
    }
    let b = Back(old);
    let r = f();
    drop(b);
    (r, PEAK.load(Relaxed).saturating_sub(base))
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

// ---------------------------------------------------------------- choices
#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut sm = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        Rng(sm(), sm() | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xoroshiro128+
        let (a, mut b) = (self.0, self.1);
        let r = a.wrapping_add(b);
        b ^= a;
        self.0 = a.rotate_left(24) ^ b ^ (b << 16);
        self.1 = b.rotate_left(37);
        r
    }
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

/// Every random decision of a case goes through here; 0 is the simplest choice.
pub struct Src {
    pub choices: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// every new choice is appended here at once (for cases that end the process)
    pub trace: Option<std::fs::File>,
}
impl Src {
    pub fn random(seed: u64, first: Option<u64>) -> Src {
        Src { choices: first.into_iter().collect(), pos: 0, rng: Some(Rng::new(seed)), trace: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { choices, pos: 0, rng: None, trace: None }
    }
    fn draw(&mut self, n: u64) -> u64 {
        // n == 0: all 64 bits
        let v = if self.pos < self.choices.len() {
            let v = self.choices[self.pos];
            if n == 0 {
                v
            } else {
                v % n
            }
        } else if let Some(r) = &mut self.rng {
            let v = r.next();
            let v = if n == 0 { v } else { ((v as u128 * n as u128) >> 64) as u64 };
            self.choices.push(v);
            if let Some(f) = &mut self.trace {
                use std::io::Write;
                let _ = f.write_all(&v.to_le_bytes());
            }
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn bits(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den (false is simplest)
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i + 1);
            xs.swap(i, j)
        }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}

// ---------------------------------------------------------------- cases
pub struct Fail {
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail { msg: format!($($a)*) }); } };
}

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub nontrivial: u64,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub index: u64,
    pub sub: &'static str,
}
impl Ctx {
    pub fn eval(&mut self) {
        self.evals += 1
    }
    /// Counts one more evaluated case, non-trivial by the check's rule, identified by `key`.
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.nontrivial += 1;
        if self.hashes.len() < 3_000_000 {
            self.hashes.insert(hash64(key));
        }
    }
    pub fn label(&mut self, l: &str) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += 1
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 300 {
                let mut n = 300;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(format!("[{}] {}", self.sub, s));
        }
    }
}

pub type CaseFn = Box<dyn Fn(&mut Src, &mut Ctx) -> R + Send + Sync>;
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// the case index is the first choice (enumeration rather than sampling)
    pub indexed: bool,
    pub f: CaseFn,
}
impl Sub {
    pub fn new(name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Src, &mut Ctx) -> R + Send + Sync + 'static) -> Sub {
        Sub { name, quick, thorough, indexed: false, f: Box::new(f) }
    }
    /// Enumerates 0..n: the first `below`/`bits` drawn by the case is the index.
    pub fn indexed(name: &'static str, quick: u64, thorough: u64, f: impl Fn(&mut Src, &mut Ctx) -> R + Send + Sync + 'static) -> Sub {
        Sub { name, quick, thorough, indexed: true, f: Box::new(f) }
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, m));
    }));
}
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn run_case(sub: &Sub, src: &mut Src, ctx: &mut Ctx) -> R {
    CASE_START.store(cpu_ms(), Relaxed);
    match catch_unwind(AssertUnwindSafe(|| (sub.f)(src, ctx))) {
        Ok(r) => r,
        Err(_) => {
            CAP.store(usize::MAX, Relaxed);
            fail(last_panic())
        }
    }
}

// ---------------------------------------------------------------- watchdog
static CASE_START: AtomicU64 = AtomicU64::new(0);
pub fn cpu_ms() -> u64 {
    let mut t = [0i64; 2];
    // CLOCK_PROCESS_CPUTIME_ID
    unsafe { clock_gettime(2, &mut t) };
    (t[0] as u64) * 1000 + (t[1] as u64) / 1_000_000
}
pub const CASE_CPU_MS: u64 = 20_000;
/// Ends the process with status 97 when a case has used `ms` of processor time.
pub fn watchdog(ms: u64) {
    watchdog_rest();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(250));
        let s = CASE_START.load(Relaxed);
        if s != u64::MAX && cpu_ms().saturating_sub(s) > ms {
            unsafe { _exit(97) }
        }
    });
}
pub fn watchdog_rest() {
    CASE_START.store(u64::MAX, Relaxed)
}
/// Restarts the clock of the current case (for subs that do many units of work in one case).
pub fn watchdog_kick() {
    CASE_START.store(cpu_ms(), Relaxed)
}

// ---------------------------------------------------------------- shrinking
/// `test` says whether a choice sequence still fails. Returns the smallest found.
pub fn shrink(start: Vec<u64>, budget_ms: u64, keep_first: bool, test: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let over = || t0.elapsed().as_millis() as u64 > budget_ms;
    let lo = keep_first as usize;
    let mut best = start;
    loop {
        let before = best.clone();
        // delete blocks
        let mut block = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > lo {
                let a = i.saturating_sub(block).max(lo);
                let mut c = best.clone();
                c.drain(a..i);
                if !over() && test(&c) {
                    best = c;
                    i = a.min(best.len());
                } else {
                    i = i.saturating_sub(block.max(1)).max(lo);
                    if i == lo {
                        break;
                    }
                }
            }
            if block == 1 || over() {
                break;
            }
            block /= 2;
        }
        // zero blocks
        let mut block = (best.len() / 4).max(1);
        loop {
            let mut i = lo;
            while i < best.len() && !over() {
                let b = (i + block).min(best.len());
                if best[i..b].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..b].iter_mut().for_each(|x| *x = 0);
                    if test(&c) {
                        best = c;
                    }
                }
                i = b;
            }
            if block == 1 || over() {
                break;
            }
            block /= 2;
        }
        // lower values
        for i in lo..best.len() {
            if over() {
                break;
            }
            let (mut a, mut b) = (0u64, best[i]);
            while a < b && !over() {
                let m = a + (b - a) / 2;
                let mut c = best.clone();
                c[i] = m;
                if test(&c) {
                    best = c;
                    b = m;
                } else {
                    a = m + 1;
                }
            }
        }
        if best == before || over() {
            return best;
        }
    }
}

// ---------------------------------------------------------------- json output
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
