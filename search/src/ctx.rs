//! Case runner: numbers the cases, catches panics, prints the first witness.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static QUIET: AtomicBool = AtomicBool::new(false);
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1) }
    pub fn next(&mut self) -> u64 {
        // xorshift64*
        let mut x = self.0;
        x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { (a as i128 + (self.next() as i128 % (b as i128 - a as i128 + 1))) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub rng: Rng,
    pub only: Option<u64>,
    pub deadline: Instant,
    pub stages: Vec<(String, u64)>,
    pub stage_end: Option<Instant>,
    pub budget: Duration,
}

pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.store(true, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.store(false, SeqCst);
    r.map_err(|_| format!("panicked: {}", LAST_PANIC.lock().unwrap()))
}
pub fn panics<T>(f: impl FnOnce() -> T) -> bool { no_panic(f).is_err() }

impl Ctx {
    pub fn new(prop: &str, seed: u64, budget: Duration, only: Option<u64>) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let m = info.to_string().replace('\n', " ");
            if QUIET.load(SeqCst) {
                // a panic that cannot unwind aborts the process: leave a trace first
                if m.contains("unsafe precondition") || m.contains("cannot unwind") || m.contains("non-unwinding") {
                    println!("ABORT case={} {}", CASE.load(SeqCst), m);
                }
                if let Ok(mut l) = LAST_PANIC.lock() { *l = m; }
            } else {
                println!("HARNESS-PANIC case={} {}", CASE.load(SeqCst), m);
            }
        }));
        // watchdog: a tiny case which runs for 25 s does not terminate
        std::thread::spawn(|| {
            let (mut last, mut since) = (u64::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let n = CASE.load(SeqCst);
                if n != last { last = n; since = Instant::now(); }
                else if n > 0 && since.elapsed() > Duration::from_secs(25) {
                    println!("ABORT case={} does not terminate (25 s on one small case)", n);
                    std::process::exit(3);
                }
            }
        });
        Ctx { prop: prop.into(), seed, rng: Rng::new(seed ^ 0xC0FFEE), only, deadline: Instant::now() + budget, stages: vec![], stage_end: None, budget }
    }
    /// starts a named stage, which may use at most `share` percent of the budget (random stages only)
    pub fn stage(&mut self, name: &str, share: u32) {
        self.rng = Rng::new(self.seed.wrapping_add(name.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64))));
        self.stages.push((name.into(), 0));
        self.stage_end = Some(Instant::now() + self.budget * share / 100);
    }
    /// random stages: continue ? (a replay of one case must not stop before it: it ignores the clock)
    pub fn more(&self) -> bool {
        match self.only {
            Some(n) => CASE.load(SeqCst) < n,
            None => Instant::now() < self.stage_end.unwrap(),
        }
    }
    pub fn case<D: Fn() -> String>(&mut self, desc: D, f: impl FnOnce() -> Result<(), String>) {
        let n = CASE.load(SeqCst) + 1;
        CASE.store(n, SeqCst);
        if let Some(o) = self.only { if o != n { return; } }
        if let Some(s) = self.stages.last_mut() { s.1 += 1; }
        let r = match no_panic(f) { Ok(r) => r, Err(e) => Err(e) };
        if self.only.is_some() { println!("CASE {} : {}", n, desc()); }
        if let Err(e) = r {
            println!("WITNESS property={} seed={} case={} input=<<{}>> problem=<<{}>>", self.prop, self.seed, n, desc().replace('\n', " "), e.replace('\n', " "));
            std::process::exit(1);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! same {
    ($what:expr, $got:expr, $exp:expr) => {{ match (&$got, &$exp) { (g, e) => if *g != *e { return Err(format!("{}: got {:?}, expected {:?}", $what, g, e)); } } }};
}
