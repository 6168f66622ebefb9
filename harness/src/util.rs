use std::cell::RefCell;
use std::collections::HashSet;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

pub struct Failure {
    pub what: String,
    pub trace: Vec<String>,
}
pub type R = Result<(), String>;
pub type Fu = Pin<Box<dyn Future<Output = R>>>;

#[macro_export]
macro_rules! chk {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, case: u64) -> Self {
        let a = Rng(seed).next();
        let b = Rng(!case).next();
        Rng(a ^ b.rotate_left(17))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// small mostly, sometimes an extreme
    pub fn count(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => u32::MAX,
            2 => u32::MAX - self.below(3) as u32,
            3 => self.next() as u32,
            _ => self.below(12) as u32,
        }
    }
}

static TRACE: Mutex<Vec<String>> = Mutex::new(Vec::new());
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static SEEN: OnceLock<Mutex<HashSet<u64>>> = OnceLock::new();
static SAMPLE: Mutex<Vec<String>> = Mutex::new(Vec::new());
thread_local! { static QUIET: RefCell<bool> = const { RefCell::new(false) }; }

/// the history of the case that is running
#[derive(Clone)]
pub struct Trace;
impl Trace {
    pub fn log(&self, s: impl Into<String>) {
        TRACE.lock().unwrap().push(s.into());
    }
}
pub fn current() -> Vec<String> {
    TRACE.lock().map(|t| t.clone()).unwrap_or_default()
}
pub fn panics() -> Vec<String> {
    PANICS.lock().map(|t| t.clone()).unwrap_or_default()
}
pub fn distinct() -> usize {
    SEEN.get_or_init(Default::default).lock().unwrap().len()
}
pub fn sample() -> Vec<String> {
    SAMPLE.lock().unwrap().clone()
}
fn begin() {
    TRACE.lock().unwrap().clear();
}
fn end() {
    let t = TRACE.lock().unwrap();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    if t.len() > 1 {
        SEEN.get_or_init(Default::default).lock().unwrap().insert(h.finish());
    }
    let mut s = SAMPLE.lock().unwrap();
    if s.is_empty() && t.len() > 3 {
        *s = t.iter().take(40).cloned().collect();
    }
}
fn fail(what: String) -> Failure {
    Failure { what, trace: current() }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        if QUIET.with(|q| *q.borrow()) {
            return;
        }
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let mut p = PANICS.lock().unwrap();
        if p.len() < 20 {
            p.push(format!("{at}: {what}"));
        }
    }));
}

pub fn pure(seed: u64, n: u64, f: fn(&mut Rng, &Trace) -> R) -> Result<u64, Failure> {
    for case in 0..n {
        begin();
        let mut r = Rng::new(seed, case);
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, &Trace)));
        match out {
            Ok(Ok(())) => end(),
            Ok(Err(e)) => return Err(fail(e)),
            Err(_) => return Err(fail(format!("panicked: {}", panics().last().cloned().unwrap_or_default()))),
        }
    }
    Ok(n)
}

fn drive(pause: bool, seed: u64, n: u64, f: impl Fn(Rng, Trace) -> Fu + 'static) -> Result<u64, Failure> {
    for case in 0..n {
        begin();
        let sys = actix_rt::System::with_tokio_rt(move || tokio::runtime::Builder::new_current_thread().enable_all().start_paused(pause).build().unwrap());
        let fut = f(Rng::new(seed, case), Trace);
        let out = sys.block_on(async move { actix_rt::spawn(fut).await });
        match out {
            Ok(Ok(())) => end(),
            Ok(Err(e)) => return Err(fail(e)),
            Err(e) => return Err(fail(format!("panicked: {} {e}", panics().last().cloned().unwrap_or_default()))),
        }
    }
    Ok(n)
}
/// with a clock that only moves when everything is idle
pub fn paused(seed: u64, n: u64, f: impl Fn(Rng, Trace) -> Fu + 'static) -> Result<u64, Failure> {
    drive(true, seed, n, f)
}
pub fn real(seed: u64, n: u64, f: impl Fn(Rng, Trace) -> Fu + 'static) -> Result<u64, Failure> {
    drive(false, seed, n, f)
}
pub async fn pass(d: Duration) {
    actix::clock::sleep(d).await
}
/// let every ready task run
pub async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}
