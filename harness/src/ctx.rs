//! Case runner: every executable contract evaluation is a named case that can be replayed alone.
use rand::{rngs::StdRng, SeedableRng};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static PANICS: AtomicU64 = AtomicU64::new(0);
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Fail {
    pub case: String,
    pub message: String,
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub cases: u64,
    pub evals: u64,
    pub classes: BTreeSet<String>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub undecided: Vec<Fail>,
    pub start: Instant,
    pub budget: Duration,
    pub skipped: u64,
    pub round: usize,
    pub progress: Option<std::path::PathBuf>,
}

thread_local! { pub static EVALS: RefCell<u64> = RefCell::new(0); }

/// One evaluated contract clause.
pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    EVALS.with(|e| *e.borrow_mut() += 1);
    if cond {
        Ok(())
    } else {
        Err(msg())
    }
}

#[macro_export]
macro_rules! ens {
    ($c:expr, $($arg:tt)*) => { $crate::ctx::ensure($c, || format!($($arg)*))? };
}

/// Marker prefix for outcomes that say nothing about the property (machine too slow).
pub const UNDECIDED: &str = "UNDECIDED:";

impl Ctx {
    pub fn rng(&self, tag: &str) -> StdRng {
        let mut h: u64 = 0xcbf29ce484222325 ^ self.seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in self.property.bytes().chain(tag.bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        StdRng::seed_from_u64(h)
    }

    pub fn done(&self) -> bool {
        self.only.is_none() && (self.fails.len() >= 3 || self.start.elapsed() > self.budget)
    }

    /// Run one case. `class` groups cases by what they exercise (distinct non-trivial classes are
    /// counted in the evidence).
    pub fn case<F>(&mut self, name: String, class: &str, f: F)
    where
        F: FnOnce(&mut StdRng) -> Result<(), String>,
    {
        let name = if self.round == 0 { name } else { format!("{name}#{}", self.round) };
        if let Some(o) = &self.only {
            if *o != name {
                return;
            }
        }
        if self.done() {
            self.skipped += 1;
            return;
        }
        let mut rng = self.rng(&name);
        if let Some(p) = &self.progress {
            let _ = std::fs::write(p, &name);
        }
        EVALS.with(|e| *e.borrow_mut() = 0);
        PANICS.store(0, Ordering::SeqCst);
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut rng)));
        let ev = EVALS.with(|e| *e.borrow());
        self.cases += 1;
        self.evals += ev;
        if ev > 0 {
            self.classes.insert(class.to_string());
        }
        if self.samples.len() < 12 && self.cases % 7 == 1 {
            self.samples.push(format!("{name} ({ev} clauses)"));
        }
        let outcome = match res {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", LAST_PANIC.lock().unwrap())),
        };
        if let Err(m) = outcome {
            if let Some(rest) = m.strip_prefix(UNDECIDED) {
                self.undecided.push(Fail { case: name, message: rest.to_string() });
            } else {
                self.fails.push(Fail { case: name, message: m });
            }
        }
    }
}

/// Runs a future on a fresh single-threaded runtime.  Any panic in any task ends the case at once;
/// a case that makes no progress for the whole limit is reported as not terminating.
pub fn run_async<F, T>(limit_s: u64, fut: F) -> Result<T, String>
where
    F: std::future::Future<Output = Result<T, String>>,
{
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let out = rt.block_on(async {
        tokio::pin!(fut);
        let start = Instant::now();
        let cpu0 = cpu_time();
        loop {
            tokio::select! {
                biased;
                r = &mut fut => return r,
                _ = tokio::time::sleep(Duration::from_millis(20)) => {
                    if PANICS.load(Ordering::SeqCst) > 0 {
                        return Err(format!("panic in a task: {}", LAST_PANIC.lock().unwrap()));
                    }
                    if start.elapsed() > Duration::from_secs(limit_s) {
                        // Idle (every task waiting) means a lost message or deadlock; busy means
                        // the machine is just slow, which decides nothing.
                        let used = cpu_time().saturating_sub(cpu0);
                        if used < Duration::from_millis(limit_s * 300) {
                            return Err("does not terminate: all tasks wait for messages that never arrive".into());
                        }
                        return Err(format!("{UNDECIDED}time limit reached while still computing"));
                    }
                }
            }
        }
    });
    rt.shutdown_background();
    out
}

fn cpu_time() -> Duration {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let ticks: u64 = f.get(11).and_then(|x| x.parse().ok()).unwrap_or(0)
        + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    Duration::from_millis(ticks * 10)
}
