//! The verdict log and the driver that runs a monitor over every enum of the zoo.
use crate::rng::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

/// One monitor run over one enum.
pub struct Ctx {
    pub prop: &'static str,
    pub enum_name: String,
    pub src: String,
    /// Work multiplier: 1 = quick.
    pub scale: usize,
    pub seed: u64,
    evals: Cell<u64>,
    distinct: RefCell<HashSet<u64>>,
    distinct_cap: usize,
    counters: RefCell<BTreeMap<&'static str, u64>>,
    samples: RefCell<Vec<String>>,
    sample_budget: Cell<u32>,
    viols: RefCell<Vec<(String, String)>>,
    /// What the monitor was doing, for panics.
    doing: RefCell<String>,
    beat: usize,
}

static BEATS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

impl Ctx {
    pub fn new(prop: &'static str, enum_name: &str, src: &str, scale: usize, seed: u64, beat: usize) -> Ctx {
        Ctx {
            prop,
            enum_name: enum_name.into(),
            src: src.into(),
            scale,
            seed,
            evals: Cell::new(0),
            distinct: RefCell::new(HashSet::new()),
            distinct_cap: 400_000,
            counters: RefCell::new(BTreeMap::new()),
            samples: RefCell::new(Vec::new()),
            sample_budget: Cell::new(2),
            viols: RefCell::new(Vec::new()),
            doing: RefCell::new(String::new()),
            beat,
        }
    }
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(mix(mix(self.seed, stream), hash_bytes(self.enum_name.as_bytes())))
    }
    /// Counts one evaluated case; `key` identifies it, `nontrivial` whether it counts as such.
    #[inline]
    pub fn case(&self, key: u64, nontrivial: bool) {
        self.evals.set(self.evals.get() + 1);
        if self.beat < BEATS.len() {
            BEATS[self.beat].fetch_add(1, Ordering::Relaxed);
        }
        if nontrivial {
            let mut d = self.distinct.borrow_mut();
            if d.len() < self.distinct_cap {
                d.insert(key);
            }
        }
    }
    pub fn count(&self, what: &'static str, n: u64) {
        *self.counters.borrow_mut().entry(what).or_insert(0) += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        if self.sample_budget.get() > 0 {
            self.sample_budget.set(self.sample_budget.get() - 1);
            let mut s = s();
            s = s.chars().take(500).collect();
            self.samples.borrow_mut().push(format!("{}: {}", self.enum_name, s));
        }
    }
    /// Cheap description of the running step, shown if it panics.
    pub fn doing(&self, s: &str) {
        let mut d = self.doing.borrow_mut();
        d.clear();
        d.push_str(s);
    }
    #[cold]
    #[inline(never)]
    pub fn fail(&self, what: &str, detail: String) {
        let mut v = self.viols.borrow_mut();
        if v.len() < 5 {
            v.push((what.to_string(), detail));
        }
    }
    #[inline]
    pub fn check(&self, ok: bool, what: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(what, detail());
        }
        ok
    }
    /// True once enough has been reported for this enum.
    pub fn stop(&self) -> bool {
        self.viols.borrow().len() >= 3
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i).replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs `f`, returning None if it panicked.
#[inline(never)]
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub struct Args {
    pub seed: u64,
    pub scale: usize,
    pub only: Option<String>,
    pub threads: usize,
}
pub fn args() -> Args {
    let g = |k: &str| std::env::var(k).ok();
    Args {
        seed: g("VH_SEED").and_then(|x| x.parse().ok()).unwrap_or(1),
        scale: g("VH_SCALE").and_then(|x| x.parse().ok()).unwrap_or(1),
        only: g("VH_ONLY"),
        threads: g("VH_THREADS").and_then(|x| x.parse().ok()).unwrap_or(8),
    }
}

/// A job: a name, the definition under test, and the monitor.
pub struct Job<'a> {
    pub name: String,
    pub src: String,
    pub run: Box<dyn Fn(&Ctx) + Send + Sync + 'a>,
}

/// Runs all jobs and prints the log as JSON lines. Exit status 0; the caller of the program
/// (check.py) turns the log into a verdict.
pub fn run_jobs(prop: &'static str, jobs: Vec<Job>) {
    let a = args();
    quiet_panics();
    let next = AtomicUsize::new(0);
    let out = Mutex::new(());
    let emit = |s: String| {
        let _g = out.lock().unwrap();
        use std::io::Write;
        let o = std::io::stdout();
        let mut o = o.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.write_all(b"\n");
        let _ = o.flush();
    };
    let jobs: Vec<Job> = jobs.into_iter().filter(|j| a.only.as_ref().map_or(true, |o| *o == j.name)).collect();
    // VH_SHARD=i/n: every n-th job only
    let shard: Option<(usize, usize)> = std::env::var("VH_SHARD").ok().and_then(|s| { let (i, n) = s.split_once('/')?; Some((i.parse().ok()?, n.parse().ok()?)) });
    let jobs: Vec<Job> = jobs.into_iter().enumerate().filter(|(k, _)| shard.map_or(true, |(i, n)| k % n == i)).map(|x| x.1).collect();
    let total = jobs.len();
    let worker = |w: usize| loop {
        let i = next.fetch_add(1, Ordering::SeqCst);
        if i >= jobs.len() {
            return;
        }
        let j = &jobs[i];
        emit(format!("{{\"t\":\"start\",\"w\":{},\"enum\":{}}}", w, esc(&j.name)));
        let ctx = Ctx::new(prop, &j.name, &j.src, a.scale, a.seed, w);
        if catch_unwind(AssertUnwindSafe(|| (j.run)(&ctx))).is_err() {
            let d = format!("while {}: {}", ctx.doing.borrow(), last_panic());
            ctx.fail("unexpected panic", d);
        }
        for (what, detail) in ctx.viols.borrow().iter() {
            emit(format!(
                "{{\"t\":\"viol\",\"prop\":\"{}\",\"enum\":{},\"src\":{},\"what\":{},\"detail\":{}}}",
                prop, esc(&j.name), esc(&j.src), esc(what), esc(detail)
            ));
        }
        let counters: Vec<String> = ctx.counters.borrow().iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let samples: Vec<String> = ctx.samples.borrow().iter().map(|s| esc(s)).collect();
        emit(format!(
            "{{\"t\":\"done\",\"w\":{},\"enum\":{},\"evals\":{},\"distinct\":{},\"counters\":{{{}}},\"samples\":[{}]}}",
            w, esc(&j.name), ctx.evals.get(), ctx.distinct.borrow().len(), counters.join(","), samples.join(",")
        ));
    };
    // unoptimized code with sets of some kilobytes
    let big = || std::thread::Builder::new().stack_size(256 << 20);
    let threads = a.threads.min(total.max(1));
    if cfg!(miri) || threads == 1 {
        // still under the watchdog, but sequential
        if cfg!(miri) {
            worker(0);
        } else {
            watch(&|| std::thread::scope(|s| { big().spawn_scoped(s, || worker(0)).unwrap(); }));
        }
    } else {
        watch(&|| std::thread::scope(|s| {
            for w in 0..threads {
                let worker = &worker;
                big().spawn_scoped(s, move || worker(w)).unwrap();
            }
        }));
    }
    emit(format!("{{\"t\":\"end\",\"jobs\":{}}}", total));
}

/// Ends the process with status 77 when no worker completes any case for a long time.
fn watch(f: &dyn Fn()) {
    let limit: u64 = std::env::var("VH_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(90);
    std::thread::spawn(move || {
        let mut last = [0u64; 64];
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now: [u64; 64] = std::array::from_fn(|i| BEATS[i].load(Ordering::Relaxed));
            if now == last { idle += 1 } else { idle = 0 }
            last = now;
            if idle >= limit {
                println!("{{\"t\":\"hang\",\"idle\":{}}}", idle);
                std::process::exit(77);
            }
        }
    });
    f();
}
