//! Drives a property with proptest: fixed work, sharded deterministically by seed, shrinking the
//! first failure to a minimal choice stream.

use crate::src::Src;
use proptest::collection::vec as pvec;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub const SHARDS: usize = 32;
/// Distinct cases are counted up to this many per shard, to bound memory.
const DISTINCT_CAP: usize = 1_000_000;

/// What a property records while it judges one case.
#[derive(Default)]
pub struct Ctx {
    pub want_desc: bool,
    pub desc: String,
    pub nontrivial: bool,
    pub hash: u64,
    pub labels: Vec<&'static str>,
    /// largest observed error measures, by name (for calibration only)
    pub maxima: Vec<(&'static str, f64)>,
}

impl Ctx {
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&f());
            crate::guard::described(&self.desc);
        }
    }
    /// Mixes the content of the case into its identity.
    pub fn id(&mut self, x: u64) {
        self.hash = (self.hash ^ x)
            .wrapping_mul(0x9E37_79B9_7F4A_7C15)
            .rotate_left(29)
            .wrapping_add(0x632B_E59B_D9B4_E019);
    }
    pub fn idf(&mut self, x: f32) {
        self.id(x.to_bits() as u64)
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn measure(&mut self, name: &'static str, x: f64) {
        self.maxima.push((name, x));
    }
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err(format!($($arg)*)); }
    };
}

pub struct Prop {
    pub id: &'static str,
    pub words: usize,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub check: fn(&mut Src, &mut Ctx) -> Verdict,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub labels: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, (f64, String)>,
}

pub struct Failure {
    pub words: Vec<u32>,
    pub case: String,
    pub message: String,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = s);
    }));
}

/// Runs one case; a panic of the code under test is a failed verdict.
pub fn judge(p: &Prop, words: &[u32], ctx: &mut Ctx) -> Verdict {
    let mut src = Src::new(words);
    match catch_unwind(AssertUnwindSafe(|| (p.check)(&mut src, ctx))) {
        Ok(v) => v,
        Err(_) => Err(format!(
            "panicked: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

/// Heartbeats for the watchdog: (case counter) per worker.
pub static BEATS: [AtomicU64; SHARDS] = [const { AtomicU64::new(0) }; SHARDS];

/// The lowest shard in which a case failed.
static FIRST_FAILED: AtomicUsize = AtomicUsize::new(usize::MAX);

/// How often a failed case is run again to see it fail once more.
pub const RETRIES: usize = 16;

pub fn run_shard(p: &Prop, seed: u64, shard: usize, cases: u64) -> (Stats, Option<Failure>) {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&(shard as u64).to_le_bytes());
    for (i, b) in p.id.bytes().enumerate().take(16) {
        bytes[16 + i] = b;
    }
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        max_shrink_iters: 50_000,
        // large cases take milliseconds each
        max_shrink_time: 60_000,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let mut runner = TestRunner::new_with_rng(config, rng);
    let n = p.words;
    let strategy = prop_oneof![
        5 => pvec(any::<u32>(), n),
        1 => pvec(any::<u32>(), 0..=n),
    ];
    let stats = RefCell::new(Stats::default());
    let failed = RefCell::new(false);
    let result = runner.run(&strategy, |words| {
        if FIRST_FAILED.load(Ordering::Relaxed) < shard {
            // the failure of a lower shard is the one to be reported
            return Ok(());
        }
        BEATS[shard].fetch_add(1, Ordering::Relaxed);
        crate::guard::enter(shard, &words);
        let mut st = stats.borrow_mut();
        let mut ctx = Ctx {
            want_desc: false,
            ..Ctx::default()
        };
        let verdict = judge(p, &words, &mut ctx);
        crate::guard::leave(shard);
        if !*failed.borrow() {
            st.evaluations += 1;
            for l in &ctx.labels {
                *st.labels.entry(l).or_insert(0) += 1;
            }
            for (n, x) in &ctx.maxima {
                let e = st.maxima.entry(n).or_insert((f64::MIN, String::new()));
                if *x > e.0 {
                    e.0 = *x;
                    if std::env::var_os("VERIF_CALIBRATE").is_some() {
                        let mut c2 = Ctx {
                            want_desc: true,
                            ..Ctx::default()
                        };
                        let _ = judge(p, &words, &mut c2);
                        e.1 = c2.desc;
                    }
                }
            }
            if ctx.nontrivial && st.nontrivial.len() < DISTINCT_CAP && st.nontrivial.insert(ctx.hash) && st.samples.len() < 2 && st.nontrivial.len() % 7 == 3 {
                let mut c2 = Ctx {
                    want_desc: true,
                    ..Ctx::default()
                };
                let _ = judge(p, &words, &mut c2);
                st.samples.push(c2.desc);
            }
        }
        match verdict {
            Ok(()) => Ok(()),
            Err(m) => {
                *failed.borrow_mut() = true;
                FIRST_FAILED.fetch_min(shard, Ordering::SeqCst);
                Err(TestCaseError::fail(m))
            }
        }
    });
    let failure = match result {
        Ok(()) => None,
        Err(TestError::Fail(reason, words)) => {
            // what the code remembers between calls may make a failure come and go
            let mut ctx = Ctx::default();
            let mut verdict = Ok(());
            for _ in 0..RETRIES {
                ctx = Ctx {
                    want_desc: true,
                    ..Ctx::default()
                };
                verdict = judge(p, &words, &mut ctx);
                if verdict.is_err() {
                    break;
                }
            }
            let message = match verdict {
                Err(m) => m,
                Ok(()) => format!("not reproduced on re-run, first reported as: {reason}"),
            };
            Some(Failure {
                words,
                case: ctx.desc,
                message,
            })
        }
        Err(TestError::Abort(r)) => {
            eprintln!("proptest aborted: {r}");
            std::process::exit(2);
        }
    };
    (stats.into_inner(), failure)
}

pub fn run(p: &'static Prop, seed: u64, cases: u64) -> (Stats, Option<Failure>) {
    let threads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(16);
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, Stats, Option<Failure>)>> = Mutex::new(vec![]);
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        // Shards are started in order: one below a failed one always completes.
                        if i >= SHARDS || i > FIRST_FAILED.load(Ordering::SeqCst) {
                            break;
                        }
                        let share = cases / SHARDS as u64 + u64::from((i as u64) < cases % SHARDS as u64);
                        let (st, f) = run_shard(p, seed, i, share);
                        out.lock().unwrap().push((i, st, f));
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Watchdog: a case that does not come back ends the run; the parent process then looks at
        // the cases under way one by one.
        s.spawn(|| {
            let mut last = [0u64; SHARDS];
            let mut quiet = [0u32; SHARDS];
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for i in 0..SHARDS {
                    let now = BEATS[i].load(Ordering::Relaxed);
                    if now == last[i] && crate::guard::busy(i) {
                        quiet[i] += 1;
                        if quiet[i] > 20 * 30 {
                            eprintln!("property={}: a case is under way for 30 s", p.id);
                            std::process::exit(3);
                        }
                    } else {
                        quiet[i] = 0;
                        last[i] = now;
                    }
                }
            }
        });
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|x| x.0);
    let mut total = Stats::default();
    let mut failure = None;
    for (_, st, f) in out {
        total.evaluations += st.evaluations;
        total.nontrivial.extend(st.nontrivial);
        if total.samples.len() < 6 {
            total.samples.extend(st.samples.into_iter().take(1));
        }
        for (l, n) in st.labels {
            *total.labels.entry(l).or_insert(0) += n;
        }
        for (l, x) in st.maxima {
            let e = total.maxima.entry(l).or_insert((f64::MIN, String::new()));
            if x.0 > e.0 {
                *e = x;
            }
        }
        if failure.is_none() {
            failure = f;
        }
    }
    (total, failure)
}

/// Makes a failing stream of words smaller for as long as it fails, for at most a minute.
pub fn shrink(p: &Prop, mut words: Vec<u32>) -> Vec<u32> {
    let fails = |w: &[u32]| judge(p, w, &mut Ctx::default()).is_err();
    let t0 = std::time::Instant::now();
    if !fails(&words) {
        return words;
    }
    let mut again = true;
    while again {
        again = false;
        let mut cut = words.len();
        while cut > 0 {
            while cut <= words.len() && fails(&words[..words.len() - cut]) {
                words.truncate(words.len() - cut);
                again = true;
            }
            cut /= 2;
        }
        for i in 0..words.len() {
            let mut step = words[i];
            while step > 0 && t0.elapsed().as_secs() < 60 {
                let old = words[i];
                words[i] = old - step;
                if fails(&words) {
                    again = true;
                } else {
                    words[i] = old;
                }
                step = (step / 2).min(words[i]);
            }
        }
        again &= t0.elapsed().as_secs() < 60;
    }
    words
}

static QUIET: Mutex<()> = Mutex::new(());
static CAPTURE: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Held while the standard streams are watched, so that output belongs to one case.
pub fn quiet_lock() -> std::sync::MutexGuard<'static, ()> {
    QUIET.lock().unwrap_or_else(|e| e.into_inner())
}

/// Bytes written to the captured standard streams so far.
pub fn output_len() -> u64 {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    CAPTURE
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .as_ref()
        .map_or(0, |f| f.metadata().map_or(0, |m| m.len()))
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// Runs `f` with the standard output and error streams going to a file that is removed at once.
pub fn captured<R>(f: impl FnOnce() -> R) -> R {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let path = std::env::temp_dir().join(format!("auburn-verif-out-{}", std::process::id()));
    let file = std::fs::OpenOptions::new()
        .create_new(true)
        .append(true)
        .read(true)
        .open(&path)
        .expect("capture file");
    std::fs::remove_file(&path).expect("capture file");
    let _ = std::io::stdout().flush();
    let fd = file.as_raw_fd();
    let (out, err) = unsafe { (dup(1), dup(2)) };
    unsafe {
        dup2(fd, 1);
        dup2(fd, 2);
    }
    *CAPTURE.lock().unwrap() = Some(file);
    let r = f();
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(out, 1);
        dup2(err, 2);
        close(out);
        close(err);
    }
    *CAPTURE.lock().unwrap() = None;
    r
}
