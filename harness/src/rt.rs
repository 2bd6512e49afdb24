//! Runner: drives proptest strategies over worker threads with seeds derived from VERIF_SEED, classifies cases, shrinks a
//! failure, writes it as a replay file, and reports coverage.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Why a case violates its property. `sig` names the failure for the known-findings file.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Res<T> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

/// Keeps a failure that is about one of `sigs`, and panics; the others are another property's.
pub fn only(r: Res, sigs: &[&str]) -> Res {
    match r {
        Err(f) if !sigs.contains(&f.sig.as_str()) && !f.sig.starts_with("panic@") => Ok(()),
        r => r,
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !($c) { return $crate::rt::fail($sig, format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::rt::fail($sig, format!("{}\n  got:      {}\n  expected: {}", format!($($f)*), $crate::rt::clip(&format!("{:?}", a), 3000), $crate::rt::clip(&format!("{:?}", b), 3000))); }
    }};
}

/// What a case turned out to exercise.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Extra executions inside the case (each mutation tried, each step of a history...).
    pub inner: u64,
}
impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into())
    }
    pub fn nt(&mut self) {
        self.nontrivial = true
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{loc}: {m}")));
        } else {
            old(i)
        }
    }));
}
/// Runs `f`, turning a panic into Err(location: message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub struct Part<C> {
    pub name: &'static str,
    /// (quick, thorough) number of cases over all workers
    pub cases: (u32, u32),
    pub strat: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Res,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub workers: usize,
    pub known: Vec<String>,
    pub scale: f64,
}

#[derive(Default)]
pub struct Out {
    pub evals: u64,
    pub inner: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<(String, String, Value)>,
    pub abort: Option<String>,
}

pub trait DynPart: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Out;
    fn replay(&self, v: &Value) -> Result<Res, String>;
}

/// The case each worker is busy with, for the two failures that cannot be caught as a panic: the process dying (a stack
/// overflow, an abort) and a case that never ends.
pub mod running {
    use super::*;
    use std::sync::Mutex;
    use std::time::{Duration, Instant};
    pub struct Slot {
        pub since: Instant,
        pub part: &'static str,
        pub case: String,
    }
    const NONE: Option<Slot> = None;
    static SLOTS: [Mutex<Option<Slot>>; 64] = [const { Mutex::new(NONE) }; 64];
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    static PROP: Mutex<(String, String, u64)> = Mutex::new((String::new(), String::new(), 0));
    thread_local! { static MINE: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
    extern "C" {
        fn signal(sig: i32, h: usize) -> usize;
        fn _exit(code: i32) -> !;
    }
    fn mine() -> usize {
        MINE.with(|m| {
            if m.get() == usize::MAX {
                m.set(NEXT.fetch_add(1, Ordering::Relaxed) % 64);
            }
            m.get()
        })
    }
    pub fn set(part: &'static str, case: String) {
        if let Ok(mut s) = SLOTS[mine()].lock() {
            *s = Some(Slot { since: Instant::now(), part, case });
        }
    }
    pub fn clear() {
        if let Ok(mut s) = SLOTS[mine()].lock() {
            *s = None;
        }
    }
    /// Runs `f` on a thread with this much stack, as part of the current case.
    pub fn on_stack<T: Send>(bytes: usize, f: impl FnOnce() -> T + Send) -> T {
        let id = mine();
        let quiet = QUIET.with(|q| *q.borrow());
        let mut rng = [0u8; 8];
        askar_crypto::random::fill_random(&mut rng);
        let rng = u64::from_le_bytes(rng);
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(bytes)
                .spawn_scoped(sc, move || {
                    MINE.with(|m| m.set(id));
                    QUIET.with(|q| *q.borrow_mut() = quiet);
                    askar_crypto::random::standin_seed(rng);
                    let r = catch_unwind(AssertUnwindSafe(f));
                    (r, PANIC.with(|p| p.borrow_mut().take()))
                })
                .unwrap()
                .join()
                .unwrap()
        });
        match r {
            (Ok(t), _) => t,
            (Err(e), p) => {
                PANIC.with(|q| *q.borrow_mut() = p);
                std::panic::resume_unwind(e)
            }
        }
    }
    fn report(s: &Slot, sig: &str, msg: &str) -> ! {
        let (id, verif, seed) = PROP.lock().map(|p| p.clone()).unwrap_or_default();
        let dir = format!("{verif}/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{}.json", s.part);
        let case: Value = serde_json::from_str(&s.case).unwrap_or(Value::Null);
        let rep = json!({"property": id, "part": s.part, "seed": seed, "signature": sig, "message": msg, "case": case});
        let _ = std::fs::write(&path, rep.to_string());
        println!("[{sig}] {msg}");
        println!("VIOLATION property={id} replay={path}");
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { _exit(1) }
    }
    extern "C" fn died(_: i32) {
        if let Ok(s) = SLOTS[mine()].try_lock() {
            if let Some(s) = &*s {
                report(s, "died", "the process was aborted by this case (stack overflow or abort)");
            }
        }
        unsafe { _exit(5) }
    }
    /// From here on a case that aborts the process or runs for longer than `hang` is reported as a violation.
    pub fn watch(prop: &str, verif: &str, seed: u64, hang: Duration) {
        if let Ok(mut p) = PROP.lock() {
            *p = (prop.into(), verif.into(), seed);
        }
        unsafe { signal(6, died as extern "C" fn(i32) as usize) };
        std::thread::spawn(move || loop {
            // a sleep that took much longer than asked means the whole machine stood still: no case is to blame
            let t = Instant::now();
            std::thread::sleep(Duration::from_secs(1));
            let stall = t.elapsed() > Duration::from_secs(3);
            let pages: u64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse().ok()).unwrap_or(0);
            if pages * 4096 > 12 << 30 {
                let old = SLOTS.iter().filter_map(|s| s.lock().ok().and_then(|s| s.as_ref().map(|x| x.since))).min();
                for s in &SLOTS {
                    if let Ok(Some(s)) = s.lock().as_deref() {
                        if Some(s.since) == old {
                            report(s, "memory", "this case takes all the memory there is");
                        }
                    }
                }
            }
            for s in &SLOTS {
                if let Ok(mut s) = s.lock() {
                    if let Some(s) = &mut *s {
                        if stall {
                            s.since = Instant::now();
                        } else if s.since.elapsed() > hang {
                            report(s, "hang", "this case does not end");
                        }
                    }
                }
            }
        });
    }
}

fn run_case<C: Serialize>(part: &'static str, check: fn(&C, &mut Obs) -> Res, c: &C, o: &mut Obs) -> (Res, u64) {
    let s = serde_json::to_string(c).unwrap_or_default();
    let h = h64(&s);
    running::set(part, s);
    let r = run_seeded(h, check, c, o);
    running::clear();
    r
}
fn run_seeded<C: Serialize>(h: u64, check: fn(&C, &mut Obs) -> Res, c: &C, o: &mut Obs) -> (Res, u64) {
    askar_crypto::random::standin_seed(h);
    let r = match guarded(|| check(c, o)) {
        Ok(r) => r,
        Err(p) => {
            // sig: file (no line), so that an entry survives edits elsewhere in the file
            let file = p.split(':').next().unwrap_or("").rsplit("/src/").next().unwrap_or("").to_string();
            Err(Fail { sig: format!("panic@{file}"), msg: format!("panicked at {p}") })
        }
    };
    (r, h)
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> DynPart for Part<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ctx: &Ctx) -> Out {
        let total = match ctx.tier {
            Tier::Quick => self.cases.0,
            Tier::Thorough => self.cases.1,
        };
        let total = ((total as f64) * ctx.scale).ceil().max(1.0) as u32;
        let w = ctx.workers.min(total as usize).max(1);
        let per = (total as usize).div_ceil(w) as u32;
        let stop = AtomicBool::new(false);
        let outs: Vec<Out> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..w)
                .map(|k| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || self.worker(ctx, k, per, stop))
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Out { abort: Some("worker panicked".into()), ..Out::default() }))
                .collect()
        });
        let mut out = Out::default();
        for o in outs {
            out.evals += o.evals;
            out.inner += o.inner;
            out.nontrivial.extend(o.nontrivial);
            for (k, v) in o.labels {
                *out.labels.entry(k).or_default() += v;
            }
            for (k, v) in o.known {
                *out.known.entry(k).or_default() += v;
            }
            if out.samples.len() < 3 {
                out.samples.extend(o.samples);
            }
            if out.failure.is_none() {
                out.failure = o.failure;
            }
            if out.abort.is_none() {
                out.abort = o.abort;
            }
        }
        out.samples.truncate(3);
        out
    }
    fn replay(&self, v: &Value) -> Result<Res, String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| format!("replay file does not parse: {e}"))?;
        let mut o = Obs::default();
        Ok(run_case(self.name, self.check, &c, &mut o).0)
    }
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> Part<C> {
    fn worker(&self, ctx: &Ctx, k: usize, per: u32, stop: &AtomicBool) -> Out {
        let mut seed = [0u8; 32];
        let s = askar_crypto::prim_hash::sha256(&[
            &ctx.seed.to_le_bytes(),
            ctx.prop.as_bytes(),
            b"/",
            self.name.as_bytes(),
            &(k as u64).to_le_bytes(),
            &(ctx.tier as u8).to_le_bytes(),
        ]);
        seed.copy_from_slice(&s);
        let cfg = Config {
            cases: per,
            failure_persistence: None,
            max_shrink_iters: 1500,
            max_global_rejects: 1 << 20,
            max_local_rejects: 1 << 20,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let out = RefCell::new(Out::default());
        let failed = RefCell::new(false);
        let last = RefCell::new(None::<Fail>);
        let strat = (self.strat)(ctx.tier);
        let res = runner.run(&strat, |c: C| {
            if stop.load(Ordering::Relaxed) && !*failed.borrow() {
                return Ok(());
            }
            let mut o = Obs::default();
            let (r, h) = run_case(self.name, self.check, &c, &mut o);
            let shrinking = *failed.borrow();
            if !shrinking {
                let mut out = out.borrow_mut();
                out.evals += 1;
                out.inner += o.inner;
                if o.nontrivial && out.nontrivial.insert(h) && out.samples.len() < 2 && k < 2 {
                    let s = serde_json::to_string(&c).unwrap_or_default();
                    let labels = o.labels.clone();
                    out.samples.push(json!({"part": self.name, "case": clip(&s, 1800), "labels": labels}));
                }
                o.labels.sort();
                o.labels.dedup();
                for l in o.labels {
                    *out.labels.entry(l).or_default() += 1;
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(f) if ctx.known.contains(&f.sig) => {
                    *out.borrow_mut().known.entry(f.sig).or_default() += 1;
                    Ok(())
                }
                // while shrinking, keep to the failure found first
                Err(f) if shrinking && last.borrow().as_ref().map_or(false, |l| l.sig != f.sig) => Ok(()),
                Err(f) => {
                    *failed.borrow_mut() = true;
                    stop.store(true, Ordering::Relaxed);
                    let m = format!("[{}] {}", f.sig, f.msg);
                    *last.borrow_mut() = Some(f);
                    Err(TestCaseError::fail(m))
                }
            }
        });
        let mut out = out.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, c)) => {
                // re-run the minimal case for its own message
                let mut o = Obs::default();
                let (r, _) = run_case(self.name, self.check, &c, &mut o);
                let f = match r {
                    Err(f) => f,
                    Ok(()) => last.into_inner().unwrap_or(Fail { sig: "flaky".into(), msg: "minimal case did not fail again".into() }),
                };
                out.failure = Some((f.sig, f.msg, serde_json::to_value(&c).unwrap_or(Value::Null)));
            }
            Err(TestError::Abort(r)) => out.abort = Some(format!("generator gave up: {r}")),
        }
        out
    }
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}

/// Minimal single-threaded executor.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = futures_noop();
    let mut cx = std::task::Context::from_waker(&w);
    let mut n = 0u64;
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        n += 1;
        assert!(n < 1_000_000, "future never completes");
    }
}
pub fn futures_noop() -> std::task::Waker {
    std::task::Waker::noop().clone()
}
