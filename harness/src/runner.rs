//! Runs legs: a fixed number of generated cases over worker threads, with shrinking, replay files,
//! distribution counters, known findings and a watchdog.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// Signature of a recognised, narrowly identified failure (see known_findings.json).
    pub sig: Option<String>,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { msg, sig: None }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { msg: msg.into(), sig: None }
    }
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::runner::Fail { msg: format!($($a)*), sig: None }); } };
}

/// What one case exercised.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l)
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub replays: std::path::PathBuf,
    pub known: Vec<Known>,
    pub scale: f64,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

pub struct Leg<C> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    /// Worker threads; 1 for legs that need the process for themselves.
    pub threads: usize,
    pub rule: &'static str,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> R,
}

#[derive(Default)]
pub struct Report {
    pub leg: String,
    pub rule: String,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub violation: Option<(String, String)>,
    pub wall: f64,
}

pub trait LegDyn {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Report;
    fn replay(&self, case: &Value) -> R;
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VH_SHOW_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {msg} at {loc}")));
    }));
}

/// Runs `f`, turning a panic into a failure.
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()).into()),
    }
}

/// Set once a case failed: what follows only looks for a smaller reproduction.
static FAILED: AtomicBool = AtomicBool::new(false);

/// How long a peer waits for something the agent has to do. Generous, so that a loaded machine raises no
/// alarm; shorter while a failure already found is being shrunk.
pub fn deadline() -> Duration {
    Duration::from_secs(if FAILED.load(SeqCst) { 5 } else { 30 })
}

/// Seconds after which shrinking is given up and the failure reported as it was found.
const SHRINK_LIMIT: Duration = Duration::from_secs(90);

struct Slot {
    tid: AtomicU64,
    /// Cases started by this worker, so that the watchdog can tell them apart.
    serial: AtomicU64,
    busy: AtomicBool,
    case: Mutex<Vec<u8>>,
}

fn thread_stat(tid: u64) -> Option<(char, f64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: f64 = f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?;
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    Some((f[0].chars().next()?, ticks / hz))
}

/// What the threads of a runtime usually have.
pub const STACK: usize = 2 << 20;

/// CPU seconds one case may use, and seconds it may stay asleep with no timer or socket of its own.
const CPU_LIMIT: f64 = 100.0;
const SLEEP_LIMIT: Duration = Duration::from_secs(90);

impl<C> LegDyn for Leg<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, case: &Value) -> R {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| Fail::from(format!("bad replay: {e}")))?;
        let mut obs = Obs::default();
        guarded(|| (self.check)(&case, &mut obs))
    }

    fn run(&self, ctx: &Ctx) -> Report {
        let t0 = Instant::now();
        let total = match ctx.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64 * ctx.scale).ceil() as u32).max(1);
        let threads = self.threads.min(total as usize).max(1);
        let slots: Arc<Vec<Slot>> = Arc::new(
            (0..threads)
                .map(|_| Slot {
                    tid: AtomicU64::new(0),
                    serial: AtomicU64::new(0),
                    busy: AtomicBool::new(false),
                    case: Mutex::new(vec![]),
                })
                .collect(),
        );
        {
            let _ = std::fs::create_dir_all(&ctx.replays);
            let slots = slots.clone();
            let path = ctx.replays.join(format!("{}-{}.json", ctx.property, self.name));
            crate::crash::arm(&ctx.property, self.name, &path.display().to_string(), move |f| {
                let busy = slots.iter().position(|s| s.busy.load(SeqCst)).unwrap_or(0);
                let at = SLOT.try_with(|s| s.get()).ok().filter(|w| *w < slots.len()).unwrap_or(busy);
                if let Ok(case) = slots[at].case.try_lock() {
                    f(&case)
                }
            });
        }
        let stop = Arc::new(AtomicBool::new(false));
        let first: Arc<Mutex<Option<(Instant, Vec<u8>, String)>>> = Arc::default();
        let known: Vec<String> = ctx.known.iter().filter(|k| k.property == ctx.property).map(|k| k.signature.clone()).collect();

        struct Out<C> {
            evaluations: u64,
            distinct: HashSet<u64>,
            labels: BTreeMap<&'static str, u64>,
            samples: Vec<Value>,
            known: BTreeMap<String, u64>,
            failure: Option<(C, String)>,
        }

        let mut handles = vec![];
        for w in 0..threads {
            let n = total / threads as u32 + u32::from((w as u32) < total % threads as u32);
            let (strategy, check) = (self.strategy, self.check);
            let (slots, stop, known, first) = (slots.clone(), stop.clone(), known.clone(), first.clone());
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (ctx.seed, &ctx.property, self.name, w).hash(&mut h);
            let mut seed = [0u8; 32];
            for (i, c) in seed.chunks_mut(8).enumerate() {
                (i as u64).hash(&mut h);
                c.copy_from_slice(&h.finish().to_le_bytes());
            }
            handles.push(
                std::thread::Builder::new()
                    .name(format!("w{w}"))
                    .stack_size(STACK)
                    .spawn(move || -> Out<C> {
                        let slot = &slots[w];
                        SLOT.with(|s| s.set(w));
                        slot.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, SeqCst);
                        let out = RefCell::new(Out {
                            evaluations: 0,
                            distinct: HashSet::new(),
                            labels: BTreeMap::new(),
                            samples: vec![],
                            known: BTreeMap::new(),
                            failure: None,
                        });
                        let failed = Cell::new(false);
                        let cfg = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: 20_000,
                            max_shrink_time: 30_000,
                            max_global_rejects: 65_536,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                        let res = runner.run(&strategy(), |case: C| {
                            if stop.load(SeqCst) && !failed.get() {
                                return Ok(());
                            }
                            let bytes = serde_json::to_vec(&case).expect("serialise case");
                            let hash = {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                bytes.hash(&mut h);
                                h.finish()
                            };
                            let sample = if !failed.get() {
                                let mut o = out.borrow_mut();
                                o.evaluations += 1;
                                (o.samples.len() < 2).then(|| bytes.clone())
                            } else {
                                None
                            };
                            *slot.case.lock().unwrap() = bytes;
                            slot.serial.fetch_add(1, SeqCst);
                            slot.busy.store(true, SeqCst);
                            crate::alloc::reset();
                            let mut obs = Obs::default();
                            let r = guarded(|| check(&case, &mut obs));
                            slot.busy.store(false, SeqCst);
                            if !failed.get() {
                                let mut o = out.borrow_mut();
                                for l in &obs.labels {
                                    *o.labels.entry(l).or_default() += 1;
                                }
                                if obs.nontrivial {
                                    o.distinct.insert(hash);
                                    if let Some(b) = sample {
                                        if b.len() < 6000 {
                                            o.samples.push(serde_json::from_slice(&b).unwrap());
                                        }
                                    }
                                }
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(f) => {
                                    if let Some(sig) = &f.sig {
                                        if known.contains(sig) {
                                            if !failed.get() {
                                                *out.borrow_mut().known.entry(sig.clone()).or_default() += 1;
                                            }
                                            return Ok(());
                                        }
                                    }
                                    if !failed.get() {
                                        if stop.swap(true, SeqCst) {
                                            // Another worker's failure is being shrunk already.
                                            return Ok(());
                                        }
                                        failed.set(true);
                                        FAILED.store(true, SeqCst);
                                        *first.lock().unwrap() =
                                            Some((Instant::now(), slot.case.lock().unwrap().clone(), f.msg.clone()));
                                    }
                                    Err(TestCaseError::fail(f.msg))
                                }
                            }
                        });
                        let mut out = out.into_inner();
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => out.failure = Some((case, reason.message().to_string())),
                            Err(TestError::Abort(reason)) => {
                                eprintln!("ERROR: generator aborted: {reason}");
                                std::process::exit(3);
                            }
                        }
                        out
                    })
                    .expect("spawn worker"),
            );
        }

        // Watchdog: a case that burns CPU without end, sleeps without end or exhausts memory.
        let mut started: Vec<(u64, f64, Option<Instant>)> = vec![(0, 0.0, None); threads];
        let mut last_probe = Instant::now();
        while handles.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(Duration::from_millis(20));
            if last_probe.elapsed() < Duration::from_millis(1000) {
                continue;
            }
            last_probe = Instant::now();
            let late = first.lock().unwrap().as_ref().filter(|f| f.0.elapsed() > SHRINK_LIMIT).cloned();
            if let Some((_, case, msg)) = late {
                let case: Value = serde_json::from_slice(&case).unwrap_or(Value::Null);
                let path = write_replay(ctx, self.name, &case, &msg);
                println!("{}: {msg}", self.name);
                println!("VIOLATION property={} replay={}", ctx.property, path);
                std::process::exit(1);
            }
            for (w, slot) in slots.iter().enumerate() {
                if !slot.busy.load(SeqCst) {
                    started[w] = (0, 0.0, None);
                    continue;
                }
                let serial = slot.serial.load(SeqCst);
                let Some((state, cpu)) = thread_stat(slot.tid.load(SeqCst)) else {
                    continue;
                };
                if started[w].0 != serial {
                    started[w] = (serial, cpu, None);
                    continue;
                }
                if state == 'S' {
                    started[w].2.get_or_insert_with(Instant::now);
                } else {
                    started[w].2 = None;
                }
                let why = if crate::alloc::BLOWOUT.load(SeqCst) && state == 'S' {
                    Some("allocates without bound")
                } else if cpu - started[w].1 > CPU_LIMIT {
                    Some("does not terminate (CPU)")
                } else if started[w].2.is_some_and(|t| t.elapsed() > SLEEP_LIMIT) {
                    Some("never makes progress again (blocked)")
                } else {
                    None
                };
                if let Some(why) = why {
                    let case: Value = serde_json::from_slice(&slot.case.lock().unwrap()).unwrap_or(Value::Null);
                    let path = write_replay(ctx, self.name, &case, why);
                    println!("{}: {why}", self.name);
                    println!("VIOLATION property={} replay={}", ctx.property, path);
                    std::process::exit(1);
                }
            }
        }

        let mut rep = Report { leg: self.name.into(), rule: self.rule.into(), ..Default::default() };
        let mut distinct = HashSet::new();
        for h in handles {
            let o = h.join().unwrap_or_else(|_| {
                eprintln!("ERROR: worker died");
                std::process::exit(3)
            });
            rep.evaluations += o.evaluations;
            distinct.extend(o.distinct);
            for (k, v) in o.labels {
                *rep.labels.entry(k.into()).or_default() += v;
            }
            for (k, v) in o.known {
                *rep.known.entry(k).or_default() += v;
            }
            if rep.samples.len() < 2 {
                rep.samples.extend(o.samples);
                rep.samples.truncate(2);
            }
            if let (None, Some((case, msg))) = (&rep.violation, o.failure) {
                let case = serde_json::to_value(&case).unwrap();
                let path = write_replay(ctx, self.name, &case, &msg);
                rep.violation = Some((msg, path));
            }
        }
        rep.distinct_nontrivial = distinct.len() as u64;
        rep.wall = t0.elapsed().as_secs_f64();
        rep
    }
}

pub fn write_replay(ctx: &Ctx, leg: &str, case: &Value, msg: &str) -> String {
    let _ = std::fs::create_dir_all(&ctx.replays);
    let path = ctx.replays.join(format!("{}-{}.json", ctx.property, leg));
    let v = json!({"property": ctx.property, "leg": leg, "seed": ctx.seed, "message": msg, "case": case});
    std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).expect("write replay");
    path.display().to_string()
}
