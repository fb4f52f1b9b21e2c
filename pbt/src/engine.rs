//! Generated-case engine: seeded proptest generation, sharded over threads, own
//! shrinking loop, replay files, coverage accounting.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Info {
    pub fn nt(b: bool) -> Self {
        Info { nontrivial: b, labels: vec![] }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Self {
        if on {
            self.labels.push(l);
        }
        self
    }
}
pub type Res = Result<Info, String>;

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// Panics seen on this thread since the last call (also those a runtime swallowed).
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANICS.with(|p| p.borrow_mut().push(format!("panic at {loc}: {m}")));
    }));
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples.into_iter().take(2));
    }
}

pub struct Failure {
    pub check: String,
    pub case: serde_json::Value,
    pub message: String,
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub tier: Tier,
    pub replay: Option<(String, serde_json::Value)>,
    pub replay_ran: bool,
    pub failure: Option<Failure>,
    pub max_shrink: u32,
    pub shards: usize,
    /// multiplies generated case counts in the thorough tier
    pub thorough_factor: u64,
    evals: u64,
    nontrivial: u64,
    checks: Vec<serde_json::Value>,
    samples: Vec<serde_json::Value>,
    rules: Vec<String>,
    exhaustive: bool,
    start: Instant,
    watch: Arc<Vec<Slot>>,
}

struct Slot {
    tid: AtomicU64,
    started: Mutex<Option<(u64, String, serde_json::Value)>>, // cpu ticks at start
}

fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub static SHRINKING: AtomicBool = AtomicBool::new(false);

fn hash_of(v: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn eval<T, F: Fn(&T) -> Res>(f: &F, t: &T) -> Res {
    take_panics();
    match catch_unwind(AssertUnwindSafe(|| f(t))) {
        Ok(r) => r,
        Err(_) => Err(take_panics().join("; ")),
    }
}

/// Evaluates a case; a failure counts once it has shown again on one of three further
/// evaluations (histories use real sockets, everything else is deterministic). Failures
/// that do not reproduce are counted, and believed when there are more than five of them.
/// Failures that no timing can explain begin like this and count at once.
pub const AT_ONCE: &str = "[seen once] ";
static UNCONFIRMED: AtomicU64 = AtomicU64::new(0);
fn eval_confirmed<T, F: Fn(&T) -> Res>(f: &F, t: &T) -> Res {
    let first = match eval(f, t) {
        Ok(i) => return Ok(i),
        Err(m) if m.starts_with(AT_ONCE) => return Err(m),
        Err(m) => m,
    };
    for _ in 0..3 {
        if let Err(m) = eval(f, t) {
            return Err(m);
        }
    }
    if UNCONFIRMED.fetch_add(1, Ordering::Relaxed) >= 5 {
        return Err(format!("{first} (not on every evaluation)"));
    }
    eprintln!("not reproduced: {first}");
    Ok(Info::default())
}

impl Ctx {
    pub fn new(property: &str, seed: u64, tier: Tier, replay: Option<(String, serde_json::Value)>) -> Self {
        let watch: Arc<Vec<Slot>> = Arc::new(
            (0..64)
                .map(|_| Slot { tid: AtomicU64::new(0), started: Mutex::new(None) })
                .collect(),
        );
        let c = Ctx {
            property: property.into(),
            seed,
            tier,
            replay,
            replay_ran: false,
            failure: None,
            max_shrink: 4000,
            shards: 8,
            thorough_factor: 20,
            evals: 0,
            nontrivial: 0,
            checks: vec![],
            samples: vec![],
            rules: vec![],
            exhaustive: false,
            start: Instant::now(),
            watch: watch.clone(),
        };
        // A single case burning 40 s of CPU is a non-terminating call in the code under
        // test (cases cost micro- to milliseconds), and one whose thread uses no CPU at all
        // during 60 looks of this thread two seconds apart is blocked for good (the harness
        // itself never blocks).
        let prop = property.to_string();
        let mut still: Vec<(u64, u64, u32)> = vec![(0, 0, 0); watch.len()];
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            for (s, last) in watch.iter().zip(still.iter_mut()) {
                let g = s.started.lock().unwrap();
                if let Some((t0, check, case)) = g.as_ref() {
                    if let Some(now) = thread_cpu_ticks(s.tid.load(Ordering::Relaxed)) {
                        if (last.0, last.1) == (*t0, now) {
                            last.2 += 1;
                        } else {
                            *last = (*t0, now, 0);
                        }
                        let burnt = now.saturating_sub(*t0) > 40 * 100;
                        if burnt || last.2 > 60 {
                            let f = Failure {
                                check: check.clone(),
                                case: case.clone(),
                                message: if burnt {
                                    "the call did not return after 40 s of CPU time".into()
                                } else {
                                    "the call is blocked".into()
                                },
                            };
                            let p = write_replay(&prop, seed, &f);
                            println!("FAILED check={} {}", f.check, f.message);
                            println!("VIOLATION property={prop} replay={p}");
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        c
    }

    pub fn n(&self, quick: u64) -> u64 {
        if self.tier == Tier::Thorough {
            quick * self.thorough_factor
        } else {
            quick
        }
    }
    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.into());
    }
    fn skip<T: DeserializeOwned + Serialize, F: Fn(&T) -> Res>(&mut self, name: &str, f: &F) -> bool {
        if let Some((n, case)) = self.replay.clone() {
            if n == name {
                self.replay_ran = true;
                let t: T = serde_json::from_value(case.clone()).expect("replay case has the wrong shape");
                // histories on real threads need not fail every time
                let times = if name == "threads" { 300 } else { 1 };
                if let Some(m) = (0..times).find_map(|_| eval(f, &t).err()) {
                    self.failure = Some(Failure { check: name.into(), case, message: m });
                }
            }
            return true;
        }
        self.failure.is_some()
    }

    fn account(&mut self, name: &str, st: Stats, exhaustive: bool) {
        self.evals += st.evals;
        self.nontrivial += st.nontrivial.len() as u64;
        for s in st.samples.iter().take(3) {
            self.samples.push(serde_json::json!({"check": name, "case": clip(s)}));
        }
        self.checks.push(serde_json::json!({"check": name, "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial.len(), "classes": st.labels, "enumerated_completely": exhaustive}));
    }

    /// Enumerates a finite domain completely.
    pub fn enumerate<T, I, F>(&mut self, name: &str, it: I, f: F)
    where
        T: Serialize + DeserializeOwned + Clone + Send + Sync,
        I: IntoIterator<Item = T>,
        F: Fn(&T) -> Res + Sync,
    {
        if self.skip::<T, F>(name, &f) {
            return;
        }
        let all: Vec<T> = it.into_iter().collect();
        self.exhaustive = true;
        let chunk = all.len().div_ceil(self.shards).max(1);
        let watch = self.watch.clone();
        let results: Vec<(Stats, Option<Failure>)> = std::thread::scope(|s| {
            let hs: Vec<_> = all
                .chunks(chunk)
                .enumerate()
                .map(|(k, part)| {
                    let f = &f;
                    let slot = &watch[k];
                    s.spawn(move || {
                        slot.tid.store(unsafe { libc::gettid() } as u64, Ordering::Relaxed);
                        let mut st = Stats::default();
                        let mut fail = None;
                        for (i, t) in part.iter().enumerate() {
                            enter(slot, name, t);
                            st.evals += 1;
                            match eval_confirmed(f, t) {
                                Ok(info) => note(&mut st, t, info, i % 997 == 0),
                                Err(m) => {
                                    fail = Some(Failure {
                                        check: name.into(),
                                        case: serde_json::to_value(t).unwrap(),
                                        message: m,
                                    });
                                    break;
                                }
                            }
                        }
                        leave(slot);
                        (st, fail)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker died")).collect()
        });
        let mut st = Stats::default();
        for (s, f) in results {
            st.merge(s);
            if self.failure.is_none() {
                self.failure = f;
            }
        }
        self.account(name, st, true);
    }

    /// Generates `cases` cases (already scaled by the caller through `n`).
    pub fn generate<T, S, F>(&mut self, name: &str, cases: u64, strat: S, f: F)
    where
        T: Serialize + DeserializeOwned + Clone + Send + std::fmt::Debug + 'static,
        S: Fn() -> BoxedStrategy<T> + Sync,
        F: Fn(&T) -> Res + Sync,
    {
        if self.skip::<T, F>(name, &f) {
            return;
        }
        let shards = self.shards;
        let per = cases.div_ceil(shards as u64);
        let (seed, prop, max_shrink) = (self.seed, self.property.clone(), self.max_shrink);
        let watch = self.watch.clone();
        let stop = AtomicBool::new(false);
        let results: Vec<(Stats, Option<Failure>)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..shards)
                .map(|k| {
                    let (f, strat, prop, slot, stop) = (&f, &strat, &prop, &watch[k], &stop);
                    s.spawn(move || {
                        slot.tid.store(unsafe { libc::gettid() } as u64, Ordering::Relaxed);
                        let mut bytes = [0u8; 32];
                        for i in 0..4 {
                            bytes[i * 8..i * 8 + 8]
                                .copy_from_slice(&hash_of(&format!("{seed}/{prop}/{name}/{k}/{i}")).to_le_bytes());
                        }
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
                        let cfg = Config { failure_persistence: None, ..Config::default() };
                        let mut runner = TestRunner::new_with_rng(cfg, rng);
                        let st_strat = strat();
                        let mut st = Stats::default();
                        for i in 0..per {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut tree = st_strat.new_tree(&mut runner).expect("generator rejected");
                            let t = tree.current();
                            enter(slot, name, &t);
                            st.evals += 1;
                            match eval_confirmed(f, &t) {
                                Ok(info) => note(&mut st, &t, info, i % 97 == 0),
                                Err(m) => {
                                    stop.store(true, Ordering::Relaxed);
                                    let (t, m) = shrink(&mut *tree, t, m, f, max_shrink, slot, name);
                                    leave(slot);
                                    return (
                                        st,
                                        Some(Failure {
                                            check: name.into(),
                                            case: serde_json::to_value(&t).unwrap(),
                                            message: m,
                                        }),
                                    );
                                }
                            }
                        }
                        leave(slot);
                        (st, None)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker died")).collect()
        });
        let mut st = Stats::default();
        for (s, f) in results {
            st.merge(s);
            // keep the smallest of the failing shards' cases
            if let Some(f) = f {
                let better = match &self.failure {
                    None => true,
                    Some(g) => f.case.to_string().len() < g.case.to_string().len(),
                };
                if better {
                    self.failure = Some(f);
                }
            }
        }
        self.account(name, st, false);
    }

    pub fn finish(self, level: &str) -> i32 {
        if let Some((n, _)) = &self.replay {
            if !self.replay_ran {
                eprintln!("no check named {n} in {}", self.property);
                return 2;
            }
            return match &self.failure {
                Some(f) => {
                    println!("FAILED check={} {}", f.check, f.message);
                    println!("case {}", f.case);
                    1
                }
                None => {
                    println!("replay passed");
                    0
                }
            };
        }
        let mut code = 0;
        if let Some(f) = &self.failure {
            let p = write_replay(&self.property, self.seed, f);
            println!("FAILED check={} {}", f.check, f.message);
            println!("case {}", clip(&f.case));
            println!("VIOLATION property={} replay={}", self.property, p);
            code = 1;
        }
        let wall = self.start.elapsed().as_secs_f64();
        let ev = serde_json::json!({
            "property": self.property,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": self.nontrivial,
                "rule": self.rules.join(" | "),
                "samples": self.samples,
                "checks": self.checks,
                "failures_not_reproduced": UNCONFIRMED.load(Ordering::Relaxed),
            },
            "assumptions": ["generated-input search: silence means no counterexample among the cases counted here"],
            "wall_s": wall,
            "violations": code,
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&ev).unwrap(),
        ) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
        println!(
            "{} {}: {} evaluations, {} distinct non-trivial, {:.1}s",
            self.property,
            if code == 0 { "held" } else { "violated" },
            self.evals,
            self.nontrivial,
            wall
        );
        code
    }
}

fn enter<T: Serialize>(slot: &Slot, name: &str, t: &T) {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    let c = ts.tv_sec as u64 * 100 + ts.tv_nsec as u64 / 10_000_000;
    *slot.started.lock().unwrap() = Some((c, name.into(), serde_json::to_value(t).unwrap()));
}
fn leave(slot: &Slot) {
    *slot.started.lock().unwrap() = None;
}

fn note<T: Serialize>(st: &mut Stats, t: &T, info: Info, sample: bool) {
    for l in info.labels {
        *st.labels.entry(l).or_default() += 1;
    }
    if info.nontrivial {
        let s = serde_json::to_string(t).unwrap();
        st.nontrivial.insert(hash_of(&s));
        if sample && st.samples.len() < 3 {
            st.samples.push(serde_json::from_str(&s).unwrap());
        }
    }
}

fn shrink<T, F>(
    tree: &mut dyn ValueTree<Value = T>,
    mut best: T,
    mut msg: String,
    f: &F,
    max: u32,
    slot: &Slot,
    name: &str,
) -> (T, String)
where
    T: Clone + Serialize + std::fmt::Debug,
    F: Fn(&T) -> Res,
{
    SHRINKING.store(true, Ordering::Relaxed);
    let t0 = Instant::now();
    let mut iters = 0;
    if tree.simplify() {
        loop {
            iters += 1;
            if iters > max || t0.elapsed() > Duration::from_secs(60) {
                break;
            }
            let t = tree.current();
            enter(slot, name, &t);
            match eval(f, &t) {
                Ok(_) => {
                    if !tree.complicate() {
                        break;
                    }
                }
                Err(m) => {
                    best = t;
                    msg = m;
                    if !tree.simplify() {
                        break;
                    }
                }
            }
        }
    }
    (best, msg)
}

fn clip(v: &serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..e], s.len()))
    } else {
        v.clone()
    }
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}

fn write_replay(prop: &str, seed: u64, f: &Failure) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let name: String = f.check.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    let p = dir.join(format!("{prop}-{name}.json"));
    let v = serde_json::json!({"property": prop, "check": f.check, "seed": seed, "message": f.message, "case": f.case});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p.display().to_string()
}

/// Boxes a strategy.
pub fn bx<T: std::fmt::Debug + 'static, S: Strategy<Value = T> + 'static>(s: S) -> BoxedStrategy<T> {
    s.boxed()
}
