//! The property runner: generated cases (an enumerated grid plus proptest strategies), executed
//! on eight shards against an oracle, with shrinking, replay files and measured evidence.
//!
//! Every random choice is made by proptest's ChaCha generator, seeded from
//! (VERIF_SEED, property, shard): a run is a function of the code under test and that seed.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    /// Which build of the crate this is: "full" or "libm".
    pub variant: &'static str,
    /// Fraction of the random cases to run (the secondary build runs fewer).
    pub scale: f64,
    /// Known findings that are listed in the committed file, by key.
    pub known: HashSet<String>,
    /// Executables of other builds of this harness, for the backend comparison.
    pub peers: Vec<(String, String)>,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
}

/// What one case reports besides pass/fail.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub known_key: Option<&'static str>,
    /// Number of elementary comparisons made against the oracle.
    pub compared: u64,
    /// Largest observed error / tolerance, by quantity (for calibration).
    pub ratio: BTreeMap<&'static str, f64>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// |err| <= tol (a NaN fails).
    #[track_caller]
    pub fn within(
        &mut self,
        what: &'static str,
        err: f64,
        tol: f64,
        detail: impl FnOnce() -> String,
    ) -> Result<(), String> {
        self.compared += 1;
        let r = if err == 0.0 { 0.0 } else { err.abs() / tol };
        let e = self.ratio.entry(what).or_insert(0.0);
        if !(r <= *e) {
            *e = r;
        }
        if r <= 1.0 {
            Ok(())
        } else {
            Err(format!(
                "{what}: error {:e} exceeds tolerance {:e}: {}",
                err,
                tol,
                detail()
            ))
        }
    }
    #[track_caller]
    pub fn ensure(&mut self, ok: bool, detail: impl FnOnce() -> String) -> Result<(), String> {
        self.compared += 1;
        if ok { Ok(()) } else { Err(detail()) }
    }
}

pub trait Prop: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    /// Enumerated cases, run in full on every build.
    fn grid(&self, _ctx: &Ctx) -> Vec<Self::Case> {
        vec![]
    }
    /// Whether the grid completely covers a finite part of the domain; described in evidence.
    fn grid_note(&self, _ctx: &Ctx) -> Option<String> {
        None
    }
    fn strategy(&self, ctx: &Ctx) -> BoxedStrategy<Self::Case>;
    /// Number of random cases.
    fn budget(&self, ctx: &Ctx) -> usize;
    fn check(&self, case: &Self::Case, ctx: &Ctx, obs: &mut Obs) -> Result<(), String>;
    /// Fixed inputs of known findings: (key, case). Each is run; if it fails in the listed way the
    /// KNOWN-FINDING line is printed.
    fn known_probe(&self, _ctx: &Ctx) -> Vec<(&'static str, String, bool)> {
        vec![]
    }
}

pub struct Violation {
    pub replay: String,
    pub message: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Marker payload for panics that a case injects on purpose.
pub struct Injected;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "<payload>".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome {
    Pass,
    Fail(String),
    /// The harness itself went wrong.
    Broken(String),
}

pub fn run_case<P: Prop>(p: &P, case: &P::Case, ctx: &Ctx, obs: &mut Obs) -> Outcome {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| p.check(case, ctx, obs))) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("a worker thread".into(), String::new()));
            if loc.starts_with("src/") {
                Outcome::Broken(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Fail(format!("the library panicked at {loc}: {msg}"))
            }
        }
    }
}

fn hash64(s: &str) -> u64 {
    // FNV-1a: stable across runs and toolchains.
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

fn rng_for(id: &str, variant: &str, seed: u64, shard: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    for (i, part) in [
        seed,
        hash64(id),
        shard.wrapping_mul(0x9e37_79b9_7f4a_7c15),
        hash64(variant),
    ]
    .iter()
    .enumerate()
    {
        bytes[i * 8..i * 8 + 8].copy_from_slice(&part.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    grid: u64,
    random: u64,
    compared: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    ratio: BTreeMap<&'static str, (f64, String)>,
    known: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    slowest_ms: f64,
}

impl Stats {
    fn add(&mut self, s: &str, obs: Obs, took: f64) {
        self.evaluations += 1;
        self.compared += obs.compared;
        self.slowest_ms = self.slowest_ms.max(took);
        let mut labels = obs.labels;
        labels.sort_unstable();
        labels.dedup();
        for l in labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if let Some(k) = obs.known_key {
            *self.known.entry(k).or_insert(0) += 1;
        }
        for (k, v) in obs.ratio {
            let e = self.ratio.entry(k).or_insert((0.0, String::new()));
            if !(v <= e.0) {
                *e = (v, if s.len() < 1500 { s.to_string() } else { String::new() });
            }
        }
        if obs.nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.hash(&mut h);
            if self.nontrivial.insert(h.finish()) && self.samples.len() < 3 && s.len() < 1500 {
                self.samples.push(serde_json::from_str(s).unwrap());
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.grid += o.grid;
        self.random += o.random;
        self.compared += o.compared;
        self.nontrivial.extend(o.nontrivial);
        self.slowest_ms = self.slowest_ms.max(o.slowest_ms);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.ratio {
            let e = self.ratio.entry(k).or_insert((0.0, String::new()));
            if !(v.0 <= e.0) {
                *e = v;
            }
        }
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
    }
}

/// The number of random streams is fixed so that the cases do not depend on the machine.
const STREAMS: usize = 8;

/// A case that has not returned after this long stops the run. The driver then runs that case
/// alone, in a new process, and decides whether it is a hang or the machine is too slow.
const WATCHDOG: Duration = Duration::from_secs(240);
/// The same while a failure that is already known is being shrunk.
const SHRINK_WATCHDOG: Duration = Duration::from_secs(45);

/// Exit codes of a run besides 0 and 1.
pub const BROKEN: i32 = 3;
pub const HUNG: i32 = 4;

/// The case that a stream is busy with, in a file: what is left of a run whose process was killed
/// by the code under test (stack overflow, abort, invalid memory access).
struct Journal(Option<std::fs::File>);

impl Journal {
    fn new(part_out: &str, shard: usize) -> Self {
        Journal(std::fs::File::create(format!("{part_out}.case{shard}")).ok())
    }
    fn note(&self, case: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            // the length goes first, since a longer earlier case may stick out behind
            let _ = f.write_all_at(format!("{:012}\n{case}\n", case.len()).as_bytes(), 0);
        }
    }
}

pub fn run<P: Prop>(p: &P, ctx: &Ctx, part_out: &str) -> i32 {
    let t0 = Instant::now();
    let soft_cap = Duration::from_secs(ctx.pick(240, 780));
    let grid = p.grid(ctx);
    let budget = (p.budget(ctx) as f64 * ctx.scale).ceil() as usize;
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let found: Mutex<Option<(P::Case, String, usize)>> = Mutex::new(None);
    let total = Mutex::new(Stats::default());
    let started: Vec<AtomicU64> = (0..STREAMS).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicUsize::new(0);

    std::thread::scope(|sc| {
        for shard in 0..STREAMS {
            let (grid, next, stop, capped, broken, found, total, started, done) = (
                &grid, &next, &stop, &capped, &broken, &found, &total, &started, &done,
            );
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    let journal = Journal::new(part_out, shard);
                    let exec = |case: &P::Case, st: &mut Stats| -> Option<String> {
                        let t = Instant::now();
                        let text = serde_json::to_string(case).unwrap();
                        journal.note(&text);
                        started[shard]
                            .store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let mut obs = Obs::default();
                        let out = run_case(p, case, ctx, &mut obs);
                        started[shard].store(0, Ordering::Relaxed);
                        match out {
                            Outcome::Pass => {
                                st.add(&text, obs, t.elapsed().as_secs_f64() * 1e3);
                                None
                            }
                            Outcome::Fail(m) => {
                                st.evaluations += 1;
                                Some(m)
                            }
                            Outcome::Broken(m) => {
                                *broken.lock().unwrap() = Some(format!("{m}; case {case:?}"));
                                stop.store(true, Ordering::Relaxed);
                                None
                            }
                        }
                    };
                    // the enumerated cases, handed out in order
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= grid.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        st.grid += 1;
                        if let Some(m) = exec(&grid[i], &mut st) {
                            stop.store(true, Ordering::Relaxed);
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((grid[i].clone(), m, shard));
                            }
                        }
                    }
                    // the generated cases of this stream
                    let strat = p.strategy(ctx);
                    let mut runner = TestRunner::new_with_rng(
                        Config {
                            failure_persistence: None,
                            ..Config::default()
                        },
                        rng_for(p.id(), ctx.variant, ctx.seed, shard as u64),
                    );
                    let mine = budget / STREAMS + usize::from(shard < budget % STREAMS);
                    for _ in 0..mine {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if t0.elapsed() > soft_cap {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        let mut tree = strat.new_tree(&mut runner).expect("generator");
                        let case = tree.current();
                        st.random += 1;
                        if let Some(m) = exec(&case, &mut st) {
                            stop.store(true, Ordering::Relaxed);
                            // shrink
                            let ts = Instant::now();
                            let record = |c: &P::Case, m: &String| {
                                let mut f = found.lock().unwrap();
                                match &mut *f {
                                    Some(held) if held.2 == shard => *held = (c.clone(), m.clone(), shard),
                                    Some(_) => {}
                                    None => *f = Some((c.clone(), m.clone(), shard)),
                                }
                            };
                            record(&case, &m);
                            let mut tries = 0;
                            while tries < 4000 && ts.elapsed() < Duration::from_secs(20) {
                                if !tree.simplify() {
                                    break;
                                }
                                loop {
                                    tries += 1;
                                    let c = tree.current();
                                    let mut obs = Obs::default();
                                    started[shard].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                    let out = run_case(p, &c, ctx, &mut obs);
                                    started[shard].store(0, Ordering::Relaxed);
                                    if let Outcome::Fail(m) = out {
                                        record(&c, &m);
                                        break;
                                    }
                                    if tries >= 4000
                                        || ts.elapsed() > Duration::from_secs(20)
                                        || !tree.complicate()
                                    {
                                        tries = 4000;
                                        break;
                                    }
                                }
                            }
                            break;
                        }
                    }
                    total.lock().unwrap().merge(st);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        // watchdog
        let mut frozen = Duration::ZERO;
        loop {
            if done.load(Ordering::SeqCst) == STREAMS {
                break;
            }
            let tick = Instant::now();
            std::thread::sleep(Duration::from_millis(20));
            // a pause of the whole process counts as one tick
            frozen += tick.elapsed().saturating_sub(Duration::from_millis(200));
            let now = t0.elapsed().saturating_sub(frozen).as_millis() as u64;
            for (k, s) in started.iter().enumerate() {
                let b = s.load(Ordering::Relaxed);
                let running = Duration::from_millis(now.saturating_sub(b));
                if b == 0 || running < SHRINK_WATCHDOG {
                    continue;
                }
                // a failure that is already known is reported, whatever the other streams do
                if let Some((case, msg, _)) = &*found.lock().unwrap() {
                    let v = report(p, case, msg, ctx);
                    println!("VIOLATION property={} replay={}", p.id(), v.replay);
                    println!("  {}", v.message);
                    std::process::exit(1);
                }
                if running > WATCHDOG {
                    println!("HUNG stream {k}");
                    std::process::exit(HUNG);
                }
            }
            // a shard that died outside a case leaves `done` short; scope would propagate it
            if broken.lock().unwrap().is_some() && done.load(Ordering::SeqCst) == STREAMS {
                break;
            }
        }
    });

    if let Some(m) = broken.into_inner().unwrap() {
        println!("ERROR property={} {m}", p.id());
        return 3;
    }
    let st = total.into_inner().unwrap();
    let mut code = 0;
    let mut violations = 0;
    if let Some((case, msg, _)) = found.into_inner().unwrap() {
        violations = 1;
        code = 1;
        let v = report(p, &case, &msg, ctx);
        println!("VIOLATION property={} replay={}", p.id(), v.replay);
        println!("  {}", v.message);
    }
    let mut findings = vec![];
    if code == 0 {
        for (key, what, still) in p.known_probe(ctx) {
            if !still {
                continue;
            }
            if ctx.known.contains(key) {
                println!("KNOWN-FINDING: property={} {what}", p.id());
                findings.push(what);
            }
        }
    }
    let part = serde_json::json!({
        "property": p.id(),
        "variant": ctx.variant,
        "seed": ctx.seed,
        "evaluations": st.evaluations,
        "grid_cases": st.grid,
        "grid_size": grid.len(),
        "random_cases": st.random,
        "comparisons": st.compared,
        "distinct_nontrivial": st.nontrivial.len(),
        "labels": st.labels,
        "known_finding_hits": st.known,
        "max_error_over_tolerance": st.ratio.iter().map(|(k, v)| (*k, v.0)).collect::<BTreeMap<_, _>>(),
        "worst_cases": st.ratio.iter().map(|(k, v)| (*k, v.1.clone())).collect::<BTreeMap<_, _>>(),
        "samples": st.samples,
        "rule": p.rule(),
        "assumptions": p.assumptions(),
        "grid_note": p.grid_note(ctx),
        "stopped_by_time_cap": capped.load(Ordering::Relaxed),
        "slowest_case_ms": st.slowest_ms,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "known_findings": findings,
    });
    if let Err(e) = std::fs::write(part_out, serde_json::to_string_pretty(&part).unwrap()) {
        println!("ERROR property={} can not write {part_out}: {e}", p.id());
        return 3;
    }
    code
}

fn report<P: Prop>(p: &P, case: &P::Case, msg: &str, ctx: &Ctx) -> Violation {
    let body = serde_json::json!({
        "property": p.id(),
        "variant": ctx.variant,
        "seed": ctx.seed,
        "message": msg,
        "case": case,
    });
    let text = serde_json::to_string_pretty(&body).unwrap();
    let name = format!("replays/{}-{}-{:016x}.json", p.id(), ctx.variant, hash64(&text));
    let _ = std::fs::create_dir_all("replays");
    if let Err(e) = std::fs::write(&name, text) {
        eprintln!("can not write {name}: {e}");
    }
    let mut message = msg.to_string();
    if message.len() > 1200 {
        let mut cut = 1200;
        while !message.is_char_boundary(cut) {
            cut -= 1;
        }
        message.truncate(cut);
    }
    Violation {
        replay: name,
        message: format!("{message}\n  case: {}", {
            let s = serde_json::to_string(case).unwrap();
            if s.len() > 1000 { format!("({} bytes, see the replay file)", s.len()) } else { s }
        }),
    }
}

pub fn replay<P: Prop>(p: &P, case: serde_json::Value, ctx: &Ctx) -> i32 {
    let case: P::Case = match serde_json::from_value(case) {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR property={} bad replay file: {e}", p.id());
            return 3;
        }
    };
    let mut obs = Obs::default();
    match run_case(p, &case, ctx, &mut obs) {
        Outcome::Pass => {
            println!("replay: property {} holds on this case", p.id());
            for (what, r) in &obs.ratio {
                println!("  {what}: largest error {r:.3} of the tolerance");
            }
            0
        }
        Outcome::Fail(m) => {
            let v = report(p, &case, &m, ctx);
            println!("VIOLATION property={} replay={}", p.id(), v.replay);
            println!("  {}", v.message);
            1
        }
        Outcome::Broken(m) => {
            println!("ERROR property={} {m}", p.id());
            3
        }
    }
}
