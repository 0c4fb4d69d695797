//! Case loop: deterministic generation, panic capture, work budget, shrinking, replay, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- counting allocator

#[repr(align(128))]
struct Slot(AtomicU64);
pub const SLOTS: usize = 64;
static COUNTS: [Slot; SLOTS] = [const { Slot(AtomicU64::new(0)) }; SLOTS];
thread_local! { static SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = SLOT.with(|s| s.get());
        if s < SLOTS {
            let c = &COUNTS[s].0;
            c.store(c.load(Relaxed) + 1, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

// ---------------------------------------------------------------- per-case context

#[derive(Debug, Clone)]
pub enum Fail {
    Violation(String),
    /// a listed finding: (key in KNOWN_FINDINGS, what happened)
    Known(String, String),
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Violation(s.into())
    }
}
pub type Res = Result<(), Fail>;

#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
}
impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
}

thread_local! { static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| p.set(Some(msg)));
    }));
}

/// Run code under test; a panic becomes `Err(message)`.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.take()).unwrap_or_default();
            if m.starts_with("oracle:") {
                std::panic::resume_unwind(Box::new(m));
            }
            Err(m)
        }
    }
}

/// Like `call`, for calls which must not panic on the stated domain.
pub fn must<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    call(f).map_err(|m| Fail::Violation(format!("{} panicked: {}", what, m)))
}

// ---------------------------------------------------------------- property description

pub struct Prop<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    /// allocation budget per case: far above anything a terminating call needs
    pub budget: u64,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Ctx) -> Res,
    /// enumerated cases run before the random ones (whole-table properties)
    pub fixed: fn() -> Vec<C>,
}

pub trait DynProp: Sync {
    fn id(&self) -> &'static str;
    fn run(&self, env: &Env) -> i32;
    fn replay(&self, case: &Value, env: &Env) -> i32;
}

pub struct Env {
    pub dir: PathBuf,
    pub seed: u64,
    pub tier: String,
    pub threads: usize,
    pub cases: Option<u64>,
}

/// A worker that dies outside a case is an error of the check, not a reason to wait for it.
struct PanicGuard;
impl Drop for PanicGuard {
    fn drop(&mut self) {
        if std::thread::panicking() {
            println!("check error: a worker panicked outside a case");
            std::process::exit(2);
        }
    }
}

const BLOCK: u64 = 32;

fn rng_for(seed: u64, id: &str, block: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    let mut s: u64 = 0x9E3779B97F4A7C15 ^ seed.wrapping_mul(0xD1342543DE82EF95);
    for b in id.bytes() {
        s = (s ^ b as u64).wrapping_mul(0x100000001B3);
    }
    s ^= block.wrapping_mul(0xA0761D6478BD642F);
    for ch in bytes.chunks_mut(8) {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        ch.copy_from_slice(&z.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn runner_for(seed: u64, id: &str, block: u64) -> TestRunner {
    let cfg = Config { failure_persistence: None, cases: 1, ..Config::default() };
    TestRunner::new_with_rng(cfg, rng_for(seed, id, block))
}

fn known_list(dir: &PathBuf, id: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(dir.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in txt.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", id) {
                if let Some(k) = k.strip_prefix("key=") {
                    out.push((k.to_string(), w.to_string()));
                }
            }
        }
    }
    out
}

struct Tally {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    max_allocs: u64,
}

impl<C> Prop<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + 'static,
{
    /// Evaluate one case; `Err(None)` is an error of the check itself.
    fn eval(&self, c: &C, cx: &mut Ctx, known: &[(String, String)]) -> Result<Res, String> {
        let f = self.check;
        match catch_unwind(AssertUnwindSafe(|| f(c, cx))) {
            Ok(Err(Fail::Known(k, m))) => {
                if known.iter().any(|(kk, _)| *kk == k) {
                    Ok(Err(Fail::Known(k, m)))
                } else {
                    Ok(Err(Fail::Violation(m)))
                }
            }
            Ok(r) => Ok(r),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| LAST_PANIC.with(|p| p.take()))
                    .unwrap_or_else(|| "panic".into());
                if m.starts_with("oracle:") {
                    Err(m)
                } else {
                    Ok(Err(Fail::Violation(format!("panicked: {}", m))))
                }
            }
        }
    }

    fn write_replay(&self, env: &Env, case: &Value, msg: &str, shrunk: bool) -> PathBuf {
        let d = env.dir.join("replays");
        let _ = std::fs::create_dir_all(&d);
        let p = d.join(format!("{}-{}-seed{}.json", self.id, env.tier, env.seed));
        let v = json!({"property": self.id, "seed": env.seed, "tier": env.tier, "shrunk": shrunk, "message": msg, "case": case});
        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
        p
    }

    fn write_evidence(&self, env: &Env, t: &Tally, samples: &[Value], violations: u64, wall: f64, planned: u64) {
        let d = env.dir.join("evidence");
        let _ = std::fs::create_dir_all(&d);
        let v = json!({
            "property": self.id,
            "tier": env.tier,
            "seed": env.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": t.evaluations,
                "distinct_nontrivial": t.nontrivial.len(),
                "rule": self.rule,
                "samples": samples,
                "planned_cases": planned,
                "distribution": t.labels,
                "known_finding_hits": t.known,
                "max_allocations_in_one_case": t.max_allocs,
                "allocation_budget_per_case": self.budget,
            },
            "assumptions": self.assumptions,
            "violations": violations,
            "wall_s": wall,
        });
        std::fs::write(d.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&v).unwrap()).expect("write evidence");
    }
}

impl<C> DynProp for Prop<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn id(&self) -> &'static str {
        self.id
    }

    fn replay(&self, case: &Value, env: &Env) -> i32 {
        let c: C = match serde_json::from_value(case.clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot read case: {}", e);
                return 2;
            }
        };
        let mut cx = Ctx::default();
        let r = self.eval(&c, &mut cx, &known_list(&env.dir, self.id));
        println!("labels: {:?} nontrivial: {}", cx.labels, cx.nontrivial);
        match r {
            Err(m) => {
                eprintln!("check error: {}", m);
                2
            }
            Ok(Ok(())) => {
                println!("holds");
                0
            }
            Ok(Err(Fail::Known(k, m))) => {
                println!("KNOWN-FINDING: property={} [{}] {}", self.id, k, m);
                0
            }
            Ok(Err(Fail::Violation(m))) => {
                println!("violated: {}", m);
                1
            }
        }
    }

    fn run(&self, env: &Env) -> i32 {
        let t0 = Instant::now();
        let known = known_list(&env.dir, self.id);
        let fixed = (self.fixed)();
        let n = env.cases.unwrap_or(if env.tier == "thorough" { self.thorough } else { self.quick });
        // whole blocks, so that a block is a pure function of (seed, id, block)
        let blocks = (n + BLOCK - 1) / BLOCK;
        let fixed_blocks = (fixed.len() as u64 + BLOCK - 1) / BLOCK;
        let planned = fixed.len() as u64 + blocks * BLOCK;
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let bad: Mutex<Vec<(u64, u64, Value, String)>> = Mutex::new(vec![]);
        let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
        let tally = Mutex::new(Tally { evaluations: 0, nontrivial: HashSet::new(), labels: BTreeMap::new(), known: BTreeMap::new(), max_allocs: 0 });
        let samples: Mutex<BTreeMap<u64, Value>> = Mutex::new(BTreeMap::new());
        let current: Vec<Mutex<Option<(Value, Instant)>>> = (0..SLOTS).map(|_| Mutex::new(None)).collect();
        let done = AtomicBool::new(false);
        let live = AtomicUsize::new(env.threads);

        std::thread::scope(|sc| {
            for th in 0..env.threads {
                let (next, first_bad, bad, errors, tally, samples, current, fixed, known, live, done) =
                    (&next, &first_bad, &bad, &errors, &tally, &samples, &current, &fixed, &known, &live, &done);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let _guard = PanicGuard;
                        let strat = (self.strategy)();
                        let mut loc = Tally { evaluations: 0, nontrivial: HashSet::new(), labels: BTreeMap::new(), known: BTreeMap::new(), max_allocs: 0 };
                        loop {
                            let b = next.fetch_add(1, SeqCst);
                            if b >= fixed_blocks + blocks || b > first_bad.load(SeqCst) || !errors.lock().unwrap().is_empty() {
                                break;
                            }
                            let mut rt = runner_for(env.seed, self.id, b);
                            for k in 0..BLOCK {
                                let c: C = if b < fixed_blocks {
                                    match fixed.get((b * BLOCK + k) as usize) {
                                        Some(c) => c.clone(),
                                        None => break,
                                    }
                                } else {
                                    match strat.new_tree(&mut rt) {
                                        Ok(t) => t.current(),
                                        Err(e) => {
                                            errors.lock().unwrap().push(format!("generator: {}", e));
                                            break;
                                        }
                                    }
                                };
                                let js = serde_json::to_value(&c).unwrap();
                                *current[th].lock().unwrap() = Some((js.clone(), Instant::now()));
                                COUNTS[th].0.store(0, SeqCst);
                                SLOT.with(|s| s.set(th));
                                let mut cx = Ctx::default();
                                let r = self.eval(&c, &mut cx, known);
                                SLOT.with(|s| s.set(usize::MAX));
                                *current[th].lock().unwrap() = None;
                                loc.max_allocs = loc.max_allocs.max(COUNTS[th].0.load(SeqCst));
                                loc.evaluations += 1;
                                for l in cx.labels {
                                    *loc.labels.entry(l).or_insert(0) += 1;
                                }
                                if cx.nontrivial {
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    js.to_string().hash(&mut h);
                                    loc.nontrivial.insert(h.finish());
                                    let pos = b * BLOCK + k;
                                    let mut s = samples.lock().unwrap();
                                    s.insert(pos, js.clone());
                                    while s.len() > 3 {
                                        s.pop_last();
                                    }
                                }
                                match r {
                                    Err(m) => {
                                        errors.lock().unwrap().push(format!("{} on case {}", m, js));
                                        break;
                                    }
                                    Ok(Ok(())) => {}
                                    Ok(Err(Fail::Known(k, _))) => {
                                        *loc.known.entry(k).or_insert(0) += 1;
                                    }
                                    Ok(Err(Fail::Violation(m))) => {
                                        first_bad.fetch_min(b, SeqCst);
                                        bad.lock().unwrap().push((b, k, js, m));
                                        break;
                                    }
                                }
                            }
                        }
                        let mut t = tally.lock().unwrap();
                        t.evaluations += loc.evaluations;
                        t.nontrivial.extend(loc.nontrivial);
                        for (k, v) in loc.labels {
                            *t.labels.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in loc.known {
                            *t.known.entry(k).or_insert(0) += v;
                        }
                        t.max_allocs = t.max_allocs.max(loc.max_allocs);
                        drop(t);
                        if live.fetch_sub(1, SeqCst) == 1 {
                            done.store(true, SeqCst);
                        }
                    })
                    .unwrap();
            }
            // monitor: deterministic work budget (violation), wall clock (check error)
            while !done.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for th in 0..env.threads {
                    let cnt = COUNTS[th].0.load(SeqCst);
                    let cur = current[th].lock().unwrap();
                    if let Some((js, since)) = cur.as_ref() {
                        if cnt > self.budget {
                            let msg = format!("does not terminate: more than {} allocations in one case", self.budget);
                            let p = self.write_replay(env, js, &msg, false);
                            let mut t = tally.lock().unwrap();
                            t.max_allocs = cnt;
                            t.evaluations += 1;
                            self.write_evidence(env, &t, &[js.clone()], 1, t0.elapsed().as_secs_f64(), planned);
                            println!("VIOLATION property={} replay={}", self.id, p.display());
                            println!("{}", msg);
                            std::process::exit(1);
                        }
                        if since.elapsed().as_secs() > 600 {
                            println!("check error: one case of {} still running after 600 s (inconclusive)", self.id);
                            std::process::exit(3);
                        }
                    }
                }
            }
        });

        let errs = errors.into_inner().unwrap();
        let t = tally.into_inner().unwrap();
        let samp: Vec<Value> = samples.into_inner().unwrap().into_values().collect();
        if let Some(e) = errs.first() {
            println!("check error: {}", e);
            return 2;
        }
        let mut bad = bad.into_inner().unwrap();
        bad.sort_by_key(|x| (x.0, x.1));
        for (k, cnt) in &t.known {
            let what = known.iter().find(|x| x.0 == *k).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: property={} [{}] {} ({} cases)", self.id, k, what, cnt);
        }
        if let Some((b, k, js, msg)) = bad.first() {
            self.write_evidence(env, &t, &samp, 1, t0.elapsed().as_secs_f64(), planned);
            let first = self.write_replay(env, js, msg, false);
            let mut best = (js.clone(), msg.clone());
            let mut steps = 0u32;
            if *b >= fixed_blocks {
                // regenerate the value tree and walk it down, from a watched worker
                let cur: Mutex<(Value, String)> = Mutex::new(best.clone());
                let fin = AtomicBool::new(false);
                let stepc = AtomicUsize::new(0);
                std::thread::scope(|sc| {
                    let (cur, fin, stepc, known) = (&cur, &fin, &stepc, &known);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let _guard = PanicGuard;
                            let strat = (self.strategy)();
                            let mut rt = runner_for(env.seed, self.id, *b);
                            let mut tree = None;
                            for _ in 0..=*k {
                                tree = strat.new_tree(&mut rt).ok();
                            }
                            let lim = Instant::now();
                            if let Some(mut tree) = tree {
                                let mut alive = tree.simplify();
                                while alive && stepc.load(SeqCst) < 4000 && lim.elapsed().as_secs() < 45 {
                                    stepc.fetch_add(1, SeqCst);
                                    let c = tree.current();
                                    COUNTS[0].0.store(0, SeqCst);
                                    SLOT.with(|s| s.set(0));
                                    let r = self.eval(&c, &mut Ctx::default(), known);
                                    SLOT.with(|s| s.set(usize::MAX));
                                    COUNTS[0].0.store(0, SeqCst);
                                    match r {
                                        Ok(Err(Fail::Violation(m))) => {
                                            *cur.lock().unwrap() = (serde_json::to_value(&c).unwrap(), m);
                                            alive = tree.simplify();
                                        }
                                        _ => alive = tree.complicate(),
                                    }
                                }
                            }
                            fin.store(true, SeqCst);
                        })
                        .unwrap();
                    while !fin.load(SeqCst) {
                        std::thread::sleep(std::time::Duration::from_millis(10));
                        if COUNTS[0].0.load(SeqCst) > self.budget {
                            // the smaller case does not terminate: keep what we have
                            let c = cur.lock().unwrap().clone();
                            let p = self.write_replay(env, &c.0, &c.1, true);
                            println!("VIOLATION property={} replay={}", self.id, p.display());
                            println!("{}", c.1);
                            std::process::exit(1);
                        }
                    }
                });
                best = cur.into_inner().unwrap();
                steps = stepc.load(SeqCst) as u32;
            }
            let p = self.write_replay(env, &best.0, &best.1, steps > 0);
            let _ = first;
            println!("VIOLATION property={} replay={}", self.id, p.display());
            println!("{} ({} shrink steps)", best.1, steps);
            return 1;
        }
        self.write_evidence(env, &t, &samp, 0, t0.elapsed().as_secs_f64(), planned);
        println!(
            "property={} held: {} cases, {} distinct non-trivial, {:.1} s, max allocations {}",
            self.id, t.evaluations, t.nontrivial.len(), t0.elapsed().as_secs_f64(), t.max_allocs
        );
        if std::env::var("VERIF_VERBOSE").is_ok() {
            for (k, v) in &t.labels {
                println!("   {:>8} {}", v, k);
            }
        }
        if t.nontrivial.is_empty() {
            println!("check error: no non-trivial case was generated");
            return 2;
        }
        0
    }
}
