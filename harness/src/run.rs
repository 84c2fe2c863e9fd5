//! Runner: shards, deterministic seeds, shrinking, minimisation, replay files, evidence.
use crate::cfg::Cfg;
use crate::data::{Op, Plan};
use crate::model::{self, Mode};
use crate::strat::Case;
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Log {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub known: Vec<String>,
}
impl Log {
    pub fn label(&mut self, s: &str) {
        self.labels.push(s.to_string());
    }
    pub fn label_if(&mut self, c: bool, s: &str) {
        if c {
            self.label(s)
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub strat: fn() -> BoxedStrategy<Case>,
    pub run: fn(&Case, &mut Log) -> Result<(), String>,
    /// generated cases over all shards
    pub quick: u32,
    pub thorough: u32,
    pub rule: &'static str,
    /// deterministic jobs besides the generated cases: number of jobs for a tier, and the case of job i
    pub jobs: Option<fn(bool, u64) -> Vec<Case>>,
}

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct ShardOut {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<Failure>,
    pub harness_error: Option<String>,
    /// most processor time (ms) of one job, of one generated case
    pub job_ms: u64,
    pub case_ms: u64,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub property: String,
    pub message: String,
    pub case: Case,
    /// the case as minimised bytes (hex) for the reader
    pub data_hex: Vec<String>,
    /// how to run the whole shard again (a failure that needs the process's earlier cases)
    pub seed: u64,
    pub shard: u32,
    pub shards: u32,
    pub tier: String,
    /// built without debug assertions and overflow checks
    #[serde(default)]
    pub plain: bool,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((format!("{}:{}", loc.0, loc.1), msg)));
    }));
}

/// Run `f` on a thread of its own; a panic there counts like one here.
pub fn elsewhere<T>(f: impl FnOnce() -> T) -> T {
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    impl<T> Any<T> {
        fn get(self) -> T {
            self.0
        }
    }
    // the caller waits: nothing is used by two threads at once
    let f = Any(f);
    let r = std::thread::scope(|s| {
        s.spawn(move || {
            let f = f.get();
            let r = catch_unwind(AssertUnwindSafe(f));
            Any(r.map_err(|e| (e, PANIC.with(|p| p.borrow_mut().take()))))
        })
        .join()
    });
    match r {
        Ok(r) => match r.get() {
            Ok(v) => v,
            Err((e, rec)) => {
                PANIC.with(|p| *p.borrow_mut() = rec);
                std::panic::resume_unwind(e)
            }
        },
        Err(e) => std::panic::resume_unwind(e),
    }
}

pub enum Ran {
    Ok,
    Fail(String),
    Harness(String),
}

pub fn eval(check: &Check, case: &Case, log: &mut Log) -> Ran {
    PANIC.with(|p| *p.borrow_mut() = None);
    crate::drive::LIMIT.with(|l| l.set(usize::MAX));
    crate::watch::begin(case);
    let r = catch_unwind(AssertUnwindSafe(|| if case.mult == crate::giant::TAIL { crate::tail::run(case, log) } else { (check.run)(case, log) }));
    crate::watch::end();
    match r {
        Ok(Ok(())) => Ran::Ok,
        Ok(Err(m)) => Ran::Fail(m),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // panics of the harness's own code are errors of the check, not violations
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                Ran::Harness(format!("harness panic at {}: {}", loc, msg))
            } else {
                Ran::Fail(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

pub fn mix(seed: u64, id: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut r = crate::rng::Rng::new(seed ^ 0xc0ffee);
    let mut h = r.next();
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = crate::rng::Rng::new(h ^ ((shard as u64) << 32));
    for c in out.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    out
}

fn hash_case(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    serde_json::to_string(c).unwrap().hash(&mut h);
    h.finish()
}

fn short(c: &Case) -> serde_json::Value {
    let d: Vec<_> = (0..c.streams.len()).map(|i| c.data(i)).collect();
    let streams: Vec<_> = d
        .iter()
        .map(|d| {
            let cuts = std::panic::catch_unwind(|| model::cuts(&c.cfg, d, Mode::Search)).unwrap_or_default();
            serde_json::json!({"len": d.len(), "head": hex(&d[..d.len().min(24)]), "model_cuts": cuts.iter().take(8).collect::<Vec<_>>(), "n_cuts": cuts.len()})
        })
        .collect();
    let mut s = format!("{:?}", c.plans);
    s.truncate(200);
    serde_json::json!({"cfg": format!("{:?}", c.cfg), "streams": streams, "plans": s, "knobs": c.knobs.iter().take(8).collect::<Vec<_>>()})
}

pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}

/// The streams of a case that is not too big, for the reader of a replay file.
pub fn data_hex(case: &Case) -> Vec<String> {
    if (0..case.streams.len()).map(|i| case.data(i).len()).sum::<usize>() < 100_000 {
        (0..case.streams.len()).map(|i| hex(&case.data(i))).collect()
    } else {
        vec![]
    }
}

pub fn shard(check: &Check, thorough: bool, seed: u64, idx: u32, n: u32, only_labels: bool) -> (ShardOut, Vec<u64>) {
    let mut out = ShardOut::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let tier = if thorough { "thorough" } else { "quick" };
    let fail = |message: String, case: Case| -> Failure {
        let (case, message) = minimise(check, case, message);
        let data_hex = data_hex(&case);
        Failure { property: check.id.into(), message, case, data_hex, seed, shard: idx, shards: n, tier: tier.into(), plain: !cfg!(debug_assertions) }
    };
    if let Some(j) = check.jobs {
        for (i, case) in j(thorough, seed).into_iter().enumerate() {
            if i as u32 % n != idx {
                continue;
            }
            let mut log = Log::default();
            let r = eval(check, &case, &mut log);
            record(&mut out, &mut hashes, &case, log);
            match r {
                Ran::Ok => {}
                Ran::Fail(m) => {
                    out.failure = Some(fail(m, case));
                    break;
                }
                Ran::Harness(m) => {
                    out.harness_error = Some(m);
                    break;
                }
            }
        }
    }
    out.job_ms = crate::watch::max_ms();
    crate::watch::generated();
    let total = if thorough { check.thorough } else { check.quick };
    let cases = total / n + if idx < total % n { 1 } else { 0 };
    if cases > 0 && out.failure.is_none() && out.harness_error.is_none() {
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 20_000,
            max_shrink_time: 40_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(seed, check.id, idx));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let cell = RefCell::new((&mut out, &mut hashes, false));
        let harness: RefCell<Option<String>> = RefCell::new(None);
        let strat = (check.strat)();
        let res = runner.run(&strat, |case| {
            if harness.borrow().is_some() {
                return Ok(());
            }
            let mut log = Log::default();
            let r = eval(check, &case, &mut log);
            let mut c = cell.borrow_mut();
            if !c.2 {
                let (o, h, _) = &mut *c;
                record(o, h, &case, log);
            }
            match r {
                Ran::Ok => Ok(()),
                Ran::Fail(m) => {
                    c.2 = true;
                    Err(TestCaseError::fail(m))
                }
                Ran::Harness(m) => {
                    if !c.2 {
                        *harness.borrow_mut() = Some(format!("{} case {:?}", m, case));
                    }
                    Ok(())
                }
            }
        });
        drop(cell);
        out.harness_error = harness.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(m, case)) => out.failure = Some(fail(m.to_string(), case)),
            Err(TestError::Abort(m)) => out.harness_error = Some(format!("aborted: {}", m)),
        }
    }
    let _ = only_labels;
    out.case_ms = crate::watch::max_ms();
    (out, hashes.into_iter().collect())
}

fn record(out: &mut ShardOut, hashes: &mut HashSet<u64>, case: &Case, log: Log) {
    out.evaluations += 1;
    *out.labels.entry(format!("alg:{}", case.cfg.alg().name())).or_default() += 1;
    for l in log.labels {
        *out.labels.entry(l).or_default() += 1;
    }
    for k in log.known {
        *out.known.entry(k).or_default() += 1;
    }
    if log.nontrivial {
        if hashes.insert(hash_case(case)) && out.samples.len() < 2 && case.mult == 1 {
            out.samples.push(short(case));
        }
        out.nontrivial = hashes.len() as u64;
    }
}

/// Replace generated streams and plans by what they expand to, then drop bytes and piece ends while
/// the property still fails.
fn minimise(check: &Check, case: Case, message: String) -> (Case, String) {
    minimise_by(case, message, &|c| match eval(check, c, &mut Log::default()) {
        Ran::Fail(m) => Some(m),
        _ => None,
    })
}

pub fn minimise_by(case: Case, message: String, fails: &dyn Fn(&Case) -> Option<String>) -> (Case, String) {
    let mut best = case.clone();
    let mut msg = message;
    let mut budget = 4000i32;
    let t0 = std::time::Instant::now();
    let try_case = |c: &Case, budget: &mut i32| -> Option<String> {
        *budget -= 1;
        if *budget < 0 || t0.elapsed().as_secs() > 30 {
            return None;
        }
        fails(c)
    };
    if best.mult >= crate::giant::MANY {
        return (best, msg);
    }
    let mut c = best.clone();
    for i in 0..c.streams.len() {
        let d = best.data(i);
        if d.len() > 60_000 {
            return (best, msg);
        }
        c.streams[i] = vec![Op::Lit(d)];
    }
    c.mult = 1;
    match try_case(&c, &mut budget) {
        Some(m) => {
            best = c;
            msg = m;
        }
        None => return (best, msg),
    }
    for i in 0..best.streams.len() {
        let get = |c: &Case| match &c.streams[i][0] {
            Op::Lit(v) => v.clone(),
            _ => vec![],
        };
        let mut chunk = (get(&best).len() / 2).max(1);
        loop {
            let mut at = 0;
            let mut removed = false;
            loop {
                let d = get(&best);
                if at >= d.len() {
                    break;
                }
                let mut nd = d.clone();
                nd.drain(at..(at + chunk).min(d.len()));
                let mut c = best.clone();
                c.streams[i] = vec![Op::Lit(nd)];
                match try_case(&c, &mut budget) {
                    Some(m) => {
                        best = c;
                        msg = m;
                        removed = true;
                    }
                    None => at += chunk,
                }
                if budget < 0 {
                    break;
                }
            }
            if budget < 0 || (chunk == 1 && !removed) {
                break;
            }
            if !removed {
                chunk = (chunk / 2).max(1);
            }
        }
    }
    // simpler call schedules
    for i in 0..best.plans.len() {
        for p in [Plan::Whole, Plan::Ones] {
            if best.plans[i] == p {
                break;
            }
            let mut c = best.clone();
            c.plans[i] = p;
            if let Some(m) = try_case(&c, &mut budget) {
                best = c;
                msg = m;
                break;
            }
        }
    }
    for i in 0..best.knobs.len() {
        if best.knobs[i] != 0 {
            let mut c = best.clone();
            c.knobs[i] = 0;
            if let Some(m) = try_case(&c, &mut budget) {
                best = c;
                msg = m;
            }
        }
    }
    (best, msg)
}

pub fn cfg_label(c: &Cfg) -> &'static str {
    use Cfg::*;
    match c {
        BupDefault | BuzNom { .. } | FastDefault | GearDefault | GzipDefault | MiiDefault | PigzDefault | ZpaqDefault | ZstdDefault => "cfg:default",
        _ => "cfg:custom",
    }
}
