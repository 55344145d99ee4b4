//! Seeded, sharded search with shrinking, regression replay, statistics and evidence.
use crate::fast::Fast;
use crate::real::{guard, install_hook};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-case notes a check leaves behind.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub discarded: bool,
    pub labels: Vec<&'static str>,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn discard(&mut self) -> Result<(), String> {
        self.discarded = true;
        Ok(())
    }
}

pub trait Prop: Sync + 'static {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// deterministic cases, run in full before the random search
    fn enumerate() -> Vec<Self::Case> {
        Vec::new()
    }
    /// a case of the second, faster generator (None: the property has none)
    fn fast(_: &mut Fast) -> Option<Self::Case> {
        None
    }
    /// cases of the fast generator per random case
    fn fast_factor() -> u64 {
        2
    }
    /// random cases in the quick tier, summed over all shards
    fn quick_cases() -> u64;
    fn thorough_factor() -> u64 {
        20
    }
    fn check(case: &Self::Case, cx: &mut Cx) -> Result<(), String>;
}

pub enum Outcome {
    Pass,
    Fail(String),
    HarnessError(String),
}

pub fn run_case<P: Prop>(case: &P::Case, cx: &mut Cx) -> Outcome {
    match guard(|| P::check(case, cx)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(p) if p.in_harness() => Outcome::HarnessError(p.to_string()),
        Err(p) => Outcome::Fail(p.to_string()),
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: u64,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_total: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.discarded += o.discarded;
        self.nontrivial.extend(o.nontrivial);
        self.nontrivial_total += o.nontrivial_total;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
    pub fn record<C: Debug + Serialize>(&mut self, case: &C, cx: &Cx, want_sample: bool) {
        self.evaluations += 1;
        if cx.discarded {
            self.discarded += 1;
        }
        for l in &cx.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if cx.nontrivial && !cx.discarded {
            self.nontrivial_total += 1;
            let mut h = Fnv(0xcbf29ce484222325);
            serde_json::to_writer(&mut h, case).expect("case serialises");
            self.nontrivial.insert(h.0);
            if want_sample {
                self.samples.push(serde_json::to_value(case).unwrap());
            }
        }
    }
}

struct Fnv(u64);
impl std::io::Write for Fnv {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let _ = std::io::Write::write(self, b);
    }
}

fn rng_for(id: &str, seed: u64, shard: usize, profile: &str) -> TestRng {
    let mut bytes = [0u8; 32];
    for (i, chunk) in bytes.chunks_mut(8).enumerate() {
        let mut h = Fnv(0xcbf29ce484222325);
        (id, seed, shard, profile, i).hash(&mut h);
        chunk.copy_from_slice(&h.0.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn fast_for(id: &str, seed: u64, shard: usize, profile: &str) -> Fast {
    let mut h = Fnv(0xcbf29ce484222325);
    (id, seed, shard, profile, "fast").hash(&mut h);
    Fast::new(h.0)
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub evidence: PathBuf,
    pub replay_dir: PathBuf,
    pub regress_dir: PathBuf,
    pub merge: Option<PathBuf>,
    /// statistics the workers of the coverage-guided search left here
    pub merge_guided: Option<PathBuf>,
    pub part: bool,
    pub scale: f64,
}

struct Failure<C> {
    shard: usize,
    case: C,
    msg: String,
    phase: &'static str,
}

pub fn profile_name() -> &'static str {
    if cfg!(debug_assertions) {
        "checked"
    } else {
        "release"
    }
}

/// What each shard is executing, so that a call that never returns is reported with its input.
pub struct Slot<C> {
    pub beat: AtomicU64,
    pub case: Mutex<Option<C>>,
}
pub type Slots<C> = Arc<Vec<Slot<C>>>;

pub fn exec<P: Prop>(slot: &Slot<P::Case>, case: &P::Case, cx: &mut Cx) -> Outcome {
    slot.beat.fetch_add(1, Ordering::Relaxed);
    *slot.case.lock().unwrap() = Some(case.clone());
    let r = run_case::<P>(case, cx);
    *slot.case.lock().unwrap() = None;
    slot.beat.fetch_add(1, Ordering::Relaxed);
    r
}

/// A single case takes microseconds; one that is still running after a minute never ends.
const HANG_TICKS: u32 = 1200;

pub fn watchdog<P: Prop>(slots: Slots<P::Case>, dir: PathBuf, seed: u64) {
    std::thread::spawn(move || {
        let mut last = vec![(0u64, 0u32); slots.len()];
        loop {
            std::thread::sleep(Duration::from_millis(50));
            for (s, l) in slots.iter().zip(last.iter_mut()) {
                let b = s.beat.load(Ordering::Relaxed);
                if b != l.0 {
                    *l = (b, 0);
                    continue;
                }
                let Some(case) = s.case.lock().unwrap().clone() else { continue };
                l.1 += 1;
                if l.1 >= HANG_TICKS {
                    let msg = "does not terminate (still running after 60 s)";
                    let path = write_replay(&dir, P::ID, &case, msg, "hang", seed);
                    println!("{}: {}", P::ID, msg);
                    println!("{}: case {}", P::ID, serde_json::to_string(&case).unwrap());
                    println!("VIOLATION property={} replay={}", P::ID, path.display());
                    std::process::exit(1);
                }
            }
        }
    });
}

fn shrink<P: Prop>(slot: &Slot<P::Case>, tree: &mut dyn ValueTree<Value = P::Case>, mut best: P::Case, mut msg: String) -> (P::Case, String) {
    let start = Instant::now();
    let mut n = 0;
    if !tree.simplify() {
        return (best, msg);
    }
    loop {
        n += 1;
        if n > 50_000 || start.elapsed() > Duration::from_secs(40) {
            break;
        }
        let c = tree.current();
        let mut cx = Cx::default();
        match exec::<P>(slot, &c, &mut cx) {
            Outcome::Fail(m) => {
                best = c;
                msg = m;
                if !tree.simplify() {
                    break;
                }
            }
            _ => {
                if !tree.complicate() {
                    break;
                }
            }
        }
    }
    (best, msg)
}

pub fn run<P: Prop>(o: &Opts) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let id = P::ID;
    let mut stats = Stats::default();
    let mut failure: Option<Failure<P::Case>> = None;
    let harness_error: Mutex<Option<String>> = Mutex::new(None);

    let slots: Slots<P::Case> = Arc::new((0..=SHARDS).map(|_| Slot { beat: AtomicU64::new(0), case: Mutex::new(None) }).collect());
    watchdog::<P>(slots.clone(), o.replay_dir.clone(), o.seed);

    // 1. regression inputs
    let mut regress = 0u64;
    for f in list_json(&o.regress_dir.join(id)) {
        match read_case::<P>(&f) {
            Ok(case) => {
                let mut cx = Cx::default();
                regress += 1;
                match exec::<P>(&slots[SHARDS], &case, &mut cx) {
                    Outcome::Pass => stats.record(&case, &cx, false),
                    Outcome::Fail(m) => {
                        if failure.is_none() {
                            failure = Some(Failure { shard: 0, case, msg: m, phase: "regression" });
                        }
                    }
                    Outcome::HarnessError(e) => *harness_error.lock().unwrap() = Some(e),
                }
            }
            Err(e) => {
                eprintln!("ERROR: cannot read regression input {}: {}", f.display(), e);
                return 2;
            }
        }
    }

    // 2. + 3. enumeration and random search, sharded
    let mut enumerated = 0u64;
    let mut random = 0u64;
    let mut second = 0u64;
    if failure.is_none() {
        let cases = P::enumerate();
        enumerated = cases.len() as u64;
        let total = match o.tier {
            Tier::Quick => P::quick_cases(),
            Tier::Thorough => P::quick_cases() * P::thorough_factor(),
        };
        let total = (total as f64 * o.scale) as u64;
        let per_shard = total.div_ceil(SHARDS as u64);
        random = per_shard * SHARDS as u64;
        let fast_per_shard = if P::fast(&mut Fast::new(0)).is_some() { per_shard * P::fast_factor() } else { 0 };
        second = fast_per_shard * SHARDS as u64;
        let next = AtomicUsize::new(0);
        let failing = AtomicUsize::new(usize::MAX);
        let results: Mutex<Vec<(usize, Stats)>> = Mutex::new(Vec::new());
        let failures: Mutex<Vec<Failure<P::Case>>> = Mutex::new(Vec::new());
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, SHARDS);
        std::thread::scope(|sc| {
            let mut hs = Vec::new();
            for _ in 0..threads {
                hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || loop {
                    let shard = next.fetch_add(1, Ordering::SeqCst);
                    if shard >= SHARDS {
                        break;
                    }
                    let mut st = Stats::default();
                    let fail = |case: P::Case, msg: String, phase| {
                        failing.fetch_min(shard, Ordering::SeqCst);
                        failures.lock().unwrap().push(Failure { shard, case, msg, phase });
                    };
                    let mut failed = false;
                    for case in cases.iter().skip(shard).step_by(SHARDS) {
                        let mut cx = Cx::default();
                        match exec::<P>(&slots[shard], case, &mut cx) {
                            Outcome::Pass => st.record(case, &cx, shard == 0 && st.samples.is_empty()),
                            Outcome::Fail(m) => {
                                fail(case.clone(), m, "enumeration");
                                failed = true;
                                break;
                            }
                            Outcome::HarnessError(e) => {
                                *harness_error.lock().unwrap() = Some(e);
                                failed = true;
                                break;
                            }
                        }
                    }
                    let strat = P::strategy(o.tier);
                    let cfg = Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() };
                    let mut runner = TestRunner::new_with_rng(cfg, rng_for(id, o.seed, shard, profile_name()));
                    let mut i = 0;
                    while !failed && i < per_shard {
                        i += 1;
                        if failing.load(Ordering::Relaxed) < shard {
                            break;
                        }
                        let mut tree = match strat.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                *harness_error.lock().unwrap() = Some(format!("generator: {}", e));
                                break;
                            }
                        };
                        let case = tree.current();
                        let mut cx = Cx::default();
                        match exec::<P>(&slots[shard], &case, &mut cx) {
                            Outcome::Pass => {
                                let want = st.samples.len() < 2 && i % 97 == 1 || (shard < 4 && st.samples.len() < 3 && i > per_shard / 2);
                                st.record(&case, &cx, want);
                            }
                            Outcome::Fail(m) => {
                                failing.fetch_min(shard, Ordering::SeqCst);
                                let (c, m) = shrink::<P>(&slots[shard], &mut tree, case, m);
                                fail(c, m, "random");
                                failed = true;
                            }
                            Outcome::HarnessError(e) => {
                                *harness_error.lock().unwrap() = Some(e);
                                failed = true;
                            }
                        }
                    }
                    let mut r = fast_for(id, o.seed, shard, profile_name());
                    let mut i = 0;
                    while !failed && i < fast_per_shard {
                        i += 1;
                        if failing.load(Ordering::Relaxed) < shard {
                            break;
                        }
                        let Some(case) = P::fast(&mut r) else { break };
                        let mut cx = Cx::default();
                        match exec::<P>(&slots[shard], &case, &mut cx) {
                            Outcome::Pass => st.record(&case, &cx, shard == 5 && i == 7),
                            Outcome::Fail(m) => {
                                failing.fetch_min(shard, Ordering::SeqCst);
                                let (c, m) = crate::edit::reduce::<P>(&slots[shard], case, m, || generated::<P>(2000, o.seed));
                                fail(c, m, "fast generator");
                                failed = true;
                            }
                            Outcome::HarnessError(e) => {
                                *harness_error.lock().unwrap() = Some(e);
                                failed = true;
                            }
                        }
                    }
                    results.lock().unwrap().push((shard, st));
                }).unwrap());
            }
            for h in hs {
                let _ = h.join();
            }
        });
        let mut r = results.into_inner().unwrap();
        r.sort_by_key(|x| x.0);
        for (_, s) in r {
            stats.merge(s);
        }
        let mut f = failures.into_inner().unwrap();
        f.sort_by_key(|x| x.shard);
        if !f.is_empty() {
            failure = Some(f.remove(0));
        }
    }

    if let Some(e) = harness_error.into_inner().unwrap() {
        eprintln!("ERROR: {}: harness: {}", id, e);
        if failure.is_none() {
            return 2;
        }
    }

    let mut rc = 0;
    if let Some(f) = &failure {
        let path = write_replay(&o.replay_dir, id, &f.case, &f.msg, f.phase, o.seed);
        println!("{}: {}", id, f.msg);
        println!("{}: case {}", id, serde_json::to_string(&f.case).unwrap());
        println!("VIOLATION property={} replay={}", id, path.display());
        rc = 1;
    }
    write_evidence::<P>(o, &stats, regress, enumerated, random, second, t0.elapsed().as_secs_f64(), rc);
    rc
}

/// cases of the property's own generator as JSON trees
fn generated<P: Prop>(n: usize, seed: u64) -> Vec<serde_json::Value> {
    let strat = P::strategy(Tier::Quick);
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, rng_for(P::ID, seed, SHARDS + 1, "seeds"));
    let mut r = fast_for(P::ID, seed, SHARDS + 1, "seeds");
    let mut v = Vec::new();
    for i in 0..n {
        let c = if i % 4 == 3 { P::fast(&mut r) } else { None };
        let c = c.or_else(|| strat.new_tree(&mut runner).ok().map(|t| t.current()));
        v.extend(c.map(|c| serde_json::to_value(c).expect("case serialises")));
    }
    v
}

/// `n` generated cases, one JSON document per line: the start of the coverage-guided search
pub fn seeds<P: Prop>(n: usize, seed: u64) -> i32 {
    install_hook();
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for v in generated::<P>(n, seed) {
        if serde_json::to_writer(&mut out, &v).is_err() || std::io::Write::write_all(&mut out, b"\n").is_err() {
            return 2;
        }
    }
    0
}

pub fn write_replay<C: Serialize>(dir: &Path, id: &str, case: &C, msg: &str, phase: &str, seed: u64) -> PathBuf {
    let d = dir.join(id);
    let _ = std::fs::create_dir_all(&d);
    let mut h = Fnv(0xcbf29ce484222325);
    serde_json::to_writer(&mut h, case).unwrap();
    let p = d.join(format!("{:016x}.json", h.0));
    let v = serde_json::json!({"property": id, "profile": profile_name(), "phase": phase, "seed": seed, "message": msg, "case": case});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n");
    p
}

fn write_evidence<P: Prop>(o: &Opts, s: &Stats, regress: u64, enumerated: u64, random: u64, second: u64, wall: f64, rc: i32) {
    let mut samples = s.samples.clone();
    samples.truncate(12);
    let part = serde_json::json!({
        "profile": profile_name(), "evaluations": s.evaluations, "distinct_nontrivial": s.nontrivial.len(),
        "nontrivial_total": s.nontrivial_total, "discarded": s.discarded, "regression_inputs": regress,
        "enumerated": enumerated, "random_planned": random, "fast_planned": second, "classes": s.labels, "wall_s": wall, "violations": rc,
        "samples": samples,
    });
    if o.part {
        let _ = std::fs::write(&o.evidence, serde_json::to_string(&part).unwrap());
        let bytes: Vec<u8> = s.nontrivial.iter().flat_map(|h| h.to_le_bytes()).collect();
        let _ = std::fs::write(o.evidence.with_extension("hashes"), bytes);
        return;
    }
    let mut parts = vec![part];
    let mut distinct = s.nontrivial.clone();
    if let Some(m) = &o.merge {
        if let Ok(t) = std::fs::read_to_string(m) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                parts.push(v);
                let bytes = std::fs::read(m.with_extension("hashes")).unwrap_or_default();
                distinct.extend(bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    let mut workers = Vec::new();
    if let Some(d) = &o.merge_guided {
        for f in list_json(d) {
            if let Some(v) = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
                workers.push(v);
                let bytes = std::fs::read(f.with_extension("hashes")).unwrap_or_default();
                distinct.extend(bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    let gsum = |k: &str| workers.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum::<u64>();
    let sum = |k: &str| parts.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum::<u64>();
    let wall: f64 = parts.iter().map(|p| p["wall_s"].as_f64().unwrap_or(0.0)).sum();
    let mut slim = parts.clone();
    for p in slim.iter_mut() {
        p.as_object_mut().unwrap().remove("samples");
    }
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if o.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations") + gsum("evaluations"),
            "distinct_nontrivial": distinct.len(),
            "rule": P::RULE,
            "samples": parts[0]["samples"],
            "discarded": sum("discarded"),
            "builds": slim,
            "coverage_guided": {
                "workers": workers.len(),
                "mutants": gsum("mutants"),
                "evaluations": gsum("evaluations"),
                "not_a_case": gsum("unreadable"),
                "outside_domain": gsum("outside_domain"),
                "discarded": gsum("discarded"),
                "kept_in_corpus": gsum("corpus"),
                "features": workers.iter().map(|p| p["features"].as_u64().unwrap_or(0)).max(),
                "wall_s": workers.iter().map(|p| p["wall_s"].as_f64().unwrap_or(0.0)).fold(0.0, f64::max),
            },
        },
        "assumptions": ["only the public API is exercised", "the reference model in harness/src/num.rs and spec.rs is correct"],
        "wall_s": wall,
        "violations": sum("violations") + gsum("violations"),
    });
    if let Some(d) = o.evidence.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&o.evidence, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence written");
}

pub fn list_json(d: &Path) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(d)
        .map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

pub fn read_case<P: Prop>(f: &Path) -> Result<P::Case, String> {
    let t = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
    let v: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    serde_json::from_value(v["case"].clone()).map_err(|e| e.to_string())
}

pub fn replay<P: Prop>(f: &Path) -> i32 {
    install_hook();
    let case = match read_case::<P>(f) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("ERROR: {}", e);
            return 2;
        }
    };
    let mut cx = Cx::default();
    match run_case::<P>(&case, &mut cx) {
        Outcome::Pass => {
            println!("{}: holds on {}", P::ID, f.display());
            0
        }
        Outcome::Fail(m) => {
            println!("{}: {}", P::ID, m);
            println!("VIOLATION property={} replay={}", P::ID, f.display());
            1
        }
        Outcome::HarnessError(e) => {
            eprintln!("ERROR: {}", e);
            2
        }
    }
}
