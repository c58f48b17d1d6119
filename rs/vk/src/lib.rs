//! Runner shared by the checks: every sub-check is a generator plus an oracle, run by proptest
//! from a seed that depends on VERIF_SEED only, shrunk on failure and written to a replay file.
pub use proptest;
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
pub use serde;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
pub use serde_json;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub mod gen;
mod watch;

/// A case that ends with an error starting so has nothing to check: an internal part that it
/// drives directly is not in this tree under that name. It counts as trivial.
pub const ABSENT: &str = "not in this tree";

/// What one evaluation of a property observed about its case.
#[derive(Default)]
pub struct Obs {
    pub classes: Vec<&'static str>,
    pub trivial: bool,
    pub known: Vec<String>,
}
impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c)
    }
    /// Marks the case as one that does not exercise the property (not counted as non-trivial).
    pub fn trivial(&mut self) {
        self.trivial = true
    }
    /// Reports a failure that is listed, by this exact signature, in known_findings.json.
    pub fn known(&mut self, sig: &str) {
        self.known.push(sig.to_string())
    }
}
pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}
/// Runs `f`, turning a panic into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_string())
    })
}

#[derive(Default, Clone)]
struct Stat {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    failure: Option<(Value, String)>,
    error: Option<String>,
}

struct Job {
    name: String,
    shard: u32,
    run: Box<dyn FnOnce(&Env) -> Stat + Send>,
    replay: Option<Box<dyn FnOnce(Value) -> Result<(), String> + Send>>,
}

#[derive(Clone)]
struct Env {
    seed: u64,
    known: Arc<BTreeSet<String>>,
}

pub struct Check {
    id: &'static str,
    rule: String,
    assumptions: Vec<String>,
    level: &'static str,
    pub thorough: bool,
    seed: u64,
    jobs: Vec<Job>,
    t0: Instant,
    only: Option<String>,
    replay: Option<(String, Value)>,
    verif: String,
    extra: BTreeMap<String, Value>,
    at_exit: Vec<Box<dyn FnOnce()>>,
    /// multiplies the case counts of the sub-checks added after it is set
    pub scale: u32,
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn seed_bytes(seed: u64, name: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x = seed ^ fnv(name.as_bytes()) ^ ((shard as u64 + 1) << 32);
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

impl Check {
    pub fn new(id: &'static str, rule: &str) -> Check {
        // VK_AS: the searches named in VK_SUBS stand in for another property's check (see `check`)
        let id = std::env::var("VK_AS").map(|s| &*Box::leak(s.into_boxed_str())).unwrap_or(id);
        let default = std::panic::take_hook();
        let verbose = std::env::var("VK_PANICS").is_ok();
        std::panic::set_hook(Box::new(move |i| {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked: {}{}", m, loc)));
            if verbose {
                default(i)
            }
        }));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let args: Vec<String> = std::env::args().collect();
        let mut only = None;
        let mut replay = None;
        let mut i = 1;
        while i < args.len() {
            match args[i].as_str() {
                "--only" => {
                    only = Some(args[i + 1].clone());
                    i += 1
                }
                "--replay" => {
                    let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).unwrap()).unwrap();
                    replay = Some((v["sub"].as_str().unwrap().to_string(), v["case"].clone()));
                    i += 1
                }
                _ => {}
            }
            i += 1;
        }
        let mut assumptions = vec![];
        if std::env::var("VK_AS").is_ok() {
            assumptions.push("reduced run: the private routines could not be driven directly in this tree, so that they were judged through whole proofs only".to_string());
        }
        Check {
            id,
            rule: rule.to_string(),
            assumptions,
            level: "exploration",
            thorough,
            seed,
            jobs: vec![],
            t0: Instant::now(),
            only,
            replay,
            verif,
            extra: BTreeMap::new(),
            scale: 1,
            at_exit: vec![],
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string())
    }
    pub fn note(&mut self, k: &str, v: Value) {
        self.extra.insert(k.to_string(), v);
    }
    /// Runs after the last case, whatever the verdict.
    pub fn at_exit(&mut self, f: impl FnOnce() + 'static) {
        self.at_exit.push(Box::new(f))
    }
    pub fn verif_dir(&self) -> &str {
        &self.verif
    }

    /// A property: `quick`/`thorough` cases in total, split over `shards` independent seeds.
    pub fn sub<S, F, P>(&mut self, name: &str, quick: u32, thorough: u32, shards: u32, strat: F, prop: P)
    where
        S: Strategy + 'static,
        S::Value: Serialize + DeserializeOwned + Debug + 'static,
        F: Fn() -> S + Send + Sync + 'static,
        P: Fn(&S::Value, &mut Obs) -> R + Send + Sync + 'static,
    {
        let total = if self.thorough { thorough } else { quick };
        let total = if total < 16 { total } else { total.saturating_mul(self.scale) };
        let shards = if self.thorough { shards.max(8) } else { shards };
        let cases = (total + shards - 1) / shards;
        let strat = Arc::new(strat);
        let prop = Arc::new(prop);
        for shard in 0..shards {
            let (strat, prop, name2) = (strat.clone(), prop.clone(), name.to_string());
            let prop2 = prop.clone();
            let run = move |env: &Env| run_prop(&name2, shard, cases, env, strat().boxed(), &*prop);
            let replay: Option<Box<dyn FnOnce(Value) -> Result<(), String> + Send>> = if shard == 0 {
                Some(Box::new(move |v: Value| {
                    let val: S::Value = serde_json::from_value(v).map_err(|e| format!("bad replay case: {}", e))?;
                    let mut o = Obs::default();
                    match no_panic(|| prop2(&val, &mut o)) {
                        Ok(r) => r,
                        Err(p) => Err(p),
                    }
                }))
            } else {
                None
            };
            self.jobs.push(Job { name: name.to_string(), shard, run: Box::new(run), replay });
        }
    }

    pub fn finish(self) -> ! {
        let known_file = format!("{}/known_findings.json", self.verif);
        let kf: Value = std::fs::read_to_string(&known_file)
            .ok()
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or(json!({"findings": []}));
        let mut known = BTreeMap::new();
        for f in kf["findings"].as_array().cloned().unwrap_or_default() {
            if f["property"] == self.id && f["status"] == "open" {
                known.insert(
                    f["signature"].as_str().unwrap_or("").to_string(),
                    f["what"].as_str().unwrap_or("").to_string(),
                );
            }
        }
        let env = Env { seed: self.seed, known: Arc::new(known.keys().cloned().collect()) };
        if let Some((sub, case)) = self.replay {
            for j in self.jobs {
                if j.name == sub {
                    if let Some(r) = j.replay {
                        match r(case) {
                            Err(e) if e.starts_with(ABSENT) => {
                                println!("replay of {}/{}: {}", self.id, sub, e);
                                std::process::exit(0)
                            }
                            Ok(()) => {
                                println!("replay of {}/{}: holds", self.id, sub);
                                std::process::exit(0)
                            }
                            Err(e) => {
                                println!("replay of {}/{}: FAILS: {}", self.id, sub, e);
                                std::process::exit(1)
                            }
                        }
                    }
                }
            }
            println!("no such sub-check");
            std::process::exit(2)
        }
        let _ = std::fs::create_dir_all(format!("{}/evidence/replay", self.verif));
        let (limit, total) = if self.thorough { (1800, u64::MAX / 2000) } else { (300, 600) };
        watch::start(self.id, self.verif.clone(), self.seed, limit, total);
        let only = self.only.clone();
        let subs: Option<Vec<String>> = std::env::var("VK_SUBS").ok().map(|s| s.split(',').map(String::from).collect());
        let jobs: Vec<Job> =
            self.jobs.into_iter().filter(|j| only.as_ref().map(|o| &j.name == o).unwrap_or(true) && subs.as_ref().map(|v| v.contains(&j.name)).unwrap_or(true)).collect();
        let queue = Arc::new(Mutex::new(jobs.into_iter().map(Some).collect::<std::collections::VecDeque<_>>()));
        let results: Arc<Mutex<Vec<(String, u32, Stat, f64)>>> = Arc::new(Mutex::new(vec![]));
        let n = std::env::var("VK_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        let hs: Vec<_> = (0..n)
            .map(|slot| {
                let (queue, results, env) = (queue.clone(), results.clone(), env.clone());
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn(move || loop {
                        let job = match queue.lock().unwrap().pop_front() {
                            Some(Some(j)) => j,
                            _ => return,
                        };
                        let t = Instant::now();
                        let (name, shard) = (job.name, job.shard);
                        watch::enter(slot, &name);
                        let run = job.run;
                        let st = match catch_unwind(AssertUnwindSafe(|| run(&env))) {
                            Ok(s) => s,
                            Err(_) => Stat { error: Some("runner panicked".into()), ..Default::default() },
                        };
                        results.lock().unwrap().push((name, shard, st, t.elapsed().as_secs_f64()));
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        watch::stop();
        for f in self.at_exit {
            f()
        }
        let mut res = results.lock().unwrap().clone();
        res.sort_by(|a, b| (a.0.as_str(), a.1).cmp(&(b.0.as_str(), b.1)));
        let mut evals = 0;
        let mut nt = 0;
        let mut samples = vec![];
        let mut subs: BTreeMap<String, (u64, u64, BTreeMap<String, u64>, f64)> = BTreeMap::new();
        let mut sets: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
        let mut kn: BTreeMap<String, u64> = BTreeMap::new();
        let mut fails = vec![];
        let mut errors = vec![];
        for (name, _shard, st, t) in res.iter() {
            evals += st.evals;
            let e = subs.entry(name.clone()).or_default();
            e.0 += st.evals;
            e.3 += t;
            for (c, k) in &st.classes {
                *e.2.entry(c.clone()).or_default() += k;
            }
            sets.entry(name.clone()).or_default().extend(st.nontrivial.iter());
            if let Some(s) = st.samples.first() {
                if !samples.iter().any(|x: &Value| x["sub"] == json!(name)) {
                    samples.push(json!({"sub": name, "case": s}));
                }
            }
            for (k, c) in &st.known {
                *kn.entry(k.clone()).or_default() += c;
            }
            if let Some(f) = &st.failure {
                fails.push((name.clone(), f.clone()));
            }
            if let Some(e) = &st.error {
                errors.push(format!("{}: {}", name, e));
            }
        }
        for (k, s) in &sets {
            subs.get_mut(k).unwrap().1 = s.len() as u64;
            nt += s.len() as u64;
        }
        let mut seen = BTreeSet::new();
        let mut lines = vec![];
        for (sub, (case, why)) in &fails {
            if !seen.insert(sub.clone()) {
                continue;
            }
            lines.push(watch::write(self.id, &self.verif, self.seed, sub, case, why));
        }
        let sub_json: BTreeMap<String, Value> = subs
            .iter()
            .map(|(k, v)| (k.clone(), json!({"evaluations": v.0, "distinct_nontrivial": v.1, "classes": v.2, "cpu_s": (v.3*100.0).round()/100.0})))
            .collect();
        let mut coverage = json!({
            "evaluations": evals, "distinct_nontrivial": nt, "rule": self.rule,
            "samples": samples, "sub_checks": sub_json, "known_findings_seen": kn,
        });
        for (k, v) in &self.extra {
            coverage[k] = v.clone();
        }
        let ev = json!({
            "property": self.id, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": self.level, "coverage": coverage, "assumptions": self.assumptions,
            "wall_s": self.t0.elapsed().as_secs_f64(), "violations": lines.len(),
        });
        if self.only.is_none() {
            std::fs::write(format!("{}/evidence/{}.json", self.verif, self.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        }
        for (k, v) in &sub_json {
            eprintln!("  {} {}: {}", self.id, k, v);
        }
        for (k, _) in &kn {
            println!("KNOWN-FINDING: property={} {}", self.id, known.get(k).unwrap());
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s",
            self.id, evals, nt, lines.len(), self.t0.elapsed().as_secs_f64()
        );
        for l in &lines {
            println!("{}", l);
        }
        if !lines.is_empty() {
            std::process::exit(1);
        }
        if !errors.is_empty() {
            for e in errors {
                eprintln!("ERROR {}", e);
            }
            std::process::exit(3);
        }
        std::process::exit(0)
    }
}

fn run_prop<V>(
    name: &str,
    shard: u32,
    cases: u32,
    env: &Env,
    strat: BoxedStrategy<V>,
    prop: &dyn Fn(&V, &mut Obs) -> R,
) -> Stat
where
    V: Serialize + DeserializeOwned + Debug + 'static,
{
    let cfg = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 600,
        max_shrink_time: 15_000,
        max_global_rejects: cases.saturating_mul(4) + 1000,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(env.seed, name, shard));
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let st = RefCell::new(Stat::default());
    let failed = RefCell::new(false);
    let r = runner.run(&strat, |v: V| {
        let mut o = Obs::default();
        if !*failed.borrow() && watch::failed(name) {
            // another shard has found a failure of this sub-check
            return Ok(());
        }
        let r = match watch::during(&v, || no_panic(|| prop(&v, &mut o))) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected {}", p)),
        };
        let r = match r {
            Err(e) if e.starts_with(ABSENT) => {
                o.class(ABSENT);
                o.trivial();
                Ok(())
            }
            r => r,
        };
        for k in &o.known {
            if !env.known.contains(k) {
                *failed.borrow_mut() = true;
                watch::fail(name, serde_json::to_value(&v).unwrap(), &format!("finding not listed as known: {}", k));
                return Err(TestCaseError::fail(format!("finding not listed as known: {}", k)));
            }
        }
        if !*failed.borrow() {
            let mut st = st.borrow_mut();
            st.evals += 1;
            for c in &o.classes {
                *st.classes.entry(c.to_string()).or_default() += 1;
            }
            for k in &o.known {
                *st.known.entry(k.clone()).or_default() += 1;
            }
            if !o.trivial {
                let j = serde_json::to_vec(&v).unwrap();
                st.nontrivial.insert(fnv(&j));
                if st.samples.is_empty() && st.evals > 3 || st.samples.is_empty() && cases < 6 {
                    let s = serde_json::to_value(&v).unwrap();
                    let txt = s.to_string();
                    st.samples.push(if txt.len() > 1500 { Value::String(txt.chars().take(1500).collect()) } else { s });
                }
            }
        }
        r.map_err(|e| {
            if !*failed.borrow() {
                watch::fail(name, serde_json::to_value(&v).unwrap(), &e);
            }
            *failed.borrow_mut() = true;
            TestCaseError::fail(e)
        })
    });
    let mut st = st.into_inner();
    match r {
        Ok(()) => {}
        Err(TestError::Fail(why, v)) => {
            st.failure = Some((serde_json::to_value(&v).unwrap(), why.message().to_string()))
        }
        Err(TestError::Abort(why)) => st.error = Some(format!("generator aborted: {}", why)),
    }
    st
}

/// 32 bytes shown as hex (most significant byte first; little-endian inside).
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct B32(pub [u8; 32]);
impl Debug for B32 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", hex_be(&self.0))
    }
}
pub fn hex_be(le: &[u8]) -> String {
    let mut s = String::from("0x");
    for b in le.iter().rev() {
        s.push_str(&format!("{:02x}", b));
    }
    s
}
impl Serialize for B32 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex_be(&self.0))
    }
}
impl<'de> Deserialize<'de> for B32 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let h = s.trim_start_matches("0x");
        let mut out = [0u8; 32];
        for i in 0..32 {
            out[31 - i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom)?;
        }
        Ok(B32(out))
    }
}
