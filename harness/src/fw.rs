//! Driver shared by every property: deterministic generation, parallel
//! workers, shrinking, replay files, evidence, known findings.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A disagreement between the code under test and the oracle.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Properties this disagreement is about; empty = whatever is being checked.
    pub tags: Vec<&'static str>,
    /// Exact identity of a root cause, when one is known (see known_findings.json).
    pub sig: Option<String>,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        Fail { tags: vec![], sig: None, msg: msg.into() }
    }
    pub fn tag(mut self, t: &[&'static str]) -> Self {
        self.tags = t.to_vec();
        self
    }
    #[allow(dead_code)]
    pub fn sig(mut self, s: impl Into<String>) -> Self {
        self.sig = Some(s.into());
        self
    }
}

#[macro_export]
macro_rules! fail {
    (@$t:expr, $($a:tt)*) => { return Err($crate::fw::Fail::new(format!($($a)*)).tag($t)) };
    ([$($t:expr),*], $($a:tt)*) => {
        return Err($crate::fw::Fail::new(format!($($a)*)).tag(&[$($t),*]))
    };
    ($($a:tt)*) => { return Err($crate::fw::Fail::new(format!($($a)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, @$t:expr, $($a:tt)*) => { if !$c { $crate::fail!(@$t, $($a)*) } };
    ($c:expr, [$($t:expr),*], $($a:tt)*) => { if !$c { $crate::fail!([$($t),*], $($a)*) } };
    ($c:expr, $($a:tt)*) => { if !$c { $crate::fail!($($a)*) } };
}

/// ensure_eq!(code, model, [tags], "context {}", ..)
#[macro_export]
macro_rules! ensure_eq {
    (@$t:expr, $l:expr, $r:expr, $($a:tt)*) => { $crate::ensure_eq!($l, $r, @$t, $($a)*) };
    ($l:expr, $r:expr, @$t:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r {
            return Err($crate::fw::Fail::new(format!("{}: code {:?}, oracle {:?}", format!($($a)*), l, r)).tag($t))
        }
    }};
    ($l:expr, $r:expr, [$($t:expr),*], $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r {
            return Err($crate::fw::Fail::new(format!("{}: code {:?}, oracle {:?}", format!($($a)*), l, r)).tag(&[$($t),*]))
        }
    }};
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r {
            $crate::fail!("{}: code {:?}, oracle {:?}", format!($($a)*), l, r)
        }
    }};
}

/// What one case did; filled in by the scenario.
#[derive(Default)]
pub struct Cx {
    pub prop: String,
    pub nontrivial: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub trace: bool,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_default() += 1;
    }
    pub fn label_n(&mut self, l: &'static str, n: u64) {
        if n > 0 {
            *self.labels.entry(l).or_default() += n;
        }
    }
    pub fn has(&self, l: &str) -> bool {
        self.labels.contains_key(l)
    }
    pub fn count(&self, l: &str) -> u64 {
        self.labels.get(l).copied().unwrap_or(0)
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if self.trace {
            eprintln!("{}", f());
        }
    }
}

pub trait Scenario: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + 'static;
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn strategy(&self) -> BoxedStrategy<Self::Case>;
    fn run(&self, case: &Self::Case, cx: &mut Cx) -> R;
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub scenario: String,
    pub message: String,
    pub case: serde_json::Value,
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    #[serde(default)]
    pub signature: String,
    #[serde(default)]
    pub status: String,
    #[serde(default)]
    pub what: String,
}

#[derive(Deserialize)]
struct KnownFile {
    findings: Vec<Known>,
}

pub struct Session {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub scale: f64,
    pub jobs: usize,
    replay: Option<Replay>,
    start: Instant,
    known: Vec<Known>,
    evaluations: u64,
    distinct: u64,
    rules: Vec<String>,
    samples: Vec<serde_json::Value>,
    scenarios: Vec<serde_json::Value>,
    violations: Vec<(String, PathBuf)>,
    known_hits: BTreeSet<String>,
    pub assumptions: Vec<String>,
}

fn root() -> PathBuf {
    if let Ok(p) = std::env::var("VERIF_ROOT") {
        return p.into();
    }
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
}

fn seed32(parts: &[&str]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p.as_bytes());
        h.update([0]);
    }
    h.finalize().into()
}

fn hash64(s: &str) -> u64 {
    let d = Sha256::digest(s.as_bytes());
    u64::from_le_bytes(d[..8].try_into().unwrap())
}

fn truncate(v: serde_json::Value, max: usize) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= max {
        v
    } else {
        let mut n = max;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        serde_json::Value::String(format!("{} ... ({} bytes)", &s[..n], s.len()))
    }
}

pub fn panic_msg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Properties decided on the same histories, where one rests on the other (a
/// decision on the ballots, a power on the stake, a schedule on what is staked):
/// a disagreement about the one is reported under the other as well.
fn related(a: &str, b: &str) -> bool {
    const GROUPS: &[&[&str]] = &[
        &["P01", "P02", "P03"],
        &["P04", "P05"],
        &["P07", "P08", "P09"],
        &["V01", "V06"],
        &["V02", "V06"],
        &["V03", "V06"],
        &["V04", "V06"],
        &["V02", "S01"],
        &["V05", "E06"],
        &["E01", "E02"],
        &["G01", "G02"],
    ];
    GROUPS.iter().any(|g| g.contains(&a) && g.contains(&b))
}

impl Session {
    pub fn new(prop: &str, tier: &str, replay: Option<Replay>) -> Self {
        let root = root();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let known = std::fs::read_to_string(root.join("known_findings.json"))
            .ok()
            .map(|s| serde_json::from_str::<KnownFile>(&s).expect("known_findings.json").findings)
            .unwrap_or_default();
        let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let jobs = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        Session {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            root,
            scale,
            jobs,
            replay,
            start: Instant::now(),
            known: {
                // while hunting a known failure, so that it is shrunk and recorded
                let hunt = std::env::var("VERIF_HUNT").unwrap_or_default();
                known.into_iter().filter(|k| k.property == prop && k.signature != hunt).collect()
            },
            evaluations: 0,
            distinct: 0,
            rules: vec![],
            samples: vec![],
            scenarios: vec![],
            violations: vec![],
            known_hits: Default::default(),
            assumptions: vec![],
        }
    }

    /// Judge one case: Ok(()), or the failure this session's property must report.
    fn judge<S: Scenario>(&self, s: &S, case: &S::Case, trace: bool) -> (Cx, Result<(), Fail>, Option<String>) {
        let mut cx = Cx { prop: self.prop.clone(), trace, ..Default::default() };
        let out = catch_unwind(AssertUnwindSafe(|| s.run(case, &mut cx)));
        let res = match out {
            Ok(r) => r,
            Err(p) => Err(Fail::new(format!("panic: {}", panic_msg(p)))),
        };
        match res {
            Ok(()) => (cx, Ok(()), None),
            Err(f) => {
                let concerns = |t: &str| t == self.prop || (f.sig.is_none() && related(t, &self.prop));
                if !f.tags.is_empty() && !f.tags.iter().any(|t| concerns(t)) {
                    // another property's business; this case says nothing further here
                    cx.label("cut-short:disagreement-about-another-property");
                    if trace {
                        eprintln!("(cut short: {:?} {})", f.tags, f.msg);
                    }
                    return (cx, Ok(()), None);
                }
                if let Some(sig) = &f.sig {
                    if self.known.iter().any(|k| k.status == "known" && &k.signature == sig) {
                        cx.label("known-finding");
                        return (cx, Ok(()), Some(sig.clone()));
                    }
                }
                (cx, Err(f), None)
            }
        }
    }

    /// Run `quick` (or `thorough`) generated cases of a scenario.
    pub fn check<S: Scenario>(&mut self, s: S, quick: u32, thorough: u32) {
        if let Some(rp) = &self.replay {
            if rp.scenario != s.name() {
                return;
            }
            let case: S::Case = serde_json::from_value(rp.case.clone()).expect("replay case");
            let (cx, res, _) = self.judge(&s, &case, true);
            eprintln!("labels: {:?}", cx.labels);
            self.evaluations += 1;
            if let Err(f) = res {
                println!("{}", f.msg);
                self.violations.push((f.msg, PathBuf::from("(replayed)")));
            }
            return;
        }
        if !self.violations.is_empty() {
            return; // one violation is enough
        }
        let t0 = Instant::now();
        let n = if self.tier == "thorough" { thorough } else { quick };
        let n = ((n as f64 * self.scale).ceil() as u32).max(1);
        let workers = self.jobs.max(1);
        // The work is split in a fixed number of streams, so the cases do not
        // depend on how many threads there are.
        const STREAMS: usize = 16;
        let per = n.div_ceil(STREAMS as u32);
        let stop = AtomicBool::new(false);
        let next = std::sync::atomic::AtomicUsize::new(0);
        struct Out {
            evals: u64,
            nontrivial: HashSet<u64>,
            nontrivial_total: u64,
            labels: BTreeMap<&'static str, (u64, u64)>,
            samples: Vec<serde_json::Value>,
            known: BTreeSet<String>,
        }
        let out = Mutex::new(Out {
            evals: 0,
            nontrivial: HashSet::new(),
            nontrivial_total: 0,
            labels: BTreeMap::new(),
            samples: vec![],
            known: Default::default(),
        });
        let found: Mutex<Vec<(usize, String, serde_json::Value)>> = Mutex::new(vec![]);
        // recorded cases first (one for each known finding)
        let s = &s;
        let mut files: Vec<_> = std::fs::read_dir(self.root.join("corpus"))
            .map(|d| d.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            let rp: Replay = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).expect("corpus file");
            if rp.scenario != s.name() {
                continue;
            }
            let case: S::Case = serde_json::from_value(rp.case).expect("corpus case");
            let (_, res, known) = self.judge(s, &case, false);
            self.evaluations += 1;
            self.known_hits.extend(known);
            if let Err(e) = res {
                self.violations.push((e.msg, f));
                return;
            }
        }
        let this = &*self;
        std::thread::scope(|sc| {
            for _ in 0..workers {
                let (out, found, stop, next) = (&out, &found, &stop, &next);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let w = next.fetch_add(1, Ordering::SeqCst);
                        if w >= STREAMS || stop.load(Ordering::SeqCst) {
                            return;
                        }
                        let seed = seed32(&[
                            &this.seed.to_string(),
                            &this.prop,
                            s.name(),
                            &w.to_string(),
                        ]);
                        let cfg = Config {
                            cases: per,
                            failure_persistence: None,
                            max_shrink_iters: 4000,
                            max_shrink_time: 60_000,
                            max_global_rejects: 1,
                            max_local_rejects: 1_000_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            cfg,
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                        );
                        let failed = RefCell::new(false);
                        let res = runner.run(&s.strategy(), |case| {
                            if stop.load(Ordering::SeqCst) && !*failed.borrow() {
                                return Ok(());
                            }
                            let (cx, res, known) = this.judge(s, &case, false);
                            if !*failed.borrow() {
                                let mut o = out.lock().unwrap();
                                o.evals += 1;
                                for (k, v) in &cx.labels {
                                    let e = o.labels.entry(k).or_default();
                                    e.0 += 1;
                                    e.1 += v;
                                }
                                if let Some(k) = known {
                                    o.known.insert(k);
                                }
                                if cx.nontrivial {
                                    o.nontrivial_total += 1;
                                    let js = serde_json::to_string(&case).unwrap();
                                    if o.nontrivial.insert(hash64(&js))
                                        && o.samples.len() < 3
                                        && js.len() < 20_000
                                    {
                                        o.samples.push(serde_json::json!({
                                            "scenario": s.name(),
                                            "case": truncate(serde_json::from_str(&js).unwrap(), 4000),
                                            "labels": cx.labels,
                                        }));
                                    }
                                }
                            }
                            match res {
                                Ok(()) => Ok(()),
                                Err(f) => {
                                    *failed.borrow_mut() = true;
                                    stop.store(true, Ordering::SeqCst);
                                    Err(TestCaseError::fail(f.msg))
                                }
                            }
                        });
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, value)) => {
                                // re-judge the shrunk case for its own message
                                let (_, r, _) = this.judge(s, &value, false);
                                let msg = match r {
                                    Err(f) => f.msg,
                                    Ok(()) => reason.message().to_string(),
                                };
                                found.lock().unwrap().push((
                                    w,
                                    msg,
                                    serde_json::to_value(&value).unwrap(),
                                ));
                            }
                            Err(TestError::Abort(r)) => {
                                eprintln!("harness error: generation aborted: {r}");
                                std::process::exit(3);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let o = out.into_inner().unwrap();
        self.evaluations += o.evals;
        self.distinct += o.nontrivial.len() as u64;
        self.rules.push(format!("[{}] {}", s.name(), s.rule()));
        self.samples.extend(o.samples);
        self.known_hits.extend(o.known);
        let labels: BTreeMap<_, _> = o
            .labels
            .iter()
            .map(|(k, (c, n))| (*k, serde_json::json!({"cases": c, "events": n})))
            .collect();
        self.scenarios.push(serde_json::json!({
            "scenario": s.name(),
            "evaluations": o.evals,
            "nontrivial": o.nontrivial_total,
            "distinct_nontrivial": o.nontrivial.len(),
            "classes": labels,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|x| x.0);
        if let Some((_, msg, case)) = f.into_iter().next() {
            let dir = self.root.join("work").join("replays");
            std::fs::create_dir_all(&dir).unwrap();
            let body = serde_json::to_string_pretty(&Replay {
                property: self.prop.clone(),
                scenario: s.name().into(),
                message: msg.clone(),
                case,
            })
            .unwrap();
            let path = dir.join(format!("{}-{:016x}.json", self.prop, hash64(&body)));
            std::fs::write(&path, body).unwrap();
            self.violations.push((msg, path));
        }
    }

    /// Write evidence, print the verdict, return the exit code.
    pub fn finish(self) -> i32 {
        if self.replay.is_some() {
            return i32::from(!self.violations.is_empty());
        }
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": self.rules.join("  "),
                "samples": self.samples,
                "scenarios": self.scenarios,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = self.root.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .unwrap();
        println!(
            "property={} tier={} seed={} cases={} distinct_nontrivial={} wall_s={:.1}",
            self.prop,
            self.tier,
            self.seed,
            self.evaluations,
            self.distinct,
            self.start.elapsed().as_secs_f64()
        );
        for k in &self.known {
            if k.status == "known" && self.known_hits.contains(&k.signature) {
                println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
            }
        }
        for (msg, path) in &self.violations {
            println!("{msg}");
            println!("VIOLATION property={} replay={}", self.prop, path.display());
        }
        i32::from(!self.violations.is_empty())
    }
}

/// One generated value, for harness self-tests.
#[allow(dead_code)]
pub fn sample<T: Debug>(s: &BoxedStrategy<T>) -> T {
    let mut r = TestRunner::deterministic();
    s.new_tree(&mut r).unwrap().current()
}
