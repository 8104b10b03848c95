//! Monitor framework: case scheduling, verdict collection, evidence, known findings, replay.
//!
//! Verdicts are three-valued.  A monitor reports `viol` only when an oracle refuted an observed execution.  A failure
//! of the monitor itself is an error of the run (exit 2), never a violation.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub group: String,
    pub case: u64,
    pub count: u64,
}

#[derive(Default)]
pub struct Totals {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub violations: BTreeMap<String, Violation>,
    pub errors: Vec<String>,
}

/// A case under way: when and with how much processor time of its thread it began.
pub struct Running {
    since: Instant,
    task: std::path::PathBuf,
    cpu: f64,
}
impl Running {
    fn now() -> Running {
        let task = std::path::PathBuf::from("/proc").join(std::fs::read_link("/proc/thread-self").unwrap_or_default());
        let cpu = cpu_seconds(&task);
        Running { since: Instant::now(), task, cpu }
    }
    /// Has it run for so long, or waited for so much longer, that it will not return? A busy machine is no reason.
    pub fn stuck(&self, limit: f64) -> bool {
        let wall = self.since.elapsed().as_secs_f64();
        wall > 2.5 * limit || (wall > limit && cpu_seconds(&self.task) - self.cpu > limit * 0.7)
    }
}
/// processor time used so far by a thread or process of our own, named by its directory in /proc
pub fn cpu_seconds(task: &std::path::Path) -> f64 {
    let stat = std::fs::read_to_string(task.join("stat")).unwrap_or_default();
    let mut f = stat.rsplit(") ").next().unwrap_or("").split(' ').skip(11);
    let mut tick = || f.next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (tick() + tick()) / 100.0
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub totals: Mutex<Totals>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    /// cases under way, for the watchdog
    pub running: Mutex<HashMap<(String, u64), Running>>,
    pub scratch: std::path::PathBuf,
    pub exe: std::path::PathBuf,
    /// signatures of the recorded findings
    pub known: HashSet<String>,
    /// when the first violation that is not recorded was seen
    pub broken: Mutex<Option<Instant>>,
}

/// One case of a workload: its own random stream, its own observations.
pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub idx: u64,
    pub rng: Rng,
    pub group: String,
    pub evals: u64,
    pub distinct: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub sets: Vec<(String, u64)>,
    pub viols: Vec<(String, String)>,
    pub sample: Option<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| l.file().to_string())
            .unwrap_or_else(|| "?".into());
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // a panic raised inside std or a dependency on behalf of the code under test is attributed by backtrace
        let bt = if loc.contains("/repo/") || loc.contains("/verif/") || loc.starts_with("src/") {
            String::new()
        } else {
            format!("{}", std::backtrace::Backtrace::force_capture())
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((format!("{}:{}", loc, line), format!("{}\u{1}{}", msg, bt))));
    }));
}

/// A caught panic: where, the message, and whether the code under test (not the monitor) is on the stack.
#[derive(Debug, Clone)]
pub struct Panicked {
    pub at: String,
    pub msg: String,
    pub in_repo: bool,
    pub bt: String,
}

/// Run library code; a panic is returned as data.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (at, m) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?\u{1}".into()));
            let (msg, bt) = m.split_once('\u{1}').unwrap_or((&m, ""));
            let in_repo = at.contains("/repo/") || bt.contains("/repo/") || bt.contains("atelier_");
            Err(Panicked {
                at,
                msg: msg.to_string(),
                in_repo,
                bt: bt.to_string(),
            })
        }
    }
}

fn digits_out(s: &str) -> String {
    let mut out = String::new();
    let mut last = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !last {
                out.push('N');
            }
            last = true;
        } else {
            last = false;
            out.push(c);
        }
    }
    out
}

impl Panicked {
    /// Signature without line numbers or data.
    pub fn sig(&self) -> String {
        let file = self.at.rsplit_once(':').map(|x| x.0).unwrap_or(&self.at);
        let file = file.rsplit("/repo/").next().unwrap_or(file);
        let file = match file.find("/registry/src/") {
            Some(i) => &file[i + 14..],
            None => file,
        };
        let msg: String = digits_out(&self.msg).chars().take(48).collect();
        format!("panic@{}:{}", file, msg)
    }
}

impl<'a> Case<'a> {
    pub fn viol(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        self.viols.push((sig.into(), detail.into()));
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// distinct-state counter: number of distinct `key`s seen under `set`
    pub fn seen(&mut self, set: &str, key: &str) {
        self.sets.push((set.to_string(), hash_str(key)));
    }
    /// one evaluation of the oracle; `key` identifies the case when non-trivial
    pub fn eval(&mut self, nontrivial: bool, key: &str) {
        self.evals += 1;
        if nontrivial {
            self.distinct.push(hash_str(key));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() && self.idx < 4 {
            self.sample = Some(clip(&f(), 1500));
        }
    }
    pub fn thorough(&self) -> bool {
        self.ctx.tier == Tier::Thorough
    }
    /// library call that must not panic
    pub fn lib<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match guard(f) {
            Ok(r) => Some(r),
            Err(p) => {
                if !p.in_repo {
                    panic!("monitor failure in {}: {} {} {}", what, p.at, p.msg, p.bt);
                }
                self.viol(format!("{}:{}", what, p.sig()), format!("{} panicked at {}: {}", what, p.at, p.msg));
                None
            }
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

impl Ctx {
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Run exactly `n` cases in either tier.
    pub fn bounded<F>(&self, group: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        self.run_cases(group, n, Duration::from_secs(3600), f)
    }

    /// Run `quick` cases (quick tier, fixed count: deterministic) or as many as the thorough budget share allows.
    pub fn cases<F>(&self, group: &str, quick: u64, share: f64, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        // a quick run is bounded by count; the wall-clock bound only protects against a stuck machine
        if self.quick() {
            // (tools/ run a fraction of it when they try many changes)
            let percent = std::env::var("VERIF_PERCENT").ok().and_then(|v| v.parse::<u64>().ok()).unwrap_or(100);
            self.run_cases(group, (quick * crate::props::scale(&self.prop) * percent / 100).max(1), Duration::from_secs(400), f)
        } else {
            self.run_cases(group, u64::MAX, self.budget.mul_f64(share), f)
        }
    }

    fn run_cases<F>(&self, group: &str, max: u64, hard: Duration, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        if let Some((g, idx)) = &self.only {
            if g != group {
                return;
            }
            self.one(group, *idx, &f);
            return;
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let t0 = Instant::now();
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= max {
                        break;
                    }
                    // the verdict is clear: panics are slow, so that not all of them are waited for
                    if t0.elapsed() > hard || self.broken.lock().unwrap().map(|t| t.elapsed() > Duration::from_secs(15)).unwrap_or(false) {
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    self.one(group, i, &f);
                });
            }
        });
    }

    fn one<F>(&self, group: &str, idx: u64, f: &F)
    where
        F: Fn(&mut Case) + Sync,
    {
        let seed = mix(mix(self.seed ^ hash_str(&self.prop)) ^ hash_str(group)) ^ mix(idx.wrapping_mul(0x5851F42D4C957F2D));
        let mut case = Case {
            ctx: self,
            idx,
            rng: Rng::new(seed),
            group: group.to_string(),
            evals: 0,
            distinct: vec![],
            counters: BTreeMap::new(),
            sets: vec![],
            viols: vec![],
            sample: None,
        };
        let key = (group.to_string(), idx);
        self.running.lock().unwrap().insert(key.clone(), Running::now());
        let r = guard(|| f(&mut case));
        self.running.lock().unwrap().remove(&key);
        let mut t = self.totals.lock().unwrap();
        if let Err(p) = r {
            if p.in_repo {
                case.viols.push((
                    p.sig(),
                    format!("code under test panicked at {}: {}", p.at, p.msg),
                ));
            } else {
                t.errors
                    .push(format!("monitor error in {}#{}: {} {}", group, idx, p.at, p.msg));
            }
        }
        t.evaluations += case.evals;
        if t.distinct.len() < 4_000_000 {
            t.distinct.extend(case.distinct.iter());
        }
        for (k, n) in case.counters {
            *t.counters.entry(k).or_insert(0) += n;
        }
        for (k, h) in case.sets {
            let set = t.sets.entry(k).or_default();
            if set.len() < 1_000_000 {
                set.insert(h);
            }
        }
        if let Some(s) = case.sample {
            if t.samples.len() < 12 {
                t.samples.push(format!("[{}#{}] {}", group, idx, s));
            }
        }
        for (sig, detail) in case.viols {
            if !self.known.contains(&sig) {
                self.broken.lock().unwrap().get_or_insert_with(Instant::now);
            }
            let e = t.violations.entry(sig.clone()).or_insert(Violation {
                sig,
                detail: detail.clone(),
                group: group.to_string(),
                case: idx,
                count: 0,
            });
            e.count += 1;
            // keep the smallest witness
            if detail.len() < e.detail.len() {
                e.detail = detail;
                e.case = idx;
                e.group = group.to_string();
            }
        }
    }
}

/// First difference between two line lists, as a short description.
pub fn diff(expect: &[String], got: &[String]) -> Option<(String, String)> {
    use std::collections::BTreeSet;
    if expect == got {
        return None;
    }
    let e: BTreeSet<&String> = expect.iter().collect();
    let g: BTreeSet<&String> = got.iter().collect();
    let missing: Vec<_> = e.difference(&g).take(6).collect();
    let extra: Vec<_> = g.difference(&e).take(6).collect();
    let mut s = String::new();
    for m in &missing {
        s += &format!("\n  - expected: {}", clip(m, 300));
    }
    for m in &extra {
        s += &format!("\n  + observed: {}", clip(m, 300));
    }
    if missing.is_empty() && extra.is_empty() {
        s = "same lines in different order or multiplicity".into();
    }
    let sig = format!(
        "{}{}",
        missing.first().map(|m| format!("-{}", line_class(m))).unwrap_or_default(),
        extra.first().map(|m| format!("+{}", line_class(m))).unwrap_or_default()
    );
    Some((sig, s))
}

/// The class of a dump line: its leading keywords, without data.
pub fn line_class(l: &str) -> String {
    l.split('|').next().unwrap_or("").to_string()
}
