//! vmon: runtime monitors for rust-atelier.  `vmon <property> --tier quick|thorough --seed N --evidence FILE`
mod am;
mod elab;
mod fw;
mod idl;
mod js;
mod props;
mod refm;
mod rng;
mod untrusted;
mod xml;

use fw::{Ctx, Tier};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

struct Finding {
    sig: String,
    what: String,
}

/// lines `finding: property=<id> signature=<sig> :: <what>`; anything else is commentary or a `fixed:` record
fn known_findings(path: &str, prop: &str) -> Vec<Finding> {
    let mut out = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("finding: property=") {
            if let Some((id, rest)) = rest.split_once(' ') {
                if id == prop {
                    if let Some((sig, what)) = rest.split_once(" :: ") {
                        out.push(Finding {
                            sig: sig.trim_start_matches("signature=").to_string(),
                            what: what.to_string(),
                        });
                    }
                }
            }
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: vmon <property> [--tier T] [--seed N] [--evidence F] [--report F] [--replay F] [--seconds S]");
        std::process::exit(2);
    }
    fw::install_panic_hook();
    if let Some(code) = props::child_mode(&args) {
        std::process::exit(code);
    }

    let prop = args[0].clone();
    let mut tier = match arg(&args, "--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = None;
    if let Some(f) = arg(&args, "--replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay json");
        seed = v["seed"].as_u64().unwrap();
        if v["tier"] == "thorough" {
            tier = Tier::Thorough;
        }
        only = Some((v["group"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap()));
    }
    let seconds: u64 = arg(&args, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(420);
    let scratch = std::env::temp_dir().join(format!("vmon-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let ctx = Ctx {
        prop: prop.clone(),
        tier,
        seed,
        start: Instant::now(),
        budget: Duration::from_secs(seconds),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
        only,
        totals: Mutex::new(Default::default()),
        rule: Mutex::new(String::new()),
        assumptions: Mutex::new(vec![]),
        running: Mutex::new(Default::default()),
        scratch,
        known: known_findings(&arg(&args, "--findings").unwrap_or("/verif/known_findings.txt".into()), &prop).into_iter().map(|f| f.sig).collect(),
        broken: Mutex::new(None),
        exe: std::env::current_exe().expect("exe"),
    };
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    {
        let args = args.clone();
        std::thread::spawn(move || watchdog(ctx, &args));
    }
    if !props::run(ctx) {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    }
    finish(ctx, &args)
}

/// A case of library calls takes milliseconds; one that runs for minutes means the code under test does not return.
fn watchdog(ctx: &'static Ctx, args: &[String]) {
    let limit = 120.0;
    loop {
        std::thread::sleep(Duration::from_secs(2));
        let stuck = ctx
            .running
            .lock()
            .unwrap()
            .iter()
            .find(|(_, since)| since.stuck(limit))
            .map(|(k, _)| k.clone());
        if let Some((group, idx)) = stuck {
            ctx.totals.lock().unwrap().violations.insert(
                "hang".into(),
                fw::Violation {
                    sig: "hang".into(),
                    detail: format!("the code under test did not return within {}s in {}#{}", limit, group, idx),
                    group,
                    case: idx,
                    count: 1,
                },
            );
            finish(ctx, args);
        }
    }
}

fn finish(ctx: &Ctx, args: &[String]) -> ! {
    let _ = std::fs::remove_dir_all(&ctx.scratch);
    let (prop, tier, seed) = (ctx.prop.clone(), ctx.tier, ctx.seed);
    let wall = ctx.start.elapsed().as_secs_f64();
    let t = std::mem::take(&mut *ctx.totals.lock().unwrap());

    let mut report: Vec<String> = vec![];
    let findings = known_findings(&arg(args, "--findings").unwrap_or("/verif/known_findings.txt".into()), &prop);
    let mut new = vec![];
    let mut seen_known: BTreeMap<usize, u64> = BTreeMap::new();
    for v in t.violations.values() {
        match findings.iter().position(|f| f.sig == v.sig) {
            Some(i) => {
                *seen_known.entry(i).or_insert(0) += v.count;
            }
            None => new.push(v.clone()),
        }
    }
    for (i, f) in findings.iter().enumerate() {
        report.push(format!(
            "KNOWN-FINDING: property={} {} (signature {}; seen {} times in this run)",
            prop,
            f.what,
            f.sig,
            seen_known.get(&i).copied().unwrap_or(0)
        ));
    }
    let evdir = std::path::Path::new("/verif/evidence");
    for v in &new {
        let name = format!("{}-{:016x}.json", prop, rng::hash_str(&v.sig));
        let dir = evdir.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(name);
        let _ = std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": prop, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "seed": seed,
                "group": v.group, "case": v.case, "signature": v.sig, "detail": v.detail, "count": v.count,
                "how": format!("/verif/check.sh {} replay {}", prop, path.display()),
            }))
            .unwrap(),
        );
        report.push(format!("VIOLATION property={} replay={}", prop, path.display()));
        report.push(format!("  signature: {} ({} times)", v.sig, v.count));
        for l in fw::clip(&v.detail, 3000).lines() {
            report.push(format!("    {}", l));
        }
    }
    let sets: BTreeMap<String, usize> = t.sets.iter().map(|(k, v)| (k.clone(), v.len())).collect();
    let level = props::level(&prop);
    let ev = json!({
        "property": prop,
        "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.distinct.len(),
            "rule": ctx.rule.lock().unwrap().clone(),
            "samples": t.samples,
            "observed_events": t.counters,
            "distinct_states": sets,
        },
        "assumptions": ctx.assumptions.lock().unwrap().clone(),
        "wall_s": wall,
        "violations": new.len(),
    });
    if let Some(f) = arg(args, "--evidence") {
        std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
    }
    report.push(format!(
        "{}: {} evaluations, {} distinct non-trivial, {} violation kinds, {} known findings, {:.1}s",
        prop,
        t.evaluations,
        t.distinct.len(),
        new.len(),
        findings.len(),
        wall
    ));
    for (k, n) in &t.counters {
        report.push(format!("    observed {} = {}", k, n));
    }
    for (k, n) in &sets {
        report.push(format!("    distinct {} = {}", k, n));
    }
    let mut code = 0;
    if !new.is_empty() {
        code = 1;
    } else if !t.errors.is_empty() {
        code = 2;
    } else if t.evaluations == 0 && ctx.only.is_none() {
        report.push("monitor observed nothing".into());
        code = 2;
    }
    for e in t.errors.iter().take(10) {
        report.push(format!("MONITOR-ERROR {}", e));
    }
    let text = report.join("\n") + "\n";
    match arg(args, "--report") {
        Some(f) => std::fs::write(f, text).expect("report file"),
        None => {
            let _ = std::io::stderr().write_all(text.as_bytes());
        }
    }
    std::process::exit(code);
}
