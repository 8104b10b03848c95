//! C19: running lists of scripted and real actions.
use super::c17::level;
use crate::am::*;
use crate::fw::{Case, Ctx};
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::error::{ErrorKind, Result as ModelResult};
use atelier_core::model::Model;
use atelier_lib::actions::{standard_model_lint, standard_model_validation};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
struct Step {
    issues: Vec<(u8, String, Option<Id>)>,
    fails: bool,
}

struct Scripted {
    no: usize,
    /// what the action does at its first, second, ... invocation
    script: Vec<Step>,
    at: usize,
    issues: Vec<ActionIssue>,
    log: Arc<Mutex<Vec<usize>>>,
}
fn lv(n: u8) -> IssueLevel {
    match n {
        0 => IssueLevel::Info,
        1 => IssueLevel::Warning,
        _ => IssueLevel::Error,
    }
}
impl Scripted {
    fn act(&mut self) -> ModelResult<()> {
        self.log.lock().unwrap().push(self.no);
        let s = self.script[self.at].clone();
        self.at += 1;
        for (l, msg, at) in &s.issues {
            // every way to report an issue, in turn
            self.issues.push(match (at, msg.len() % 2, l) {
                (Some(id), 0, _) => ActionIssue::new_at(lv(*l), "scripted", msg, sid(id)),
                (Some(id), _, 0) => ActionIssue::info_at("scripted", msg, sid(id)),
                (Some(id), _, 1) => ActionIssue::warning_at("scripted", msg, sid(id)),
                (Some(id), _, _) => ActionIssue::error_at("scripted", msg, sid(id)),
                (None, 0, _) => ActionIssue::new(lv(*l), "scripted", msg),
                (None, _, 0) => ActionIssue::info("scripted", msg),
                (None, _, 1) => ActionIssue::warning("scripted", msg),
                (None, _, _) => ActionIssue::error("scripted", msg),
            });
        }
        if s.fails {
            return Err(ErrorKind::InvalidShapeID(format!("scripted{}", self.no)).into());
        }
        Ok(())
    }
}
impl Action for Scripted {
    fn label(&self) -> &'static str {
        "scripted"
    }
    fn issues(&self) -> &Vec<ActionIssue> {
        &self.issues
    }
    fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
        &mut self.issues
    }
}
impl Validator for Scripted {
    fn validate(&mut self, _: &Model) -> ModelResult<()> {
        self.act()
    }
}
impl Linter for Scripted {
    fn check(&mut self, _: &Model) -> ModelResult<()> {
        self.act()
    }
}

fn show(i: &ActionIssue) -> String {
    format!("{} {} {:?} {:?}", i.reporter(), level(i.level()), i.locus().as_ref().map(|l| l.to_string()), i.message())
}

fn scripted(c: &mut Case) {
    let n = if c.rng.chance(1, 40) { c.rng.range(6, 60) } else { c.rng.below(6) };
    let runs = c.rng.range(1, 2);
    let mut plans: Vec<Vec<Step>> = vec![];
    let mut k = 0;
    let quiet = c.rng.chance(1, 3);
    for _ in 0..n {
        let mut script = vec![];
        for _ in 0..runs {
            let mut issues = vec![];
            let many = if c.rng.chance(1, 60) { c.rng.range(4, 300) } else { c.rng.below(4) };
            for _ in 0..many {
                k += 1;
                let l = if quiet { c.rng.below(2) } else { c.rng.below(3) } as u8;
                // repeated messages, too
                let msg = if c.rng.chance(1, 5) { "same".to_string() } else { format!("issue {}", k) };
                let at = if c.rng.chance(1, 2) { Some(format!("ex.a#S{}{}", c.rng.below(3), c.rng.pick(&["", "$m"]))) } else { None };
                issues.push((l, msg, at));
            }
            script.push(Step { issues, fails: c.rng.chance(1, 15) });
        }
        plans.push(script);
    }
    let linters = c.rng.chance(1, 2);
    let model = Model::default();
    let log = Arc::new(Mutex::new(vec![]));
    let mk = |i: usize| Scripted { no: i, script: plans[i].clone(), at: 0, issues: vec![], log: log.clone() };
    let mut vs: Vec<Box<dyn Validator>> = vec![];
    let mut ls: Vec<Box<dyn Linter>> = vec![];
    for i in 0..n {
        if linters {
            ls.push(Box::new(mk(i)));
        } else {
            vs.push(Box::new(mk(i)));
        }
    }
    let mut at = vec![0; n];
    let fast: Vec<bool> = (0..runs).map(|_| c.rng.chance(1, 2)).collect();
    c.eval(k > 0, &format!("{:?}{:?}{}", plans, fast, linters));
    c.seen("levels and failures", &format!("{:?}", plans.iter().map(|p| p.iter().map(|s| (s.issues.iter().map(|i| i.0).collect::<Vec<_>>(), s.fails)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    c.sample(|| format!("fail_fast {:?} plan {:?}", fast, plans));
    for run in 0..runs {
        // the specification
        let mut want: Vec<String> = vec![];
        let mut called = vec![];
        let mut failed = None;
        for i in 0..n {
            called.push(i);
            let s = &plans[i][at[i]];
            at[i] += 1;
            if s.fails {
                failed = Some(format!("scripted{}", i));
                break;
            }
            for (l, msg, id) in &s.issues {
                want.push(format!("scripted {} {:?} {:?}", level(&lv(*l)), id, msg));
            }
            if fast[run] && s.issues.iter().any(|x| x.0 == 2) {
                break;
            }
        }
        log.lock().unwrap().clear();
        let f = fast[run];
        let got = c.lib("run actions", || if linters { run_linter_actions(&mut ls, &model, f) } else { run_validation_actions(&mut vs, &model, f) }.map_err(|e| e.to_string()));
        let got = match got {
            Some(g) => g,
            None => return,
        };
        let calls = log.lock().unwrap().clone();
        c.add("actions invoked", calls.len() as u64);
        let kind = format!("{}{}{}", if linters { "lint" } else { "validate" }, if f { ":fail-fast" } else { "" }, if run > 0 { ":again" } else { "" });
        if calls != called {
            let how = if calls.len() < called.len() { "too few" } else if calls.len() > called.len() { "too many" } else { "other order" };
            c.viol(format!("{}:invoked:{}", kind, how), format!("invoked {:?} instead of {:?} for {:?}", calls, called, plans));
            return;
        }
        match (got, failed) {
            (Err(e), Some(f)) => {
                c.count("failing actions");
                if !e.contains(&f) {
                    c.viol(format!("{}:other-error", kind), format!("{} instead of {}", e, f));
                }
                // what the actions keep after a failure is not specified
                return;
            }
            (Err(e), None) => return c.viol(format!("{}:error", kind), e),
            (Ok(_), Some(f)) => return c.viol(format!("{}:error-swallowed", kind), format!("{} failed", f)),
            (Ok(g), None) => {
                for i in &g {
                    // what a user is shown: the reporter, level, locus and message, in this order
                    let text = i.to_string();
                    let parts = [Some("scripted".to_string()), Some(level(i.level()).to_string()), i.locus().as_ref().map(|l| l.to_string()), Some(i.message().clone())];
                    let mut rest = text.as_str();
                    for p in parts.iter().flatten() {
                        match rest.find(p.as_str()) {
                            Some(k) => rest = &rest[k + p.len()..],
                            None => return c.viol(format!("{}:text", kind), format!("{:?} does not show {:?}", text, parts)),
                        }
                    }
                }
                let g: Vec<String> = g.iter().map(show).collect();
                c.add("issues returned", g.len() as u64);
                if g != want {
                    let how = if g.len() < want.len() { "lost" } else if g.len() > want.len() { "more" } else { "order or content" };
                    return c.viol(format!("{}:issues:{}", kind, how), format!("returned {:?} instead of {:?}", g, want));
                }
            }
        }
    }
}

/// the standard lists of real actions
fn standard(c: &mut Case) {
    let o = GenOpts { namespaces: vec!["example.one".into(), "kill.master".into()], shapes: (0, 10), unresolved: c.rng.chance(1, 2), dangling: true, value_depth: 1, ..Default::default() };
    let mut m = gen_model(&mut c.rng, &o);
    if c.rng.chance(1, 2) {
        super::c17::rewire(c, &mut m);
    }
    let model = to_model_shuffled(&m, &mut c.rng);
    let fast = c.rng.chance(1, 2);
    c.eval(m.nontrivial(), &format!("{:?}{}", m.dump(), fast));
    fn one<A: Action + ?Sized>(a: &A) -> Vec<String> {
        let mut v: Vec<String> = a.issues().iter().map(show).collect();
        v.sort();
        v
    }
    let parts = c.lib("actions", || {
        let (mut a, mut b, mut d, mut e) =
            (NoUnresolvedReferences::default(), CorrectTypeReferences::default(), NamingConventions::default(), UnwelcomeTerms::default());
        a.validate(&model).unwrap();
        b.validate(&model).unwrap();
        d.check(&model).unwrap();
        e.check(&model).unwrap();
        (one(&a), one(&b), one(&d), one(&e))
    });
    let (a, b, d, e) = match parts {
        Some(x) => x,
        None => return,
    };
    for (what, first, second, got) in [
        ("standard_model_validation", &a, &b, c.lib("validation", || standard_model_validation(&model, fast).map_err(|e| e.to_string()))),
        ("standard_model_lint", &d, &e, c.lib("lint", || standard_model_lint(&model, fast).map_err(|e| e.to_string()))),
    ] {
        let got = match got {
            Some(Ok(g)) => g,
            Some(Err(e)) => return c.viol(format!("{}:error", what), e),
            None => return,
        };
        let names = if what.ends_with("lint") { ["NamingConventions", "UnwelcomeTerms"] } else { ["NoUnresolvedReferences", "CorrectTypeReferences"] };
        let by = |n: &str| {
            let mut v: Vec<String> = got.iter().filter(|i| i.reporter() == n).map(show).collect();
            v.sort();
            v
        };
        let stop = fast && first.iter().any(|i| i.split(' ').nth(1) == Some("error"));
        c.count(if stop { "standard runs stopped" } else { "standard runs completed" });
        let (x, y) = (by(names[0]), by(names[1]));
        let none = vec![];
        if x.len() + y.len() != got.len() {
            c.viol(format!("{}:reporter", what), format!("{:?}", got));
        } else if &x != first || &y != if stop { &none } else { second } {
            c.viol(format!("{}:issues", what), format!("fail_fast {}: {:?} {:?} instead of {:?} {:?}", fast, x, y, first, second));
        } else if let Some(k) = got.iter().position(|i| i.reporter() == names[1]) {
            if got[k..].iter().any(|i| i.reporter() == names[0]) {
                c.viol(format!("{}:order", what), "issues of the two actions are mixed");
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case runs a list of scripted validators or linters (issues of every level, repeated messages, failures) once or twice, with and without fail-fast, and compares the actions invoked, the issues and the error with a direct specification; the standard lists of real actions are compared with the same actions run one by one. Non-trivial when an issue is reported.");
    ctx.assume("which issues the actions keep after a failing run is not judged");
    ctx.cases("scripted", 20000, 0.6, scripted);
    ctx.cases("standard", 2000, 0.4, standard);
}
