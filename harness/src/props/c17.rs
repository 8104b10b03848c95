//! C17: the validators against an oracle that judges every reference of a model.
use crate::am::*;
use crate::fw::{Case, Ctx};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{ActionIssue, IssueLevel, Validator};
use std::collections::BTreeMap;

/// what an issue must say: level, shape it is about, a piece of the message
pub type Want = (String, Option<Id>, String);

pub fn level(l: &IssueLevel) -> &'static str {
    match l {
        IssueLevel::Info => "info",
        IssueLevel::Warning => "warning",
        IssueLevel::Error => "error",
    }
}

/// Match issues with what is wanted; (missing, extra).
pub fn unmatched(want: &[Want], got: &[ActionIssue]) -> (Vec<Want>, Vec<String>) {
    // a largest matching, as several issues may mention the same names
    let fits = |w: &Want, i: &ActionIssue| {
        level(i.level()) == w.0
            && (w.1.is_none() || i.locus().as_ref().map(|l| l.to_string()) == w.1)
            && (w.2.is_empty() || i.message().split(|c: char| c.is_whitespace() || "()'\",;".contains(c)).any(|t| t == w.2 || t.trim_end_matches(&['.', ':'][..]) == w.2))
    };
    let edges: Vec<Vec<usize>> = want.iter().map(|w| (0..got.len()).filter(|k| fits(w, &got[*k])).collect()).collect();
    let mut owner: Vec<Option<usize>> = vec![None; got.len()];
    fn place(w: usize, edges: &[Vec<usize>], owner: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for &k in &edges[w] {
            if !seen[k] {
                seen[k] = true;
                if owner[k].is_none() || place(owner[k].unwrap(), edges, owner, seen) {
                    owner[k] = Some(w);
                    return true;
                }
            }
        }
        false
    }
    let mut missing = vec![];
    for w in 0..want.len() {
        if !place(w, &edges, &mut owner, &mut vec![false; got.len()]) {
            missing.push(want[w].clone());
        }
    }
    (missing, (0..got.len()).filter(|k| owner[*k].is_none()).map(|k| got[k].to_string()).collect())
}

pub fn lookup<'a>(m: &'a AModel, id: &str) -> Option<&'a AShape> {
    m.shapes.get(id).or_else(|| m.shapes.iter().find(|(k, _)| k.eq_ignore_ascii_case(id)).map(|x| x.1))
}

/// (property, target, what the target must be: "type", "operation" or "resource")
fn references(k: &AKind) -> Vec<(String, Id, &'static str)> {
    let mut out: Vec<(String, Id, &'static str)> = k
        .refs()
        .into_iter()
        .map(|(n, t)| {
            let need = match (k, n.as_str()) {
                (AKind::Service(_), "operations") => "operation",
                (AKind::Service(_), _) | (AKind::Resource(_), "resources") => "resource",
                (AKind::Resource(_), _) => "operation",
                _ => "type",
            };
            (n, t, need)
        })
        .collect();
    if let AKind::Resource(r) = k {
        out.extend(r.identifiers.iter().map(|(k, t)| (k.clone(), t.clone(), "type")));
    }
    out
}

pub fn expected_types(m: &AModel, seen: &mut dyn FnMut(String)) -> Vec<Want> {
    let mut out = vec![];
    for (id, s) in &m.shapes {
        if let AKind::Simple(_) = s.kind {
            if s.traits.is_empty() {
                out.push(("info".to_string(), Some(id.clone()), id.clone()));
                seen("synonym".into());
            }
        }
        for (prop, t, need) in references(&s.kind) {
            let label: &str = match &s.kind {
                AKind::Structure(_) | AKind::Union(_) => "member",
                AKind::Resource(r) if r.identifiers.contains_key(&prop) && need == "type" => "identifier",
                _ => &prop,
            };
            match lookup(m, &t) {
                None => {
                    if ns_of(&t) != "smithy.api" {
                        out.push(("warning".into(), Some(id.clone()), t.clone()));
                        seen(format!("{} {} missing", s.kind.type_name(), label));
                    } else {
                        seen(format!("{} {} prelude", s.kind.type_name(), label));
                    }
                }
                Some(x) => {
                    let ok = match (&x.kind, need) {
                        (AKind::Unresolved, _) => true,
                        (AKind::Operation(_), n) => n == "operation",
                        (AKind::Resource(_), n) => n == "resource",
                        (AKind::Service(_), _) => false,
                        (_, n) => n == "type",
                    };
                    seen(format!("{} {} {}", s.kind.type_name(), label, x.kind.type_name()));
                    if !ok {
                        // for members the message names the member
                        let piece = if need == "type" { prop.clone() } else { String::new() };
                        out.push(("error".into(), Some(id.clone()), piece));
                    }
                }
            }
        }
    }
    out
}

pub fn expected_unresolved(m: &AModel) -> Vec<Want> {
    m.shapes.iter().filter(|(_, s)| s.kind == AKind::Unresolved).map(|(id, _)| ("error".to_string(), None, id.clone())).collect()
}

/// Point references at every kind of target.
pub fn rewire(c: &mut Case, m: &mut AModel) {
    let mut pool: Vec<Id> = m.shapes.keys().filter(|k| !k.contains('$')).cloned().collect();
    pool.extend(["smithy.api#String", "smithy.api#Integer", "smithy.api#Nothing", "example.one#Absent", "other.space#Absent", "smithy.api.sub#Absent", "smithy.apix#Absent"].map(String::from));
    let r = &mut c.rng;
    for s in m.shapes.values_mut() {
        for (_, mm) in s.kind.members_mut() {
            if r.chance(1, 2) {
                mm.target = r.pick(&pool).clone();
            }
        }
        let some = |r: &mut crate::rng::Rng, v: &mut Vec<Id>| {
            for _ in 0..r.below(3) {
                v.push(r.pick(&pool).clone());
            }
        };
        match &mut s.kind {
            AKind::Service(x) => {
                some(r, &mut x.operations);
                some(r, &mut x.resources);
            }
            AKind::Operation(x) => {
                if r.chance(1, 2) {
                    x.input = Some(r.pick(&pool).clone());
                }
                if r.chance(1, 2) {
                    x.output = Some(r.pick(&pool).clone());
                }
                some(r, &mut x.errors);
            }
            AKind::Resource(x) => {
                for f in [&mut x.create, &mut x.put, &mut x.read, &mut x.update, &mut x.delete, &mut x.list] {
                    if r.chance(1, 3) {
                        *f = Some(r.pick(&pool).clone());
                    }
                }
                some(r, &mut x.operations);
                some(r, &mut x.collection_operations);
                some(r, &mut x.resources);
                for i in 0..r.below(3) {
                    x.identifiers.insert(format!("zid{}", i), r.pick(&pool).clone());
                }
            }
            _ => {}
        }
    }
}

fn judge(c: &mut Case, what: &str, want: &[Want], got: &[ActionIssue], m: &AModel) {
    for i in got {
        if i.reporter() != what {
            c.viol(format!("{}:reporter", what), format!("{} reported as {}", what, i.reporter()));
        }
        if i.level() == &IssueLevel::Error {
            c.count("errors reported");
        } else {
            c.count("other issues reported");
        }
    }
    let (missing, extra) = unmatched(want, got);
    if !missing.is_empty() || !extra.is_empty() {
        let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
        for x in &missing {
            let t = x.1.as_ref().and_then(|i| m.shapes.get(i)).map(|s| s.kind.type_name().to_string()).unwrap_or_default();
            *kinds.entry(format!("-{} {}", x.0, t)).or_insert(0) += 1;
        }
        for x in &extra {
            let l = x.split(' ').nth(1).unwrap_or("").trim_end_matches(':').to_string();
            *kinds.entry(format!("+{}", l)).or_insert(0) += 1;
        }
        let k = kinds.keys().next().cloned().unwrap_or_default();
        c.viol(format!("{}:{}", what, k), format!("missing {:?}\n extra {:?}\n in {}", missing, extra, m.dump().join("\n ")));
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case validates a generated model in which references point at every kind of target (missing, prelude, unresolved and every shape kind); the issues are matched one to one with those an independent oracle derives from every reference. Non-trivial when an issue is due.");
    ctx.assume("an unresolved shape of the model satisfies every reference to it; several references from one shape may share a message, so that issues are matched by level, shape and the name they must mention");
    ctx.cases("models", 8000, 1.0, |c| {
        let o = GenOpts {
            namespaces: if c.rng.chance(1, 8) { vec!["example.one".into(), "smithy.api".into()] } else { vec!["example.one".into(), "b".into()] },
            shapes: (0, if c.thorough() && c.rng.chance(1, 10) { 50 } else { 14 }),
            unresolved: c.rng.chance(1, 2),
            unresolved_members: c.rng.chance(1, 4),
            dangling: c.rng.chance(1, 2),
            typed_refs: c.rng.chance(1, 2),
            repeats: c.rng.chance(1, 3),
            value_depth: 1,
            ..Default::default()
        };
        let mut m = gen_model(&mut c.rng, &o);
        if c.rng.chance(1, 6) {
            // placeholders in the prelude's namespace are placeholders all the same
            let id = c.rng.pick(&["smithy.api#Gone", "smithy.api#String", "Smithy.api#gone", "smithy.api.more#Gone"]).to_string();
            m.shapes.insert(id, AShape { kind: AKind::Unresolved, traits: Default::default() });
        }
        let clean = c.rng.chance(1, 8);
        if !clean {
            rewire(c, &mut m);
        }
        let model = to_model_shuffled(&m, &mut c.rng);
        let mut combos = vec![];
        let want = expected_types(&m, &mut |s| combos.push(s));
        for s in combos {
            c.seen("property and target kind", &s);
        }
        let un = expected_unresolved(&m);
        c.eval(!want.is_empty() || !un.is_empty(), &format!("{:?}", m.dump()));
        c.sample(|| format!("{}\n{:?}", m.dump().join("\n"), want));
        let direct = c.rng.chance(1, 2);
        let got = c.lib("CorrectTypeReferences", || {
            if direct {
                let mut v = CorrectTypeReferences::default();
                v.validate(&model).map_err(|e| e.to_string()).map(|_| {
                    use atelier_core::action::Action;
                    v.issues().clone()
                })
            } else {
                run_validation_actions(&mut [Box::new(CorrectTypeReferences::default())], &model, false).map_err(|e| e.to_string())
            }
        });
        match got {
            Some(Ok(i)) => judge(c, "CorrectTypeReferences", &want, &i, &m),
            Some(Err(e)) => c.viol("failed", e),
            None => {}
        }
        let got = c.lib("NoUnresolvedReferences", || run_validation_actions(&mut [Box::new(NoUnresolvedReferences::default())], &model, direct).map_err(|e| e.to_string()));
        match got {
            Some(Ok(i)) => judge(c, "NoUnresolvedReferences", &un, &i, &m),
            Some(Err(e)) => c.viol("failed", e),
            None => {}
        }
    });
}
