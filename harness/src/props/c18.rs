//! C18: the linters against an independent splitter of names into words.
use crate::am::*;
use crate::fw::{Case, Ctx};
use crate::rng::Rng;
use atelier_core::action::lint::{NamingConventions, UnwelcomeTerms};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter};
use std::collections::BTreeSet;

/// The words of an ASCII identifier: separated by underscores, before an upper case letter that follows a lower case
/// letter (possibly with digits between), and before the last upper case letter of a run followed by a lower case letter.
pub fn words(s: &str) -> Vec<String> {
    let mut out = vec![];
    for part in s.split('_').filter(|p| !p.is_empty()) {
        let v: Vec<char> = part.chars().collect();
        let mut cur = String::new();
        // case of the last letter seen in the current word
        let mut last = ' ';
        for i in 0..v.len() {
            let ch = v[i];
            if !cur.is_empty() && ch.is_ascii_uppercase() {
                let next_lower = v.get(i + 1).map_or(false, |n| n.is_ascii_lowercase());
                let prev_upper = v[i - 1].is_ascii_uppercase() || (v[i - 1].is_ascii_digit() && last == 'U');
                if last == 'l' || (prev_upper && next_lower) {
                    out.push(std::mem::take(&mut cur));
                    last = ' ';
                }
            }
            cur.push(ch);
            if ch.is_ascii_uppercase() {
                last = 'U';
            } else if ch.is_ascii_lowercase() {
                last = 'l';
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
    }
    out
}
fn cap(w: &str) -> String {
    let w = w.to_ascii_lowercase();
    let mut c = w.chars();
    match c.next() {
        Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
        None => String::new(),
    }
}
pub fn upper_camel(s: &str) -> String {
    words(s).iter().map(|w| cap(w)).collect()
}
pub fn lower_camel(s: &str) -> String {
    words(s).iter().enumerate().map(|(i, w)| if i == 0 { w.to_ascii_lowercase() } else { cap(w) }).collect()
}

const UNWELCOME: [&str; 5] = ["blacklist", "kill", "master", "slave", "whitelist"];

fn gen_name(r: &mut Rng) -> String {
    const W: [&str; 16] = ["foo", "bar", "list", "url", "id", "city", "x", "json", "blacklist", "kill", "master", "slave", "whitelist", "killer", "a", "masters"];
    let mut s = String::new();
    let style = r.below(9);
    for i in 0..r.range(1, 4) {
        let w = *r.pick(&W);
        match style {
            0 => s.push_str(&if i == 0 { w.to_string() } else { cap(w) }),
            1 => s.push_str(&cap(w)),
            2 => {
                if i > 0 {
                    s.push('_');
                }
                s.push_str(w);
            }
            3 => {
                if i > 0 {
                    s.push('_');
                }
                s.push_str(&cap(w));
            }
            4 => s.push_str(&w.to_uppercase()),
            5 => {
                if i > 0 {
                    s.push('_');
                }
                s.push_str(&w.to_uppercase());
            }
            6 => s.push_str(&if r.chance(1, 2) { w.to_uppercase() } else { cap(w) }),
            7 => s.push_str(&w.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect::<String>()),
            _ => s.push_str(&cap(w)),
        }
        if r.chance(1, 6) {
            s.push_str(&r.below(100).to_string());
        }
    }
    match r.below(20) {
        0 => s.push('_'),
        1 => s.insert(0, '_'),
        2 => s.insert_str(0, "__"),
        _ => {}
    }
    s
}

/// Give shapes, members, targets and traits new names.
fn rename(r: &mut Rng, m: &AModel) -> AModel {
    let mut out = AModel { metadata: m.metadata.clone(), shapes: Default::default() };
    let space = |r: &mut Rng| {
        let n = r.range(1, 3);
        let mut v: Vec<String> = (0..n).map(|_| r.pick(&["example", "one", "kill", "masterNode", "b", "slave_x", "Whitelist", "acme"]).to_string()).collect();
        if r.chance(1, 12) {
            v = vec!["smithy".into(), "api".into()];
        }
        v.join(".")
    };
    let mut lower: BTreeSet<String> = BTreeSet::new();
    let mut names = std::collections::BTreeMap::new();
    for id in m.shapes.keys() {
        loop {
            let ns = space(r);
            let n = format!("{}#{}", ns, gen_name(r));
            if ns != "smithy.api" && lower.insert(n.to_ascii_lowercase()) {
                names.insert(id.clone(), n);
                break;
            }
        }
    }
    fn traits(r: &mut Rng, t: &Traits, names: &mut dyn FnMut(&mut Rng) -> String) -> Traits {
        let mut out = Traits::new();
        let mut low = BTreeSet::new();
        for (id, v) in t {
            let n = if r.chance(1, 2) { format!("{}#{}", ns_of(id), name_of(id)) } else { names(r) };
            if low.insert(n.to_ascii_lowercase()) {
                out.insert(n, v.clone());
            }
        }
        out
    }
    let mut fresh = |r: &mut Rng| format!("{}#{}", space(r), gen_name(r));
    for (id, s) in &m.shapes {
        let mut s = s.clone();
        s.traits = traits(r, &s.traits, &mut fresh);
        if r.chance(1, 4) {
            s.traits.insert("smithy.api#trait".into(), None);
        }
        match &mut s.kind {
            AKind::Structure(ms) | AKind::Union(ms) => {
                let old = std::mem::take(ms);
                let mut low = BTreeSet::new();
                for (n, mut mm) in old {
                    let n = if r.chance(2, 3) { gen_name(r) } else { n };
                    mm.traits = traits(r, &mm.traits, &mut fresh);
                    mm.target = match names.get(&mm.target) {
                        Some(t) if r.chance(2, 3) => t.clone(),
                        _ => fresh(r),
                    };
                    if low.insert(n.to_ascii_lowercase()) {
                        ms.insert(n, mm);
                    }
                }
            }
            _ => {}
        }
        out.shapes.insert(names[id].clone(), s);
    }
    out
}

/// (shape an issue is about, the conforming name it suggests)
fn expected_naming(m: &AModel, seen: &mut dyn FnMut(&str)) -> Vec<(Id, String)> {
    let mut out = vec![];
    let trait_names = |t: &Traits, out: &mut Vec<(Id, String)>| {
        for id in t.keys() {
            let n = name_of(shape_part(id));
            if lower_camel(n) != n {
                out.push((id.clone(), lower_camel(n)));
            }
        }
    };
    for (id, s) in &m.shapes {
        let n = name_of(shape_part(id));
        if s.traits.contains_key("smithy.api#trait") {
            seen("trait definition");
            if lower_camel(n) != n {
                out.push((id.clone(), lower_camel(n)));
            }
        } else if upper_camel(n) != n {
            seen("shape name");
            out.push((id.clone(), upper_camel(n)));
        }
        trait_names(&s.traits, &mut out);
        if let AKind::Structure(ms) | AKind::Union(ms) = &s.kind {
            for (n, mm) in ms {
                if lower_camel(n) != *n {
                    seen("member name");
                    out.push((id.clone(), lower_camel(n)));
                }
                let t = name_of(shape_part(&mm.target));
                if upper_camel(t) != t {
                    seen("target name");
                    out.push((mm.target.clone(), upper_camel(t)));
                }
                trait_names(&mm.traits, &mut out);
            }
        }
    }
    out.sort();
    out
}

fn expected_terms(m: &AModel) -> Vec<String> {
    let mut names: BTreeSet<String> = BTreeSet::new();
    let id = |i: &str, names: &mut BTreeSet<String>| {
        for p in ns_of(i).split('.') {
            names.insert(p.into());
        }
        let n = name_of(i);
        for p in n.split('$') {
            names.insert(p.into());
        }
    };
    for (i, s) in &m.shapes {
        id(i, &mut names);
        s.traits.keys().for_each(|t| id(t, &mut names));
        if let AKind::Structure(ms) | AKind::Union(ms) = &s.kind {
            for (n, mm) in ms {
                names.insert(n.clone());
                id(&mm.target, &mut names);
                mm.traits.keys().for_each(|t| id(t, &mut names));
            }
        }
    }
    let mut out: Vec<String> =
        names.iter().flat_map(|n| words(n)).map(|w| w.to_ascii_lowercase()).filter(|w| UNWELCOME.contains(&w.as_str())).collect();
    out.sort();
    out
}

fn naming(c: &mut Case, m: &AModel, got: &[ActionIssue], round: usize) {
    let mut kinds = vec![];
    let want = expected_naming(m, &mut |s| kinds.push(s.to_string()));
    for k in kinds {
        c.seen("naming problems", &k);
    }
    let mut have: Vec<(Id, String)> = got
        .iter()
        .map(|i| {
            (
                i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default(),
                i.message().rsplit(' ').next().unwrap_or("").to_string(),
            )
        })
        .collect();
    have.sort();
    c.add("naming issues", have.len() as u64);
    if got.iter().any(|i| i.level() != &IssueLevel::Info || i.reporter() != "NamingConventions") {
        c.viol("naming-level", format!("{:?}", got.iter().map(|i| i.to_string()).collect::<Vec<_>>()));
    }
    if want != have {
        let w: Vec<_> = want.iter().filter(|x| count(&want, x) > count(&have, x)).collect();
        let h: Vec<_> = have.iter().filter(|x| count(&have, x) > count(&want, x)).collect();
        c.viol(
            format!("naming{}:{}{}", if round > 0 { "-later" } else { "" }, if w.is_empty() { "" } else { "-" }, if h.is_empty() { "" } else { "+" }),
            format!("not reported {:?}\n reported {:?}\n in {}", w, h, m.dump().join("\n ")),
        );
    }
}
fn count<T: PartialEq>(v: &[T], x: &T) -> usize {
    v.iter().filter(|y| *y == x).count()
}

fn terms(c: &mut Case, m: &AModel, got: &[ActionIssue], round: usize) {
    let want = expected_terms(m);
    let mut have: Vec<String> = got
        .iter()
        .map(|i| UNWELCOME.iter().find(|u| i.message().contains(&format!("'{}'", u))).map(|x| x.to_string()).unwrap_or_else(|| i.message().clone()))
        .collect();
    have.sort();
    c.add("unwelcome terms", have.len() as u64);
    if got.iter().any(|i| i.level() != &IssueLevel::Warning || i.reporter() != "UnwelcomeTerms") {
        c.viol("terms-level", format!("{:?}", got.iter().map(|i| i.to_string()).collect::<Vec<_>>()));
    }
    if want != have {
        let sign = if have.len() < want.len() { "-" } else { "+" };
        c.viol(
            format!("terms{}:{}", if round > 0 { "-later" } else { "" }, sign),
            format!("expected {:?}\n reported {:?}\n in {}", want, have, m.dump().join("\n ")),
        );
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case lints 1 to 4 generated models, with names in many case styles and with unwelcome words, with the same pair of linters; after every model the issues are compared with those an independent word splitter derives from its names. Non-trivial when an issue is due.");
    ctx.assume("the naming linter's scope is the names of shapes, applied traits, and of the members, targets and traits in structures and unions; the terms linter reports a distinct name once per model and the shape it reports is not judged");
    ctx.cases("models", 5000, 1.0, |c| {
        let mut a = NamingConventions::default();
        let mut b = UnwelcomeTerms::default();
        let n = c.rng.range(1, 4);
        for round in 0..n {
            let o = GenOpts {
                namespaces: if c.rng.chance(1, 8) { vec!["example.one".into(), "smithy.api".into()] } else { vec!["example.one".into(), "b".into()] },
                shapes: (0, 8),
                unresolved: c.rng.chance(1, 3),
                value_depth: 1,
                ..Default::default()
            };
            let mut m = gen_model(&mut c.rng, &o);
            m.shapes.retain(|k, _| !k.contains('$'));
            if c.rng.chance(7, 8) {
                m = rename(&mut c.rng, &m);
            }
            let model = to_model_shuffled(&m, &mut c.rng);
            c.eval(!expected_naming(&m, &mut |_| {}).is_empty() || !expected_terms(&m).is_empty(), &format!("{:?}", m.dump()));
            c.sample(|| m.dump().join("\n"));
            match c.lib("NamingConventions", || a.check(&model).map_err(|e| e.to_string())) {
                Some(Ok(())) => {
                    let got: Vec<ActionIssue> = a.issues_mut().drain(..).collect();
                    naming(c, &m, &got, round);
                }
                Some(Err(e)) => c.viol("failed", e),
                None => return,
            }
            match c.lib("UnwelcomeTerms", || b.check(&model).map_err(|e| e.to_string())) {
                Some(Ok(())) => {
                    let got: Vec<ActionIssue> = b.issues_mut().drain(..).collect();
                    terms(c, &m, &got, round);
                }
                Some(Err(e)) => c.viol("failed", e),
                None => return,
            }
        }
    });
}
