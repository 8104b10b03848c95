//! C25: the PlantUML text, read line by line into packages, classes and relations, against the documented mapping.
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use atelier_core::io::write_model_to_string;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use std::collections::BTreeMap;

fn one_line(s: &str) -> String {
    s.replace('\r', "\\r").replace('\n', "\\n")
}
fn type_text(m: &AModel, id: &str) -> String {
    let short = |x: &AMember| x.target.split(|c| c == '#' || c == '$').nth(1).unwrap_or("").to_string();
    // only what is defined is known by kind; identifiers ignore case
    match m.shapes.get(id).map(|s| &s.kind) {
        Some(AKind::Simple(t)) => t.clone(),
        Some(AKind::List(x)) => format!("List<{}>", short(x)),
        Some(AKind::Set(x)) => format!("Set<{}>", short(x)),
        Some(AKind::Map(k, v)) => format!("Map<{}, {}>", short(k), short(v)),
        _ => id.to_string(),
    }
}
fn op_text(m: &AModel, id: &str, name: &str) -> String {
    match m.shapes.get(id).map(|s| &s.kind) {
        Some(AKind::Operation(o)) => format!(
            "{}(in: {}){}",
            name,
            o.input.as_ref().map(|x| type_text(m, x)).unwrap_or_default(),
            o.output.as_ref().map(|x| format!(": {}", type_text(m, x))).unwrap_or_default()
        ),
        _ => format!("{}(in: )", name),
    }
}
#[derive(Debug, Default, Clone)]
struct Class {
    package: String,
    head: String,
    traits: Vec<String>,
    body: Vec<String>,
}
fn expected(m: &AModel) -> (BTreeMap<String, Class>, Vec<String>) {
    let mut classes = BTreeMap::new();
    let mut rel: Vec<String> = vec![];
    for (id, s) in &m.shapes {
        let mut k = Class { package: ns_of(id).to_string(), ..Default::default() };
        let mut body: Vec<String> = vec![];
        match &s.kind {
            AKind::Unresolved | AKind::Operation(_) => continue,
            AKind::Simple(_) | AKind::List(_) | AKind::Set(_) | AKind::Map(..) => {
                k.head = "class <<dataType>>".into();
                for (n, mm) in s.kind.members() {
                    rel.push(format!("{} --> {} : {}", id, mm.target, n));
                }
            }
            AKind::Structure(_) | AKind::Union(_) => {
                k.head = if s.traits.contains_key("smithy.api#trait") {
                    "annotation".into()
                } else if s.traits.contains_key("smithy.api#error") {
                    "class <<error>>".into()
                } else if matches!(s.kind, AKind::Union(_)) {
                    "class <<union>>".into()
                } else {
                    "class".into()
                };
                for (n, mm) in s.kind.members() {
                    body.push(format!("member {}: {}", n, mm.target));
                }
            }
            AKind::Service(v) => {
                k.head = "class <<service>>".into();
                body.push(format!("member version: string = \"{}\"", one_line(&v.version)));
                for x in &v.operations {
                    body.push(format!("member {}", op_text(m, x, x)));
                }
                for x in &v.resources {
                    rel.push(format!("{} *-- {}", id, x));
                }
            }
            AKind::Resource(v) => {
                k.head = "class <<resource>>".into();
                for (n, t) in &v.identifiers {
                    body.push(format!("member {}: {}", n, t));
                }
                for (n, t) in v.lifecycle() {
                    if let Some(t) = t {
                        body.push(format!("member {}", op_text(m, t, n)));
                    }
                }
                for x in &v.operations {
                    body.push(format!("operations {}", op_text(m, x, x)));
                }
                for x in &v.collection_operations {
                    body.push(format!("collectionOperations {}", op_text(m, x, x)));
                }
                for x in &v.resources {
                    rel.push(format!("{} *-- {}", id, x));
                }
            }
        }
        for (t, v) in &s.traits {
            match (t.as_str(), v) {
                ("smithy.api#error", _) => {}
                ("smithy.api#documentation", Some(AVal::Str(d))) => {
                    rel.push(format!("note {:?} of {}", d, id));
                }
                ("smithy.api#documentation", _) => {}
                (_, None) | (_, Some(AVal::Null)) => k.traits.push(format!("@{}", t)),
                (_, Some(AVal::Bool(b))) => k.traits.push(format!("@{} = {}", t, b)),
                (_, Some(AVal::Int(i))) => k.traits.push(format!("@{} = {}", t, i)),
                (_, Some(AVal::Str(x))) => k.traits.push(format!("@{} = \"{}\"", t, one_line(x))),
                // how floats are printed and collections abridged is not fixed
                (_, Some(AVal::Float(_))) => k.traits.push(format!("@{} = number", t)),
                (_, Some(AVal::Arr(_))) => k.traits.push(format!("@{} = [", t)),
                (_, Some(AVal::Obj(_))) => k.traits.push(format!("@{} = {{", t)),
            }
        }
        k.body = body;
        k.body.sort();
        k.traits.sort();
        classes.insert(id.clone(), k);
    }
    rel.sort();
    (classes, rel)
}

/// classes, relations and what makes no sense
fn observed(c: &mut Case, text: &str, a: &AModel, expand: bool) -> (BTreeMap<String, Class>, Vec<String>) {
    let mut classes: BTreeMap<String, Class> = BTreeMap::new();
    let mut rel: Vec<String> = vec![];
    let mut bases: Vec<String> = vec![];
    let mut apis: Vec<String> = vec![];
    let mut prims: Vec<String> = vec![];
    let mut notes: BTreeMap<String, (String, u32)> = BTreeMap::new();
    let mut attached: Vec<(String, String)> = vec![];
    let mut packages: Vec<String> = vec![];
    let (mut package, mut class, mut section) = (None::<String>, None::<String>, "member".to_string());
    let lines: Vec<&str> = text.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    if lines.first() != Some(&"@startuml") || lines.last() != Some(&"@enduml") || lines.iter().filter(|l| **l == "@startuml" || **l == "@enduml").count() != 2 {
        c.viol("not-a-diagram", clip(text, 300));
    }
    let mut multi: Option<(String, Vec<String>)> = None;
    for l in lines {
        if l == "@startuml" || l == "@enduml" || l == "hide empty members" {
            if package.is_some() {
                c.viol("package-not-closed", format!("{:?}", package));
            }
            continue;
        }
        if let Some((n, t)) = &mut multi {
            if l == "end note" {
                notes.insert(n.clone(), (t.join("\n"), 0));
                multi = None;
            } else {
                t.push(l.to_string());
            }
            continue;
        }
        if let Some(k) = &class {
            let e = classes.get_mut(k).unwrap();
            if l == "}" {
                class = None;
            } else if l == ".." {
                section = "member".into();
            } else if l.starts_with("..") && l.ends_with("..") {
                section = l.trim_matches('.').to_string();
            } else if l.starts_with('@') {
                e.traits.push(l.to_string());
            } else {
                e.body.push(format!("{} {}", section, l));
            }
            continue;
        }
        if let Some(p) = l.strip_prefix("package ") {
            if package.is_some() {
                c.viol("package-in-package", l.to_string());
            }
            package = p.strip_suffix(" {").map(|x| x.to_string());
            if package.is_none() {
                c.viol("package", l.to_string());
            }
            packages.push(p.trim_end_matches(" {").to_string());
            continue;
        }
        if l == "}" {
            if package.take().is_none() {
                c.viol("closed-twice", clip(text, 300));
            }
            continue;
        }
        let words: Vec<&str> = l.split_whitespace().collect();
        if (words[0] == "class" || words[0] == "annotation") && words.len() > 2 {
            if package.is_none() {
                c.viol("class-outside-package", l.to_string());
            }
            if l.ends_with("{ }") {
                prims.push(words[1].to_string());
                continue;
            }
            let head = if words.len() > 3 { format!("{} {}", words[0], words[2..words.len() - 1].join(" ")) } else { words[0].to_string() };
            if words.last() != Some(&"{") {
                c.viol("class-line", l.to_string());
            }
            if classes.insert(words[1].to_string(), Class { package: package.clone().unwrap_or_default(), head, ..Default::default() }).is_some() {
                c.viol("class-drawn-twice", l.to_string());
            }
            class = Some(words[1].to_string());
            section = "member".into();
        } else if words[0] == "note" {
            if words[1] == "as" {
                multi = Some((words[2].to_string(), vec![]));
            } else if let Some((t, n)) = l[5..].rsplit_once(" as ") {
                if notes.insert(n.to_string(), (t.to_string(), 0)).is_some() {
                    c.viol("note-repeated", l.to_string());
                }
            } else {
                c.viol("note", l.to_string());
            }
        } else if words.len() == 3 && words[1] == ".." {
            attached.push((words[0].into(), words[2].into()));
        } else if words.len() == 3 && words[1] == "<|--" {
            bases.push(l.to_string());
        } else if words.len() == 3 && words[1] == "..>" {
            apis.push(words[0].to_string());
        } else if words.len() >= 3 && (words[1] == "*--" || words[1] == "-->") {
            rel.push(l.to_string());
        } else {
            c.viol("line", clip(l, 200));
        }
    }
    if class.is_some() || package.is_some() || multi.is_some() {
        c.viol("not-closed", format!("{:?} {:?} {:?}", package, class, multi));
    }
    for (who, n) in attached {
        match notes.get_mut(&n) {
            Some((t, k)) => {
                *k += 1;
                rel.push(format!("note {} of {}", t, who));
            }
            None => c.viol("note-missing", format!("{} .. {}", who, n)),
        }
    }
    for (n, (t, k)) in &notes {
        if *k != 1 {
            c.viol("note-not-attached", format!("{} {} {}", n, k, clip(t, 100)));
        }
    }
    let mut want: Vec<String> = vec![];
    if expand {
        for (id, s) in &a.shapes {
            if matches!(s.kind, AKind::Simple(_) | AKind::List(_) | AKind::Set(_) | AKind::Map(..)) {
                want.push(format!("smithy.api.{} <|-- {}", s.kind.type_name(), id));
            }
        }
        for t in SIMPLE.iter().chain(["list", "set", "map"].iter()) {
            if prims.iter().filter(|p| p == t).count() != 1 {
                c.viol("primitive", format!("{} in {:?}", t, prims));
            }
        }
    } else if !prims.is_empty() {
        c.viol("primitive", format!("{:?}", prims));
    }
    want.sort();
    bases.sort();
    if want != bases {
        c.viol("base-types", format!("{:?} for {:?}", bases.iter().find(|x| !want.contains(x)), want.iter().find(|x| !bases.contains(x))));
    }
    let mut seen = packages.clone();
    if expand {
        // the package of the predefined classes, opened again for definitions of the model's own
        if let Some(i) = seen.iter().position(|p| p == "smithy.api") {
            seen.remove(i);
        }
        packages.retain(|p| p != "smithy.api" || apis.iter().any(|x| x == p));
        if let Some(p) = packages.iter().find(|p| apis.iter().filter(|x| x == p).count() != 1) {
            c.viol("package-without-api", p.clone());
        }
    }
    let mut u = seen.clone();
    u.sort();
    u.dedup();
    if u.len() != seen.len() {
        c.viol("package-repeated", format!("{:?}", seen));
    }
    rel.sort();
    for k in classes.values_mut() {
        k.body.sort();
        k.traits.sort();
    }
    (classes, rel)
}
fn float_as_number(t: &str, want: &[String]) -> String {
    if let Some((id, v)) = t.split_once(" = ") {
        if v.parse::<f64>().is_ok() && want.contains(&format!("{} = number", id)) {
            return format!("{} = number", id);
        }
        for b in ["[", "{"] {
            if v.starts_with(b) && want.contains(&format!("{} = {}", id, b)) {
                return format!("{} = {}", id, b);
            }
        }
    }
    t.to_string()
}

fn check(c: &mut Case, a: &AModel) {
    let m = to_model_shuffled(a, &mut c.rng);
    let expand = c.rng.chance(1, 3);
    c.eval(a.nontrivial(), &format!("{}{}", expand, a.dump().join(";")));
    c.sample(|| clip(&a.dump().join("; "), 200));
    let text = match c.lib("PlantUmlWriter", || write_model_to_string(&mut PlantUmlWriter::new(expand), &m).map_err(|e| e.to_string())) {
        Some(Ok(t)) => t,
        Some(Err(e)) => return c.viol("refused", clip(&e, 300)),
        None => return,
    };
    let (classes, rel) = observed(c, &text, a, expand);
    let (want, wrel) = expected(a);
    c.add("classes", classes.len() as u64);
    c.add("relations", rel.len() as u64);
    for (id, w) in &want {
        let kind = a.shapes[id].kind.type_name().to_string();
        c.seen("kinds", &kind);
        let g = match classes.get(id) {
            Some(g) => g,
            None => {
                c.viol(format!("not-drawn:{}", kind), id.clone());
                continue;
            }
        };
        if g.package != w.package {
            c.viol("package-of-class", format!("{} in {:?}", id, g.package));
        }
        if g.head != w.head {
            c.viol(format!("stereotype:{}", w.head), format!("{} is {:?}", id, g.head));
        }
        if g.body != w.body {
            let x = w.body.iter().find(|x| !g.body.contains(x));
            let y = g.body.iter().find(|x| !w.body.contains(x));
            c.viol(format!("fields:{}", kind), format!("{} has {:?} for {:?} ({} for {} lines)", id, y, x, g.body.len(), w.body.len()));
        }
        let gt: Vec<String> = g.traits.iter().map(|t| float_as_number(t, &w.traits)).collect();
        let mut gs = gt.clone();
        gs.sort();
        let mut ws = w.traits.clone();
        ws.sort();
        if gs != ws {
            c.viol("traits", format!("{} has {:?} for {:?}", id, gs.iter().find(|x| !ws.contains(x)), ws.iter().find(|x| !gs.contains(x))));
        }
    }
    for id in classes.keys() {
        if !want.contains_key(id) && !matches!(a.shapes.get(id).map(|s| &s.kind), Some(AKind::Unresolved)) {
            c.viol("class-not-in-the-model", id.clone());
        }
    }
    for r in &wrel {
        c.seen("relations", r.split_whitespace().find(|w| ["*--", "-->", "note"].contains(w)).unwrap_or(""));
    }
    if rel != wrel {
        let x = wrel.iter().find(|x| wrel.iter().filter(|y| y == x).count() > rel.iter().filter(|y| y == x).count());
        let y = rel.iter().find(|x| rel.iter().filter(|y| y == x).count() > wrel.iter().filter(|y| y == x).count());
        let k = x.or(y).map(|l| l.split_whitespace().find(|w| ["*--", "-->", "note"].contains(w)).unwrap_or("")).unwrap_or("");
        c.viol(format!("relations:{}", k), format!("{:?} for {:?}", y, x));
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Operations are drawn as operations of services and resources only, unresolved placeholders may be left out; how floats are printed and collections abridged is not judged; traits of members are not shown.");
    ctx.rule("packages are balanced and unique; classes = services, resources, structures, unions, simple and collection shapes of the package's namespace, each once, with exactly their fields, operations, traits and stereotype; multiset of relations and notes = members of collections, resources and documentation of the model. Non-trivial when the model has members, properties or traits.");
    let opts = |r: &mut crate::rng::Rng| GenOpts {
        namespaces: if r.chance(1, 8) { vec!["example.one".into(), "smithy.api".into()] } else { vec!["example.one".into(), "ex.two".into(), "a".into()] },
        shapes: (0, 12),
        metadata: (0, 2),
        typed_refs: r.chance(1, 2),
        unresolved: r.chance(1, 2),
        unresolved_members: r.chance(1, 3),
        dangling: r.chance(1, 3),
        renames: true,
        strings: r.below(3) as u8,
        value_depth: r.below(3),
        ..Default::default()
    };
    ctx.cases("models", 40000, 0.9, |c| {
        let o = opts(&mut c.rng);
        let mut a = gen_model(&mut c.rng, &o);
        // more of the traits the mapping treats in its own way
        for (_, s) in a.shapes.iter_mut() {
            if s.kind == AKind::Unresolved {
                continue;
            }
            if c.rng.chance(1, 6) {
                let d = match c.rng.below(5) {
                    0 => Some(AVal::Str("two\nlines } \"quoted\" as note".into())),
                    1 => Some(AVal::Str(gen_string(&mut c.rng, 2))),
                    2 => Some(AVal::Int(3)),
                    3 => None,
                    _ => Some(AVal::Str("Plain.".into())),
                };
                s.traits.insert("smithy.api#documentation".into(), d);
            }
            if c.rng.chance(1, 8) {
                s.traits.insert("smithy.api#error".into(), Some(AVal::Str("client".into())));
            }
            if c.rng.chance(1, 8) {
                s.traits.insert("smithy.api#trait".into(), None);
            }
        }
        check(c, &a);
    });
    ctx.bounded("empty", 1, |c| check(c, &AModel::default()));
}
