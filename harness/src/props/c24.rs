//! C24: the GraphML document, read by an independent XML reader, against nodes and edges derived from the model.
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use crate::xml;
use atelier_core::io::write_model_to_string;
use atelier_describe::graphml::writer::GraphMLWriter;
use std::collections::{BTreeMap, BTreeSet};

type Edge = (String, String, String);

fn expected(m: &AModel) -> Vec<Edge> {
    let mut out: Vec<Edge> = vec![];
    let mut put = |s: &str, t: &str, l: &str| out.push((s.to_string(), t.to_string(), l.to_string()));
    for (id, s) in &m.shapes {
        if s.kind == AKind::Unresolved {
            continue;
        }
        for t in s.traits.keys() {
            put(id, t, "trait");
        }
        for (n, mm) in s.kind.members() {
            put(id, &mm.target, &format!("member {}", n));
        }
        match &s.kind {
            AKind::Service(v) => {
                v.operations.iter().for_each(|x| put(id, x, "member operations"));
                v.resources.iter().for_each(|x| put(id, x, "member resources"));
            }
            AKind::Operation(v) => {
                v.input.iter().for_each(|x| put(id, x, "member input"));
                v.output.iter().for_each(|x| put(id, x, "member output"));
                v.errors.iter().for_each(|x| put(id, x, "member errors"));
            }
            AKind::Resource(v) => {
                v.identifiers.values().for_each(|x| put(id, x, "member identifiers"));
                for (p, x) in v.lifecycle() {
                    x.iter().for_each(|x| put(id, x, &format!("member {}", p)));
                }
                v.operations.iter().for_each(|x| put(id, x, "member operations"));
                v.collection_operations.iter().for_each(|x| put(id, x, "member collectionOperations"));
                v.resources.iter().for_each(|x| put(id, x, "member resources"));
            }
            _ => {}
        }
    }
    out.sort();
    out
}
fn kind_of(label: &str) -> String {
    let known = ["operations", "resources", "input", "output", "errors", "identifiers", "create", "put", "read", "update", "delete", "list", "collectionOperations", "key", "value", "member"];
    match label.strip_prefix("member ") {
        Some(l) if known.contains(&l) => l.into(),
        Some(_) => "member-by-name".into(),
        None => label.into(),
    }
}

fn check(c: &mut Case, a: &AModel) {
    let m = to_model_shuffled(a, &mut c.rng);
    c.eval(a.nontrivial(), &a.dump().join(";"));
    c.sample(|| clip(&a.dump().join("; "), 200));
    let text = match c.lib("GraphMLWriter", || write_model_to_string(&mut GraphMLWriter::default(), &m).map_err(|e| e.to_string())) {
        Some(Ok(t)) => t,
        Some(Err(e)) => return c.viol("refused", clip(&e, 300)),
        None => return,
    };
    let root = match xml::parse(&text) {
        Ok(x) => x,
        Err(e) => return c.viol(format!("not-xml:{}", e.split(" near ").next().unwrap_or("").split(|x: char| x == '\'' || x == '<').next().unwrap_or("")), clip(&e, 400)),
    };
    c.count("documents");
    if root.name != "graphml" {
        return c.viol("root", root.name.clone());
    }
    let mut keys: BTreeMap<String, String> = BTreeMap::new();
    for k in root.named("key") {
        let id = k.attr("id").unwrap_or("").to_string();
        if keys.insert(id.clone(), k.attr("for").unwrap_or("all").to_string()).is_some() {
            c.viol("key-repeated", id);
        }
    }
    let graphs: Vec<_> = root.named("graph").collect();
    if graphs.len() != 1 {
        return c.viol("graphs", graphs.len().to_string());
    }
    let g = graphs[0];
    if g.attr("edgedefault") != Some("directed") {
        c.viol("not-directed", format!("{:?}", g.attr("edgedefault")));
    }
    let mut ids: BTreeSet<String> = BTreeSet::new();
    let mut nodes: BTreeMap<String, (String, Option<String>)> = BTreeMap::new();
    let mut edges: Vec<Edge> = vec![];
    for e in &g.kids {
        if e.name == "data" {
            match keys.get(e.attr("key").unwrap_or("")).map(|x| x.as_str()) {
                Some("graph") | Some("all") => {}
                x => c.viol("data-of-graph", format!("{:?} {:?}", e, x)),
            }
            if e.text.trim() != "1.0" {
                c.viol("smithy-version", e.text.clone());
            }
            continue;
        }
        let id = e.attr("id").unwrap_or("").to_string();
        if !ids.insert(id.clone()) {
            c.viol(format!("{}-id-repeated", e.name), id.clone());
        }
        let mut data: BTreeMap<&str, String> = BTreeMap::new();
        for d in e.named("data") {
            let k = d.attr("key").unwrap_or("");
            match keys.get(k).map(|x| x.as_str()) {
                Some(f) if f == e.name || f == "all" => {}
                x => c.viol("key-not-declared", format!("{:?} of {} declared for {:?}", k, e.name, x)),
            }
            if data.insert(k, d.text.clone()).is_some() {
                c.viol("data-repeated", format!("{:?}", e));
            }
        }
        match e.name.as_str() {
            "node" => {
                nodes.insert(id, (data.get("type").cloned().unwrap_or_default(), data.get("version").cloned()));
            }
            "edge" => {
                let label = match (data.get("trait"), data.get("member")) {
                    (Some(t), None) if t == "true" => "trait".to_string(),
                    (None, Some(m)) => format!("member {}", m),
                    (None, None) => "member member".to_string(),
                    x => format!("{:?}", x),
                };
                edges.push((e.attr("source").unwrap_or("").into(), e.attr("target").unwrap_or("").into(), label));
            }
            n => c.viol("element", n.to_string()),
        }
    }
    c.add("nodes", nodes.len() as u64);
    c.add("edges", edges.len() as u64);
    for (id, s) in &a.shapes {
        if s.kind == AKind::Unresolved {
            continue;
        }
        c.seen("kinds", s.kind.type_name());
        match nodes.get(id) {
            None => c.viol(format!("no-node:{}", s.kind.type_name()), id.clone()),
            Some((t, v)) => {
                if t != s.kind.type_name() {
                    c.viol(format!("type:{}", s.kind.type_name()), format!("{} is {:?}", id, t));
                }
                match &s.kind {
                    AKind::Service(x) => match v {
                        None => c.viol("no-version", id.clone()),
                        Some(v) => {
                            if x.version.chars().all(xml::allowed) {
                                c.count("versions");
                                if *v != x.version {
                                    c.viol("version", format!("{:?} for {:?}", v, x.version));
                                }
                            }
                        }
                    },
                    _ => {
                        if v.is_some() {
                            c.viol("version-of-other-shape", id.clone());
                        }
                    }
                }
            }
        }
    }
    for n in nodes.keys() {
        if !a.shapes.contains_key(n) {
            c.viol("node-not-in-the-model", n.clone());
        }
    }
    for e in &edges {
        if !nodes.contains_key(&e.0) {
            c.viol("edge-from-nowhere", format!("{:?}", e));
        }
    }
    // what a placeholder carries is not judged
    edges.retain(|e| a.shapes.get(&e.0).map(|s| s.kind != AKind::Unresolved).unwrap_or(true));
    edges.sort();
    let want = expected(a);
    for e in &want {
        c.seen("edges", &kind_of(&e.2));
    }
    if want != edges {
        let count = |v: &Vec<Edge>| {
            let mut m: BTreeMap<Edge, i32> = BTreeMap::new();
            v.iter().for_each(|e| *m.entry(e.clone()).or_insert(0) += 1);
            m
        };
        let (w, g) = (count(&want), count(&edges));
        for (e, n) in &w {
            let k = g.get(e).copied().unwrap_or(0);
            if k < *n {
                c.viol(format!("no-edge:{}", kind_of(&e.2)), format!("{:?} {} times, not {}; from there {:?}", e, k, n, edges.iter().filter(|x| x.0 == e.0).take(20).collect::<Vec<_>>()));
                break;
            }
        }
        for (e, n) in &g {
            let k = w.get(e).copied().unwrap_or(0);
            if k < *n {
                c.viol(format!("edge-too-many:{}", kind_of(&e.2)), format!("{:?} {} times, not {}", e, n, k));
                break;
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Traits of members, renames and unresolved placeholders are not part of the mapping; characters XML cannot express may be replaced.");
    ctx.rule("the document is well-formed XML with declared keys and unique identifiers; nodes = defined shapes with their type and version; multiset of edges (source, target, role) = shape traits, members and properties of the model. Non-trivial when the model has members, properties or traits.");
    let opts = |r: &mut crate::rng::Rng| GenOpts {
        namespaces: if r.chance(1, 8) { vec!["example.one".into(), "smithy.api".into()] } else { vec!["example.one".into(), "ex.two".into(), "a".into()] },
        shapes: (0, 12),
        metadata: (0, 2),
        typed_refs: r.chance(1, 2),
        unresolved: r.chance(1, 2),
        unresolved_members: r.chance(1, 3),
        dangling: r.chance(1, 3),
        renames: true,
        strings: r.below(3) as u8,
        value_depth: r.below(3),
        ..Default::default()
    };
    ctx.cases("models", 30000, 0.7, |c| {
        let o = opts(&mut c.rng);
        let a = gen_model(&mut c.rng, &o);
        check(c, &a);
    });
    ctx.cases("versions", 20000, 0.3, |c| {
        let mut version = String::new();
        for _ in 0..c.rng.range(1, 6) {
            match c.rng.below(4) {
                0 => version.push_str(c.rng.pick(&["<", ">", "&", "]]>", "<![CDATA[", "&amp;", "&#13;", "&lt", "<!--", "-->", "</data>", "\"", "'", "<?xml", "?>"])),
                1 => version.push_str(c.rng.pick(&["\r\n", "\r", "\n", "\t", " ", "\u{0}", "\u{b}", "\u{1f}", "\u{7f}", "\u{85}", "\u{2028}", "\u{fffe}", "\u{ffff}", "\u{fffd}", "\u{10ffff}"])),
                2 => version.push_str(&gen_string(&mut c.rng, 2)),
                _ => version.push_str("2020-01-01"),
            }
        }
        if version.is_empty() {
            version.push('1');
        }
        let mut a = AModel::default();
        for k in 0..c.rng.range(1, 3) {
            a.shapes.insert(
                format!("ex.a#Service{}", k),
                AShape { kind: AKind::Service(AService { version: if k == 0 { version.clone() } else { "1.0".into() }, ..Default::default() }), traits: Default::default() },
            );
        }
        check(c, &a);
    });
}
