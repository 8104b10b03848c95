//! C23: the RDF graph, read into a canonical form that does not depend on blank nodes, against the documented mapping.
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use atelier_core::io::write_model_to_string;
use atelier_rdf::urn::{is_shape_iri, iri_to_shape, shape_to_iri};
use atelier_rdf::writer::{model_to_rdf, RdfWriter};
use rdftk_core::model::graph::GraphRef;
use rdftk_core::model::literal::DataType;
use rdftk_core::simple::graph_factory;
use rdftk_iri::{IRIRef, IRI};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const SMITHY: &str = "https://awslabs.github.io/smithy/rdf-1.0#";

fn urn(id: &str) -> String {
    format!("<urn:smithy:{}>", id.replace('#', ":").replace('$', "/"))
}
fn esc(s: &str, raw: bool) -> String {
    if raw {
        format!("'{}'", s)
    } else {
        let d = format!("{:?}", s);
        format!("'{}'", &d[1..d.len() - 1])
    }
}
fn pr(p: &str) -> String {
    format!("{}{}", SMITHY, p)
}
/// a blank node from its facts
fn node(mut facts: Vec<String>) -> String {
    facts.sort();
    format!("[{}]", facts.join(" ; "))
}
fn fact(p: &str, o: &str) -> String {
    format!("{} {}", p, o)
}
fn bag(mut items: Vec<String>) -> String {
    items.sort();
    format!("Bag({})", items.join(" , "))
}
fn value(v: &AVal, raw: bool) -> String {
    match v {
        AVal::Null => format!("<{}null>", SMITHY),
        AVal::Bool(b) => format!("bool {}", b),
        AVal::Int(i) => format!("long {}", i),
        AVal::Float(f) => format!("double {:?}", f),
        AVal::Str(s) => esc(s, raw),
        AVal::Arr(a) => format!("Seq({})", a.iter().map(|x| value(x, raw)).collect::<Vec<_>>().join(" , ")),
        AVal::Obj(o) => pairs(o, raw),
    }
}
fn pairs(o: &BTreeMap<String, AVal>, raw: bool) -> String {
    bag(o.iter().map(|(k, v)| node(vec![fact(&pr("key"), &esc(k, raw)), fact(&pr("value"), &value(v, raw))])).collect())
}
fn traits(t: &Traits, raw: bool) -> Vec<String> {
    t.iter()
        .map(|(id, v)| {
            let mut f = vec![fact(&pr("trait"), &urn(id))];
            if let Some(v) = v {
                f.push(fact(&pr("value"), &value(v, raw)));
            }
            fact(&pr("apply"), &node(f))
        })
        .collect()
}

/// every fact of the model, one line each
fn expected(m: &AModel, subject: &str, raw: bool) -> BTreeSet<String> {
    let mut out: BTreeSet<String> = BTreeSet::new();
    let mut put = |s: &str, f: String| {
        out.insert(format!("{} {}", s, f));
    };
    let a = format!("{}type", RDF);
    put(subject, fact(&a, &format!("<{}Model>", SMITHY)));
    put(subject, fact(&pr("smithy_version"), "'1.0'"));
    if !m.metadata.is_empty() {
        put(subject, fact(&pr("metadata"), &pairs(&m.metadata, raw)));
    }
    for (id, s) in &m.shapes {
        let me = urn(id);
        for t in traits(&s.traits, raw) {
            put(&me, t);
        }
        if s.kind == AKind::Unresolved {
            continue;
        }
        put(subject, fact(&pr("shape"), &me));
        let t = s.kind.type_name();
        put(&me, fact(&a, &format!("<{}{}{}>", SMITHY, &t[..1].to_uppercase(), &t[1..])));
        for (n, mm) in s.kind.members() {
            let mut f = vec![fact(&a, &urn(&mm.target)), fact(&pr("name"), &esc(&n, raw))];
            f.extend(traits(&mm.traits, raw));
            put(&me, fact(&pr("member"), &node(f)));
        }
        match &s.kind {
            AKind::Service(v) => {
                put(&me, fact(&pr("version"), &esc(&v.version, raw)));
                for x in &v.operations {
                    put(&me, fact(&pr("operation"), &urn(x)));
                }
                for x in &v.resources {
                    put(&me, fact(&pr("resource"), &urn(x)));
                }
                if !v.renames.is_empty() {
                    put(
                        &me,
                        fact(&pr("rename"), &bag(v.renames.iter().map(|(k, n)| node(vec![fact(&pr("shape"), &urn(k)), fact(&pr("name"), &esc(n, raw))])).collect())),
                    );
                }
            }
            AKind::Operation(v) => {
                for (p, x) in [("input", &v.input), ("output", &v.output)] {
                    if let Some(x) = x {
                        put(&me, fact(&pr(p), &urn(x)));
                    }
                }
                for x in &v.errors {
                    put(&me, fact(&pr("error"), &urn(x)));
                }
            }
            AKind::Resource(v) => {
                if !v.identifiers.is_empty() {
                    put(
                        &me,
                        fact(&pr("identifiers"), &bag(v.identifiers.iter().map(|(k, n)| node(vec![fact(&pr("key"), &esc(k, raw)), fact(&pr("target"), &urn(n))])).collect())),
                    );
                }
                for (p, x) in v.lifecycle() {
                    if let Some(x) = x {
                        put(&me, fact(&pr(p), &urn(x)));
                    }
                }
                for (p, xs) in [("operation", &v.operations), ("collectionOperation", &v.collection_operations), ("resource", &v.resources)] {
                    for x in xs {
                        put(&me, fact(&pr(p), &urn(x)));
                    }
                }
            }
            _ => {}
        }
    }
    out
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum N {
    Iri(String),
    Blank(String),
    Lit(String),
}

/// the graph as lines; structural defects are returned apart
fn observed(g: &GraphRef, subject: &Option<String>) -> (BTreeSet<String>, Vec<String>, usize) {
    let g = g.borrow();
    let mut by: BTreeMap<N, BTreeSet<(String, N)>> = BTreeMap::new();
    let mut bad = vec![];
    let mut n = 0;
    for st in g.statements() {
        n += 1;
        let s = st.subject();
        let subj = if let Some(b) = s.as_blank() {
            N::Blank(b.clone())
        } else if let Some(i) = s.as_iri() {
            N::Iri(i.to_string())
        } else {
            bad.push("statement about a statement".to_string());
            continue;
        };
        let o = st.object();
        let obj = if let Some(b) = o.as_blank() {
            N::Blank(b.clone())
        } else if let Some(i) = o.as_iri() {
            N::Iri(i.to_string())
        } else if let Some(l) = o.as_literal() {
            let t = l.lexical_form().clone();
            if l.has_language() {
                bad.push(format!("literal with language: {:?}", t));
            }
            N::Lit(match l.data_type() {
                None | Some(DataType::String) => format!("'{}'", t),
                Some(DataType::Boolean) => format!("bool {}", t),
                Some(DataType::Long) => match t.parse::<i64>() {
                    Ok(i) => format!("long {}", i),
                    Err(_) => format!("long? {}", t),
                },
                Some(DataType::Double) => match t.parse::<f64>() {
                    Ok(i) => format!("double {:?}", i),
                    Err(_) => format!("double? {}", t),
                },
                Some(x) => format!("{:?} {}", x, t),
            })
        } else {
            bad.push("statement as an object".to_string());
            continue;
        };
        if !by.entry(subj).or_default().insert((st.predicate().to_string(), obj)) {
            bad.push(format!("statement twice: {}", st));
        }
    }
    // blank nodes are the values of exactly one statement, apart from an anonymous model
    let mut uses: BTreeMap<String, usize> = BTreeMap::new();
    for v in by.values() {
        for (_, o) in v {
            if let N::Blank(b) = o {
                *uses.entry(b.clone()).or_default() += 1;
            }
        }
    }
    let models: Vec<N> = by
        .iter()
        .filter(|(_, v)| v.contains(&(format!("{}type", RDF), N::Iri(pr("Model")))))
        .map(|x| x.0.clone())
        .collect();
    if models.len() != 1 {
        bad.push(format!("{} models in the graph", models.len()));
    }
    if let (Some(s), Some(m)) = (subject, models.first()) {
        if *m != N::Iri(s.clone()) {
            bad.push(format!("the model is {:?} instead of {}", m, s));
        }
    }
    fn show(o: &N, by: &BTreeMap<N, BTreeSet<(String, N)>>, bad: &mut Vec<String>, depth: usize) -> String {
        if depth > 300 {
            bad.push("cycle".into());
            return "...".into();
        }
        match o {
            N::Iri(i) => format!("<{}>", i),
            N::Lit(l) => l.clone(),
            N::Blank(_) => {
                let empty = BTreeSet::new();
                let facts = by.get(o).unwrap_or(&empty);
                let ty = facts.iter().find(|f| f.0 == format!("{}type", RDF)).map(|f| f.1.clone());
                let kind = match &ty {
                    Some(N::Iri(i)) if *i == format!("{}Bag", RDF) => "Bag",
                    Some(N::Iri(i)) if *i == format!("{}Seq", RDF) => "Seq",
                    _ => "",
                };
                if kind.is_empty() {
                    return node(facts.iter().map(|(p, o)| fact(p, &show(o, by, bad, depth + 1))).collect());
                }
                let mut items: Vec<(usize, String)> = vec![];
                for (p, o) in facts {
                    if *p == format!("{}type", RDF) {
                        continue;
                    }
                    match p.strip_prefix(RDF).and_then(|x| x.strip_prefix('_')).and_then(|x| x.parse::<usize>().ok()) {
                        Some(k) => items.push((k, show(o, by, bad, depth + 1))),
                        None => bad.push(format!("container with {}", p)),
                    }
                }
                items.sort();
                if items.iter().enumerate().any(|(i, x)| x.0 != i + 1) {
                    bad.push(format!("container numbered {:?}", items.iter().map(|x| x.0).collect::<Vec<_>>()));
                }
                let v: Vec<String> = items.into_iter().map(|x| x.1).collect();
                if kind == "Seq" {
                    format!("Seq({})", v.join(" , "))
                } else {
                    bag(v)
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    for (s, v) in &by {
        let name = match s {
            N::Iri(i) => {
                if models.contains(s) {
                    "MODEL".to_string()
                } else {
                    format!("<{}>", i)
                }
            }
            N::Blank(_) if models.contains(s) => "MODEL".to_string(),
            N::Blank(b) => {
                match uses.get(b) {
                    None => bad.push(format!("facts about nothing: {:?}", v)),
                    Some(1) => {}
                    Some(n) => bad.push(format!("blank node used {} times", n)),
                }
                continue;
            }
            N::Lit(_) => continue,
        };
        for (p, o) in v {
            out.insert(format!("{} {}", name, fact(p, &show(o, &by, &mut bad, 0))));
        }
    }
    (out, bad, n)
}

fn short(l: &str) -> String {
    // what the fact is about: the predicate
    l.split(' ').nth(1).unwrap_or("").rsplit('#').next().unwrap_or("").to_string()
}

fn check(c: &mut Case, a: &AModel) {
    let m = to_model_shuffled(a, &mut c.rng);
    let subject = if c.rng.chance(1, 2) { Some(c.rng.pick(&["https://example.org/example/smithy", "urn:smithy:ex.a:TheModel", "http://x/"]).to_string()) } else { None };
    let iri = subject.as_ref().map(|s| IRIRef::from(IRI::from_str(s).unwrap()));
    c.eval(a.nontrivial(), &a.dump().join(";"));
    c.sample(|| clip(&a.dump().join("; "), 200));
    let want_raw = expected(a, "MODEL", true);
    let want_esc = expected(a, "MODEL", false);
    let iri2 = iri.clone();
    // graphs are reference counted, so they stay within the call
    let got = match c.lib("model_to_rdf", || model_to_rdf(&m, iri2, graph_factory()).map(|g| observed(&g, &subject)).map_err(|e| e.to_string())) {
        Some(Ok(x)) => x,
        Some(Err(e)) => return c.viol("refused", clip(&e, 300)),
        None => return,
    };
    let (lines, bad, n) = got;
    c.add("triples", n as u64);
    for l in &want_esc {
        c.seen("kinds of facts", &short(l));
    }
    for b in bad {
        c.viol(format!("graph:{}", b.split(|x: char| x.is_ascii_digit() || x == ':').next().unwrap_or("")), clip(&b, 300));
    }
    if lines != want_raw && lines != want_esc {
        if let Some(l) = want_esc.difference(&lines).next() {
            c.viol(format!("missing:{}", short(l)), format!("{} ; of the same kind there is {:?}", clip(l, 500), lines.difference(&want_esc).find(|x| short(x) == short(l)).map(|x| clip(x, 500))));
        }
        if let Some(l) = lines.difference(&want_esc).next() {
            if !want_esc.difference(&lines).any(|x| short(x) == short(l)) {
                c.viol(format!("not-in-the-model:{}", short(l)), clip(l, 500));
            }
        }
    }
    if c.rng.chance(1, 4) {
        let mut w = match &iri {
            Some(i) => RdfWriter::new(i.clone()),
            None => RdfWriter::default(),
        };
        match c.lib("RdfWriter", || write_model_to_string(&mut w, &m).map_err(|e| e.to_string())) {
            Some(Ok(t)) => {
                c.count("documents written");
                if let Some(s) = &subject {
                    if !t.contains(s.as_str()) && !s.starts_with("urn:smithy") {
                        c.viol("turtle-without-model-iri", clip(&t, 300));
                    }
                }
                for id in a.shapes.iter().filter(|s| s.1.kind != AKind::Unresolved).map(|s| s.0) {
                    if !t.contains(name_of(id)) {
                        c.viol("turtle-without-shape", format!("{} in {}", id, clip(&t, 500)));
                    }
                }
            }
            Some(Err(e)) => c.viol("turtle-refused", clip(&e, 300)),
            None => {}
        }
    }
}

fn gen_id(c: &mut Case) -> String {
    let ns: Vec<String> = (0..c.rng.range(1, 4)).map(|_| gen_ident(&mut c.rng)).collect();
    let mut id = format!("{}#{}", ns.join("."), gen_ident(&mut c.rng));
    if c.rng.chance(1, 2) {
        id = format!("{}${}", id, gen_ident(&mut c.rng));
    }
    id
}
fn urns(c: &mut Case) {
    let id = gen_id(c);
    c.eval(true, &id);
    c.count("shape IDs");
    let iri = match c.lib("shape_to_iri", || shape_to_iri(&sid(&id)).to_string()) {
        Some(x) => x,
        None => return,
    };
    if format!("<{}>", iri) != urn(&id) {
        return c.viol("urn-of-shape", format!("{} for {}", iri, id));
    }
    match c.lib("iri_to_shape", || iri_to_shape(shape_to_iri(&sid(&id))).map(|s| s.to_string())) {
        Some(Ok(back)) if back == id => {}
        Some(x) => c.viol("urn-not-reversible", format!("{} gives {:?}", iri, x)),
        None => {}
    }
    // near misses: whatever is taken for a shape must be the URN of that shape
    let mut t: Vec<char> = iri.chars().collect();
    for _ in 0..c.rng.range(1, 2) {
        let at = c.rng.below(t.len() + 1);
        match c.rng.below(4) {
            0 if at < t.len() => {
                t.remove(at);
            }
            1 if at < t.len() => t[at] = *c.rng.pick(&[':', '/', '#', '?', '$', '.', '_', '0', 'A', '%', '-', '@', '\\', '|']),
            2 => t.extend(c.rng.pick(&["?q", "#f", "/x", ":y", "$z", "", "?", "#", "?+a", "?=b"]).chars()),
            _ => t.insert(at, *c.rng.pick(&[':', '/', '#', '?', '$', '.', '_', '0', 'A', '-'])),
        }
    }
    let text: String = t.into_iter().collect();
    if let Ok(x) = IRI::from_str(&text) {
        let shown = x.to_string();
        c.count("near misses");
        let r = IRIRef::from(x);
        match c.lib("iri_to_shape", || (iri_to_shape(r.clone()).map(|s| s.to_string()), is_shape_iri(r.clone()))) {
            Some((Ok(s), yes)) => {
                c.count("near misses that are URNs of shapes");
                if urn(&s) != format!("<{}>", shown) && !urn(&s).eq_ignore_ascii_case(&format!("<{}>", shown)) {
                    c.viol("other-iri-taken-for-shape", format!("{:?} gives {}", shown, s));
                }
                if !yes {
                    c.viol("is_shape_iri", shown);
                }
            }
            Some((Err(_), yes)) => {
                if yes {
                    c.viol("is_shape_iri", shown);
                }
            }
            None => {}
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Literals may hold their text as it is or escaped, uniformly, as the RDF library escapes it; floats are finite; the Turtle serialisation is an external library's and only checked for containing the names.");
    ctx.rule("facts of the graph, with blank nodes, bags and sequences in canonical form = facts of the model under the documented mapping; every blank node belongs to one fact; URN mapping is exact and reversible, and no other IRI is taken for a shape. Non-trivial when the model has members, properties or traits.");
    let opts = |r: &mut crate::rng::Rng| GenOpts {
        namespaces: if r.chance(1, 8) { vec!["example.one".into(), "smithy.api".into()] } else { vec!["example.one".into(), "ex.two".into(), "a".into()] },
        shapes: (0, 10),
        metadata: (0, 4),
        typed_refs: r.chance(1, 2),
        unresolved: r.chance(1, 2),
        unresolved_members: r.chance(1, 3),
        dangling: r.chance(1, 3),
        renames: true,
        strings: r.below(3) as u8,
        value_depth: r.below(4),
        ..Default::default()
    };
    ctx.cases("models", 2000, 0.8, |c| {
        let o = opts(&mut c.rng);
        let a = gen_model(&mut c.rng, &o);
        check(c, &a);
    });
    ctx.cases("urns", 5000, 0.2, urns);
}
