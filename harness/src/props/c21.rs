//! C21: querying by shape type, against the table of the selector specification.
use super::c20::TYPES;
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use atelier_core::model::selector::{Selector, SelectorExpression, ShapeType};
use atelier_core::model::Model;
use atelier_query::evaluate::query;
use atelier_query::Projection;
use std::collections::BTreeSet;

fn matches(ty: &str, k: &AKind) -> bool {
    let simple = matches!(k, AKind::Simple(_));
    let name = k.type_name();
    match ty {
        "*" => true,
        "number" => simple && ["byte", "short", "integer", "long", "float", "double", "bigInteger", "bigDecimal"].contains(&name),
        "simpleType" => simple,
        "collection" => matches!(k, AKind::List(_) | AKind::Set(_)),
        "list" => matches!(k, AKind::List(_)),
        "set" => matches!(k, AKind::Set(_)),
        "map" => matches!(k, AKind::Map(..)),
        "structure" => matches!(k, AKind::Structure(_)),
        "union" => matches!(k, AKind::Union(_)),
        "service" => matches!(k, AKind::Service(_)),
        "operation" => matches!(k, AKind::Operation(_)),
        "resource" => matches!(k, AKind::Resource(_)),
        t => matches!(k, AKind::Simple(s) if s == t),
    }
}

fn check(c: &mut Case, a: &AModel, m: &Model, types: &[usize], parsed: bool) {
    let text = types.iter().map(|t| TYPES[*t].0).collect::<Vec<_>>().join(" ");
    let sel: Selector = if parsed {
        match c.lib("parse_selector", || atelier_smithy::parse_selector(&text)) {
            Some(Ok(x)) => x,
            Some(Err(e)) => return c.viol("selector-refused", format!("{:?}: {}", text, e)),
            None => return,
        }
    } else {
        types.iter().map(|t| TYPES[*t].1.clone().into()).collect::<Vec<_>>().into()
    };
    let want: BTreeSet<&Id> = a.shapes.iter().filter(|(_, s)| types.iter().all(|t| matches(TYPES[*t].0, &s.kind))).map(|x| x.0).collect();
    // whether placeholders of shapes that are not there are matched by '*' is left open
    let open: BTreeSet<&Id> = a.shapes.iter().filter(|(_, s)| s.kind == AKind::Unresolved).map(|x| x.0).collect();
    c.eval(!want.is_empty() && want.len() < a.shapes.len(), &format!("{}|{}", text, a.dump().join(";")));
    c.seen("selectors", &text);
    let got = match c.lib("query", || query(&sel, m)) {
        Some(Projection::Shapes(v)) => v,
        Some(Projection::Empty) => vec![],
        Some(x) => return c.viol(format!("not-shapes:{}", text), clip(&format!("{:?}", x), 200)),
        None => return,
    };
    let got: Vec<String> = got.iter().map(|x| x.to_string()).collect();
    c.add("shapes selected", got.len() as u64);
    for g in &got {
        let known = a.shapes.get(g);
        if !want.contains(g) && !(open.contains(g) && types.iter().all(|t| TYPES[*t].0 == "*")) {
            c.viol(format!("selected-wrongly:{}", text), format!("{} is {}", g, known.map_or("not in the model", |s| s.kind.type_name())));
        }
    }
    for w in want.iter().filter(|w| !open.contains(**w)) {
        match got.iter().filter(|g| g == w).count() {
            1 => c.seen("kinds selected", &format!("{} by {}", a.shapes[*w].kind.type_name(), TYPES[types[0]].0)),
            0 => c.viol(format!("not-selected:{}", text), format!("{} {}", a.shapes[*w].kind.type_name(), w)),
            n => c.viol(format!("selected-twice:{}", text), format!("{} {} times", w, n)),
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Selectors of one or more shape types without 'member', whose result has no documented meaning in this version; other expressions are not implemented by the evaluator.");
    ctx.rule("query(t1 t2 ...) = the shapes of the model whose kind is matched by every type of the chain, each once");
    let opts = GenOpts { shapes: (0, 14), namespaces: vec!["example.one".into(), "example.two".into(), "a".into(), "smithy.api".into()], typed_refs: false, ..GenOpts::default() };
    let usable: Vec<usize> = (0..TYPES.len()).filter(|t| TYPES[*t].0 != "member").collect();
    ctx.cases("models", 1500, 1.0, |c| {
        let a = gen_model(&mut c.rng, &opts);
        let m = to_model_shuffled(&a, &mut c.rng);
        c.sample(|| clip(&a.dump().join("; "), 200));
        for t in &usable {
            let p = c.rng.chance(1, 3);
            check(c, &a, &m, &[*t], p);
        }
        for _ in 0..8 {
            let n = c.rng.range(2, 4);
            let v: Vec<usize> = (0..n).map(|_| *c.rng.pick(&usable)).collect();
            let p = c.rng.chance(1, 3);
            check(c, &a, &m, &v, p);
        }
        // whatever else 'member' selects, a shape is not a member
        let sel: Selector = vec![SelectorExpression::ShapeType(ShapeType::Member)].into();
        if let Some(p) = c.lib("query", || query(&sel, &m)) {
            if let Projection::Shapes(v) | Projection::Members(v) = p {
                if let Some(id) = v.iter().find(|id| !id.is_member()) {
                    c.viol("selected-wrongly:member", format!("{} is not a member", id));
                }
            }
            c.count("queries of members");
        }
        // everything in the model, as the start of a query
        if let Some(p) = c.lib("projection", || Projection::from(&m)) {
            let mut got: Vec<String> = p.as_shapes().map(|v| v.map(|x| x.to_string()).collect()).unwrap_or_default();
            got.sort();
            let want: Vec<&Id> = a.shapes.iter().filter(|(k, s)| s.kind != AKind::Unresolved || got.contains(k)).map(|x| x.0).collect();
            let views = (p.is_shapes() || p.is_empty(), p.is_members() || p.as_members().is_some(), p.is_values() || p.as_values().is_some());
            if got.iter().collect::<Vec<_>>() != want || views != (true, false, false) {
                c.viol("projection-of-model", format!("{:?} instead of {:?}, {:?}", got, want, views));
            }
            c.count("models projected");
        }
        let back = from_model(&m);
        if back != a {
            c.viol("model-changed-by-query", "");
        }
    });
    // a model with one shape of every kind: every type and every pair
    let mut a = AModel::default();
    let mem = AMember { target: "smithy.api#String".into(), traits: Default::default() };
    for (i, s) in SIMPLE.iter().enumerate() {
        a.shapes.insert(format!("n#S{}", i), AShape { kind: AKind::Simple(s.to_string()), traits: Default::default() });
    }
    let svc = AService { version: "1".into(), operations: vec![], resources: vec![], renames: Default::default() };
    let op = AOperation { input: None, output: None, errors: vec![] };
    for (n, k) in [
        ("L", AKind::List(mem.clone())),
        ("T", AKind::Set(mem.clone())),
        ("M", AKind::Map(mem.clone(), mem.clone())),
        ("St", AKind::Structure(Default::default())),
        ("U", AKind::Union(Default::default())),
        ("Sv", AKind::Service(svc)),
        ("O", AKind::Operation(op)),
        ("R", AKind::Resource(Default::default())),
        ("X", AKind::Unresolved),
    ] {
        a.shapes.insert(format!("n#{}", n), AShape { kind: k, traits: Default::default() });
    }
    let n = usable.len();
    ctx.bounded("every kind", (n * (n + 1)) as u64, |c| {
        let i = c.idx as usize;
        let (x, y) = (i / (n + 1), i % (n + 1));
        let mut v = vec![usable[x]];
        if y < n {
            v.push(usable[y]);
        }
        let m = to_model(&a);
        check(c, &a, &m, &v, i % 2 == 0);
    });
}
