//! C04: adding and merging shapes against the reference reconciliation rules.
use crate::am::*;
use crate::fw::{diff, guard, Case, Ctx};
use crate::refm;
use crate::rng::Rng;
use atelier_core::error::ErrorKind;
use atelier_core::model::Model;
use atelier_core::Version;

/// Change one structural detail of a shape; returns what was changed.
pub fn tweak(r: &mut Rng, s: &mut AShape) -> &'static str {
    let other = |r: &mut Rng, t: &str| -> String {
        loop {
            let x = format!("smithy.api#{}", r.pick(&PRELUDE_SIMPLE));
            if x != t {
                return x;
            }
        }
    };
    // a kind that looks like this one, or the same kind with less in it
    if r.chance(1, 4) {
        let old = s.kind.clone();
        let less = r.chance(1, 2);
        let what = match (&old, less) {
            (AKind::Structure(m), false) => {
                s.kind = AKind::Union(m.clone());
                "structure/union"
            }
            (AKind::Union(m), false) => {
                s.kind = AKind::Structure(m.clone());
                "structure/union"
            }
            (AKind::Structure(m), true) | (AKind::Union(m), true) if !m.is_empty() => {
                s.kind = if matches!(old, AKind::Union(_)) { AKind::Union(Default::default()) } else { AKind::Structure(Default::default()) };
                "all members removed"
            }
            (AKind::Map(k, v), false) if !k.target.eq_ignore_ascii_case(&v.target) => {
                s.kind = AKind::Map(v.clone(), k.clone());
                "key and value swapped"
            }
            (AKind::List(m), true) | (AKind::Set(m), true) => {
                s.kind = AKind::Map(m.clone(), m.clone());
                "list or set/map"
            }
            (AKind::Service(x), true) if x.operations.len() + x.resources.len() + x.renames.len() > 0 => {
                s.kind = AKind::Service(AService { version: x.version.clone(), ..Default::default() });
                "service emptied"
            }
            (AKind::Operation(x), true) if *x != AOperation::default() => {
                s.kind = AKind::Operation(Default::default());
                "operation emptied"
            }
            (AKind::Operation(x), false) if x.input != x.output => {
                s.kind = AKind::Operation(AOperation { input: x.output.clone(), output: x.input.clone(), errors: x.errors.clone() });
                "input and output swapped"
            }
            (AKind::Resource(x), true) if *x != AResource::default() => {
                s.kind = AKind::Resource(Default::default());
                "resource emptied"
            }
            (AKind::Resource(x), false) if { let so = |v: &[Id]| { let mut v = v.to_vec(); v.sort(); v }; so(&x.operations) != so(&x.collection_operations) } => {
                let mut y = x.clone();
                std::mem::swap(&mut y.operations, &mut y.collection_operations);
                s.kind = AKind::Resource(y);
                "operations and collection operations swapped"
            }
            _ => "",
        };
        if !what.is_empty() {
            return what;
        }
    }
    match &mut s.kind {
        AKind::Simple(n) => {
            let old = n.clone();
            if r.chance(1, 4) {
                s.kind = AKind::Structure(Default::default());
                return "kind";
            }
            while *n == old {
                *n = r.pick(&SIMPLE).to_string();
            }
            "simple type"
        }
        AKind::List(m) => {
            if r.chance(1, 3) {
                s.kind = AKind::Set(m.clone());
                return "list/set";
            }
            m.target = other(r, &m.target);
            "target"
        }
        AKind::Set(m) => {
            if r.chance(1, 3) {
                s.kind = AKind::List(m.clone());
                return "list/set";
            }
            m.target = other(r, &m.target);
            "target"
        }
        AKind::Map(k, v) => {
            if r.chance(1, 2) {
                k.target = other(r, &k.target);
                "key target"
            } else {
                v.target = other(r, &v.target);
                "value target"
            }
        }
        AKind::Structure(ms) | AKind::Union(ms) => {
            let keys: Vec<String> = ms.keys().cloned().collect();
            match r.below(4) {
                0 if !keys.is_empty() => {
                    let k = r.pick(&keys).clone();
                    ms.remove(&k);
                    "member removed"
                }
                1 if !keys.is_empty() => {
                    let k = r.pick(&keys).clone();
                    let m = ms.remove(&k).unwrap();
                    ms.insert(format!("zz{}", k), m);
                    "member renamed"
                }
                2 if !keys.is_empty() => {
                    let k = r.pick(&keys).clone();
                    let m = ms.get_mut(&k).unwrap();
                    m.target = other(r, &m.target);
                    "target"
                }
                _ => {
                    ms.insert("zzextra".into(), AMember { target: "smithy.api#String".into(), traits: Default::default() });
                    "member added"
                }
            }
        }
        AKind::Service(x) => match r.below(4) {
            0 => {
                x.version.push('x');
                "version"
            }
            1 => {
                x.operations.push("zz.ns#Op".into());
                "operations"
            }
            2 => {
                x.resources.push("zz.ns#Res".into());
                "resources"
            }
            _ => {
                x.renames.insert("zz.ns#Thing".into(), "Renamed".into());
                "renames"
            }
        },
        AKind::Operation(x) => match r.below(3) {
            0 => {
                x.input = if x.input.is_some() { None } else { Some("zz.ns#In".into()) };
                "input"
            }
            1 => {
                x.output = if x.output.is_some() { None } else { Some("zz.ns#Out".into()) };
                "output"
            }
            _ => {
                x.errors.push("zz.ns#Err".into());
                "errors"
            }
        },
        AKind::Resource(x) => match r.below(10) {
            0 => {
                x.identifiers.insert("zzid".into(), "smithy.api#String".into());
                "identifiers"
            }
            1 => {
                x.create = if x.create.is_some() { None } else { Some("zz.ns#Op".into()) };
                "create"
            }
            2 => {
                x.put = if x.put.is_some() { None } else { Some("zz.ns#Op".into()) };
                "put"
            }
            3 => {
                x.read = if x.read.is_some() { None } else { Some("zz.ns#Op".into()) };
                "read"
            }
            4 => {
                x.update = if x.update.is_some() { None } else { Some("zz.ns#Op".into()) };
                "update"
            }
            5 => {
                x.delete = if x.delete.is_some() { None } else { Some("zz.ns#Op".into()) };
                "delete"
            }
            6 => {
                x.list = if x.list.is_some() { None } else { Some("zz.ns#Op".into()) };
                "list"
            }
            7 => {
                x.operations.push("zz.ns#Op".into());
                "operations"
            }
            8 => {
                x.collection_operations.push("zz.ns#Op".into());
                "collection operations"
            }
            _ => {
                x.resources.push("zz.ns#Res".into());
                "resources"
            }
        },
        AKind::Unresolved => {
            s.kind = AKind::Simple("string".into());
            "resolved"
        }
    }
}

/// A second definition of the same shape with other traits.
pub fn retrait(r: &mut Rng, s: &mut AShape, o: &GenOpts, keep: usize) {
    let redo = |r: &mut Rng, t: &mut Traits| {
        let mut n = gen_traits(r, o, 2);
        for (k, v) in t.iter() {
            if r.chance(keep, 10) {
                n.insert(k.clone(), v.clone());
            } else if !matches!(v, Some(AVal::Arr(_))) {
                n.remove(k);
            }
        }
        // mostly compatible: drop values that would conflict, most of the time
        if r.chance(9, 10) {
            n.retain(|k, v| match (t.get(k), &*v) {
                (None, _) => true,
                (Some(a), b) if a == b => true,
                (Some(Some(AVal::Arr(_))), Some(AVal::Arr(_))) => true,
                _ => false,
            });
        }
        *t = n;
    };
    let mut t = s.traits.clone();
    redo(r, &mut t);
    s.traits = t;
    for (_, m) in s.kind.members_mut() {
        redo(r, &mut m.traits);
    }
}

fn opts() -> GenOpts {
    GenOpts {
        namespaces: vec!["ex.a".into(), "ex.b".into()],
        shapes: (1, 6),
        metadata: (0, 2),
        unresolved: true,
        unresolved_members: true,
        strings: 1,
        value_depth: 1,
        ..Default::default()
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Pairs (and short sequences) of models sharing shape IDs: identical, re-traited, structurally altered in one of ~25 ways, or reduced to forward references. One evaluation is one add_shape or merge compared with the reference reconciliation (result, error kind, contents). Non-trivial: both sides define or reference a common ID.");
    ctx.assume("Two definitions whose operation/resource/error lists are permutations of each other are not generated (the specification does not say whether order matters).");
    ctx.cases("merge", 6000, 0.5, merge_case);
    ctx.cases("add", 6000, 0.4, add_case);
    ctx.cases("version", 50, 0.01, |c| {
        // the only other version is not constructible from text, so compare what the interface offers
        let a = Version::current();
        c.eval(true, "current");
        if a != Version::V10 || Version::default() != Version::V10 {
            c.viol("version", "current version is not 1.0");
        }
        c.count("version checks");
    });
}

fn variant(c: &mut Case, id: &str, s: &AShape, o: &GenOpts) -> (String, AShape) {
    let mut t = s.clone();
    let what = match c.rng.below(8) {
        0 => "identical".to_string(),
        1 | 2 | 3 => {
            retrait(&mut c.rng, &mut t, o, 5);
            "retraited".to_string()
        }
        4 | 5 => {
            if id.contains('$') {
                "identical".to_string()
            } else {
                let w = tweak(&mut c.rng, &mut t);
                if c.rng.chance(1, 3) {
                    retrait(&mut c.rng, &mut t, o, 5);
                }
                format!("tweaked {} {}", s.kind.type_name(), w)
            }
        }
        _ => {
            t.kind = AKind::Unresolved;
            if c.rng.chance(1, 2) {
                retrait(&mut c.rng, &mut t, o, 3);
            }
            "forward reference".to_string()
        }
    };
    (what, t)
}

fn check(c: &mut Case, what: &str, lib: Result<Result<(), atelier_core::error::Error>, crate::fw::Panicked>, got: &Model, want: Result<AModel, refm::Conflict>, ctx: String) {
    match (lib, want) {
        (Err(p), w) => {
            if !p.in_repo {
                panic!("{:?}", p);
            }
            c.viol(format!("crash:{}", p.sig()), format!("{} crashed ({} {}) where the rules say {:?}\n{}", what, p.at, p.msg, w.map(|_| "ok"), ctx));
        }
        (Ok(Ok(())), Ok(w)) => {
            c.count("accepted");
            if let Some((sig, d)) = diff(&w.dump(), &from_model(got).dump()) {
                c.viol(format!("content:{}", sig), format!("{}\n{}{}", what, ctx, d));
            }
        }
        (Ok(Err(e)), Err(w)) => {
            c.count("rejected");
            let ok = matches!(
                (e.kind(), &w),
                (ErrorKind::MergeMetadataConflict(_), refm::Conflict::Metadata(_))
                    | (ErrorKind::MergeTraitConflict(_), refm::Conflict::Trait(_))
                    | (ErrorKind::MergeShapeConflict(_), refm::Conflict::Shape(_))
                    | (ErrorKind::ShapeIDExpected(_), refm::Conflict::MemberId(_))
            );
            if !ok && what != "merge" {
                c.viol(format!("error-kind:{:?}", std::mem::discriminant(&w)), format!("{}: rules say {:?}, library says {}\n{}", what, w, e, ctx));
            }
        }
        (Ok(Ok(())), Err(w)) => c.viol(
            format!("accepted-conflict:{}", conflict_name(&w)),
            format!("{} succeeded where the rules say {:?}\n{}", what, w, ctx),
        ),
        (Ok(Err(e)), Ok(_)) => c.viol("rejected-compatible", format!("{} failed with {} although the definitions are compatible\n{}", what, e, ctx)),
    }
}
fn conflict_name(c: &refm::Conflict) -> &'static str {
    match c {
        refm::Conflict::Metadata(_) => "metadata",
        refm::Conflict::Trait(_) => "trait",
        refm::Conflict::Shape(_) => "shape",
        refm::Conflict::MemberId(_) => "member-id",
    }
}

fn merge_case(c: &mut Case) {
    let o = opts();
    let a = gen_model(&mut c.rng, &o);
    let mut b = gen_model(&mut c.rng, &GenOpts { shapes: (0, 2), ..opts() });
    b.shapes.retain(|k, _| !a.shapes.keys().any(|x| x.eq_ignore_ascii_case(k)));
    let mut shared = 0;
    let ids: Vec<Id> = a.shapes.keys().cloned().collect();
    for id in &ids {
        if c.rng.chance(1, 2) {
            let (what, v) = variant(c, id, &a.shapes[id], &o);
            c.seen("conflict shapes", &what);
            b.shapes.insert(id.clone(), v);
            shared += 1;
        }
    }
    if c.rng.chance(9, 10) {
        b.metadata.retain(|k, _| !a.metadata.contains_key(k));
    }
    let (x, y) = if c.rng.chance(1, 2) { (&a, &b) } else { (&b, &a) };
    let mut want = x.clone();
    let w = refm::merge(&mut want, y).map(|_| want);
    let mut m = to_model_shuffled(x, &mut c.rng);
    let n = to_model_shuffled(y, &mut c.rng);
    c.eval(shared > 0, &format!("{:?}{:?}", x.dump(), y.dump()));
    c.sample(|| format!("{:?} + {:?}", x.dump(), y.dump()));
    let r = guard(|| m.merge(n));
    let note = format!("left: {:#?}\nright: {:#?}", x.dump(), y.dump());
    check(c, "merge", r, &m, w, note);
}

fn add_case(c: &mut Case) {
    let o = opts();
    let base = gen_model(&mut c.rng, &GenOpts { shapes: (1, 2), metadata: (0, 0), ..opts() });
    let mut want = base.clone();
    let mut m = to_model_shuffled(&base, &mut c.rng);
    let ids: Vec<Id> = base.shapes.keys().cloned().collect();
    for _ in 0..c.rng.range(1, 4) {
        let id = c.rng.pick(&ids).clone();
        let cur = base.shapes[&id].clone();
        let (what, mut s) = variant(c, &id, &cur, &o);
        let mut id = id;
        if c.rng.chance(1, 12) {
            id = format!("{}$oddMember", shape_part(&id));
            if c.rng.chance(1, 2) {
                s.kind = AKind::Unresolved;
            }
        }
        c.seen("conflict shapes", &what);
        let mut next = want.clone();
        let w = refm::add_shape(&mut next, &id, &s);
        let ok = w.is_ok();
        c.eval(true, &format!("{:?}{:?}", want.dump(), s.dump(&id, Default::default())));
        let shape = to_shape(&id, &s);
        let note = format!("model: {:#?}\nadded ({}): {:#?}", want.dump(), what, s.dump(&id, Default::default()));
        let r = guard(|| m.add_shape(shape));
        let failed = !matches!(r, Ok(Ok(_)));
        check(c, "add_shape", r, &m, w.map(|_| next.clone()), note);
        if !ok || failed {
            return; // contents after a reported conflict are not specified
        }
        want = next;
    }
}
