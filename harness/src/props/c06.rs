//! C06: all orders and groupings of merging generated parts of a model agree.
use super::c04;
use crate::am::*;
use crate::fw::{diff, Case, Ctx};
use crate::refm;
use crate::rng::Rng;
use atelier_core::model::Model;

/// Split a model into `n` parts whose merge is the model; shapes may be shared, forward-referenced or have their traits
/// spread over parts.
pub fn partition(r: &mut Rng, m: &AModel, n: usize) -> Vec<AModel> {
    let mut parts = vec![AModel::default(); n];
    for (k, v) in &m.metadata {
        match v {
            AVal::Arr(a) if a.len() > 1 && r.chance(1, 2) => {
                for x in a {
                    let p = r.below(n);
                    let e = parts[p].metadata.entry(k.clone()).or_insert(AVal::Arr(vec![]));
                    if let AVal::Arr(v) = e {
                        v.push(x.clone());
                    }
                }
            }
            AVal::Arr(_) => {
                let p = r.below(n);
                parts[p].metadata.insert(k.clone(), v.clone());
            }
            v => {
                for _ in 0..r.range(1, 2) {
                    let p = r.below(n);
                    parts[p].metadata.insert(k.clone(), v.clone());
                }
            }
        }
    }
    for (id, s) in &m.shapes {
        // bodies: one or more parts carry the definition without traits
        let mut bare = s.clone();
        bare.traits.clear();
        for (_, mm) in bare.kind.members_mut() {
            mm.traits.clear();
        }
        let homes: Vec<usize> = {
            let k = r.range(1, n.min(3));
            let mut v: Vec<usize> = (0..n).collect();
            r.shuffle(&mut v);
            v.truncate(k);
            v
        };
        for h in &homes {
            parts[*h].shapes.insert(id.clone(), bare.clone());
        }
        let spread = |r: &mut Rng, t: &Option<AVal>| -> Vec<(usize, Option<AVal>)> {
            match t {
                Some(AVal::Arr(a)) if a.len() > 1 && n > 1 => {
                    let cut = r.range(1, a.len() - 1);
                    let p = r.below(n);
                    let q = (p + 1) % n;
                    vec![(p, Some(AVal::Arr(a[..cut].to_vec()))), (q, Some(AVal::Arr(a[cut..].to_vec())))]
                }
                v => vec![(r.below(n), v.clone())],
            }
        };
        for (t, v) in &s.traits {
            for (p, v) in spread(r, v) {
                let e = parts[p].shapes.entry(id.clone()).or_insert(AShape { kind: AKind::Unresolved, traits: Default::default() });
                e.traits.insert(t.clone(), v);
            }
        }
        for (name, mm) in s.kind.members() {
            for (t, v) in &mm.traits {
                // member traits can only be carried by a part that has the definition
                let h = *r.pick(&homes);
                for (mn, target) in parts[h].shapes.get_mut(id).unwrap().kind.members_mut() {
                    if mn == name {
                        target.traits.insert(t.clone(), v.clone());
                    }
                }
            }
        }
    }
    parts
}

fn group_merge(r: &mut Rng, mut ms: Vec<Model>) -> Result<Model, String> {
    // random binary tree over the sequence
    while ms.len() > 1 {
        let i = r.below(ms.len() - 1);
        let right = ms.remove(i + 1);
        ms[i].merge(right).map_err(|e| e.to_string())?;
    }
    Ok(ms.pop().unwrap())
}

fn opts() -> GenOpts {
    GenOpts {
        namespaces: vec!["ex.a".into(), "ex.b".into()],
        shapes: (2, 7),
        metadata: (0, 3),
        unresolved: true,
        strings: 1,
        value_depth: 1,
        dangling: true,
        ..Default::default()
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("A generated model is split into 2-4 parts (bodies duplicated, traits and metadata arrays spread, forward references); every permutation of up to 3 parts, and sampled permutations of 4, each under random groupings, is one evaluation compared with the whole model (array order aside). Conflicting variants must fail in every order. Non-trivial: at least two parts share a shape or key.");
    ctx.cases("partition", 1500, 0.9, case);
}

/// two values that cannot be combined
fn odds(c: &mut Case) -> (AVal, AVal) {
    let one = |c: &mut Case| match c.rng.below(10) {
        0 => AVal::Null,
        1 => AVal::Bool(c.rng.chance(1, 2)),
        2 => AVal::Int(c.rng.below(2) as i64),
        3 => AVal::Float(c.rng.below(2) as f64 + 0.5),
        4 => AVal::Str("".into()),
        5 => AVal::Str("x".into()),
        6 => AVal::Obj(Default::default()),
        7 => AVal::Obj([("k".to_string(), AVal::Int(c.rng.below(2) as i64))].into_iter().collect()),
        8 => AVal::Arr(vec![]),
        _ => AVal::Arr(vec![AVal::Null]),
    };
    loop {
        let (a, b) = (one(c), one(c));
        if refm::merge_value(&a, &b).is_none() {
            return (a, b);
        }
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

fn case(c: &mut Case) {
    let whole = gen_model(&mut c.rng, &opts());
    let n = c.rng.range(2, 4);
    let mut parts = partition(&mut c.rng, &whole, n);
    let mut conflict = None;
    if c.rng.chance(1, 3) {
        let p = c.rng.below(n);
        let q = (p + 1 + c.rng.below(n - 1)) % n;
        let ids: Vec<Id> = whole.shapes.iter().filter(|(_, s)| s.kind != AKind::Unresolved).map(|x| x.0.clone()).collect();
        if !ids.is_empty() && c.rng.chance(2, 3) {
            let id = c.rng.pick(&ids).clone();
            if c.rng.chance(1, 2) {
                let mut s = whole.shapes[&id].clone();
                s.traits.clear();
                for (_, m) in s.kind.members_mut() {
                    m.traits.clear();
                }
                let mut t = s.clone();
                let what = c04::tweak(&mut c.rng, &mut t);
                parts[p].shapes.insert(id.clone(), s);
                parts[q].shapes.insert(id.clone(), t);
                conflict = Some(format!("shape {} {}", whole.shapes[&id].kind.type_name(), what));
            } else {
                let (a, b) = odds(c);
                let unset = c.rng.chance(1, 5);
                for (k, v) in [(p, Some(a)), (q, if unset { None } else { Some(b) })] {
                    let e = parts[k].shapes.entry(id.clone()).or_insert(AShape { kind: AKind::Unresolved, traits: Default::default() });
                    e.traits.insert("ex.t#conflicting".into(), v);
                }
                conflict = Some("trait".into());
            }
        } else {
            let (a, b) = odds(c);
            parts[p].metadata.insert("zzconflict".into(), a);
            parts[q].metadata.insert("zzconflict".into(), b);
            conflict = Some("metadata".into());
        }
    }
    // the reference agrees that this set of parts is (in)compatible
    let mut w = AModel::default();
    let mut ok = true;
    for p in &parts {
        if refm::merge(&mut w, p).is_err() {
            ok = false;
            break;
        }
    }
    if ok != conflict.is_none() {
        panic!("monitor: partition {:?} does not match its plan {:?}", parts, conflict);
    }
    let want = refm::unordered_arrays(&w).dump();
    let shared = {
        let mut all: Vec<&Id> = parts.iter().flat_map(|p| p.shapes.keys()).collect();
        let total = all.len();
        all.sort();
        all.dedup();
        all.len() < total
    };
    let mut ps = perms(n);
    if n == 4 {
        c.rng.shuffle(&mut ps);
        ps.truncate(8);
    }
    c.seen("conflict kinds", conflict.as_deref().unwrap_or("none"));
    c.sample(|| format!("{} parts of {:?} conflict {:?}", n, whole.dump(), conflict));
    for p in ps {
        let ms: Vec<Model> = p.iter().map(|i| to_model_shuffled(&parts[*i], &mut c.rng)).collect();
        c.eval(shared, &format!("{:?}{:?}", want, p));
        c.count(if conflict.is_some() { "orders of conflicting parts" } else { "orders of compatible parts" });
        let mut rng = c.rng.clone();
        c.rng.next();
        let add_empty = c.rng.chance(1, 4);
        let r = c.lib("merge", || {
            let mut ms = ms;
            if add_empty {
                ms.insert(0, Model::default());
            }
            group_merge(&mut rng, ms)
        });
        match r {
            None => return,
            Some(Ok(m)) => match &conflict {
                None => {
                    let got = refm::unordered_arrays(&from_model(&m)).dump();
                    if let Some((sig, d)) = diff(&want, &got) {
                        c.viol(format!("order:{}", sig), format!("parts {:#?}\norder {:?}{}", parts.iter().map(|p| p.dump()).collect::<Vec<_>>(), p, d));
                        return;
                    }
                }
                Some(k) => {
                    c.viol(format!("conflict-accepted:{}", k), format!("order {:?} of {:#?}", p, parts.iter().map(|p| p.dump()).collect::<Vec<_>>()));
                    return;
                }
            },
            Some(Err(e)) => {
                if conflict.is_none() {
                    c.viol("compatible-rejected", format!("{} in order {:?} of {:#?}", e, p, parts.iter().map(|p| p.dump()).collect::<Vec<_>>()));
                    return;
                }
            }
        }
    }
    // identity
    let mut m = to_model(&whole);
    let before = from_model(&m).dump();
    m.merge(Model::default()).expect("empty merge");
    let mut e = Model::default();
    c.eval(true, "identity");
    match e.merge(m.clone()) {
        Ok(_) => {
            if from_model(&m).dump() != before || from_model(&e).dump() != before {
                c.viol("identity", format!("{:?}", before));
            }
        }
        Err(x) => c.viol("identity", format!("{} {:?}", x, before)),
    }
}
