//! C05: histories of metadata additions and trait applications against the reference conflict resolution.
use crate::am::*;
use crate::fw::{diff, Case, Ctx};
use crate::refm;
use atelier_core::error::ErrorKind;
use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
use atelier_core::model::Model;
use atelier_core::Version;

fn val(c: &mut Case) -> AVal {
    // a small value universe so that equal, array/array and conflicting pairs all occur often
    match c.rng.below(14) {
        0 => AVal::Null,
        1 => AVal::Bool(true),
        2 => AVal::Bool(false),
        3 => AVal::Int(1),
        4 => AVal::Int(2),
        5 => AVal::Float(1.5),
        6 => AVal::Str("a".into()),
        7 => AVal::Str("".into()),
        8 => AVal::Arr(vec![]),
        9 => AVal::Arr(vec![AVal::Int(c.rng.below(3) as i64)]),
        10 => AVal::Arr(vec![AVal::Str("x".into()), AVal::Arr(vec![AVal::Null])]),
        11 => AVal::Obj(Default::default()),
        12 => AVal::Obj([("k".to_string(), AVal::Arr(vec![AVal::Int(c.rng.below(2) as i64)]))].into_iter().collect()),
        _ => {
            let o = GenOpts { strings: 1, ..Default::default() };
            gen_val(&mut c.rng, &o, 2)
        }
    }
}
fn related(c: &mut Case, old: Option<&AVal>) -> AVal {
    match old {
        Some(v) if c.rng.chance(1, 3) => v.clone(),
        Some(AVal::Arr(_)) if c.rng.chance(2, 3) => {
            let n = c.rng.range(0, 2);
            AVal::Arr((0..n).map(|_| val(c)).collect())
        }
        _ => val(c),
    }
}

const IDS: [&str; 4] = ["smithy.api#tags", "smithy.api#documentation", "ex.t#custom", "ex.t#other"];

pub fn run(ctx: &Ctx) {
    ctx.rule("Histories of 2-12 operations on metadata, on a shape's traits or a member's traits (single, bulk, through merge); each operation is one evaluation: result and full contents compared with the reference rules. Non-trivial when the key was already present.");
    ctx.cases("metadata", 4000, 0.3, metadata);
    ctx.cases("shape traits", 4000, 0.3, |c| {
        let mut s = TopLevelShape::new(sid("ex.a#S"), ShapeKind::Unresolved);
        traits(c, "shape", &mut s);
    });
    ctx.cases("member traits", 4000, 0.3, |c| {
        let mut s = MemberShape::new(ident("m"), sid("smithy.api#String"));
        traits(c, "member", &mut s);
    });
}

fn metadata(c: &mut Case) {
    let mut m = Model::new(Version::V10);
    let mut want = AModel::default();
    let mut hist = vec![];
    for _ in 0..c.rng.range(2, 12) {
        let k = c.rng.pick(&["a", "b", "", "k\"q"]).to_string();
        let old = want.metadata.get(&k).cloned();
        let v = related(c, old.as_ref());
        let mut next = want.clone();
        let through_merge = c.rng.chance(1, 3);
        let r = refm::add_metadata(&mut next, &k, &v);
        hist.push(format!("{}{}={}", if through_merge { "merge " } else { "" }, k, v.dump()));
        c.eval(old.is_some(), &format!("{:?}", hist));
        c.seen("value kind pairs", &format!("{:?}/{}", old.as_ref().map(|x| x.kind()), v.kind()));
        let got = if through_merge {
            let mut o = Model::new(Version::V10);
            o.add_metadata(k.clone(), to_value(&v)).unwrap();
            m.merge(o)
        } else {
            m.add_metadata(k.clone(), to_value(&v)).map(|_| ())
        };
        match (&got, &r) {
            (Ok(_), Ok(_)) => {
                want = next;
                c.count("combined or stored");
            }
            (Err(e), Err(_)) => {
                c.count("conflicts");
                if !matches!(e.kind(), ErrorKind::MergeMetadataConflict(x) if *x == k) {
                    c.viol("metadata:error-kind", format!("{} after {:?}", e, hist));
                }
            }
            (g, w) => {
                c.viol(
                    format!("metadata:{}/{}:ok={}", old.as_ref().map(|x| x.kind()).unwrap_or("absent"), v.kind(), g.is_ok()),
                    format!("history {:?}: rules say {:?}, library says {:?}", hist, w, g.as_ref().map_err(|e| e.to_string())),
                );
                return;
            }
        }
        if let Some((sig, d)) = diff(&want.dump(), &from_model(&m).dump()) {
            c.viol(format!("metadata:content:{}", sig), format!("history {:?}{}", hist, d));
            return;
        }
    }
    c.sample(|| format!("metadata history {:?}", hist));
}

fn traits<T: HasTraits>(c: &mut Case, on: &str, t: &mut T) {
    let mut want = Traits::new();
    let mut hist = vec![];
    for _ in 0..c.rng.range(2, 12) {
        let id = if c.rng.chance(1, 20) { "ex.t#custom$memb" } else { *c.rng.pick(&IDS) };
        let old = want.get(id).cloned();
        let v = if c.rng.chance(1, 5) { None } else { Some(related(c, old.as_ref().and_then(|x| x.as_ref()))) };
        let mut next = want.clone();
        let r = refm::apply_trait(&mut next, id, &v);
        let bulk = c.rng.chance(1, 3);
        let plain = v.is_none() && !bulk && c.rng.chance(1, 2);
        hist.push(format!("{}{}={}", if bulk { "append " } else { "" }, id, dump_tv(&v)));
        c.eval(old.is_some(), &format!("{} {:?}", on, hist));
        c.seen("value kind pairs", &format!("{:?}/{:?}", old.as_ref().map(|x| x.as_ref().map(|y| y.kind())), v.as_ref().map(|y| y.kind())));
        let got = if bulk {
            let m: Traits = [(id.to_string(), v.clone())].into_iter().collect();
            t.append_traits(&to_traits(&m))
        } else if plain {
            t.apply(sid(id))
        } else {
            t.apply_with_value(sid(id), v.as_ref().map(to_value))
        };
        match (&got, &r) {
            (Ok(_), Ok(_)) => {
                want = next;
                c.count("combined or stored");
            }
            (Err(e), Err(w)) => {
                c.count("conflicts");
                let ok = match w {
                    refm::Conflict::Trait(_) => matches!(e.kind(), ErrorKind::MergeTraitConflict(_)),
                    _ => matches!(e.kind(), ErrorKind::ShapeIDExpected(_)),
                };
                if !ok {
                    c.viol(format!("{}:error-kind", on), format!("{} after {:?}", e, hist));
                }
            }
            (g, w) => {
                c.viol(
                    format!(
                        "{}:{}/{}:ok={}",
                        on,
                        old.as_ref().map(|x| x.as_ref().map(|y| y.kind()).unwrap_or("novalue")).unwrap_or("absent"),
                        v.as_ref().map(|y| y.kind()).unwrap_or("novalue"),
                        g.is_ok()
                    ),
                    format!("history {:?}: rules say {:?}, library says {:?}", hist, w, g.as_ref().map_err(|e| e.to_string())),
                );
                return;
            }
        }
        let got = from_traits(t.traits());
        if got != want {
            c.viol(format!("{}:content", on), format!("history {:?}\n expected {:?}\n observed {:?}", hist, want, got));
            return;
        }
        if t.has_trait(&sid(id)) != want.contains_key(id) || t.has_traits() == want.is_empty() {
            c.viol(format!("{}:presence", on), format!("history {:?}", hist));
        }
        if t.trait_named(&sid(id)).map(|v| v.as_ref().map(from_value)) != want.get(id).cloned() {
            c.viol(format!("{}:trait_named", on), format!("history {:?}", hist));
        }
        if c.rng.chance(1, 8) {
            let id = *c.rng.pick(&IDS);
            hist.push(format!("remove {}", id));
            t.remove_trait(&sid(id));
            want.remove(id);
        }
    }
    c.sample(|| format!("{} trait history {:?}", on, hist));
}
