//! C02: ==, Hash, Ord and map membership of identifiers agree; the oracle is ASCII case folding of the text.
use crate::am::sid;
use crate::fw::{Case, Ctx};
use crate::rng::Rng;
use atelier_core::model::{Identifier, NamespaceID, ShapeID};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Display;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn name(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 8) {
        s.push('_');
    }
    s.push(*r.pick(&['a', 'b', 'A', 'B', 'z', 'Z']));
    for _ in 0..r.below(4) {
        s.push(*r.pick(&['a', 'b', 'A', 'B', '0', '_', 'z', 'Z']));
    }
    s
}
fn recase(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}
fn namespace(r: &mut Rng) -> String {
    let mut s = name(r);
    for _ in 0..r.below(3) {
        s = format!("{}.{}", s, name(r));
    }
    s
}

fn check<T>(c: &mut Case, ty: &str, ids: &[(String, T)])
where
    T: Hash + Eq + Ord + Clone + Display,
{
    for (ta, a) in ids {
        for (tb, b) in ids {
            let same = ta.to_ascii_lowercase() == tb.to_ascii_lowercase();
            c.eval(same && ta != tb || a.cmp(b) == Ordering::Equal, &format!("{} {} {}", ty, ta, tb));
            if same && ta != tb {
                c.count("pairs equal up to letter case");
            }
            if (a == b) != same {
                c.viol(format!("{}:eq", ty), format!("{} == {} gave {}", ta, tb, a == b));
            }
            if (a != b) == same {
                c.viol(format!("{}:ne", ty), format!("{} != {} gave {}", ta, tb, a != b));
            }
            if same && h(a) != h(b) {
                c.viol(format!("{}:hash", ty), format!("{} and {} are equal but hash differently", ta, tb));
            }
            let o = a.cmp(b);
            if (o == Ordering::Equal) != same {
                c.viol(format!("{}:cmp-eq", ty), format!("{} cmp {} gave {:?}, equal ignoring case: {}", ta, tb, o, same));
            }
            if b.cmp(a) != o.reverse() {
                c.viol(format!("{}:cmp-antisymmetric", ty), format!("{} {}", ta, tb));
            }
            if a.partial_cmp(b) != Some(o) || (a < b) != (o == Ordering::Less) || (a <= b) != (o != Ordering::Greater) {
                c.viol(format!("{}:partial_cmp", ty), format!("{} {}", ta, tb));
            }
            for (tc, d) in ids {
                if a <= b && b <= d && !(a <= d) {
                    c.viol(format!("{}:cmp-transitive", ty), format!("{} {} {}", ta, tb, tc));
                }
            }
        }
    }
    // maps and sets keyed by the ids behave like maps keyed by the folded text
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    let (mut hm, mut bm): (HashMap<T, usize>, BTreeMap<T, usize>) = Default::default();
    let (mut hs, mut bs): (HashSet<T>, BTreeSet<T>) = Default::default();
    for (i, (t, a)) in ids.iter().enumerate() {
        let w = want.insert(t.to_ascii_lowercase(), i);
        let g1 = hm.insert(a.clone(), i);
        let g2 = bm.insert(a.clone(), i);
        if g1 != w {
            c.viol(format!("{}:hashmap", ty), format!("inserting {} replaced {:?}, expected {:?}", t, g1, w));
        }
        if g2 != w {
            c.viol(format!("{}:btreemap", ty), format!("inserting {} replaced {:?}, expected {:?}", t, g2, w));
        }
        if hs.insert(a.clone()) != w.is_none() || bs.insert(a.clone()) != w.is_none() {
            c.viol(format!("{}:sets", ty), format!("inserting {} into a set", t));
        }
    }
    for (t, a) in ids {
        let w = want.get(&t.to_ascii_lowercase());
        if hm.get(a) != w || bm.get(a) != w {
            c.viol(format!("{}:lookup", ty), format!("looking up {}", t));
        }
    }
    if hm.len() != want.len() || bm.len() != want.len() {
        c.viol(format!("{}:map-size", ty), format!("{} keys in hash map, {} in sorted map, {} expected", hm.len(), bm.len(), want.len()));
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Sets of 3-7 generated identifiers, namespaces and shape IDs over a small alphabet, half of them re-cased or component-shifted copies of each other; every pair and triple is an evaluation, non-trivial when the two are equal up to letter case but spelt differently (or compare equal).");
    ctx.cases("ids", 4000, 0.9, |c| {
        let mut base: Vec<String> = vec![];
        for _ in 0..c.rng.range(3, 7) {
            let prev = if base.is_empty() { None } else { Some(c.rng.pick(&base).clone()) };
            base.push(match prev {
                Some(p) if c.rng.chance(1, 2) => recase(&mut c.rng, &p),
                _ => name(&mut c.rng),
            });
        }
        let ids: Vec<(String, Identifier)> = base.iter().map(|s| (s.clone(), s.parse().unwrap())).collect();
        check(c, "identifier", &ids);
        let mut nss: Vec<String> = vec![];
        for _ in 0..c.rng.range(3, 6) {
            let prev = if nss.is_empty() { None } else { Some(c.rng.pick(&nss).clone()) };
            nss.push(match prev {
                Some(p) if c.rng.chance(1, 2) => recase(&mut c.rng, &p),
                _ => namespace(&mut c.rng),
            });
        }
        let ids: Vec<(String, NamespaceID)> = nss.iter().map(|s| (s.clone(), s.parse().unwrap())).collect();
        check(c, "namespace", &ids);
        let mut sids: Vec<String> = vec![];
        for _ in 0..c.rng.range(3, 7) {
            let prev = if sids.is_empty() { None } else { Some(c.rng.pick(&sids).clone()) };
            let s = match prev {
                Some(p) if c.rng.chance(1, 3) => recase(&mut c.rng, &p),
                Some(p) if c.rng.chance(1, 3) => {
                    // same pieces, different component
                    let base = p.split('$').next().unwrap().to_string();
                    if p.contains('$') {
                        base
                    } else {
                        format!("{}${}", base, name(&mut c.rng))
                    }
                }
                _ => {
                    let m = if c.rng.chance(1, 3) { format!("${}", name(&mut c.rng)) } else { String::new() };
                    let ns = if c.rng.chance(1, 2) { "a.b".to_string() } else { namespace(&mut c.rng) };
                    format!("{}#{}{}", ns, name(&mut c.rng), m)
                }
            };
            sids.push(s);
        }
        c.sample(|| format!("{:?} {:?} {:?}", base, nss, sids));
        let ids: Vec<(String, ShapeID)> = sids.iter().map(|s| (s.clone(), sid(s))).collect();
        check(c, "shapeid", &ids);
    });
}
