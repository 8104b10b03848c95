//! Reference semantics of merging, written from the Smithy rules and used as the oracle for C03-C06, C07 and C22.
use crate::am::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Conflict {
    Metadata(String),
    Trait(String),
    Shape(String),
    MemberId(String),
}

/// metadata: arrays concatenate, equal values are ignored, everything else conflicts
pub fn merge_value(old: &AVal, new: &AVal) -> Option<AVal> {
    match (old, new) {
        (AVal::Arr(a), AVal::Arr(b)) => {
            let mut v = a.clone();
            v.extend(b.iter().cloned());
            Some(AVal::Arr(v))
        }
        (a, b) if a == b => Some(a.clone()),
        _ => None,
    }
}
pub fn add_metadata(m: &mut AModel, k: &str, v: &AVal) -> Result<(), Conflict> {
    match m.metadata.get(k) {
        None => {
            m.metadata.insert(k.to_string(), v.clone());
            Ok(())
        }
        Some(old) => match merge_value(old, v) {
            Some(x) => {
                m.metadata.insert(k.to_string(), x);
                Ok(())
            }
            None => Err(Conflict::Metadata(k.to_string())),
        },
    }
}
pub fn apply_trait(t: &mut Traits, id: &str, v: &Option<AVal>) -> Result<(), Conflict> {
    if id.contains('$') {
        return Err(Conflict::MemberId(id.to_string()));
    }
    match t.get(id) {
        None => {
            t.insert(id.to_string(), v.clone());
            Ok(())
        }
        Some(old) => match (old, v) {
            (Some(a), Some(b)) => match merge_value(a, b) {
                Some(x) => {
                    t.insert(id.to_string(), Some(x));
                    Ok(())
                }
                None => Err(Conflict::Trait(id.to_string())),
            },
            (None, None) => Ok(()),
            _ => Err(Conflict::Trait(id.to_string())),
        },
    }
}
fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}
/// same type and same members or properties with the same targets, ignoring traits
pub fn same_structure(a: &AKind, b: &AKind) -> bool {
    let targets = |k: &AKind| -> Vec<(String, Id)> { k.members().into_iter().map(|(n, m)| (n, m.target.clone())).collect() };
    match (a, b) {
        (AKind::Simple(x), AKind::Simple(y)) => x == y,
        (AKind::List(_), AKind::List(_))
        | (AKind::Set(_), AKind::Set(_))
        | (AKind::Map(..), AKind::Map(..))
        | (AKind::Structure(_), AKind::Structure(_))
        | (AKind::Union(_), AKind::Union(_)) => targets(a) == targets(b),
        (AKind::Service(x), AKind::Service(y)) => {
            x.version == y.version
                && sorted(&x.operations) == sorted(&y.operations)
                && sorted(&x.resources) == sorted(&y.resources)
                && x.renames == y.renames
        }
        (AKind::Operation(x), AKind::Operation(y)) => {
            x.input == y.input && x.output == y.output && sorted(&x.errors) == sorted(&y.errors)
        }
        (AKind::Resource(x), AKind::Resource(y)) => {
            let n = |r: &AResource| {
                let mut r = r.clone();
                r.operations.sort();
                r.collection_operations.sort();
                r.resources.sort();
                r
            };
            n(x) == n(y)
        }
        (AKind::Unresolved, AKind::Unresolved) => true,
        _ => false,
    }
}
pub fn add_shape(m: &mut AModel, id: &str, s: &AShape) -> Result<(), Conflict> {
    if id.contains('$') && s.kind != AKind::Unresolved {
        return Err(Conflict::MemberId(id.to_string()));
    }
    let old = match m.shapes.get(id) {
        None => {
            m.shapes.insert(id.to_string(), s.clone());
            return Ok(());
        }
        Some(o) => o.clone(),
    };
    let mut new = old.clone();
    match (old.kind == AKind::Unresolved, s.kind == AKind::Unresolved) {
        (false, false) => {
            if !same_structure(&old.kind, &s.kind) {
                return Err(Conflict::Shape(id.to_string()));
            }
            let theirs = s.kind.members();
            for (n, mine) in new.kind.members_mut() {
                let other = &theirs.iter().find(|x| x.0 == n).unwrap().1;
                for (t, v) in &other.traits {
                    apply_trait(&mut mine.traits, t, v)?;
                }
            }
        }
        (true, false) => new.kind = s.kind.clone(),
        _ => {}
    }
    for (t, v) in &s.traits {
        apply_trait(&mut new.traits, t, v)?;
    }
    m.shapes.insert(id.to_string(), new);
    Ok(())
}
pub fn merge(m: &mut AModel, other: &AModel) -> Result<(), Conflict> {
    for (k, v) in &other.metadata {
        add_metadata(m, k, v)?;
    }
    for (id, s) in &other.shapes {
        add_shape(m, id, s)?;
    }
    Ok(())
}

/// Sort top-level arrays of metadata and trait values: their order records the order of merging.
pub fn unordered_arrays(m: &AModel) -> AModel {
    fn val(v: &AVal) -> AVal {
        match v {
            AVal::Arr(a) => {
                let mut a = a.clone();
                a.sort_by_key(|x| x.dump());
                AVal::Arr(a)
            }
            v => v.clone(),
        }
    }
    fn traits(t: &mut Traits) {
        for v in t.values_mut() {
            if let Some(x) = v {
                *x = val(x);
            }
        }
    }
    let mut m = m.clone();
    for v in m.metadata.values_mut() {
        *v = val(v);
    }
    for s in m.shapes.values_mut() {
        traits(&mut s.traits);
        for (_, mm) in s.kind.members_mut() {
            traits(&mut mm.traits);
        }
    }
    m
}
