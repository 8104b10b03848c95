//! C07: builder programs against a reference elaborator (name resolution + the merge rules of `refm`).
use crate::am::*;
use crate::fw::{diff, guard, Case, Ctx};
use crate::elab::*;
use crate::rng::Rng;
use atelier_core::builder::traits as bt;
use atelier_core::builder::values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
use atelier_core::builder::{
    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder, ResourceBuilder, ServiceBuilder,
    ShapeTraits, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
};
use atelier_core::model::shapes::Simple;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::Model;
use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id, prelude_shape_named};
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet};
use atelier_core::builder::id::ShapeName;
use std::convert::TryFrom;
use std::str::FromStr;

const NS: &str = "ex.a";
const NAMES: [&str; 8] = ["Foo", "Bar", "Baz", "Qux", "String", "Integer", "required", "tags"];
const MNAMES: [&str; 5] = ["a", "b", "member", "key", "value"];

// ---- generation -------------------------------------------------------------------------------------------------
struct G<'a, 'b> {
    c: &'a mut Case<'b>,
    wild: bool,
}
impl<'a, 'b> G<'a, 'b> {
    fn name(&mut self) -> String {
        let r = &mut self.c.rng;
        let n = *r.pick(&NAMES);
        match r.below(20) {
            0..=10 => n.to_string(),
            11..=13 => format!("{}#{}", NS, n),
            14..=15 => format!("ex.b#{}", n),
            16 => format!("ex.c#{}", n),
            17 => "smithy.api#String".to_string(),
            18 => "Unknown".to_string(),
            _ if self.wild && r.chance(1, 3) => format!("{}#{}$a", NS, n),
            _ => "Boolean".to_string(),
        }
    }
    fn tb(&mut self) -> Tb {
        let r = &mut self.c.rng;
        let n = match r.below(12) {
            0 => "required".to_string(),
            1 => "tags".to_string(),
            2 => "documentation".to_string(),
            3 => "smithy.api#tags".to_string(),
            4 => "Foo".to_string(),
            5 => "ex.b#Bar".to_string(),
            6 => "custom".to_string(),
            7 => format!("{}#Baz", NS),
            8 => "sensitive".to_string(),
            9 if self.wild && r.chance(1, 6) => "ex.b#Bar$m".to_string(),
            _ => "String".to_string(),
        };
        let v = match r.below(8) {
            0..=2 => None,
            3 => Some(AVal::Obj(BTreeMap::new())),
            4..=5 => Some(AVal::Arr(vec![AVal::Int(r.below(3) as i64)])),
            6 => Some(AVal::Str("x".into())),
            _ => {
                let o = GenOpts { strings: 1, ..Default::default() };
                Some(gen_val(r, &o, 2))
            }
        };
        (n, v)
    }
    fn tbs(&mut self) -> Vec<Tb> {
        let n = if self.c.rng.chance(1, 2) { 0 } else { self.c.rng.range(1, 3) };
        let mut v: Vec<Tb> = (0..n).map(|_| self.tb()).collect();
        if !self.wild {
            // mostly conflict free programs: a trait given twice has an equal or an array value
            let mut seen = BTreeMap::new();
            for (n, x) in v.iter_mut() {
                let n = name_of(n).to_string();
                if let Some(old) = seen.get(&n) {
                    *x = Option::clone(old);
                } else {
                    seen.insert(n, x.clone());
                }
            }
        }
        v
    }
    fn mem(&mut self, name: &str) -> Mem {
        Mem { name: name.to_string(), target: self.name(), traits: self.tbs() }
    }
    fn mems(&mut self) -> Vec<Mem> {
        let n = self.c.rng.below(4);
        let mut v: Vec<Mem> = vec![];
        for _ in 0..n {
            let nm = *self.c.rng.pick(&MNAMES);
            if !self.wild && v.iter().any(|m| m.name == nm) {
                continue;
            }
            let m = self.mem(nm);
            v.push(m);
        }
        v
    }
    fn names(&mut self) -> Vec<String> {
        let n = self.c.rng.below(3);
        let s: BTreeSet<String> = (0..n).map(|_| self.name()).collect();
        s.into_iter().collect()
    }
    fn opt(&mut self) -> Option<String> {
        if self.c.rng.chance(1, 2) {
            Some(self.name())
        } else {
            None
        }
    }
    fn kind(&mut self) -> DKind {
        match self.c.rng.below(12) {
            0 | 1 => DKind::Simple(self.c.rng.below(13) as usize),
            2 => DKind::List(self.mem("member")),
            3 => DKind::Set(self.mem("member")),
            4 => DKind::Map(self.mem("key"), self.mem("value")),
            5 | 6 => DKind::Structure(self.mems()),
            7 => DKind::Union(self.mems()),
            8 => DKind::Service(AService {
                version: "2020-01-01".into(),
                operations: self.names(),
                resources: self.names(),
                renames: if self.c.rng.chance(1, 3) {
                    [("ex.b#Foo".to_string(), "BFoo".to_string())].into_iter().collect()
                } else {
                    BTreeMap::new()
                },
            }),
            9 => DKind::Operation(AOperation { input: self.opt(), output: self.opt(), errors: self.names() }),
            _ => {
                let mut identifiers = BTreeMap::new();
                for _ in 0..self.c.rng.below(3) {
                    let k = self.c.rng.pick(&MNAMES).to_string();
                    identifiers.insert(k, self.name());
                }
                DKind::Resource(AResource {
                    identifiers,
                    create: self.opt(),
                    put: self.opt(),
                    read: self.opt(),
                    update: self.opt(),
                    delete: self.opt(),
                    list: self.opt(),
                    operations: self.names(),
                    collection_operations: self.names(),
                    resources: self.names(),
                })
            }
        }
    }
}

pub fn gen(c: &mut Case, wild: bool) -> Prog {
    let mut g = G { c, wild };
    let mut p = Prog { ns: NS.into(), ..Default::default() };
    let nd = if g.c.rng.chance(1, 10) { 0 } else { g.c.rng.range(1, 6) };
    let mut used: BTreeSet<String> = BTreeSet::new();
    for _ in 0..nd {
        let n = match g.c.rng.below(10) {
            0..=6 => g.c.rng.pick(&NAMES).to_string(),
            7 | 8 if wild && g.c.rng.chance(1, 12) => format!("{}#{}$a", NS, g.c.rng.pick(&NAMES)),
            7 | 8 => format!("{}#{}", NS, g.c.rng.pick(&NAMES)),
            _ => format!("ex.c#{}", g.c.rng.pick(&NAMES)),
        };
        let id = if n.contains('#') { n.clone() } else { format!("{}#{}", NS, n) };
        let again = p.defs.iter().find(|d: &&Def| abs_def(NS, &d.name) == id).cloned();
        match again {
            Some(mut d) if g.c.rng.chance(3, 4) => {
                // a second definition that agrees in structure but has its own traits
                d.name = n;
                d.traits = if wild { g.tbs() } else { vec![("ex.t#second".into(), None)] };
                p.defs.push(d);
            }
            Some(_) if !wild => {}
            _ => {
                let d = Def { name: n, kind: g.kind(), traits: g.tbs() };
                p.defs.push(d);
            }
        }
        used.insert(id);
    }
    for _ in 0..g.c.rng.below(4) {
        let n = *g.c.rng.pick(&NAMES);
        let clash = used.contains(&format!("{}#{}", NS, n)) || p.uses.iter().any(|u| name_of(u) == n);
        if clash && !(wild && g.c.rng.chance(1, 3)) {
            continue;
        }
        let ns = *g.c.rng.pick(&["ex.b", "ex.b", "ex.c", NS]);
        p.uses.push(format!("{}#{}", ns, n));
    }
    if g.c.rng.chance(1, 5) {
        let t = g.tbs();
        p.refs.push(("ex.d#Ref".into(), t));
        if g.c.rng.chance(1, 4) {
            let t = g.tbs();
            p.refs.push(("ex.e#Thing".into(), t));
        }
    }
    for _ in 0..g.c.rng.below(3) {
        let (target, t) = (
            match g.c.rng.below(6) {
                0 => "smithy.api#String".to_string(),
                1 => g.name(),
                2 => format!("{}#{}", NS, g.c.rng.pick(&NAMES)),
                _ if p.defs.is_empty() => format!("{}#{}", NS, g.c.rng.pick(&NAMES)),
                _ => {
                    // a member of one of the definitions, or sometimes a member nobody has
                    let d = g.c.rng.pick(&p.defs).clone();
                    let ms: Vec<String> = match &d.kind {
                        DKind::List(_) | DKind::Set(_) => vec!["member".into()],
                        DKind::Map(..) => vec!["key".into(), "value".into()],
                        DKind::Structure(m) | DKind::Union(m) => m.iter().map(|m| m.name.clone()).collect(),
                        _ => vec![],
                    };
                    if d.name.contains('$') {
                        // not the name of a shape in the first place
                        abs_def(NS, &d.name)
                    } else if ms.is_empty() {
                        if wild {
                            format!("{}$nope", abs_def(NS, &d.name))
                        } else {
                            abs_def(NS, &d.name)
                        }
                    } else if wild && g.c.rng.chance(1, 6) {
                        format!("{}$nope", abs_def(NS, &d.name))
                    } else {
                        // by absolute ID, or by its name, or a name of something else
                        let top = match g.c.rng.below(4) {
                            0 | 1 => abs_def(NS, &d.name),
                            2 if ns_of(&abs_def(NS, &d.name)) == NS => name_of(&abs_def(NS, &d.name)).to_string(),
                            _ => abs_def(NS, &d.name),
                        };
                        format!("{}${}", top, g.c.rng.pick(&ms))
                    }
                }
            },
            if wild { g.tb() } else { (format!("ex.t#applied{}", g.c.rng.below(3)), Some(AVal::Arr(vec![AVal::Int(g.c.rng.below(5) as i64)]))) },
        );
        p.applies.push((target, t));
    }
    for _ in 0..g.c.rng.below(3) {
        let k = g.c.rng.pick(&["a", "b"]).to_string();
        let old = p.meta.iter().find(|x| x.0 == k).map(|x| x.1.clone());
        let o = GenOpts { strings: 1, ..Default::default() };
        let v = match old {
            Some(v) if !wild || g.c.rng.chance(1, 2) => v,
            _ => gen_val(&mut g.c.rng, &o, 2),
        };
        p.meta.push((k, v));
    }
    p
}

// ---- the same program through the library -----------------------------------------------------------------------
fn tb(t: &Tb, c: &mut Case) -> TraitBuilder {
    match &t.1 {
        None => TraitBuilder::new(&t.0),
        Some(AVal::Obj(o)) if o.is_empty() => TraitBuilder::annotation(&t.0),
        Some(v) if c.rng.chance(1, 2) => TraitBuilder::with_value(&t.0, to_value(v)),
        Some(v) => {
            let mut b = TraitBuilder::new(&t.0);
            match (v, to_value(v)) {
                (AVal::Bool(x), _) => b.boolean(*x),
                (AVal::Int(x), _) => b.integer(*x),
                (AVal::Float(x), _) => b.float(*x),
                (AVal::Str(x), _) => b.string(x),
                (_, Value::Array(x)) => b.array(x),
                (_, Value::Object(x)) => b.object(x),
                (_, x) => b.value(x),
            };
            b
        }
    }
}
fn with<T: ShapeTraits + for<'a> From<&'a mut T>>(mut b: T, ts: &[Tb], c: &mut Case) -> T {
    for t in ts {
        let _ = b.apply_trait(tb(t, c));
    }
    // the chained form ends in a `&mut` builder, which is converted
    if c.rng.chance(1, 2) {
        return (&mut b).into();
    }
    b
}
fn member(m: &Mem, c: &mut Case) -> MemberBuilder {
    let b = match ShapeName::from_str(&m.target) {
        Ok(t) if c.rng.chance(1, 2) => MemberBuilder::with_target(&m.name, t),
        _ => MemberBuilder::new(&m.name, &m.target),
    };
    with(b, &m.traits, c)
}
fn build(p: &Prog, c: &mut Case) -> ModelBuilder {
    let mut b = ModelBuilder::new(Version::V10, NS);
    if b.shape_name("Some_name").to_string() != format!("{}#Some_name", NS) {
        c.viol("shape_name", b.shape_name("Some_name").to_string());
    }
    // a builder program may interleave its statements in any order
    let mut steps: Vec<(u8, usize)> = vec![];
    steps.extend((0..p.uses.len()).map(|i| (0, i)));
    steps.extend((0..p.refs.len()).map(|i| (1, i)));
    steps.extend((0..p.defs.len()).map(|i| (2, i)));
    steps.extend((0..p.applies.len()).map(|i| (3, i)));
    steps.extend((0..p.meta.len()).map(|i| (4, i)));
    if c.rng.chance(2, 3) {
        // random interleaving that keeps the order within each kind of statement
        let mut kinds: Vec<u8> = steps.iter().map(|s| s.0).collect();
        c.rng.shuffle(&mut kinds);
        let mut next = [0usize; 5];
        steps = kinds
            .into_iter()
            .map(|k| {
                next[k as usize] += 1;
                (k, next[k as usize] - 1)
            })
            .collect();
    }
    for (k, i) in steps {
        match k {
            0 => {
                let _ = b.uses(&p.uses[i]);
            }
            1 => {
                let _ = b.reference(with(ReferenceBuilder::new(&p.refs[i].0), &p.refs[i].1, c));
            }
            3 => {
                let t = tb(&p.applies[i].1, c);
                let _ = b.apply(&p.applies[i].0, t);
            }
            4 => {
                let (k, v) = &p.meta[i];
                if c.rng.chance(1, 3) {
                    let _ = b.meta_data_from([(k.clone(), to_value(v))].into_iter().collect());
                } else {
                    let _ = b.meta_data(k.clone(), to_value(v));
                }
            }
            _ => {
                let d = &p.defs[i];
                let _ = match &d.kind {
                    DKind::Simple(i) => b.simple_shape(with(simple(*i, &d.name, c), &d.traits, c)),
                    DKind::List(m) => {
                        let x = list(&d.name, m, c);
                        b.list(with(x, &d.traits, c))
                    }
                    DKind::Set(m) => {
                        let x = list(&d.name, m, c);
                        b.set(with(x, &d.traits, c))
                    }
                    DKind::Map(k, v) => {
                        let mut x = MapBuilder::new(&d.name, &k.target, &v.target);
                        if !k.traits.is_empty() || c.rng.chance(1, 2) {
                            x.key(member(k, c));
                        }
                        if !v.traits.is_empty() || c.rng.chance(1, 2) {
                            x.value(member(v, c));
                        }
                        b.map(with(x, &d.traits, c))
                    }
                    DKind::Structure(ms) => {
                        let x = structure(&d.name, ms, c);
                        b.structure(with(x, &d.traits, c))
                    }
                    DKind::Union(ms) => {
                        let x = structure(&d.name, ms, c);
                        b.union(with(x, &d.traits, c))
                    }
                    DKind::Service(s) => {
                        let mut x = ServiceBuilder::new(&d.name, &s.version);
                        if c.rng.chance(1, 2) {
                            let v: Vec<&str> = s.operations.iter().map(|s| s.as_str()).collect();
                            let _ = x.operations(&v);
                            let v: Vec<&str> = s.resources.iter().map(|s| s.as_str()).collect();
                            let _ = x.resources(&v);
                        } else {
                            for o in &s.operations {
                                let _ = x.operation(o);
                            }
                            for o in &s.resources {
                                let _ = x.resource(o);
                            }
                        }
                        for (k, v) in &s.renames {
                            let _ = x.rename(k, v);
                        }
                        b.service(with(x, &d.traits, c))
                    }
                    DKind::Operation(o) => {
                        let mut x = OperationBuilder::new(&d.name);
                        if let Some(i) = &o.input {
                            let _ = x.input(i);
                        }
                        if let Some(i) = &o.output {
                            let _ = x.output(i);
                        }
                        if c.rng.chance(1, 2) {
                            let v: Vec<&str> = o.errors.iter().map(|s| s.as_str()).collect();
                            let _ = x.errors(&v);
                        } else {
                            for e in &o.errors {
                                let _ = x.error(e);
                            }
                        }
                        b.operation(with(x, &d.traits, c))
                    }
                    DKind::Resource(r) => {
                        let mut x = ResourceBuilder::new(&d.name);
                        for (k, v) in &r.identifiers {
                            let _ = x.identifier(k, v);
                        }
                        type Set = fn(&mut ResourceBuilder, &str);
                        let sets: [Set; 6] = [
                            |x, s| drop(x.create(s)),
                            |x, s| drop(x.put(s)),
                            |x, s| drop(x.read(s)),
                            |x, s| drop(x.update(s)),
                            |x, s| drop(x.delete(s)),
                            |x, s| drop(x.list(s)),
                        ];
                        for ((_, v), f) in r.lifecycle().iter().zip(sets.iter()) {
                            if let Some(v) = v {
                                f(&mut x, v);
                            }
                        }
                        if c.rng.chance(1, 2) {
                            let v: Vec<&str> = r.operations.iter().map(|s| s.as_str()).collect();
                            let _ = x.operations(&v);
                            let v: Vec<&str> = r.collection_operations.iter().map(|s| s.as_str()).collect();
                            let _ = x.collection_operations(&v);
                            let v: Vec<&str> = r.resources.iter().map(|s| s.as_str()).collect();
                            let _ = x.resources(&v);
                        } else {
                            for o in &r.operations {
                                let _ = x.operation(o);
                            }
                            for o in &r.collection_operations {
                                let _ = x.collection_operation(o);
                            }
                            for o in &r.resources {
                                let _ = x.resource(o);
                            }
                        }
                        b.resource(with(x, &d.traits, c))
                    }
                };
            }
        }
    }
    b
}
fn list(n: &str, m: &Mem, c: &mut Case) -> ListBuilder {
    let mut x = match ShapeName::from_str(&m.target) {
        Ok(t) if c.rng.chance(1, 2) => ListBuilder::with_target(n, t),
        _ => ListBuilder::new(n, &m.target),
    };
    if !m.traits.is_empty() || c.rng.chance(1, 2) {
        x.target(member(m, c));
    }
    x
}
fn structure(n: &str, ms: &[Mem], c: &mut Case) -> StructureBuilder {
    let mut x = StructureBuilder::new(n);
    for m in ms {
        if m.traits.is_empty() && c.rng.chance(1, 2) {
            let _ = x.member(&m.name, &m.target);
        } else {
            let _ = x.add_member(member(m, c));
        }
    }
    x
}
fn simple(i: usize, n: &str, c: &mut Case) -> SimpleShapeBuilder {
    let kinds = [
        Simple::Blob, Simple::Boolean, Simple::Document, Simple::String, Simple::Byte, Simple::Short, Simple::Integer, Simple::Long,
        Simple::Float, Simple::Double, Simple::BigInteger, Simple::BigDecimal, Simple::Timestamp,
    ];
    if c.rng.chance(1, 2) {
        return SimpleShapeBuilder::new(n, kinds[i].clone());
    }
    match i {
        0 => SimpleShapeBuilder::blob(n),
        1 => SimpleShapeBuilder::boolean(n),
        2 => SimpleShapeBuilder::document(n),
        3 => SimpleShapeBuilder::string(n),
        4 => SimpleShapeBuilder::byte(n),
        5 => SimpleShapeBuilder::short(n),
        6 => SimpleShapeBuilder::integer(n),
        7 => SimpleShapeBuilder::long(n),
        8 => SimpleShapeBuilder::float(n),
        9 => SimpleShapeBuilder::double(n),
        10 => SimpleShapeBuilder::big_integer(n),
        11 => SimpleShapeBuilder::big_decimal(n),
        _ => SimpleShapeBuilder::timestamp(n),
    }
}

// ---- checks -----------------------------------------------------------------------------------------------------
fn what(e: &str) -> &str {
    e.split(|ch: char| !ch.is_alphabetic()).next().unwrap_or("")
}
fn program(c: &mut Case, wild: bool) {
    let p = gen(c, wild);
    let mut e = Elab::new(&p);
    let want = e.run();
    let unresolved = !e.unresolved.is_empty();
    c.eval(!p.uses.is_empty() || !p.applies.is_empty() || p.defs.len() > 2, &format!("{:?}", p));
    match &want {
        Ok(_) => c.count("programs with a model"),
        Err(x) => {
            c.count("programs in error");
            c.seen("error classes", what(x));
        }
    }
    if unresolved {
        c.count("programs with forward references");
    }
    c.sample(|| format!("{:?} => {}", p, if want.is_ok() { "model" } else { "error" }));
    let got = match guard(|| {
        let mut b = build(&p, c);
        let first = Model::try_from(&mut b);
        let second = Model::try_from(b.clone());
        (first, second)
    }) {
        Ok((a, b)) => {
            if a.is_ok() != b.is_ok() || (a.is_ok() && from_model(a.as_ref().unwrap()).dump() != from_model(b.as_ref().unwrap()).dump()) {
                c.viol("rebuild-differs", format!("{:?}", p));
            }
            a
        }
        Err(pn) => {
            c.viol(pn.sig(), format!("builder program panicked: {} at {}\n  {:?}", pn.msg, pn.at, p));
            return;
        }
    };
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            if let Some((sig, d)) = diff(&w.dump(), &from_model(g).dump()) {
                c.viol(format!("content:{}", sig), format!("program {:?}{}", p, d));
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => c.viol("rejected", format!("valid program rejected: {}\n  {:?}", e, p)),
        (Err(w), Ok(_)) => c.viol(format!("accepted:{}", what(w)), format!("program should be an error ({}) but gave a model\n  {:?}", w, p)),
    }
}

/// The same program with its names spelled in other letters: identifiers do not depend on case.
fn respell(p: &Prog, r: &mut Rng) -> Prog {
    fn re(r: &mut Rng, s: &str) -> String {
        if r.chance(1, 2) {
            return s.to_string();
        }
        s.chars()
            .map(|c| if r.chance(1, 2) { c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect()
    }
    let known: BTreeSet<String> = p
        .uses
        .iter()
        .chain(p.refs.iter().map(|x| &x.0))
        .map(|u| name_of(u).to_string())
        .chain(p.defs.iter().filter(|d| ns_of(&abs_def(NS, &d.name)) == NS).map(|d| name_of(&d.name).to_string()))
        .collect();
    // a name that only the prelude has is looked up there as it is spelled
    let name = |r: &mut Rng, n: &mut String| {
        let top = n.split('$').next().unwrap();
        let prelude = PRELUDE_SIMPLE.contains(&top) || PRELUDE_TRAITS.contains(&top);
        if n.contains('#') || known.contains(top) || !prelude {
            *n = re(r, n);
        }
    };
    let traits = |r: &mut Rng, ts: &mut Vec<Tb>| ts.iter_mut().for_each(|t| name(r, &mut t.0));
    let mem = |r: &mut Rng, m: &mut Mem| {
        m.name = if ["member", "key", "value"].contains(&m.name.as_str()) { m.name.clone() } else { re(r, &m.name) };
        name(r, &mut m.target);
        traits(r, &mut m.traits);
    };
    let names = |r: &mut Rng, v: &mut Vec<String>| v.iter_mut().for_each(|n| name(r, n));
    let mut q = p.clone();
    q.uses.iter_mut().for_each(|u| name(r, u));
    for (u, t) in q.refs.iter_mut() {
        name(r, u);
        traits(r, t);
    }
    for (u, t) in q.applies.iter_mut() {
        name(r, u);
        name(r, &mut t.0);
    }
    for d in q.defs.iter_mut() {
        d.name = re(r, &d.name);
        traits(r, &mut d.traits);
        match &mut d.kind {
            DKind::Simple(_) => {}
            DKind::List(m) | DKind::Set(m) => mem(r, m),
            DKind::Map(k, v) => {
                mem(r, k);
                mem(r, v);
            }
            DKind::Structure(ms) | DKind::Union(ms) => ms.iter_mut().for_each(|m| mem(r, m)),
            DKind::Service(s) => {
                names(r, &mut s.operations);
                names(r, &mut s.resources);
            }
            DKind::Operation(o) => {
                for x in [&mut o.input, &mut o.output].into_iter().flatten() {
                    name(r, x);
                }
                names(r, &mut o.errors);
            }
            DKind::Resource(x) => {
                x.identifiers.values_mut().for_each(|n| name(r, n));
                for y in [&mut x.create, &mut x.put, &mut x.read, &mut x.update, &mut x.delete, &mut x.list].into_iter().flatten() {
                    name(r, y);
                }
                names(r, &mut x.operations);
                names(r, &mut x.collection_operations);
                names(r, &mut x.resources);
            }
        }
    }
    q
}
fn lower(m: &AModel) -> Vec<String> {
    let mut v: Vec<String> = m.dump().into_iter().map(|x| x.to_lowercase()).collect();
    v.sort();
    v
}
fn spellings(c: &mut Case) {
    let p = gen(c, false);
    let want = Elab::new(&p).run();
    let q = respell(&p, &mut c.rng);
    c.eval(true, &format!("{:?}", q));
    c.sample(|| format!("{:?}", q));
    let got = match guard(|| Model::try_from(build(&q, c))) {
        Ok(g) => g,
        Err(pn) => {
            c.viol(pn.sig(), format!("builder program panicked: {} at {}\n  {:?}", pn.msg, pn.at, q));
            return;
        }
    };
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            if let Some((sig, d)) = diff(&lower(w), &lower(&from_model(g))) {
                c.viol(format!("spelling-content:{}", sig), format!("program {:?}{}", q, d));
            }
        }
        (Err(_), Err(_)) => {}
        (Ok(_), Err(e)) => c.viol("spelling-rejected", format!("valid program rejected: {}\n  {:?}", e, q)),
        (Err(w), Ok(_)) => c.viol(format!("spelling-accepted:{}", what(w)), format!("program should be an error ({}) but gave a model\n  {:?}", w, q)),
    }
}
/// names as builders take them: relative or absolute
fn shape_names(c: &mut Case) {
    for _ in 0..20 {
        let ns = c.rng.pick(&["ex.a", "smithy.api", "a", "_x.y9.z"]).to_string();
        let (n, m) = (c.rng.pick(&["Foo", "String", "_q1", "member"]).to_string(), c.rng.pick(&["a", "Foo", "key"]).to_string());
        let (text, abs, mem) = match c.rng.below(3) {
            0 => (n.clone(), false, false),
            1 => (format!("{}#{}", ns, n), true, false),
            _ => (format!("{}#{}${}", ns, n, m), true, true),
        };
        c.eval(true, &text);
        let x = match ShapeName::from_str(&text) {
            Ok(x) => x,
            Err(e) => {
                c.viol("shape-name:rejected", format!("{:?}: {}", text, e));
                continue;
            }
        };
        let other = respelled(&mut c.rng, &text);
        let got = (
            x.to_string(),
            x.is_qualified(),
            x.is_local(),
            x.namespace().map(|v| v.to_string()),
            x.shape_name().to_string(),
            x.member_name().map(|v| v.to_string()),
            x.eq_local(&ident(&respelled(&mut c.rng, &n))),
            abs && x.eq_qualified(&sid(&other)),
            x.eq_qualified(&sid("qq.zz#Nope")),
            x.eq_local(&ident("Nope")),
            ShapeName::from_str(&other).map(|y| y == x).unwrap_or(false),
        );
        let want = (text.clone(), abs, !abs, if abs { Some(ns) } else { None }, n, if mem { Some(m) } else { None }, !abs, abs, false, false, true);
        if got != want {
            c.viol("shape-name:answers", format!("{:?}: {:?}, expected {:?}", text, got, want));
        }
    }
}
/// the names that resolve to the prelude
fn prelude(c: &mut Case) {
    for (what, got, want) in
        [("shapes", defined_prelude_shapes(), &PRELUDE_SIMPLE[..]), ("traits", defined_prelude_traits(), &PRELUDE_TRAITS[..])]
    {
        let (got, want): (BTreeSet<&str>, BTreeSet<&str>) = (got.iter().copied().collect(), want.iter().copied().collect());
        c.eval(true, what);
        // the prelude also has shapes of its own use, no matter which set lists them
        let own: BTreeSet<&str> = "AuthTraitReference EnumConstantBodyName EnumDefinition Example HttpApiKeyLocations NonEmptyString NonEmptyStringList NonEmptyStringMap Reference StructurallyExclusive TraitShapeId TraitShapeIdList recommended".split(' ').collect();
        let wrong: Vec<_> = got.symmetric_difference(&want).filter(|n| want.contains(*n) || !own.contains(*n)).collect();
        if !wrong.is_empty() {
            c.viol(format!("prelude:{}", what), format!("{:?}", wrong));
        }
    }
    if prelude_namespace_id().to_string() != "smithy.api" {
        c.viol("prelude:namespace", prelude_namespace_id().to_string());
    }
    for n in PRELUDE_SIMPLE.iter().chain(PRELUDE_TRAITS.iter()).copied().chain(["_x", "Any9", "", "9x", "a$b", "a#b", "a b", "a.b", "é"]) {
        c.eval(true, n);
        let ok = !n.is_empty() && n.chars().all(|x| x.is_ascii_alphanumeric() || x == '_') && !n.starts_with(|x: char| x.is_ascii_digit());
        let got = prelude_shape_named(n).map(|x| (x.to_string(), x.is_member())).ok();
        let want = if ok { Some((format!("smithy.api#{}", n), false)) } else { None };
        if got != want {
            c.viol("prelude:shape named", format!("{:?}: {:?} instead of {:?}", n, got, want));
        }
    }
}
fn respelled(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

fn obj(kv: &[(&str, AVal)]) -> AVal {
    AVal::Obj(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
fn helpers(c: &mut Case) {
    // every convenience method of the builders against the trait / member it is documented to add
    let s = |t: &str| AVal::Str(t.to_string());
    let mut text = || {
        let t = gen_string(&mut c.rng, 2);
        match c.rng.below(8) {
            0 => format!(" {}", t),
            1 => format!("{}\n", t),
            2 => format!("\t{} ", t),
            _ if t.is_empty() => "x".to_string(),
            _ => t,
        }
    };
    let (txt, t2, t3, t4) = (text(), text(), text(), text());
    let num = |r: &mut Rng| *r.pick(&[0usize, 0, 1, 2, 9, 10, 100, 255, 256, 65536, i32::MAX as usize, i64::MAX as usize]);
    let (min, max) = (num(&mut c.rng), num(&mut c.rng));
    let tags: Vec<String> = (0..c.rng.below(5)).map(|_| c.rng.pick(&[txt.as_str(), t2.as_str(), "b", "B", ""]).to_string()).collect();
    let tag_refs: Vec<&str> = tags.iter().map(|x| x.as_str()).collect();
    let some = c.rng.chance(1, 2);
    let o = |b: bool, x: &'static str, t: &String| if b { Some((x, s(t))) } else { None };
    let list: Vec<(&str, TraitBuilder, Option<AVal>)> = vec![
        ("box", bt::boxed(), Some(obj(&[]))),
        ("deprecated", bt::deprecated(Some(&txt), if some { Some(&t2) } else { None }), {
            let mut v = vec![("message", s(&txt))];
            v.extend(o(some, "since", &t2));
            Some(obj(&v))
        }),
        ("deprecated", bt::deprecated(None, None), Some(obj(&[]))),
        ("documentation", bt::documentation(&txt), Some(s(&txt))),
        ("error", bt::error_source(bt::ErrorSource::Client), Some(s("client"))),
        ("error", bt::error_source(bt::ErrorSource::Server), Some(s("server"))),
        ("externalDocumentation", bt::external_documentation(&[("a", &txt), ("b", &t2), ("c", "")]), Some(obj(&[("a", s(&txt)), ("b", s(&t2)), ("c", s(""))]))),
        ("idempotent", bt::idempotent(), Some(obj(&[]))),
        ("length", bt::length(Some(min), Some(max)), Some(obj(&[("min", AVal::Int(min as i64)), ("max", AVal::Int(max as i64))]))),
        ("length", bt::length_max(max), Some(obj(&[("max", AVal::Int(max as i64))]))),
        ("length", bt::length_min(min), Some(obj(&[("min", AVal::Int(min as i64))]))),
        ("range", bt::range(Some(min), Some(max)), Some(obj(&[("min", AVal::Int(min as i64)), ("max", AVal::Int(max as i64))]))),
        ("range", bt::range_max(max), Some(obj(&[("max", AVal::Int(max as i64))]))),
        ("range", bt::range_min(min), Some(obj(&[("min", AVal::Int(min as i64))]))),
        ("noReplace", bt::no_replace(), Some(obj(&[]))),
        (
            "paginated",
            bt::paginated(Some(&txt), if some { Some(&t2) } else { None }, Some(&t3), None),
            {
                let mut v = vec![("inputToken", s(&txt)), ("items", s(&t3))];
                v.extend(o(some, "outputToken", &t2));
                Some(obj(&v))
            },
        ),
        ("paginated", bt::paginated(None, None, None, Some(&t4)), Some(obj(&[("pageSize", s(&t4))]))),
        ("pattern", bt::pattern(&txt), Some(s(&txt))),
        ("private", bt::private(), Some(obj(&[]))),
        ("readonly", bt::readonly(), Some(obj(&[]))),
        ("references", bt::references(Value::Array(vec![])), Some(AVal::Arr(vec![]))),
        ("required", bt::required(), Some(obj(&[]))),
        ("requiresLength", bt::requires_length(), Some(obj(&[]))),
        ("sensitive", bt::sensitive(), Some(obj(&[]))),
        ("streaming", bt::streaming(), Some(obj(&[]))),
        ("since", bt::since(&txt), Some(s(&txt))),
        ("tags", bt::tagged(&tag_refs), Some(AVal::Arr(tags.iter().map(|t| s(t)).collect()))),
        ("title", bt::title(&txt), Some(s(&txt))),
        ("trait", bt::a_trait(), None),
        ("uniqueItems", bt::unique_items(), Some(obj(&[]))),
        ("unstable", bt::unstable(), None),
    ];
    let mut want = AModel::default();
    let mut b = ModelBuilder::new(Version::V10, NS);
    for (i, (n, t, v)) in list.into_iter().enumerate() {
        let name = format!("S{}", i);
        let mut x = SimpleShapeBuilder::string(&name);
        let _ = x.apply_trait(t);
        let _ = b.simple_shape(x);
        let traits: Traits = [(format!("smithy.api#{}", n), v)].into_iter().collect();
        want.shapes.insert(format!("{}#{}", NS, name), AShape { kind: AKind::Simple("string".into()), traits });
    }
    // methods of the builders
    let mut put = |b: &mut ModelBuilder, n: &str, kind: AKind, ts: Vec<(&str, Option<AVal>)>| {
        let _ = b;
        let traits: Traits = ts.into_iter().map(|(k, v)| (format!("smithy.api#{}", k), v)).collect();
        want.shapes.insert(format!("{}#{}", NS, n), AShape { kind, traits });
    };
    let e = || Some(obj(&[]));
    let mut x = SimpleShapeBuilder::blob("M0");
    let _ = x.boxed().sensitive().streaming().documentation(&txt).private().since(&txt).unstable().tagged(&tag_refs);
    let _ = x.deprecated(None, Some(&txt)).external_documentation(&[("u", &t2)]);
    let _ = b.simple_shape(x);
    put(
        &mut b,
        "M0",
        AKind::Simple("blob".into()),
        vec![
            ("box", e()), ("sensitive", e()), ("streaming", e()), ("documentation", Some(s(&txt))), ("private", e()), ("since", Some(s(&txt))),
            ("unstable", None), ("tags", Some(AVal::Arr(tags.iter().map(|t| s(t)).collect()))), ("deprecated", Some(obj(&[("since", s(&txt))]))),
            ("externalDocumentation", Some(obj(&[("u", s(&t2))]))),
        ],
    );
    let mem = |t: &str| AMember { target: format!("smithy.api#{}", t), traits: Traits::new() };
    let mut x = ListBuilder::new("M1", "String");
    let _ = x.sensitive().unique_items();
    let _ = b.set(x);
    put(&mut b, "M1", AKind::Set(mem("String")), vec![("sensitive", e()), ("uniqueItems", e())]);
    let mut x = StructureBuilder::new("M2");
    let _ = x.blob("a").boolean("b").document("c").string("d").byte("e").short("f").integer("g").long("h").float("i").double("j");
    let _ = x.big_integer("k").big_decimal("l").timestamp("m").error_source(bt::ErrorSource::Server).sensitive();
    let _ = b.structure(x);
    let all = ["Blob", "Boolean", "Document", "String", "Byte", "Short", "Integer", "Long", "Float", "Double", "BigInteger", "BigDecimal", "Timestamp"];
    let abc = "abcdefghijklm";
    let members: BTreeMap<String, AMember> = abc.chars().zip(all.iter()).map(|(c, t)| (c.to_string(), mem(t))).collect();
    put(&mut b, "M2", AKind::Structure(members.clone()), vec![("error", Some(s("server"))), ("sensitive", e())]);
    let mut x = StructureBuilder::new("M3");
    let typed = [
        MemberBuilder::blob("a"), MemberBuilder::boolean("b"), MemberBuilder::document("c"), MemberBuilder::string("d"), MemberBuilder::byte("e"),
        MemberBuilder::short("f"), MemberBuilder::integer("g"), MemberBuilder::long("h"), MemberBuilder::float("i"), MemberBuilder::double("j"),
        MemberBuilder::big_integer("k"), MemberBuilder::big_decimal("l"), MemberBuilder::timestamp("m"),
    ];
    for mut m in typed {
        let _ = m.required();
        let _ = x.add_member(m);
    }
    let _ = b.union(x);
    let mut members = members;
    for m in members.values_mut() {
        m.traits.insert("smithy.api#required".into(), e());
    }
    put(&mut b, "M3", AKind::Union(members), vec![]);
    let mut x = ServiceBuilder::new("M4", "1");
    let _ = x.version(&txt).sensitive().title(&t2).paginated(None, None, Some("i"), None);
    let _ = b.service(x);
    put(
        &mut b,
        "M4",
        AKind::Service(AService { version: txt.clone(), ..Default::default() }),
        vec![("sensitive", e()), ("title", Some(s(&t2))), ("paginated", Some(obj(&[("items", s("i"))])))],
    );
    let mut x = OperationBuilder::new("M5");
    let _ = x.idempotent().readonly().sensitive().paginated(Some("t"), None, None, None);
    let _ = b.operation(x);
    put(
        &mut b,
        "M5",
        AKind::Operation(Default::default()),
        vec![("idempotent", e()), ("readonly", e()), ("sensitive", e()), ("paginated", Some(obj(&[("inputToken", s("t"))])))],
    );
    let mut x = ResourceBuilder::new("M6");
    let _ = x.sensitive().no_replace().title(&txt);
    let _ = b.resource(x);
    put(&mut b, "M6", AKind::Resource(Default::default()), vec![("sensitive", e()), ("noReplace", e()), ("title", Some(s(&txt)))]);
    // values
    let o = GenOpts { strings: 2, ..Default::default() };
    let v = gen_val(&mut c.rng, &o, 3);
    fn value(v: &AVal) -> Value {
        match v {
            AVal::Arr(a) => {
                let mut b: ArrayBuilder = ValueBuilder::array();
                for x in a {
                    let _ = match x {
                        AVal::Bool(x) => b.boolean(*x),
                        AVal::Int(x) => b.integer(*x),
                        AVal::Float(x) => b.float(*x),
                        AVal::Str(x) => b.string(x),
                        x => b.push(value(x)),
                    };
                }
                b.into()
            }
            AVal::Obj(a) => {
                let mut b: ObjectBuilder = ValueBuilder::object();
                for (k, x) in a {
                    let _ = match x {
                        AVal::Bool(x) => b.boolean(k, *x),
                        AVal::Int(x) => b.integer(k, *x),
                        AVal::Float(x) => b.float(k, *x),
                        AVal::Str(x) if x.len() % 2 == 0 => b.string(k, x),
                        AVal::Str(x) => b.reference(k, x),
                        x => b.insert(k, value(x)),
                    };
                }
                (&mut b).into()
            }
            AVal::Bool(x) => ValueBuilder::boolean(*x).into(),
            AVal::Int(x) => ValueBuilder::integer(*x).into(),
            AVal::Float(x) => ValueBuilder::float(*x).into(),
            AVal::Str(x) => ValueBuilder::string(x).into(),
            AVal::Null => Value::None,
        }
    }
    let _ = b.meta_data("v".into(), value(&v));
    want.metadata.insert("v".into(), v.clone());
    c.eval(true, &format!("{} {:?}", txt, v));
    match guard(|| Model::try_from(b)) {
        Err(p) => c.viol(p.sig(), format!("{} at {}", p.msg, p.at)),
        Ok(Err(e)) => c.viol("helpers:rejected", e.to_string()),
        Ok(Ok(m)) => {
            if let Some((sig, d)) = diff(&want.dump(), &from_model(&m).dump()) {
                c.viol(format!("helpers:{}", sig), d);
            }
        }
    }
    c.sample(|| format!("all builder helpers with text {:?}, value {}", txt, v.dump()));
}

/// Histories of setters: the last value stays, lists grow, whatever the mix of single and list setters.
fn histories(c: &mut Case) {
    fn nm(c: &mut Case) -> String {
        format!("{}#{}", c.rng.pick(&["ex.a", "ex.b", "ex.c"]), c.rng.pick(&["Foo", "Bar", "Baz", "Qux"]))
    }
    fn nms(c: &mut Case) -> Vec<String> {
        (0..c.rng.below(4)).map(|_| nm(c)).collect()
    }
    fn refs(v: &[String]) -> Vec<&str> {
        v.iter().map(|s| s.as_str()).collect()
    }
    let tr = |c: &mut Case, n: &str| TraitBuilder::with_value(n, Value::from(c.rng.below(9) as i64));
    let mut h: Vec<String> = vec![];
    let mut b = ModelBuilder::new(Version::V10, "ex.z");
    let mut want = AModel::default();
    let steps = c.rng.range(2, 14);
    // a service
    let mut x = ServiceBuilder::new("Svc", "0");
    let mut m = AService { version: "0".into(), ..Default::default() };
    for _ in 0..steps {
        match c.rng.below(6) {
            0 => {
                let v = c.rng.pick(&["1", " 2 ", "2020-01-01", "é", "0\n"]).to_string();
                h.push(format!("version {:?}", v));
                let _ = x.version(&v);
                m.version = v;
            }
            1 => {
                let v = nm(c);
                h.push(format!("operation {}", v));
                let _ = x.operation(&v);
                m.operations.push(v);
            }
            2 => {
                let v = nms(c);
                h.push(format!("operations {:?}", v));
                let _ = x.operations(&refs(&v));
                m.operations.extend(v);
            }
            3 => {
                let v = nm(c);
                h.push(format!("resource {}", v));
                let _ = x.resource(&v);
                m.resources.push(v);
            }
            4 => {
                let v = nms(c);
                h.push(format!("resources {:?}", v));
                let _ = x.resources(&refs(&v));
                m.resources.extend(v);
            }
            _ => {
                let (k, v) = (nm(c), c.rng.pick(&["One", "Two", "Three"]).to_string());
                h.push(format!("rename {} {}", k, v));
                let _ = x.rename(&k, &v);
                m.renames.insert(k, v);
            }
        }
    }
    let _ = b.service(x);
    want.shapes.insert("ex.z#Svc".into(), AShape { kind: AKind::Service(m), traits: Default::default() });
    // an operation
    let mut x = OperationBuilder::new("Op");
    let mut m = AOperation { input: None, output: None, errors: vec![] };
    for _ in 0..steps {
        let v = nm(c);
        match c.rng.below(4) {
            0 => {
                h.push(format!("input {}", v));
                let _ = x.input(&v);
                m.input = Some(v);
            }
            1 => {
                h.push(format!("output {}", v));
                let _ = x.output(&v);
                m.output = Some(v);
            }
            2 => {
                h.push(format!("error {}", v));
                let _ = x.error(&v);
                m.errors.push(v);
            }
            _ => {
                let v = nms(c);
                h.push(format!("errors {:?}", v));
                let _ = x.errors(&refs(&v));
                m.errors.extend(v);
            }
        }
    }
    let _ = b.operation(x);
    want.shapes.insert("ex.z#Op".into(), AShape { kind: AKind::Operation(m), traits: Default::default() });
    // a resource
    let mut x = ResourceBuilder::new("Res");
    let mut m = AResource::default();
    for _ in 0..steps * 2 {
        let (v, l) = (nm(c), nms(c));
        let k = c.rng.below(13);
        h.push(format!("resource setter {} {} {:?}", k, v, l));
        let _ = match k {
            0 => {
                m.create = Some(v.clone());
                x.create(&v)
            }
            1 => {
                m.put = Some(v.clone());
                x.put(&v)
            }
            2 => {
                m.read = Some(v.clone());
                x.read(&v)
            }
            3 => {
                m.update = Some(v.clone());
                x.update(&v)
            }
            4 => {
                m.delete = Some(v.clone());
                x.delete(&v)
            }
            5 => {
                m.list = Some(v.clone());
                x.list(&v)
            }
            6 => {
                m.operations.push(v.clone());
                x.operation(&v)
            }
            7 => {
                m.operations.extend(l.clone());
                x.operations(&refs(&l))
            }
            8 => {
                m.collection_operations.push(v.clone());
                x.collection_operation(&v)
            }
            9 => {
                m.collection_operations.extend(l.clone());
                x.collection_operations(&refs(&l))
            }
            10 => {
                m.resources.push(v.clone());
                x.resource(&v)
            }
            11 => {
                m.resources.extend(l.clone());
                x.resources(&refs(&l))
            }
            _ => {
                let k = *c.rng.pick(&MNAMES);
                m.identifiers.insert(k.into(), v.clone());
                x.identifier(k, &v)
            }
        };
    }
    let _ = b.resource(x);
    want.shapes.insert("ex.z#Res".into(), AShape { kind: AKind::Resource(m), traits: Default::default() });
    // the members of lists and maps
    let mut mem = |c: &mut Case, n: &str| {
        let (t, k) = (nm(c), c.rng.below(9) as i64);
        let mut x = MemberBuilder::new(n, &t);
        let _ = x.apply_trait(TraitBuilder::with_value("ex.t#m", Value::from(k)));
        (x, AMember { target: t, traits: [("ex.t#m".to_string(), Some(AVal::Int(k)))].into_iter().collect() })
    };
    let t = nm(c);
    let mut x = ListBuilder::new("Lst", &t);
    let mut m = AMember { target: t, traits: Default::default() };
    let t = nm(c);
    let mut y = MapBuilder::new("Mp", "ex.k#K", &t);
    let (mut mk, mut mv) = (AMember { target: "ex.k#K".into(), traits: Default::default() }, AMember { target: t, traits: Default::default() });
    for _ in 0..c.rng.below(3) {
        let (p, q) = mem(c, "member");
        x.target(p);
        m = q;
        let (p, q) = mem(c, "key");
        if c.rng.chance(1, 2) {
            y.key(p);
            mk = q;
        }
        let (p, q) = mem(c, "value");
        if c.rng.chance(1, 2) {
            y.value(p);
            mv = q;
        }
    }
    h.push(format!("list {:?} map {:?} {:?}", m, mk, mv));
    let _ = b.list(x).map(y);
    want.shapes.insert("ex.z#Lst".into(), AShape { kind: AKind::List(m), traits: Default::default() });
    want.shapes.insert("ex.z#Mp".into(), AShape { kind: AKind::Map(mk, mv), traits: Default::default() });
    // the value of a trait
    let mut x = tr(c, "ex.t#v");
    let mut v = AVal::Null;
    let o = GenOpts { strings: 2, ..Default::default() };
    for _ in 0..c.rng.range(1, 5) {
        v = gen_val(&mut c.rng, &o, 2);
        let _ = match (&v, to_value(&v)) {
            (_, y) if c.rng.chance(1, 6) => x.value(y),
            (AVal::Bool(y), _) => x.boolean(*y),
            (AVal::Int(y), _) if c.rng.chance(1, 2) => x.integer(*y),
            (AVal::Float(y), _) if c.rng.chance(1, 2) => x.float(*y),
            (AVal::Str(y), _) => x.string(y),
            (_, Value::Number(y)) => x.number(y),
            (_, Value::Array(y)) => x.array(y),
            (_, Value::Object(y)) => x.object(y),
            (_, y) => x.value(y),
        };
        h.push(format!("value {}", v.dump()));
    }
    let y = nm(c);
    let _ = b.reference({
        let mut r = ReferenceBuilder::new("ex.z#Ref");
        let _ = r.apply_trait(x).apply_trait({
            let mut t = TraitBuilder::new("ex.t#ref");
            let _ = t.reference(sid(&y));
            t
        });
        r
    });
    want.shapes.insert(
        "ex.z#Ref".into(),
        AShape { kind: AKind::Unresolved, traits: [("ex.t#v".to_string(), Some(v)), ("ex.t#ref".to_string(), Some(AVal::Str(y)))].into_iter().collect() },
    );
    c.eval(true, &h.join(";"));
    c.add("setters called", h.len() as u64);
    c.sample(|| h.join("; "));
    match guard(|| Model::try_from(b)) {
        Err(p) => c.viol(p.sig(), format!("{} at {}\n  {}", p.msg, p.at, h.join("; "))),
        Ok(Err(e)) => c.viol("histories:rejected", format!("{}\n  {}", e, h.join("; "))),
        Ok(Ok(m)) => {
            if let Some((sig, d)) = diff(&want.dump(), &from_model(&m).dump()) {
                c.viol(format!("histories:{}", sig), format!("{}{}", h.join("; "), d));
            }
        }
    }
}

/// Values from every type that converts into one, and from builders that are used again.
fn values(c: &mut Case) {
    let n = c.rng.next() as i64;
    let f = gen_float(&mut c.rng);
    let small = c.rng.chance(1, 2);
    let n = if small { c.rng.below(512) as i64 - 256 } else { n };
    let f = if small { (f as i32 % 1000) as f64 / 8.0 } else { f };
    c.eval(true, &format!("{} {:?}", n, f));
    let s = gen_string(&mut c.rng, 2);
    let list = [
        ("i8", Value::from(n as i8), AVal::Int(n as i8 as i64)),
        ("i16", Value::from(n as i16), AVal::Int(n as i16 as i64)),
        ("i32", Value::from(n as i32), AVal::Int(n as i32 as i64)),
        ("i64", Value::from(n), AVal::Int(n)),
        ("f32", Value::from(f as f32), AVal::Float(f as f32 as f64)),
        ("f64", Value::from(f), AVal::Float(f)),
        ("i8 number", Value::from(Number::from(n as i8)), AVal::Int(n as i8 as i64)),
        ("i16 number", Value::from(Number::from(n as i16)), AVal::Int(n as i16 as i64)),
        ("i32 number", Value::from(Number::from(n as i32)), AVal::Int(n as i32 as i64)),
        ("i64 number", Value::from(Number::from(n)), AVal::Int(n)),
        ("f32 number", Value::from(Number::from(f as f32)), AVal::Float(f as f32 as f64)),
        ("f64 number", Value::from(Number::from(f)), AVal::Float(f)),
        ("number builder", ValueBuilder::number(n.into()).into(), AVal::Int(n)),
        ("integer builder", (&mut ValueBuilder::integer(n)).into(), AVal::Int(n)),
        ("float builder", ValueBuilder::float(f).into(), AVal::Float(f)),
        ("bool", Value::from(n % 2 == 0), AVal::Bool(n % 2 == 0)),
        ("str", Value::from(s.as_str()), AVal::Str(s.clone())),
        ("String", Value::from(s.clone()), AVal::Str(s.clone())),
        ("shape ID", Value::from(sid("ex.a#Foo$bar")), AVal::Str("ex.a#Foo$bar".into())),
        ("shape ID reference", Value::from(&sid("ex.a#Foo")), AVal::Str("ex.a#Foo".into())),
    ];
    for (what, got, want) in list {
        if from_value(&got) != want && !(f.is_nan() && what.starts_with('f')) {
            c.viol(format!("value-from:{}", what), format!("{:?} from {} {:?} {:?}", got, n, f, s));
        }
    }
    let o = GenOpts { strings: 2, ..Default::default() };
    let vs: Vec<AVal> = (0..c.rng.below(4)).map(|_| gen_val(&mut c.rng, &o, 2)).collect();
    let real: Vec<Value> = vs.iter().map(to_value).collect();
    let arr = AVal::Arr(vs.clone());
    for (what, got) in [("vector", Value::from(real.clone())), ("slice", Value::from(&real[..]))] {
        if from_value(&got) != arr {
            c.viol(format!("value-from:{}", what), format!("{:?} from {}", got, arr.dump()));
        }
    }
    let (mut ab, mut ob) = (ValueBuilder::array(), ValueBuilder::object());
    let mut want_o: BTreeMap<String, AVal> = Default::default();
    let mut want_a: Vec<AVal> = vec![];
    for v in &vs {
        let k = *c.rng.pick(&["a", "b", "c"]);
        match v {
            AVal::Int(n) => {
                let _ = ab.number((*n).into());
                let _ = ob.number(k, (*n).into());
            }
            AVal::Bool(n) => {
                let _ = ab.boolean(*n);
                let _ = ob.boolean(k, *n);
            }
            _ => {
                let _ = ab.push(to_value(v));
                let _ = ob.insert(k, to_value(v));
            }
        }
        want_a.push(v.clone());
        want_o.insert(k.into(), v.clone());
        // the builder stays usable after it has given a value
        let (x, y): (Value, Value) = ((&mut ab).into(), (&mut ob).into());
        if from_value(&x) != AVal::Arr(want_a.clone()) {
            c.viol("value-builder:array", format!("{:?} instead of {:?}", x, want_a));
        }
        if from_value(&y) != AVal::Obj(want_o.clone()) {
            c.viol("value-builder:object", format!("{:?} instead of {:?}", y, want_o));
        }
    }
    for v in &vs {
        let x = to_value(v);
        let got = (x.is_array(), x.is_object(), x.is_number(), x.is_boolean(), x.is_string(), x.is_none());
        let some = (x.as_array().is_some(), x.as_object().is_some(), x.as_number().is_some(), x.as_boolean().is_some(), x.as_string().is_some(), x.is_none());
        let want = (
            matches!(v, AVal::Arr(_)),
            matches!(v, AVal::Obj(_)),
            matches!(v, AVal::Int(_) | AVal::Float(_)),
            matches!(v, AVal::Bool(_)),
            matches!(v, AVal::Str(_)),
            matches!(v, AVal::Null),
        );
        if got != want || some != want {
            c.viol("value-views", format!("{:?}: {:?} {:?}", x, got, some));
        }
    }
    for (t, ok) in [("client", true), ("server", true), ("Client", false), ("", false), ("both", false), ("server ", false)] {
        let got = bt::ErrorSource::from_str(t).map(|x| x.to_string()).ok();
        if got != if ok { Some(t.to_string()) } else { None } {
            c.viol("error-source", format!("{:?}: {:?}", t, got));
        }
    }
    let v = gen_val(&mut c.rng, &o, 1);
    // a value that is no array is refused
    let refused = std::panic::catch_unwind(|| bt::references(to_value(&v))).is_err();
    if refused == matches!(v, AVal::Arr(_)) {
        c.viol("references", format!("refused: {} for {}", refused, v.dump()));
    }
    c.sample(|| format!("{} {:?} {}", n, f, arr.dump()));
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Builder programs (definitions by relative and absolute name, imports, references, apply, metadata, repeated definitions) in a random statement order; the resulting model or error is compared with a reference elaborator. Non-trivial when the program has imports, applied traits or more than two definitions. Further groups call every convenience method, histories of setters (the last value stays, lists grow) and every conversion into a value.");
    ctx.assume("Programs whose builder calls are documented to panic (malformed names, empty service version) are not generated.");
    ctx.cases("well-formed programs", 6000, 0.45, |c| program(c, false));
    ctx.cases("programs with conflicts", 6000, 0.45, |c| program(c, true));
    ctx.cases("other spellings", 3000, 0.2, spellings);
    ctx.bounded("prelude names", 1, prelude);
    ctx.cases("shape names", 100, 0.02, shape_names);
    ctx.cases("convenience methods", 150, 0.1, helpers);
    ctx.cases("setter histories", 400, 0.1, histories);
    ctx.cases("values", 400, 0.1, values);
}
