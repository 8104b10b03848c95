//! C03: histories of mutators on models, shapes and shape bodies against plain maps, lists and optionals.
use crate::am::*;
use crate::fw::{Case, Ctx};
use crate::rng::Rng;
use atelier_core::model::shapes::{
    HasTraits, ListOrSet, Map, MemberShape, NonTraitEq, Operation, Resource, Service, ShapeKind, Simple, StructureOrUnion, TopLevelShape,
};
use atelier_core::model::{HasIdentity, Model};
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet, HashMap};

const IDS: [&str; 17] = [
    "ex.a#Foo", "ex.a#Bar", "ex.a#Baz", "ex.b#Foo", "ex.b#Bar", "ex.b.c#Foo", "smithy.api#String", "z#Z", "z#Y", "ex#a",
    "ex.a#Unres", "ex.a#Foo2", "ex.a#GetCityInput", "ex.a#GetCityOutput", "smithy.apis#String", "smithy.api.more#Unit", "smithy#String",
];
const NAMES: [&str; 9] = ["foo", "bar", "baz", "_id", "key", "value", "member", "x1", "create"];
/// The same identifier in other letters: identifiers are compared without regard to ASCII case.
fn recase(r: &mut Rng, s: &str) -> String {
    if r.chance(2, 3) {
        return s.to_string();
    }
    let all = r.chance(1, 3);
    s.chars()
        .map(|c| if all || r.chance(1, 3) { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c })
        .collect()
}
fn id(r: &mut Rng) -> Id {
    r.pick(&IDS).to_string()
}
fn name(r: &mut Rng) -> String {
    r.pick(&NAMES).to_string()
}
fn small(r: &mut Rng) -> AVal {
    match r.below(5) {
        0 => AVal::Null,
        1 => AVal::Int(r.below(3) as i64),
        2 => AVal::Str(r.pick(&["a", "b"]).to_string()),
        3 => AVal::Arr((0..r.below(3)).map(|i| AVal::Int(i as i64)).collect()),
        _ => AVal::Obj(Default::default()),
    }
}
fn any_kind(r: &mut Rng) -> AKind {
    let m = || AMember { target: "smithy.api#String".into(), traits: Default::default() };
    match r.below(10) {
        0 => AKind::Operation(Default::default()),
        1 => AKind::Unresolved,
        2 => AKind::Resource(Default::default()),
        3 => AKind::Structure(Default::default()),
        4 => AKind::Union(Default::default()),
        5 => AKind::List(m()),
        6 => AKind::Set(m()),
        7 => AKind::Map(m(), m()),
        8 => AKind::Simple(r.pick(&SIMPLE).to_string()),
        _ => AKind::Service(AService { version: "1".into(), ..Default::default() }),
    }
}

fn chk<T: PartialEq + std::fmt::Debug>(c: &mut Case, what: &str, got: T, want: T, hist: &[String]) {
    if got != want {
        let h = hist[hist.len().saturating_sub(12)..].join("; ");
        c.viol(what.to_string(), format!("{}: answered {:?}, contents say {:?}\n  history: {}", what, got, want, h));
    }
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
/// one evaluation after each operation, keyed by the whole history
fn eval(c: &mut Case, hist: &[String]) {
    c.count("states queried");
    c.eval(hist.len() > 1, &hist.join(";"));
}

macro_rules! opt_op {
    ($c:ident, $h:ident, $obj:ident, $m:ident, $what:expr, $has:ident, $get:ident, $set:ident, $unset:ident) => {{
        if $c.rng.chance(2, 3) {
            let v = id(&mut $c.rng);
            $h.push(format!("{}.{}({})", $what, stringify!($set), v));
            $obj.$set(sid(&v));
            $m.$get = Some(v);
        } else {
            $h.push(format!("{}.{}()", $what, stringify!($unset)));
            $obj.$unset();
            $m.$get = None;
        }
    }};
}
macro_rules! opt_chk {
    ($c:ident, $h:ident, $obj:ident, $m:ident, $what:expr, $has:ident, $get:ident) => {{
        chk($c, concat!($what, ".", stringify!($has)), $obj.$has(), $m.$get.is_some(), &$h);
        chk($c, concat!($what, ".", stringify!($get)), $obj.$get().as_ref().map(|x| x.to_string()), $m.$get.clone(), &$h);
    }};
}
macro_rules! arr_op {
    ($c:ident, $h:ident, $obj:ident, $f:expr, $what:expr, $set:ident, $add:ident, $append:ident, $remove:ident) => {{
        let v = id(&mut $c.rng);
        match $c.rng.below(6) {
            0 => {
                let vs: Vec<Id> = (0..$c.rng.below(4)).map(|_| id(&mut $c.rng)).collect();
                $h.push(format!("{}.{}({:?})", $what, stringify!($set), vs));
                $obj.$set(&vs.iter().map(|x| sid(x)).collect::<Vec<_>>());
                $f = vs;
            }
            1 => {
                let vs: Vec<Id> = (0..$c.rng.below(3)).map(|_| id(&mut $c.rng)).collect();
                $h.push(format!("{}.{}({:?})", $what, stringify!($append), vs));
                $obj.$append(&vs.iter().map(|x| sid(x)).collect::<Vec<_>>());
                $f.extend(vs);
            }
            2 => {
                $h.push(format!("{}.{}({})", $what, stringify!($remove), v));
                $obj.$remove(&sid(&recase(&mut $c.rng, &v)));
                $f.retain(|x| *x != v);
            }
            _ => {
                $h.push(format!("{}.{}({})", $what, stringify!($add), v));
                $obj.$add(sid(&v));
                $f.push(v);
            }
        }
    }};
}
macro_rules! arr_chk {
    ($c:ident, $h:ident, $obj:ident, $f:expr, $what:expr, $has:ident, $get:ident) => {{
        chk($c, concat!($what, ".", stringify!($has)), $obj.$has(), !$f.is_empty(), &$h);
        chk($c, concat!($what, ".", stringify!($get)), $obj.$get().map(|x| x.to_string()).collect::<Vec<_>>(), $f.clone(), &$h);
    }};
}

fn service(c: &mut Case) {
    let mut s = Service::new("1");
    let mut m = AService { version: "1".into(), ..Default::default() };
    let mut h: Vec<String> = vec![];
    for _ in 0..c.rng.range(3, 25) {
        match c.rng.below(5) {
            0 => {
                let v = format!("v{}", c.rng.below(4));
                h.push(format!("service.set_version({})", v));
                s.set_version(&v);
                m.version = v;
            }
            1 => arr_op!(c, h, s, m.operations, "service", set_operations, add_operation, append_operations, remove_operation),
            2 => arr_op!(c, h, s, m.resources, "service", set_resources, add_resource, append_resources, remove_resource),
            3 => {
                let (k, v) = (id(&mut c.rng), name(&mut c.rng));
                if c.rng.chance(2, 3) {
                    h.push(format!("service.insert_rename_shape({},{})", k, v));
                    let r = s.insert_rename_shape(sid(&k), ident(&v)).map(|x| x.to_string());
                    let w = m.renames.insert(k, v);
                    chk(c, "service.insert_rename_shape result", r, w, &h);
                } else if c.rng.chance(1, 4) {
                    h.push(format!("service.set_renames({{{}:{}}})", k, v));
                    s.set_renames(HashMap::from([(sid(&k), ident(&v))]));
                    m.renames = BTreeMap::from([(k, v)]);
                } else {
                    h.push(format!("service.remove_rename_shape({})", k));
                    let r = s.remove_rename_shape(&sid(&recase(&mut c.rng, &k))).map(|x| x.to_string());
                    let w = m.renames.remove(&k);
                    chk(c, "service.remove_rename_shape result", r, w, &h);
                }
            }
            _ => {
                let v = id(&mut c.rng);
                let (k, op, res) = match c.rng.below(3) {
                    0 => (AKind::Operation(Default::default()), true, false),
                    1 => (AKind::Resource(Default::default()), false, true),
                    _ => {
                        let k = any_kind(&mut c.rng);
                        let (op, res) = (matches!(k, AKind::Operation(_)), matches!(k, AKind::Resource(_)));
                        (k, op, res)
                    }
                };
                let t = TopLevelShape::new(sid(&v), to_kind(&k));
                h.push(format!("service.add_operation_shape/add_resource_shape({} {})", k.type_name(), v));
                s.add_operation_shape(&t);
                s.add_resource_shape(&t);
                if op {
                    m.operations.push(v.clone());
                }
                if res {
                    m.resources.push(v);
                }
            }
        }
        eval(c, &h);
        chk(c, "service.version", s.version().clone(), m.version.clone(), &h);
        arr_chk!(c, h, s, m.operations, "service", has_operations, operations);
        arr_chk!(c, h, s, m.resources, "service", has_resources, resources);
        chk(c, "service.has_renames", s.has_renames(), !m.renames.is_empty(), &h);
        let got: BTreeMap<Id, String> = s.renames().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        chk(c, "service.renames", got, m.renames.clone(), &h);
        for k in IDS {
            let q = recase(&mut c.rng, k);
            chk(c, "service.has_rename_shape", s.has_rename_shape(&sid(&q)), m.renames.contains_key(k), &h);
            chk(c, "service.contains_rename_shape", s.contains_rename_shape(&sid(&q)).map(|x| x.to_string()), m.renames.get(k).cloned(), &h);
        }
    }
    c.sample(|| h.join("; "));
}

fn operation(c: &mut Case) {
    let mut s = Operation::default();
    let mut m = AOperation::default();
    let mut h: Vec<String> = vec![];
    for _ in 0..c.rng.range(3, 25) {
        match c.rng.below(4) {
            0 => opt_op!(c, h, s, m, "operation", has_input, input, set_input, unset_input),
            1 => opt_op!(c, h, s, m, "operation", has_output, output, set_output, unset_output),
            2 => arr_op!(c, h, s, m.errors, "operation", set_errors, add_error, append_errors, remove_error),
            _ => {
                let v = id(&mut c.rng);
                let k = any_kind(&mut c.rng);
                let t = TopLevelShape::new(sid(&v), to_kind(&k));
                let ok = !matches!(k, AKind::Operation(_) | AKind::Unresolved | AKind::Resource(_) | AKind::Service(_));
                h.push(format!("operation.*_shape({} {})", k.type_name(), v));
                match c.rng.below(3) {
                    0 => {
                        s.set_input_shape(&t);
                        if ok {
                            m.input = Some(v)
                        }
                    }
                    1 => {
                        s.set_output_shape(&t);
                        if ok {
                            m.output = Some(v)
                        }
                    }
                    _ => {
                        s.add_error_shape(&t);
                        if ok {
                            m.errors.push(v)
                        }
                    }
                }
            }
        }
        eval(c, &h);
        opt_chk!(c, h, s, m, "operation", has_input, input);
        opt_chk!(c, h, s, m, "operation", has_output, output);
        arr_chk!(c, h, s, m.errors, "operation", has_errors, errors);
    }
    c.sample(|| h.join("; "));
}

fn resource(c: &mut Case) {
    let mut s = Resource::default();
    let mut m = AResource::default();
    let mut h: Vec<String> = vec![];
    for _ in 0..c.rng.range(3, 30) {
        match c.rng.below(11) {
            0 => opt_op!(c, h, s, m, "resource", has_create, create, set_create, unset_create),
            1 => opt_op!(c, h, s, m, "resource", has_put, put, set_put, unset_put),
            2 => opt_op!(c, h, s, m, "resource", has_read, read, set_read, unset_read),
            3 => opt_op!(c, h, s, m, "resource", has_update, update, set_update, unset_update),
            4 => opt_op!(c, h, s, m, "resource", has_delete, delete, set_delete, unset_delete),
            5 => opt_op!(c, h, s, m, "resource", has_list, list, set_list, unset_list),
            6 => arr_op!(c, h, s, m.operations, "resource", set_operations, add_operation, append_operations, remove_operation),
            7 => arr_op!(c, h, s, m.collection_operations, "resource", set_collection_operations, add_collection_operation, append_collection_operations, remove_collection_operation),
            8 => arr_op!(c, h, s, m.resources, "resource", set_resources, add_resource, append_resources, remove_resource),
            9 => {
                let (k, v) = (name(&mut c.rng), id(&mut c.rng));
                match c.rng.below(5) {
                    0 => {
                        h.push(format!("resource.set_identifiers({{{}:{}}})", k, v));
                        s.set_identifiers(HashMap::from([(ident(&k), sid(&v))]));
                        m.identifiers = BTreeMap::from([(k, v)]);
                    }
                    1 => {
                        h.push(format!("resource.remove_identifier({})", k));
                        let r = s.remove_identifier(&ident(&recase(&mut c.rng, &k))).map(|x| x.to_string());
                        let w = m.identifiers.remove(&k);
                        chk(c, "resource.remove_identifier result", r, w, &h);
                    }
                    _ => {
                        h.push(format!("resource.add_identifier({},{})", k, v));
                        let r = s.add_identifier(ident(&k), sid(&v)).map(|x| x.to_string());
                        let w = m.identifiers.insert(k, v);
                        chk(c, "resource.add_identifier result", r, w, &h);
                    }
                }
            }
            _ => {
                let v = id(&mut c.rng);
                let k = if c.rng.chance(1, 2) { AKind::Operation(Default::default()) } else { any_kind(&mut c.rng) };
                let t = TopLevelShape::new(sid(&v), to_kind(&k));
                let op = matches!(k, AKind::Operation(_));
                let which = c.rng.below(9);
                h.push(format!("resource.*_shape#{}({} {})", which, k.type_name(), v));
                match which {
                    0 => s.set_create_operation_shape(&t),
                    1 => s.set_put_operation_shape(&t),
                    2 => s.set_read_operation_shape(&t),
                    3 => s.set_update_operation_shape(&t),
                    4 => s.set_delete_operation_shape(&t),
                    5 => s.set_list_operation_shape(&t),
                    6 => s.add_operation_shape(&t),
                    7 => s.add_collection_operation_shape(&t),
                    _ => s.add_resource_shape(&t),
                }
                if which == 8 {
                    if matches!(k, AKind::Resource(_)) {
                        m.resources.push(v);
                    }
                } else if op {
                    match which {
                        0 => m.create = Some(v),
                        1 => m.put = Some(v),
                        2 => m.read = Some(v),
                        3 => m.update = Some(v),
                        4 => m.delete = Some(v),
                        5 => m.list = Some(v),
                        6 => m.operations.push(v),
                        _ => m.collection_operations.push(v),
                    }
                }
            }
        }
        eval(c, &h);
        opt_chk!(c, h, s, m, "resource", has_create, create);
        opt_chk!(c, h, s, m, "resource", has_put, put);
        opt_chk!(c, h, s, m, "resource", has_read, read);
        opt_chk!(c, h, s, m, "resource", has_update, update);
        opt_chk!(c, h, s, m, "resource", has_delete, delete);
        opt_chk!(c, h, s, m, "resource", has_list, list);
        arr_chk!(c, h, s, m.operations, "resource", has_operations, operations);
        arr_chk!(c, h, s, m.collection_operations, "resource", has_collection_operations, collection_operations);
        arr_chk!(c, h, s, m.resources, "resource", has_resources, resources);
        chk(c, "resource.has_any_resource_operation", s.has_any_resource_operation(), m.lifecycle().iter().any(|x| x.1.is_some()), &h);
        chk(c, "resource.has_identifiers", s.has_identifiers(), !m.identifiers.is_empty(), &h);
        let got: BTreeMap<String, Id> = s.identifiers().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        chk(c, "resource.identifiers", got, m.identifiers.clone(), &h);
        for k in NAMES {
            let q = recase(&mut c.rng, k);
            chk(c, "resource.has_identifier", s.has_identifier(&ident(&q)), m.identifiers.contains_key(k), &h);
            chk(c, "resource.identifier", s.identifier(&ident(&q)).map(|x| x.to_string()), m.identifiers.get(k).cloned(), &h);
        }
    }
    c.sample(|| h.join("; "));
}

fn members(c: &mut Case) {
    let mut m: BTreeMap<String, AMember> = Default::default();
    let o = GenOpts { strings: 0, ..Default::default() };
    let mut h: Vec<String> = vec![];
    let mut s = if c.rng.chance(1, 3) {
        let mut v = vec![];
        for _ in 0..c.rng.below(5) {
            let (k, t) = (name(&mut c.rng), id(&mut c.rng));
            let a = AMember { target: t, traits: gen_traits(&mut c.rng, &o, 2) };
            v.push(to_member(&k, &a));
            m.insert(k, a);
        }
        h.push(format!("with_members({:?})", m.keys().collect::<Vec<_>>()));
        StructureOrUnion::with_members(&v)
    } else {
        StructureOrUnion::new()
    };
    for _ in 0..c.rng.range(3, 20) {
        let (k, t) = (name(&mut c.rng), id(&mut c.rng));
        match c.rng.below(4) {
            0 => {
                h.push(format!("members.remove_member({})", k));
                let r = s.remove_member(&ident(&recase(&mut c.rng, &k))).map(|x| from_member(&x));
                let w = m.remove(&k);
                chk(c, "members.remove_member result", r, w, &h);
            }
            1 => {
                h.push(format!("members.add_member({},{})", k, t));
                s.add_member(ident(&k), sid(&t));
                m.insert(k, AMember { target: t, traits: Default::default() });
            }
            _ => {
                let a = AMember { target: t.clone(), traits: gen_traits(&mut c.rng, &o, 2) };
                h.push(format!("members.add_a_member({},{} +{} traits)", k, t, a.traits.len()));
                let r = s.add_a_member(to_member(&k, &a)).map(|x| from_member(&x));
                let w = m.insert(k, a);
                chk(c, "members.add_a_member result", r, w, &h);
            }
        }
        eval(c, &h);
        chk(c, "members.has_members", s.has_members(), !m.is_empty(), &h);
        let got: BTreeMap<String, AMember> = s.members().map(|x| (x.id().to_string(), from_member(x))).collect();
        chk(c, "members.members", got, m.clone(), &h);
        chk(c, "members.members count", s.members().count(), m.len(), &h);
        let top = TopLevelShape::new(
            sid("ex.a#Foo"),
            if c.rng.chance(1, 2) { ShapeKind::Structure(s.clone()) } else { ShapeKind::Union(s.clone()) },
        );
        for k in ["ex.a#Foo", "ex.a#fOO", "ex.b#Foo", "ex.a#Foo$x", "ex.a#Foo2"] {
            chk(c, "shape.is", top.is(&sid(k)), k.eq_ignore_ascii_case("ex.a#Foo"), &h);
        }
        for k in NAMES {
            let q = ident(&recase(&mut c.rng, k));
            for x in s.members() {
                chk(c, "member.is", x.is(&q), x.id().to_string().eq_ignore_ascii_case(k), &h);
            }
            chk(c, "members.has_member", s.has_member(&q), m.contains_key(k), &h);
            chk(c, "members.member", s.member(&q).map(from_member), m.get(k).cloned(), &h);
            chk(c, "shape.has_member", top.has_member(&q), m.contains_key(k), &h);
            chk(c, "shape.member", top.member(&q).map(from_member), m.get(k).cloned(), &h);
        }
    }
    // fixed-name aggregates
    for _ in 0..4 {
        let mut am = || AMember { target: id(&mut c.rng), traits: gen_traits(&mut c.rng, &o, 2) };
        let (a, b, d) = (am(), am(), am());
        let mut l = ListOrSet::new(sid(&a.target));
        chk(c, "list.member", (l.member().id().to_string(), l.member().target().to_string(), l.member().has_traits()), ("member".into(), a.target.clone(), false), &h);
        l.set_member(to_member("member", &b));
        chk(c, "list.set_member", from_member(l.member()), b.clone(), &h);
        let mut mp = Map::new(sid(&a.target), sid(&b.target));
        chk(c, "map.new", (mp.key().id().to_string(), mp.key().target().to_string(), mp.value().id().to_string(), mp.value().target().to_string()), ("key".into(), a.target.clone(), "value".into(), b.target.clone()), &h);
        mp.set_key(to_member("key", &d));
        chk(c, "map.set_key", (from_member(mp.key()), mp.value().target().to_string()), (d.clone(), b.target.clone()), &h);
        mp.set_value(to_member("value", &a));
        chk(c, "map.set_value", (from_member(mp.key()), from_member(mp.value())), (d.clone(), a.clone()), &h);
        for (kind, have) in [
            (ShapeKind::List(l.clone()), vec![("member", b.clone())]),
            (ShapeKind::Set(l.clone()), vec![("member", b.clone())]),
            (ShapeKind::Map(mp.clone()), vec![("key", d.clone()), ("value", a.clone())]),
            (ShapeKind::Simple(c.rng.pick(&[Simple::String, Simple::Blob, Simple::Document]).clone()), vec![]),
            (ShapeKind::Unresolved, vec![]),
            (ShapeKind::Service(Service::new("1")), vec![]),
            (ShapeKind::Operation(Operation::default()), vec![]),
            (ShapeKind::Resource(Resource::default()), vec![]),
        ] {
            let i = id(&mut c.rng);
            let t = TopLevelShape::new(sid(&i), kind);
            c.eval(true, &format!("{:?} {} {:?}", have, i, t.body()));
            chk(c, "shape.is_prelude_shape", t.is_prelude_shape(), i.starts_with("smithy.api#"), &h);
            for k in NAMES {
                let w = have.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                let q = ident(&recase(&mut c.rng, k));
                chk(c, "shape.has_member fixed", t.has_member(&q), w.is_some(), &h);
                chk(c, "shape.member fixed", t.member(&q).map(from_member), w, &h);
            }
        }
    }
    c.sample(|| h.join("; "));
}

fn traits(c: &mut Case) {
    const T: [&str; 24] = [
        "documentation", "externalDocumentation", "length", "pattern", "requiresLength", "box", "deprecated", "error",
        "idempotent", "noReplace", "paginated", "private", "readonly", "references", "required", "sensitive", "streaming",
        "since", "tags", "title", "trait", "uniqueItems", "unstable", "other",
    ];
    let mut m: Traits = Default::default();
    let mut h: Vec<String> = vec![];
    let mut shape = TopLevelShape::new(sid("ex.a#Foo"), ShapeKind::Simple(Simple::String));
    let mut member = MemberShape::new(ident("foo"), sid("ex.a#Bar"));
    for _ in 0..c.rng.range(3, 20) {
        let t = format!("{}#{}", if c.rng.chance(5, 6) { "smithy.api" } else { "other.api" }, c.rng.pick(&T));
        match c.rng.below(6) {
            4 => {
                // a trait is named by the identity of a shape, not of a member; nothing changes
                let t = format!("{}$m", if m.is_empty() || c.rng.chance(1, 2) { t } else { c.rng.pick(&m.keys().cloned().collect::<Vec<_>>()).clone() });
                let v = if c.rng.chance(1, 2) { None } else { Some(to_value(&small(&mut c.rng))) };
                h.push(format!("apply({} {:?})", t, v));
                let (a, b) = (shape.apply_with_value(sid(&t), v.clone()).is_ok(), member.apply_with_value(sid(&t), v).is_ok());
                chk(c, "traits.apply accepted the name of a member", (a, b), (false, false), &h);
            }
            0 => {
                h.push(format!("remove_trait({})", t));
                let q = sid(&recase(&mut c.rng, &t));
                shape.remove_trait(&q);
                member.remove_trait(&q);
                m.remove(&t);
            }
            1 if !m.is_empty() => {
                // remove something that is there
                let keys: Vec<Id> = m.keys().cloned().collect();
                let t = c.rng.pick(&keys).clone();
                h.push(format!("remove_trait({})", t));
                let q = sid(&recase(&mut c.rng, &t));
                shape.remove_trait(&q);
                member.remove_trait(&q);
                m.remove(&t);
            }
            2 if !m.contains_key(&t) => {
                h.push(format!("apply({})", t));
                let (a, b) = (shape.apply(sid(&t)).is_ok(), member.apply(sid(&t)).is_ok());
                chk(c, "traits.apply accepted", (a, b), (true, true), &h);
                m.insert(t, None);
            }
            3 if !m.contains_key(&t) => {
                let x = Traits::from([(t.clone(), None)]);
                h.push(format!("append_traits({})", t));
                let (a, b) = (shape.append_traits(&to_traits(&x)).is_ok(), member.append_traits(&to_traits(&x)).is_ok());
                chk(c, "traits.append accepted", (a, b), (true, true), &h);
                m.insert(t, None);
            }
            _ if !m.contains_key(&t) => {
                let v = small(&mut c.rng);
                h.push(format!("apply_with_value({},{})", t, v.dump()));
                let a = shape.apply_with_value(sid(&t), Some(to_value(&v))).is_ok();
                let b = member.apply_with_value(sid(&t), Some(to_value(&v))).is_ok();
                chk(c, "traits.apply_with_value accepted", (a, b), (true, true), &h);
                m.insert(t, Some(v));
            }
            _ => continue,
        }
        eval(c, &h);
        chk(c, "traits.has_traits", (shape.has_traits(), member.has_traits()), (!m.is_empty(), !m.is_empty()), &h);
        chk(c, "traits.traits", from_traits(shape.traits()), m.clone(), &h);
        chk(c, "traits.traits (member)", from_traits(member.traits()), m.clone(), &h);
        for ns in ["smithy.api", "other.api"] {
            for t in T {
                let t = format!("{}#{}", ns, t);
                let q = sid(&recase(&mut c.rng, &t));
                chk(c, "traits.has_trait", (shape.has_trait(&q), member.has_trait(&q)), (m.contains_key(&t), m.contains_key(&t)), &h);
                let w = m.get(&t).cloned();
                let f = |x: Option<&atelier_core::model::shapes::TraitValue>| x.map(|v| v.as_ref().map(from_value));
                chk(c, "traits.trait_named", f(shape.trait_named(&q)), w.clone(), &h);
                chk(c, "traits.trait_named (member)", f(member.trait_named(&q)), w, &h);
            }
        }
        let p = |n: &str| m.contains_key(&format!("smithy.api#{}", n));
        for (n, got) in [
            ("documentation", shape.has_documentation()),
            ("externalDocumentation", shape.has_external_documentation()),
            ("length", shape.has_length()),
            ("pattern", shape.has_pattern()),
            ("requiresLength", shape.has_required_length()),
            ("box", shape.is_boxed()),
            ("deprecated", shape.is_deprecated()),
            ("error", shape.is_error()),
            ("idempotent", shape.is_idempotent()),
            ("noReplace", shape.is_no_replace()),
            ("paginated", shape.is_paginated()),
            ("private", shape.is_private()),
            ("readonly", shape.is_readonly()),
            ("references", shape.is_references()),
            ("required", shape.is_required()),
            ("sensitive", shape.is_sensitive()),
            ("streaming", shape.is_streaming()),
            ("since", shape.is_since()),
            ("tags", shape.is_tagged()),
            ("title", shape.is_titled()),
            ("trait", shape.is_trait()),
            ("uniqueItems", shape.has_unique_items()),
            ("unstable", shape.is_unstable()),
        ] {
            chk(c, &format!("traits.named test for {}", n), got, p(n), &h);
        }
    }
    c.sample(|| h.join("; "));
}

fn model(c: &mut Case) {
    let mut m = AModel::default();
    let mut s = Model::new(Version::V10);
    let mut h: Vec<String> = vec![];
    let kinds = |r: &mut Rng| match r.below(6) {
        0 => AKind::Simple(r.pick(&SIMPLE).to_string()),
        1 => AKind::List(AMember { target: "smithy.api#String".into(), traits: Default::default() }),
        2 => AKind::Structure(Default::default()),
        3 => AKind::Operation(Default::default()),
        4 => AKind::Unresolved,
        _ => AKind::Resource(Default::default()),
    };
    const KEYS: [&str; 6] = ["a", "b", "", "A", "key with \"quotes\"", "suppressions"];
    for _ in 0..c.rng.range(3, 25) {
        match c.rng.below(7) {
            0 => {
                let k = c.rng.pick(&KEYS).to_string();
                if m.metadata.contains_key(&k) {
                    h.push(format!("model.remove_metadata({:?})", k));
                    let r = s.remove_metadata(&k).map(|x| from_value(&x));
                    let w = m.metadata.remove(&k);
                    chk(c, "model.remove_metadata result", r, w, &h);
                } else {
                    let v = small(&mut c.rng);
                    h.push(format!("model.add_metadata({:?},{})", k, v.dump()));
                    let ok = s.add_metadata(k.clone(), to_value(&v)).is_ok();
                    chk(c, "model.add_metadata accepted", ok, true, &h);
                    m.metadata.insert(k, v);
                }
            }
            1 => {
                let k = c.rng.pick(&KEYS).to_string();
                h.push(format!("model.remove_metadata({:?})", k));
                let r = s.remove_metadata(&k).map(|x| from_value(&x));
                let w = m.metadata.remove(&k);
                chk(c, "model.remove_metadata result", r, w, &h);
            }
            2 => {
                let i = id(&mut c.rng);
                h.push(format!("model.remove_shape({})", i));
                let r = s.remove_shape(&sid(&recase(&mut c.rng, &i))).map(|x| from_shape(&x));
                let w = m.shapes.remove(&i);
                chk(c, "model.remove_shape result", r, w, &h);
            }
            3 => {
                let i = id(&mut c.rng);
                let k = kinds(&mut c.rng);
                h.push(format!("model.shape_mut({}).set_body({})", i, k.type_name()));
                let found = match s.shape_mut(&sid(&recase(&mut c.rng, &i))) {
                    Some(x) => {
                        x.set_body(to_kind(&k));
                        true
                    }
                    None => false,
                };
                chk(c, "model.shape_mut found", found, m.shapes.contains_key(&i), &h);
                if let Some(x) = m.shapes.get_mut(&i) {
                    x.kind = k;
                }
            }
            _ => {
                let mut i = id(&mut c.rng);
                let k = kinds(&mut c.rng);
                if k == AKind::Unresolved && c.rng.chance(1, 3) {
                    i.push_str("$memb");
                }
                if m.shapes.contains_key(&i) {
                    continue;
                }
                let a = AShape { kind: k, traits: gen_traits(&mut c.rng, &GenOpts { strings: 0, ..Default::default() }, 2) };
                h.push(format!("model.add_shape({} {})", a.kind.type_name(), i));
                let ok = s.add_shape(to_shape(&i, &a)).is_ok();
                chk(c, "model.add_shape accepted", ok, true, &h);
                m.shapes.insert(i, a);
            }
        }
        eval(c, &h);
        chk(c, "model.has_metadata", s.has_metadata(), !m.metadata.is_empty(), &h);
        chk(c, "model.has_shapes", s.has_shapes(), !m.shapes.is_empty(), &h);
        for k in KEYS {
            chk(c, "model.has_metadata_value", s.has_metadata_value(k), m.metadata.contains_key(k), &h);
            chk(c, "model.metadata_value", s.metadata_value(k).map(from_value), m.metadata.get(k).cloned(), &h);
        }
        for i in IDS {
            for i in [i.to_string(), format!("{}$memb", i)] {
                let q = sid(&recase(&mut c.rng, &i));
                chk(c, "model.has_shape", s.has_shape(&q), m.shapes.contains_key(&i), &h);
                chk(c, "model.shape", s.shape(&q).map(from_shape), m.shapes.get(&i).cloned(), &h);
            }
        }
        chk(c, "model.contents", from_model(&s).dump(), m.dump(), &h);
        chk(c, "model.shapes count", s.shapes().count(), m.shapes.len(), &h);
        let (un, re): (Vec<_>, Vec<_>) = m.shapes.iter().partition(|(_, x)| x.kind == AKind::Unresolved);
        let names = |v: &Vec<(&Id, &AShape)>| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
        chk(c, "model.shape_names", sorted(s.shape_names().map(|x| x.to_string()).collect()), names(&re), &h);
        chk(c, "model.unresolved_shape_names", sorted(s.unresolved_shape_names().map(|x| x.to_string()).collect()), names(&un), &h);
        chk(c, "model.is_complete", s.is_complete(), un.is_empty(), &h);
        let got: BTreeSet<String> = s.namespaces().into_iter().map(|x| x.to_string()).collect();
        chk(c, "model.namespaces", got, m.namespaces().into_iter().collect(), &h);
        if c.thorough() || c.rng.chance(1, 4) {
            let fresh = to_model_shuffled(&m, &mut c.rng);
            chk(c, "model equality with a model of the same contents", s == fresh, true, &h);
        }
    }
    c.seen("model contents", &m.dump().join("\n"));
    c.sample(|| h.join("; "));
}

/// one change to a shape, and whether it concerns only traits
fn alter(r: &mut Rng, s: &mut AShape) {
    let fresh = || "zz.alt#Fresh".to_string();
    fn alter_traits(r: &mut Rng, t: &mut Traits) {
        if let Some(k) = t.keys().next().cloned().filter(|_| r.chance(1, 3)) {
            t.remove(&k);
        } else if let Some((_, v)) = t.iter_mut().next().filter(|_| r.chance(1, 2)) {
            *v = match v {
                None => Some(AVal::Null),
                Some(AVal::Arr(a)) if !a.is_empty() && r.chance(1, 2) => {
                    a.pop();
                    Some(AVal::Arr(a.clone()))
                }
                Some(AVal::Obj(o)) if !o.is_empty() && r.chance(1, 2) => {
                    let k = o.keys().last().unwrap().clone();
                    o.remove(&k);
                    Some(AVal::Obj(o.clone()))
                }
                Some(AVal::Bool(b)) => Some(AVal::Bool(!*b)),
                _ => Some(AVal::Str("altered".into())),
            };
        } else {
            t.insert("zz.alt#freshTrait".into(), None);
        }
    }
    fn alter_list(r: &mut Rng, l: &mut Vec<Id>) {
        match r.below(4) {
            0 if l.len() > 1 => l.reverse(),
            1 if !l.is_empty() => {
                let i = r.below(l.len());
                l.remove(i);
            }
            2 if !l.is_empty() => {
                let x = r.pick(&l[..]).clone();
                l.push(x);
            }
            _ => l.insert(r.below(l.len() + 1), "zz.alt#Fresh".into()),
        }
    }
    fn alter_opt(o: &mut Option<Id>) {
        *o = if o.is_some() { None } else { Some("zz.alt#Fresh".into()) };
    }
    if r.chance(1, 4) {
        return alter_traits(r, &mut s.traits);
    }
    if r.chance(1, 3) {
        let mut ms = s.kind.members_mut();
        if !ms.is_empty() {
            let i = r.below(ms.len());
            if r.chance(1, 2) {
                alter_traits(r, &mut ms[i].1.traits);
            } else {
                ms[i].1.target = fresh();
            }
            return;
        }
    }
    match &mut s.kind {
        AKind::List(m) => s.kind = AKind::Set(m.clone()),
        AKind::Set(m) => s.kind = AKind::List(m.clone()),
        AKind::Map(k, v) => std::mem::swap(k, v),
        AKind::Structure(m) | AKind::Union(m) if r.chance(2, 3) => {
            let k = m.keys().next().cloned();
            match k {
                Some(k) if r.chance(1, 2) => {
                    let x = m.remove(&k).unwrap();
                    if r.chance(1, 2) {
                        m.insert("zzAlt".into(), x);
                    }
                }
                _ => {
                    m.insert("zzAlt".into(), AMember { target: fresh(), traits: Default::default() });
                }
            }
        }
        AKind::Structure(m) => s.kind = AKind::Union(m.clone()),
        AKind::Union(m) => s.kind = AKind::Structure(m.clone()),
        AKind::Service(v) => match r.below(4) {
            0 => v.version.push('.'),
            1 => alter_list(r, &mut v.operations),
            2 => alter_list(r, &mut v.resources),
            _ => {
                v.renames.insert("zz.alt#Fresh".into(), "Altered".into());
            }
        },
        AKind::Operation(v) => match r.below(3) {
            0 => alter_opt(&mut v.input),
            1 => alter_opt(&mut v.output),
            _ => alter_list(r, &mut v.errors),
        },
        AKind::Resource(v) => match r.below(10) {
            0 => alter_opt(&mut v.create),
            1 => alter_opt(&mut v.put),
            2 => alter_opt(&mut v.read),
            3 => alter_opt(&mut v.update),
            4 => alter_opt(&mut v.delete),
            5 => alter_opt(&mut v.list),
            6 => alter_list(r, &mut v.operations),
            7 => alter_list(r, &mut v.collection_operations),
            8 => alter_list(r, &mut v.resources),
            _ => {
                if v.identifiers.insert("zzAlt".into(), fresh()).is_some() {
                    v.identifiers.clear();
                }
            }
        },
        AKind::Simple(n) => *n = if n == "blob" { "string".into() } else { "blob".into() },
        AKind::Unresolved => s.kind = AKind::Resource(Default::default()),
    }
}
fn bare(s: &AShape) -> AShape {
    let mut s = s.clone();
    s.traits.clear();
    for (_, m) in s.kind.members_mut() {
        m.traits.clear();
    }
    s
}

/// equality, the kind predicates and views, replacing bodies and names
fn shapes(c: &mut Case) {
    let o = GenOpts { namespaces: vec!["ex.a".into(), "ex.b".into()], unresolved: true, dangling: true, strings: 1, value_depth: 2, ..Default::default() };
    let a = gen_model(&mut c.rng, &o);
    let keys: Vec<Id> = a.shapes.keys().cloned().collect();
    if keys.is_empty() {
        return;
    }
    let mut hist: Vec<String> = vec![];
    let key = c.rng.pick(&keys).clone();
    let mut b = a.clone();
    for _ in 0..c.rng.below(3) {
        alter(&mut c.rng, b.shapes.get_mut(&key).unwrap());
    }
    let (x, y) = (&a.shapes[&key], &b.shapes[&key]);
    hist.push(format!("{:?} and {:?}", x, y));
    c.eval(true, &hist[0]);
    c.count(if x == y { "equal pairs" } else { "different pairs" });
    let (sx, sy) = (to_shape(&key, x), to_shape(&recase(&mut c.rng, &key), y));
    chk(c, "shapes equal", sx == sy, x == y, &hist);
    chk(c, "shape bodies equal", sx.body() == sy.body(), x.kind == y.kind, &hist);
    chk(c, "shape equals its clone", sx == sx.clone(), true, &hist);
    let nt = bare(x) == bare(y);
    c.count(if nt { "pairs equal but for traits" } else { "pairs different without traits" });
    chk(c, "equal_without_traits", (sx.equal_without_traits(&sy), sy.equal_without_traits(&sx)), (nt, nt), &hist);
    let other = to_shape("zz.alt#Other", x);
    chk(c, "shapes of different names", (sx == other, sx.equal_without_traits(&other)), (false, false), &hist);
    for (n, m) in x.kind.members() {
        let Some((_, k)) = y.kind.members().into_iter().find(|v| v.0 == n) else { continue };
        let (p, q) = (to_member(&n, m), to_member(&n, k));
        chk(c, "members equal", (p == q, p.equal_without_traits(&q)), (m == k, m.target == k.target), &hist);
    }
    let (ma, mb) = (to_model_shuffled(&a, &mut c.rng), to_model_shuffled(&b, &mut c.rng));
    chk(c, "models equal", (ma == mb, mb == ma), (a == b, a == b), &hist);
    chk(c, "model equals its clone", ma == ma.clone(), true, &hist);
    let mut d = a.clone();
    d.metadata.insert("zz altered".into(), AVal::Null);
    chk(c, "models of different metadata equal", ma == to_model(&d), false, &hist);
    d = a.clone();
    d.shapes.remove(&key);
    chk(c, "models with and without a shape equal", ma == to_model(&d), false, &hist);

    // predicates and views
    let t = x.kind.type_name().to_string();
    let simple = SIMPLE.contains(&t.as_str());
    let k = sx.body();
    let views = [
        ("simple", sx.is_simple(), k.is_simple(), k.as_simple().is_some()),
        ("list", sx.is_list(), k.is_list(), k.as_list().is_some()),
        ("set", sx.is_set(), k.is_set(), k.as_set().is_some()),
        ("map", sx.is_map(), k.is_map(), k.as_map().is_some()),
        ("structure", sx.is_structure(), k.is_structure(), k.as_structure().is_some()),
        ("union", sx.is_union(), k.is_union(), k.as_union().is_some()),
        ("service", sx.is_service(), k.is_service(), k.as_service().is_some()),
        ("operation", sx.is_operation(), k.is_operation(), k.as_operation().is_some()),
        ("resource", sx.is_resource(), k.is_resource(), k.as_resource().is_some()),
        ("unresolved", sx.is_unresolved(), k.is_unresolved(), k.is_unresolved()),
    ];
    for (n, p, q, v) in views {
        let w = n == t || (n == "simple" && simple) || (n == "unresolved" && x.kind == AKind::Unresolved);
        chk(c, &format!("shape.is_{}", n), (p, q, v), (w, w, w), &hist);
    }
    chk(c, "shape.has_members", sx.has_members(), !simple && x.kind != AKind::Unresolved, &hist);
    let same = match k {
        ShapeKind::Simple(v) => Some(ShapeKind::from(v.clone())),
        ShapeKind::Service(v) => Some(ShapeKind::from(v.clone())),
        ShapeKind::Operation(v) => Some(ShapeKind::from(v.clone())),
        ShapeKind::Resource(v) => Some(ShapeKind::from(v.clone())),
        _ => None,
    };
    if let Some(same) = same {
        chk(c, "ShapeKind::from", from_kind(&same), x.kind.clone(), &hist);
    }
    if let AKind::Simple(n) = &x.kind {
        let v = k.as_simple().unwrap();
        chk(c, "simple name", v.to_string(), n.clone(), &hist);
    }
    for n in SIMPLE {
        chk(c, "simple from its name", n.parse::<Simple>().map(|v| v.to_string()).ok(), Some(n.to_string()), &hist);
        let wrong = [n.to_uppercase(), format!("{} ", n), format!("{}s", n), n[..n.len() - 1].to_string()];
        for w in wrong {
            if !SIMPLE.contains(&w.as_str()) {
                chk(c, "simple from another name", w.parse::<Simple>().is_ok(), false, &hist);
            }
        }
    }
    // changing in place
    let mut s = sx.clone();
    *s.body_mut() = sy.body().clone();
    chk(c, "shape.body_mut", from_shape(&s), AShape { kind: y.kind.clone(), traits: x.traits.clone() }, &hist);
    *s.traits_mut() = sy.traits().clone();
    chk(c, "shape.traits_mut", from_shape(&s), y.clone(), &hist);
    s.set_id(sid("zz.alt#Other"));
    chk(c, "shape.set_id", (s.id().to_string(), from_shape(&s)), ("zz.alt#Other".to_string(), y.clone()), &hist);
    s.set_id(sx.id().clone());
    s.set_body(sx.body().clone());
    chk(c, "shape.set_body", from_shape(&s), AShape { kind: x.kind.clone(), traits: y.traits.clone() }, &hist);
    let am = AMember { target: id(&mut c.rng), traits: gen_traits(&mut c.rng, &o, 2) };
    let mut m = to_member("foo", &am);
    let t = format!("{}{}", id(&mut c.rng), c.rng.pick(&["", "", "$m"]));
    m.set_target(sid(&t));
    let n = name(&mut c.rng);
    m.set_id(ident(&n));
    chk(c, "member.set_target and set_id", (m.id().to_string(), from_member(&m)), (n.clone(), AMember { target: t, traits: am.traits }), &hist);
    m.traits_mut().clear();
    chk(c, "member.traits_mut", m.has_traits(), false, &hist);
    c.sample(|| hist.join("; "));
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Histories of 3-30 random mutators on a Model, a shape's traits, members and service/operation/resource bodies, mirrored on plain maps, lists and optionals; every accessor is compared after every step; pairs of shapes and models that differ in at most two places are compared for equality, with and without traits, and their views and setters tried; an evaluation is one queried state, non-trivial when at least two operations happened, distinct by history.");
    ctx.cases("model", 2500, 0.25, model);
    ctx.cases("resource", 2000, 0.15, resource);
    ctx.cases("service", 2000, 0.15, service);
    ctx.cases("operation", 1200, 0.1, operation);
    ctx.cases("members", 2000, 0.15, members);
    ctx.cases("shapes", 2500, 0.1, shapes);
    ctx.cases("traits", 1500, 0.15, traits);
}
