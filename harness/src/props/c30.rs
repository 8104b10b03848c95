//! C30: one fault is planted in an otherwise valid text, model or program; the error must be of its kind and name it.
use crate::am::*;
use crate::elab::Prog;
use crate::fw::{clip, Case, Ctx};
use crate::idl::{self, Layout};
use crate::js::{self, J};
use crate::refm::{self, Conflict};
use atelier_core::builder::id::ShapeName;
use atelier_core::builder::{
    ListBuilder, MemberBuilder, ModelBuilder, ReferenceBuilder, ShapeTraits, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
};
use atelier_core::error::{Error, ErrorKind};
use atelier_assembler::{FileTypeRegistry, ModelAssembler};
use atelier_core::io::{read_model_from_file, read_model_from_string};
use atelier_core::model::identity::{HasIdentity, Identifier, NamespaceID, ShapeID};
use atelier_core::model::selector::{Comparator, ShapeType};
use atelier_core::model::shapes::{HasTraits, Simple};
use atelier_core::model::Model;
use atelier_core::Version;
use atelier_json::JsonReader;
use atelier_smithy::{parse_model, SmithyReader};
use std::convert::TryFrom;
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};

const ID: &str = "InvalidShapeID";
const VERSION: &str = "InvalidVersionNumber";
const SIMPLE: &str = "InvalidSimpleShape";
const SELECTOR: &str = "InvalidSelectorExpression";
const SHAPE: &str = "MergeShapeConflict";
const TRAIT: &str = "MergeTraitConflict";
const META: &str = "MergeMetadataConflict";
const NO_MEMBER: &str = "UnknownMember";
const DUP: &str = "DuplicateMember";
const AMBIGUOUS: &str = "AmbiguousShape";
const NOT_MEMBER: &str = "ShapeIDExpected";

/// kind of an error and what it names
fn subject(e: &Error) -> (&'static str, String) {
    match e.kind() {
        ErrorKind::InvalidShapeID(s) => (ID, s.clone()),
        ErrorKind::InvalidVersionNumber(Some(s)) => (VERSION, s.clone()),
        ErrorKind::InvalidSimpleShape(s) => (SIMPLE, s.clone()),
        ErrorKind::InvalidSelectorExpression(s) => (SELECTOR, s.clone()),
        ErrorKind::MergeShapeConflict(s) => (SHAPE, s.to_string()),
        ErrorKind::MergeTraitConflict(s) => (TRAIT, s.to_string()),
        ErrorKind::MergeMetadataConflict(s) => (META, s.clone()),
        ErrorKind::UnknownMember(s) => (NO_MEMBER, s.clone()),
        ErrorKind::DuplicateMember(s) => (DUP, s.clone()),
        ErrorKind::AmbiguousShape(s) => (AMBIGUOUS, s.clone()),
        ErrorKind::ShapeIDExpected(s) => (NOT_MEMBER, s.to_string()),
        _ => ("other", e.to_string()),
    }
}
/// The error must be of one of the wanted kinds and name the subject, in its payload and in its message.
fn judge(c: &mut Case, fault: &str, got: Result<(), Error>, want: &[(&'static str, String)], ctx: impl FnOnce() -> String) {
    c.eval(true, &format!("{} {:?}", fault, want));
    c.seen("faults", fault);
    match got {
        Ok(_) => {
            let d = format!("{} was accepted: {}", fault, clip(&ctx(), 700));
            c.viol(format!("accepted:{}", fault), d)
        }
        Err(e) => {
            let (k, s) = subject(&e);
            c.seen("kinds of errors", k);
            let exact = want.iter().any(|(wk, ws)| *wk == k && *ws == s);
            if !exact {
                let d = format!("{}: wanted {:?}, error is {} naming {:?} ({})\n {}", fault, want, k, s, e, clip(&ctx(), 700));
                c.viol(format!("names:{}", fault), d);
                return;
            }
            let shown = e.to_string();
            let quoted = if k == VERSION { format!("{:?}", s) } else { s.clone() };
            if !shown.contains(&quoted) {
                c.viol(format!("message:{}", fault), format!("the message {:?} does not name {:?}", shown, s));
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("One fault per case in an otherwise valid and generated setting (checked to be accepted without it); one evaluation per refused operation: error kind, the subject in its payload and in its message. All are non-trivial.");
    ctx.assume("Where two spellings of a name are at fault either may be named; the JSON and Smithy readers' errors about structure and syntax only have to exist (C09, C13).");
    ctx.cases("texts", 1500, 0.2, texts);
    ctx.cases("merges", 700, 0.3, merges);
    ctx.cases("builders", 500, 0.2, builders);
    ctx.cases("json", 500, 0.3, json);
    ctx.cases("smithy", 500, 0.3, smithy);
    ctx.cases("files", 150, 0.2, files);
    ctx.cases("position", 300, 0.2, position);
}

// ---- texts --------------------------------------------------------------------------------------------------------
fn bad_id(c: &mut Case) -> String {
    let r = &mut c.rng;
    let a = gen_ident(r);
    match r.below(10) {
        0 => format!("ex.a#{}$", a),
        1 => format!("ex..a#{}", a),
        2 => format!("#{}", a),
        3 => format!("ex.a#{}$b$c", a),
        4 => format!("ex.a#{}#b", a),
        5 => format!("ex.a #{}", a),
        6 => format!("ex.a#9{}", a),
        7 => format!("ex.a#{}-b", a),
        8 => format!("{}é#b", a),
        _ => format!("ex.a#{}\"\n", a),
    }
}
fn texts(c: &mut Case) {
    let t = bad_id(c);
    let which = c.rng.below(10);
    let (fault, want, got): (&str, (&'static str, String), Option<Result<(), Error>>) = match which {
        0 => ("absolute ID", (ID, t.clone()), c.lib("ShapeID::from_str", || ShapeID::from_str(&t).map(|_| ()))),
        1 => ("namespace", (ID, t.clone()), c.lib("NamespaceID::from_str", || NamespaceID::from_str(&t).map(|_| ()))),
        2 => ("identifier", (ID, t.clone()), c.lib("Identifier::from_str", || Identifier::from_str(&t).map(|_| ()))),
        3 => ("builder name", (ID, t.clone()), c.lib("ShapeName::from_str", || ShapeName::from_str(&t).map(|_| ()))),
        4 => {
            let t = c.rng.pick(&["a-b", "", "9", "a b", "a.b", "_", "é", "a#b", "x\n"]).to_string();
            ("identifier", (ID, t.clone()), c.lib("Identifier::from_str", || Identifier::from_str(&t).map(|_| ())))
        }
        5 => {
            let t = if c.rng.chance(1, 2) { t.clone() } else { c.rng.pick(&["", "2.0", "1.0.0", "0.9", "v1", " 1.0"]).to_string() };
            ("version", (VERSION, t.clone()), c.lib("Version::from_str", || Version::from_str(&t).map(|_| ())))
        }
        6 => {
            let t = if c.rng.chance(1, 2) { t.clone() } else { c.rng.pick(&["", "strin", "String ", "structure", "member", "bigdecimals"]).to_string() };
            ("simple shape", (SIMPLE, t.clone()), c.lib("Simple::from_str", || Simple::from_str(&t).map(|_| ())))
        }
        7 => ("shape type", (SELECTOR, t.clone()), c.lib("ShapeType::from_str", || ShapeType::from_str(&t).map(|_| ()))),
        8 => {
            let t = c.rng.pick(&["==", "", "=>", "{", "{=", "a", " ="]).to_string();
            ("comparator", (SELECTOR, t.clone()), c.lib("Comparator::from_str", || Comparator::from_str(&t).map(|_| ())))
        }
        _ => {
            let t = format!("{}-{}", "x".repeat(c.rng.below(300)), t);
            ("absolute ID", (ID, t.clone()), c.lib("ShapeID::from_str", || ShapeID::from_str(&t).map(|_| ())))
        }
    };
    if let Some(got) = got {
        judge(c, fault, got, &[want.clone()], || format!("{:?}", want.1));
    }
}

// ---- merging ------------------------------------------------------------------------------------------------------
fn conflict(x: &Conflict) -> (&'static str, String) {
    match x {
        Conflict::Metadata(k) => (META, k.clone()),
        Conflict::Trait(k) => (TRAIT, k.clone()),
        Conflict::Shape(k) => (SHAPE, k.clone()),
        Conflict::MemberId(k) => (NOT_MEMBER, k.clone()),
    }
}
/// a part of `m` that merges with it
fn part(m: &AModel, c: &mut Case) -> AModel {
    let mut o = AModel::default();
    for (k, v) in &m.metadata {
        if c.rng.chance(1, 2) {
            o.metadata.insert(k.clone(), v.clone());
        }
    }
    for (k, v) in &m.shapes {
        if c.rng.chance(1, 2) {
            o.shapes.insert(k.clone(), v.clone());
        }
    }
    o
}
fn merges(c: &mut Case) {
    let o = GenOpts { namespaces: vec!["ex.a".into(), "ex.b".into()], ..Default::default() };
    let base = gen_model(&mut c.rng, &o);
    let mut other = part(&base, c);
    let mut base = base;
    let tid = c.rng.pick(&["smithy.api#title", "ex.c#mark", "ex.a#own0", "smithy.api#mark9"]).to_string();
    let ids: Vec<String> = base.shapes.keys().cloned().collect();
    let id = if ids.is_empty() { return } else { c.rng.pick(&ids).clone() };
    for m in [&mut base, &mut other] {
        for s in m.shapes.values_mut() {
            s.traits.remove(&tid);
            for (_, x) in s.kind.members_mut() {
                x.traits.remove(&tid);
            }
        }
    }
    // what is about to be set at odds must agree so far
    let mut probe = base.clone();
    if refm::merge(&mut probe, &other).is_err() {
        c.count("skipped: parts at odds");
        return;
    }
    other.shapes.insert(id.clone(), base.shapes[&id].clone());
    let (v1, v2) = (Some(AVal::Str("one".into())), if c.rng.chance(1, 4) { None } else { Some(AVal::Str("two".into())) });
    let mut add_member_id = None;
    let fault = match c.rng.below(6) {
        0 => {
            let k = if c.rng.chance(1, 2) {
                gen_string(&mut c.rng, 1)
            } else {
                c.rng.pick(&["", " ", " led", "trailed ", "Case.Kept", "tab\t", "a\nb", "ünï", "quo\"ted'"]).to_string()
            };
            base.metadata.insert(k.clone(), AVal::Int(1));
            other.metadata.insert(k, if c.rng.chance(1, 2) { AVal::Int(2) } else { AVal::Arr(vec![AVal::Int(1)]) });
            "merged metadata"
        }
        1 => {
            base.shapes.get_mut(&id).unwrap().traits.insert(tid.clone(), v1);
            other.shapes.get_mut(&id).unwrap().traits.insert(tid, v2);
            "merged trait of a shape"
        }
        2 => {
            let n = base.shapes[&id].kind.members().len();
            if n == 0 {
                return;
            }
            let i = c.rng.below(n);
            base.shapes.get_mut(&id).unwrap().kind.members_mut()[i].1.traits.insert(tid.clone(), v1);
            other.shapes.get_mut(&id).unwrap().kind.members_mut()[i].1.traits.insert(tid, v2);
            "merged trait of a member"
        }
        3 => {
            let o = other.shapes.get_mut(&id).unwrap();
            o.kind = match &o.kind {
                AKind::Structure(m) => AKind::Union(m.clone()),
                AKind::List(m) => AKind::Set(m.clone()),
                AKind::Service(s) => AKind::Service(AService { version: format!("{}x", s.version), ..s.clone() }),
                AKind::Operation(s) => AKind::Operation(AOperation { errors: [&s.errors[..], &["ex.b#More".to_string()]].concat(), ..s.clone() }),
                AKind::Resource(s) => AKind::Resource(AResource { create: Some("ex.b#Other".into()), ..s.clone() }),
                _ => AKind::Structure(Default::default()),
            };
            "merged shape of another structure"
        }
        4 => {
            let o = other.shapes.get_mut(&id).unwrap();
            match o.kind.members_mut().into_iter().next() {
                Some((_, m)) => m.target = "ex.b#Elsewhere".into(),
                None => return,
            }
            "merged shape with another target"
        }
        _ => {
            let mid = format!("{}$m", id);
            add_member_id = Some(mid.clone());
            other.shapes.clear();
            other.shapes.insert(mid, AShape { kind: AKind::Structure(Default::default()), traits: Default::default() });
            "added shape named as a member"
        }
    };
    let mut probe = base.clone();
    let want = match refm::merge(&mut probe, &other) {
        Err(x) => conflict(&x),
        Ok(_) => {
            c.count("skipped: no conflict");
            return;
        }
    };
    let single = add_member_id.is_some() || c.rng.chance(1, 2);
    let got = c.lib("merge", || {
        let mut m = to_model(&base);
        if single {
            for (k, v) in &other.metadata {
                m.add_metadata(k.clone(), to_value(v))?;
            }
            for (i, s) in &other.shapes {
                m.add_shape(to_shape(i, s))?;
            }
            Ok(())
        } else {
            m.merge(to_model(&other))
        }
    });
    c.sample(|| format!("{} -> {:?}", fault, want));
    if let Some(got) = got {
        judge(c, fault, got, &[want], || format!("{}\n+ {}", base.dump().join(" ; "), other.dump().join(" ; ")));
    }
    // bulk application of traits to one shape
    let mut s = to_shape("ex.a#Bulk", &AShape { kind: AKind::Simple("string".into()), traits: Default::default() });
    let _ = s.apply_with_value(sid("ex.c#t1"), Some(to_value(&AVal::Int(1))));
    let mut more: Traits = Default::default();
    for i in 0..c.rng.below(5) {
        more.insert(format!("ex.c#n{}", i), None);
    }
    more.insert("ex.c#t1".into(), Some(AVal::Int(2)));
    let got = c.lib("append_traits", || s.append_traits(&to_traits(&more)));
    if let Some(got) = got {
        judge(c, "appended traits", got, &[(TRAIT, "ex.c#t1".into())], || format!("{:?}", more));
    }
    if s.id() != &sid("ex.a#Bulk") {
        c.viol("bulk:id", "the shape changed its name");
    }
}

// ---- builders -----------------------------------------------------------------------------------------------------
fn builders(c: &mut Case) {
    let ns = c.rng.pick(&["ex.a", "ex.a.b", "zed"]).to_string();
    let mut b = ModelBuilder::new(Version::V10, &ns);
    let n = c.rng.below(5);
    for i in 0..n {
        let mut s = StructureBuilder::new(&format!("Fine{}", i));
        let _ = s.member("a", "String").member("b", "Integer");
        let _ = b.structure(s);
    }
    let name = format!("Z{}", gen_ident(&mut c.rng));
    let mem = gen_ident(&mut c.rng);
    let (fault, want): (&str, (&'static str, String)) = match c.rng.below(9) {
        0 => {
            let mut s = StructureBuilder::new(&name);
            let _ = s.member(&mem, "String").member("zz9", "String").member(&mem, "Integer");
            if c.rng.chance(1, 2) {
                let _ = b.structure(s);
            } else {
                let _ = b.union(s);
            }
            ("member given twice", (DUP, mem))
        }
        1 => {
            let mut s = StructureBuilder::new(&name);
            let _ = s.member(&mem, "String");
            let _ = b.structure(s);
            let _ = b.apply(&format!("{}#{}$nope0", ns, name), TraitBuilder::new("sensitive"));
            ("trait for a member that is not there", (NO_MEMBER, format!("{}#{}$nope0", ns, name)))
        }
        2 => {
            let _ = b.uses(&format!("other.ns#{}", name));
            let _ = b.simple_shape(SimpleShapeBuilder::string(&name));
            ("name imported and defined", (AMBIGUOUS, name))
        }
        3 => {
            let _ = b.uses(&format!("other.ns#{}", name)).uses(&format!("third.ns#{}", name));
            let _ = b.list(ListBuilder::new("L1st", &name));
            ("name imported from two namespaces", (AMBIGUOUS, name))
        }
        4 => {
            let t = format!("ex.q#{}${}", name, mem);
            let mut s = StructureBuilder::new(&name);
            let _ = s.member("fine", "String").member("odd", &t);
            let _ = b.structure(s);
            ("target named as a member", (NOT_MEMBER, t))
        }
        5 => {
            let mut s = StructureBuilder::new(&name);
            let _ = s.apply_trait(TraitBuilder::with_value("title", "one".to_string().into()));
            let _ = s.apply_trait(TraitBuilder::with_value("smithy.api#title", "two".to_string().into()));
            let _ = b.structure(s);
            ("trait with two values", (TRAIT, "smithy.api#title".into()))
        }
        6 => {
            let mut s = StructureBuilder::new(&name);
            let mut m = MemberBuilder::new(&mem, "String");
            let _ = m.apply_trait(TraitBuilder::with_value("title", "one".to_string().into()));
            let _ = s.add_member(m);
            let _ = b.structure(s);
            let _ = b.apply(&format!("{}#{}${}", ns, name, mem), TraitBuilder::with_value("title", "two".to_string().into()));
            ("trait of a member applied again with another value", (TRAIT, "smithy.api#title".into()))
        }
        7 => {
            let mut m = ModelBuilder::new(Version::V10, &ns);
            let _ = m.meta_data("odd key".to_string(), "x".to_string().into());
            let _ = b.meta_data("odd key".to_string(), "y".to_string().into());
            let got = c.lib("build and merge", || {
                let mut a = Model::try_from(b)?;
                a.merge(Model::try_from(m)?)
            });
            if let Some(got) = got {
                judge(c, "metadata of two built models", got, &[(META, "odd key".into())], String::new);
            }
            return;
        }
        _ => {
            let t = format!("ex.q#{}${}", name, mem);
            let _ = b.simple_shape({
                let mut s = SimpleShapeBuilder::string(&name);
                let _ = s.apply_trait(TraitBuilder::new(&t));
                s
            });
            ("trait named as a member", (NOT_MEMBER, t))
        }
    };
    if c.rng.chance(1, 3) {
        let _ = b.reference(ReferenceBuilder::new("some.ns#Thing"));
    }
    let got = c.lib("build", || Model::try_from(b).map(|_| ()));
    if let Some(got) = got {
        judge(c, fault, got, &[want], || format!("in {} after {} structures", ns, n));
    }
}

// ---- JSON ---------------------------------------------------------------------------------------------------------
fn other_case(s: &str) -> Option<String> {
    let i = s.find(|c: char| c.is_ascii_alphabetic())?;
    let ch = s[i..].chars().next().unwrap();
    let f = if ch.is_ascii_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() };
    Some(format!("{}{}{}", &s[..i], f, &s[i + 1..]))
}
fn push(j: &mut J, k: &str, v: J) {
    if let J::Obj(m) = j {
        m.push((k.to_string(), v));
    }
}
fn obj(k: &str, v: J) -> J {
    J::Obj(vec![(k.to_string(), v)])
}
fn json(c: &mut Case) {
    let o = GenOpts { namespaces: vec!["ex.a".into()], shapes: (0, 5), short_floats: true, ..Default::default() };
    let m = gen_model(&mut c.rng, &o);
    let mut j = js::jmodel(&m);
    let st = js::Style { space: c.rng.below(3) as u8, shuffle: c.rng.chance(3, 4), escapes: 0 };
    let bad = bad_id(c);
    let n1 = gen_ident(&mut c.rng);
    let n2 = match other_case(&n1) {
        Some(x) => x,
        None => return,
    };
    let name = format!("zz.fault#{}", gen_ident(&mut c.rng));
    let target = |t: &str| obj("target", js::s(t));
    let ok = || obj("target", js::s("smithy.api#String"));
    let ty = |t: &str| obj("type", js::s(t));
    let both = |k: &'static str| vec![(k, n1.clone()), (k, n2.clone())];
    let i1 = format!("ex.z#{}", n1);
    let i2 = format!("ex.z#{}", n2);
    let mut shape = J::Null;
    let mut key = name.clone();
    let (fault, want): (&str, Vec<(&'static str, String)>) = match c.rng.below(20) {
        0 => {
            key = bad.clone();
            shape = ty("string");
            ("JSON shape name", vec![(ID, bad)])
        }
        1 => {
            shape = ty("list");
            push(&mut shape, "member", target(&bad));
            ("JSON member target", vec![(ID, bad)])
        }
        2 => {
            shape = ty("structure");
            push(&mut shape, "members", J::Obj(vec![("fine".into(), ok()), ("odd".into(), target(&bad))]));
            ("JSON structure member target", vec![(ID, bad)])
        }
        3 => {
            shape = ty(if c.rng.chance(1, 2) { "structure" } else { "union" });
            push(&mut shape, "members", J::Obj(vec![("fine".into(), ok()), (bad.clone(), ok())]));
            ("JSON structure member name", vec![(ID, bad)])
        }
        4 => {
            shape = ty("string");
            push(&mut shape, "traits", obj(&bad, J::Obj(vec![])));
            ("JSON trait name", vec![(ID, bad)])
        }
        5 => {
            shape = ty("service");
            push(&mut shape, "version", js::s("1"));
            push(&mut shape, *c.rng.pick(&["operations", "resources"]), J::Arr(vec![target("ex.a#Fine"), target(&bad)]));
            ("JSON service reference", vec![(ID, bad)])
        }
        6 => {
            shape = ty("operation");
            let k = *c.rng.pick(&["input", "output", "errors"]);
            push(&mut shape, k, if k == "errors" { J::Arr(vec![target(&bad)]) } else { target(&bad) });
            ("JSON operation reference", vec![(ID, bad)])
        }
        7 => {
            shape = ty("resource");
            let k = *c.rng.pick(&["create", "put", "read", "update", "delete", "list"]);
            push(&mut shape, k, target(&bad));
            ("JSON lifecycle reference", vec![(ID, bad)])
        }
        8 => {
            shape = ty("resource");
            push(&mut shape, "identifiers", obj("fine", target(&bad)));
            ("JSON identifier target", vec![(ID, bad)])
        }
        9 => {
            shape = ty("service");
            push(&mut shape, "version", js::s("1"));
            push(&mut shape, "rename", obj("ex.a#Fine", js::s(&bad)));
            ("JSON renamed to", vec![(ID, bad)])
        }
        10 => {
            shape = ty("structure");
            push(&mut shape, "members", J::Obj(vec![(n1.clone(), ok()), (n2.clone(), ok())]));
            ("JSON members alike", both(DUP))
        }
        11 => {
            shape = ty("string");
            push(&mut shape, "traits", J::Obj(vec![(i1.clone(), J::Obj(vec![])), (i2.clone(), J::Obj(vec![]))]));
            ("JSON traits alike", vec![(DUP, i1), (DUP, i2)])
        }
        12 => {
            shape = ty("resource");
            push(&mut shape, "identifiers", J::Obj(vec![(n1.clone(), ok()), (n2.clone(), ok())]));
            ("JSON identifiers alike", both(DUP))
        }
        13 => {
            let v = c.rng.pick(&["2.0", "3", "0.4", "1.1"]).to_string();
            j.remove("smithy");
            j.set("smithy", js::s(&v));
            ("JSON version", vec![(VERSION, v)])
        }
        15 => {
            shape = ty("map");
            let k = c.rng.chance(1, 2);
            push(&mut shape, "key", if k { target(&bad) } else { ok() });
            push(&mut shape, "value", if k { ok() } else { target(&bad) });
            ("JSON map reference", vec![(ID, bad)])
        }
        16 => {
            shape = ty("service");
            push(&mut shape, "version", js::s("1"));
            push(&mut shape, "rename", J::Obj(vec![(bad.clone(), js::s("Fine"))]));
            ("JSON renamed", vec![(ID, bad)])
        }
        17 => {
            shape = ty("resource");
            push(&mut shape, "identifiers", J::Obj(vec![("fine".into(), ok()), (bad.clone(), ok())]));
            ("JSON identifier name", vec![(ID, bad)])
        }
        18 => {
            shape = ty("resource");
            push(&mut shape, *c.rng.pick(&["operations", "collectionOperations", "resources"]), J::Arr(vec![target("ex.a#Fine"), target(&bad)]));
            ("JSON resource reference", vec![(ID, bad)])
        }
        14 => {
            shape = ty("list");
            let mut t = ok();
            push(&mut t, "traits", obj(&bad, J::Obj(vec![])));
            push(&mut shape, "member", t);
            ("JSON trait name of a member", vec![(ID, bad)])
        }
        _ => {
            shape = ty("string");
            let t = format!("ex.z#{}$m", n1);
            push(&mut shape, "traits", obj(&t, J::Obj(vec![])));
            key = name;
            shape = {
                let mut l = ty("list");
                let mut mm = ok();
                push(&mut mm, "traits", shape.get("traits").cloned().unwrap());
                push(&mut l, "member", mm);
                l
            };
            ("JSON trait named as a member", vec![(NOT_MEMBER, t)])
        }
    };
    let before = js::emit(&js::jmodel(&m), &st, &mut c.rng);
    match c.lib("JsonReader", || read_model_from_string(&mut JsonReader::default(), &before).is_ok()) {
        Some(true) => {}
        _ => {
            c.count("skipped: not accepted without the fault");
            return;
        }
    }
    if shape != J::Null {
        let mut shapes = j.remove("shapes").unwrap_or(J::Obj(vec![]));
        push(&mut shapes, &key, shape);
        j.set("shapes", shapes);
    }
    let text = js::emit(&j, &st, &mut c.rng);
    c.sample(|| format!("{} -> {:?}", fault, want));
    let got = read_somehow(c, true, &text);
    if let Some(got) = got {
        judge(c, fault, got, &want, || text.clone());
    }
}

// ---- Smithy -------------------------------------------------------------------------------------------------------
fn smithy(c: &mut Case) {
    let o = GenOpts { namespaces: vec!["ex.a".into()], shapes: (0, 5), short_floats: true, strings: 1, ..Default::default() };
    let m = idl::plain_model(&gen_model(&mut c.rng, &o));
    let prog: Prog = idl::prog_of(&m, "ex.a", &mut c.rng);
    let l = Layout { ws: c.rng.below(2) as u8, crlf: false, quote_keys: false, blocks: 0, escapes: false };
    let body = idl::emit(&prog, None, l, &mut c.rng);
    if !matches!(c.lib("parse IDL", || parse_model(&body).is_ok()), Some(true)) {
        c.count("skipped: not accepted without the fault");
        return;
    }
    let n = format!("Zq{}", c.rng.below(1000));
    let id = format!("ex.a#{}", n);
    let mem = format!("m{}", gen_ident(&mut c.rng));
    let tt = "smithy.api#title".to_string();
    let (mut head, mut tail) = (String::new(), String::new());
    let (fault, want): (&str, Vec<(&'static str, String)>) = match c.rng.below(10) {
        0 => {
            let k = *c.rng.pick(&["structure", "union"]);
            tail = format!("{} {} {{ {}: String, other0: String, {}: Integer }}", k, n, mem, mem);
            ("Smithy member twice", vec![(DUP, mem)])
        }
        1 => {
            tail = format!("structure {} {{ {}: String }}\napply {}$nope0 @sensitive", n, mem, id);
            ("Smithy trait for a member that is not there", vec![(NO_MEMBER, format!("{}$nope0", id))])
        }
        2 => {
            tail = format!("@title(\"one\")\n@title(\"two\")\nstring {}", n);
            ("Smithy trait twice", vec![(TRAIT, tt)])
        }
        3 => {
            tail = format!("@title(\"one\")\nstring {}\napply {} @title(\"two\")", n, id);
            ("Smithy trait applied again", vec![(TRAIT, tt)])
        }
        4 => {
            tail = format!("structure {} {{ @title(\"one\")\n{}: String }}\napply {}${} @title(\"two\")", n, mem, id, mem);
            ("Smithy trait of a member applied again", vec![(TRAIT, tt)])
        }
        5 => {
            let k = gen_ident(&mut c.rng);
            head = format!("metadata zq{} = 1\nmetadata zq{} = \"one\"\n", k, k);
            ("Smithy metadata twice", vec![(META, format!("zq{}", k))])
        }
        6 => {
            let v = c.rng.pick(&["2.0", "3", "0.4", "1.1", "one"]).to_string();
            head = format!("$version: \"{}\"\n", v);
            ("Smithy version", vec![(VERSION, v)])
        }
        7 => {
            let t = format!("ex.q#S${}", mem);
            tail = format!("structure {} {{ {}: {} }}", n, mem, t);
            ("Smithy target named as a member", vec![(NOT_MEMBER, t)])
        }
        8 => {
            let (a, b) = if c.rng.chance(1, 2) { ("structure", "union") } else { ("union", "structure") };
            tail = format!("{} {} {{}}\n{} {} {{}}", a, n, b, n);
            ("Smithy shape twice", vec![(SHAPE, id)])
        }
        _ => {
            let text = format!("namespace ex.a\nuse other.ns#{}\nstring {}\nlist Lq {{ member: {} }}\n", n, n, n);
            let got = c.lib("parse IDL", || parse_model(&text).map(|_| ()));
            if let Some(got) = got {
                judge(c, "Smithy name imported and defined", got, &[(AMBIGUOUS, n)], || text.clone());
            }
            return;
        }
    };
    let text = format!("{}{}\n{}\n", head, body, tail);
    c.sample(|| format!("{} -> {:?}", fault, want));
    let got = read_somehow(c, false, &text);
    if let Some(got) = got {
        judge(c, fault, got, &want, || text.clone());
    }
}

// ---- files --------------------------------------------------------------------------------------------------------
static FILES: AtomicUsize = AtomicUsize::new(0);
/// a place for files of this case alone, removed by the caller
fn place(c: &Case) -> PathBuf {
    let p = c.ctx.scratch.join(format!("f{}", FILES.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    p
}
/// from a string, through a file, or assembled from the file
fn read_somehow(c: &mut Case, json: bool, text: &str) -> Option<Result<(), Error>> {
    let ext = if json { "json" } else { "smithy" };
    match c.rng.below(12) {
        0 => {
            let d = place(c);
            let p = d.join(format!("m.{}", ext));
            std::fs::write(&p, text).unwrap();
            c.count("read through files");
            let r = c.lib("read file", || {
                if json {
                    read_model_from_file(&mut JsonReader::default(), p).map(|_| ())
                } else {
                    read_model_from_file(&mut SmithyReader::default(), p).map(|_| ())
                }
            });
            let _ = std::fs::remove_dir_all(&d);
            r
        }
        1 => {
            let d = place(c);
            std::fs::write(d.join(format!("m.{}", ext)), text).unwrap();
            c.count("assembled");
            let r = assemble(c, &d);
            let _ = std::fs::remove_dir_all(&d);
            r
        }
        k => c.lib("read", || match (json, k % 2) {
            (true, _) => read_model_from_string(&mut JsonReader::default(), text).map(|_| ()),
            (_, 0) => parse_model(text).map(|_| ()),
            _ => read_model_from_string(&mut SmithyReader::default(), text).map(|_| ()),
        }),
    }
}
fn assemble(c: &mut Case, d: &PathBuf) -> Option<Result<(), Error>> {
    c.lib("ModelAssembler", || {
        let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
        a.push(d);
        Model::try_from(a).map(|_| ())
    })
}
/// Each of some files is good, two of them do not go together.
fn files(c: &mut Case) {
    let n = c.rng.range(2, 5);
    let mut texts = vec![];
    for i in 0..n {
        let json = c.rng.chance(1, 2);
        let (mut meta, mut shapes) = (vec![], vec![]);
        for k in 0..c.rng.below(3) {
            meta.push((format!("key{}x{}", i, k), "\"v\"".to_string()));
        }
        for k in 0..c.rng.below(4) {
            shapes.push((format!("S{}x{}", i, k), *c.rng.pick(&["string", "integer", "blob"]), None));
        }
        texts.push((json, meta, shapes));
    }
    let (a, b) = (c.rng.below(n), c.rng.below(n - 1));
    let b = if b >= a { b + 1 } else { b };
    let name = format!("Zq{}", gen_ident(&mut c.rng));
    let (fault, want): (&str, Vec<(&'static str, String)>) = match c.rng.below(3) {
        0 => {
            texts[a].1.push((name.clone(), "\"one\"".into()));
            texts[b].1.push((name.clone(), "\"two\"".into()));
            ("metadata of two files", vec![(META, name)])
        }
        1 => {
            texts[a].2.push((name.clone(), "string", None));
            texts[b].2.push((name.clone(), "integer", None));
            ("shape of two files", vec![(SHAPE, format!("ex.a#{}", name))])
        }
        _ => {
            let t = *c.rng.pick(&["title", "since", "pattern"]);
            texts[a].2.push((name.clone(), "string", Some((t, "one"))));
            texts[b].2.push((name.clone(), "string", Some((t, "two"))));
            ("trait in two files", vec![(TRAIT, format!("smithy.api#{}", t))])
        }
    };
    let d = place(c);
    let mut all = String::new();
    for (i, (json, meta, shapes)) in texts.iter().enumerate() {
        let (text, ext) = if *json {
            let m: Vec<String> = meta.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
            let s: Vec<String> = shapes
                .iter()
                .map(|(n, k, t)| {
                    let t = t.map(|(t, v)| format!(", \"traits\": {{\"smithy.api#{}\": \"{}\"}}", t, v)).unwrap_or_default();
                    format!("\"ex.a#{}\": {{\"type\": \"{}\"{}}}", n, k, t)
                })
                .collect();
            (format!("{{\"smithy\": \"1.0\", \"metadata\": {{{}}}, \"shapes\": {{{}}}}}", m.join(", "), s.join(", ")), "json")
        } else {
            let m: String = meta.iter().map(|(k, v)| format!("metadata {} = {}\n", k, v)).collect();
            let s: String = shapes
                .iter()
                .map(|(n, k, t)| format!("{}{} {}\n", t.map(|(t, v)| format!("@{}(\"{}\")\n", t, v)).unwrap_or_default(), k, n))
                .collect();
            (format!("$version: \"1.0\"\n{}namespace ex.a\n{}", m, s), "smithy")
        };
        std::fs::write(d.join(format!("m{}.{}", i, ext)), &text).unwrap();
        all = all + &text + "\n----\n";
    }
    if let Some(got) = assemble(c, &d) {
        judge(c, fault, got, &want, || all.clone());
    }
    let _ = std::fs::remove_dir_all(&d);
}

// ---- positions ----------------------------------------------------------------------------------------------------
/// A character that begins nothing stands on a line of its own: the error or one of its causes gives that line.
fn position(c: &mut Case) {
    let n = c.rng.below(12);
    let json = c.rng.chance(1, 3);
    let mut lines: Vec<String> = vec![];
    let mut starts = vec![];
    for _ in 0..c.rng.below(4) {
        let pad: &[&str] = if json { &["", "  ", "\t"] } else { &["", "  ", "// a comment", "\t"] };
        lines.push(c.rng.pick(pad).to_string());
    }
    if json {
        lines.extend(["{".to_string(), " \"smithy\": \"1.0\",".into(), " \"shapes\": {".into()]);
        for i in 0..n + 1 {
            starts.push(lines.len());
            let comma = if i == n { "" } else { "," };
            if c.rng.chance(1, 2) {
                lines.push(format!("  \"ex.a#S{}\": {{\"type\": \"string\"}}{}", i, comma));
            } else {
                lines.extend([format!("  \"ex.a#L{}\": {{", i), "    \"type\": \"list\",".into(), "    \"member\": {\"target\": \"smithy.api#Integer\"}".into(), format!("  }}{}", comma)]);
            }
        }
        lines.extend([" }".to_string(), "}".into()]);
    } else {
        if c.rng.chance(1, 2) {
            lines.push("$version: \"1.0\"".to_string());
        }
        if c.rng.chance(1, 3) {
            lines.extend(["metadata a = [".to_string(), "  1, 2".into(), "]".into()]);
        }
        lines.push("namespace ex.a".to_string());
        for i in 0..n {
            starts.push(lines.len());
            match c.rng.below(6) {
                0 => lines.push(format!("string S{}", i)),
                1 => lines.extend([format!("structure T{} {{", i), "  a: String,".into(), "  @required".into(), "  b: Integer".into(), "}".into()]),
                2 => lines.push("// a comment".into()),
                3 => lines.push(String::new()),
                4 => lines.extend(["@tags([".to_string(), "  \"a\",".into(), "  \"b\"])".into(), format!("integer I{}", i)]),
                _ => lines.extend([format!("operation O{} {{", i), "  input: T0".into(), "}".into()]),
            }
        }
        starts.push(lines.len());
    }
    let read = |text: &str| {
        if json {
            read_model_from_string(&mut JsonReader::default(), text)
        } else {
            parse_model(text)
        }
    };
    let end = if c.rng.chance(1, 4) { "\r\n" } else { "\n" };
    let good = lines.join(end) + end;
    if !matches!(c.lib("read", || read(&good).is_ok()), Some(true)) {
        c.viol("position:refused", format!("valid text refused: {}", clip(&good, 600)));
        return;
    }
    let at = *c.rng.pick(&starts);
    let bad = *c.rng.pick(&["~", "%%", "?", "&x", "]", "| }", "=", "*"]);
    lines.insert(at, bad.to_string());
    let line = (at + 1).to_string();
    let text = lines.join(end) + end;
    c.eval(true, &text);
    c.seen("faults", if json { "JSON syntax" } else { "Smithy syntax" });
    match c.lib("read", || read(&text)) {
        Some(Ok(_)) => c.viol("position:accepted", format!("accepted: {}", clip(&text, 700))),
        Some(Err(e)) => {
            let all: Vec<String> = e.iter().map(|x| x.to_string()).collect();
            if !all.iter().any(|m| m.split(|x: char| !x.is_ascii_digit()).any(|w| w == line)) {
                c.viol("position:line", format!("line {} is at fault, the error and its causes say {:?}\n {}", line, all, clip(&text, 700)));
            }
        }
        None => {}
    }
}
