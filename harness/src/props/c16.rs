//! C16: an online checker of the visitor protocol, with errors injected at every call.
use crate::am::*;
use crate::fw::{Case, Ctx};
use atelier_core::model::shapes::{AppliedTraits, ListOrSet, Map, Operation, Resource, Service, Simple, StructureOrUnion};
use atelier_core::model::shapes::ShapeKind;
use atelier_core::model::values::Value;
use atelier_core::model::visitor::{walk_model, MemberVisitor, ModelVisitor};
use atelier_core::model::{Identifier, Model, ShapeID};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Meta(String, AVal),
    Shape(Id, AShape),
    Member(Id, String, Id, Option<Traits>),
}

#[derive(Debug, PartialEq, Clone)]
struct Injected(usize);

struct Log {
    events: RefCell<Vec<Ev>>,
    fail_at: usize,
}
impl Log {
    fn push(&self, e: Ev) -> Result<(), Injected> {
        let mut v = self.events.borrow_mut();
        v.push(e);
        if v.len() - 1 == self.fail_at {
            Err(Injected(self.fail_at))
        } else {
            Ok(())
        }
    }
    fn shape(&self, id: &ShapeID, t: &AppliedTraits, k: ShapeKind) -> Result<(), Injected> {
        self.push(Ev::Shape(id.to_string(), AShape { kind: from_kind(&k), traits: from_traits(t) }))
    }
}
struct Watch {
    log: Log,
    members: bool,
}
impl ModelVisitor for Watch {
    type Error = Injected;
    fn metadata(&self, key: &str, value: &Value) -> Result<(), Injected> {
        self.log.push(Ev::Meta(key.to_string(), from_value(value)))
    }
    fn simple_shape(&self, id: &ShapeID, t: &AppliedTraits, s: &Simple) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Simple(s.clone()))
    }
    fn list(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::List(s.clone()))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Set(s.clone()))
    }
    fn map(&self, id: &ShapeID, t: &AppliedTraits, s: &Map) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Map(s.clone()))
    }
    fn structure(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Structure(s.clone()))
    }
    fn union(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Union(s.clone()))
    }
    fn service(&self, id: &ShapeID, t: &AppliedTraits, s: &Service) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Service(s.clone()))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, s: &Operation) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Operation(s.clone()))
    }
    fn resource(&self, id: &ShapeID, t: &AppliedTraits, s: &Resource) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Resource(s.clone()))
    }
    fn unresolved_id(&self, id: &ShapeID, t: &AppliedTraits) -> Result<(), Injected> {
        self.log.shape(id, t, ShapeKind::Unresolved)
    }
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = Injected>> {
        if self.members {
            Some(&self.log)
        } else {
            None
        }
    }
}
/// visitors that leave most, or all, to the visitor's defaults
struct Nothing;
impl ModelVisitor for Nothing {
    type Error = Injected;
}
struct Few(Log);
impl ModelVisitor for Few {
    type Error = Injected;
    fn metadata(&self, key: &str, value: &Value) -> Result<(), Injected> {
        self.0.push(Ev::Meta(key.to_string(), from_value(value)))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), Injected> {
        self.0.shape(id, t, ShapeKind::Set(s.clone()))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, s: &Operation) -> Result<(), Injected> {
        self.0.shape(id, t, ShapeKind::Operation(s.clone()))
    }
}
impl MemberVisitor for Log {
    type Error = Injected;
    fn member(&self, parent: &ShapeID, name: &Identifier, target: &ShapeID, traits: Option<&AppliedTraits>) -> Result<(), Injected> {
        self.push(Ev::Member(parent.to_string(), name.to_string(), target.to_string(), traits.map(from_traits)))
    }
}

fn walk(model: &Model, members: bool, fail_at: usize) -> (Result<(), Injected>, Vec<Ev>) {
    let w = Watch { log: Log { events: Default::default(), fail_at }, members };
    let r = walk_model(model, &w);
    (r, w.log.events.into_inner())
}

/// the member calls a shape must be followed by
fn expected(id: &str, s: &AShape) -> Vec<Ev> {
    let mem = s.kind.members();
    if !mem.is_empty() {
        return mem.into_iter().map(|(n, m)| Ev::Member(id.to_string(), n, m.target.clone(), Some(m.traits.clone()))).collect();
    }
    s.kind.refs().into_iter().map(|(n, t)| Ev::Member(id.to_string(), n, t, None)).collect()
}

/// Follow the event log; the reason it is not a walk of the model.  `cut`: the walk was stopped after the last event.
fn follow(m: &AModel, members: bool, evs: &[Ev], cut: bool) -> Result<(), (String, String)> {
    let mut metas = m.metadata.clone();
    let mut shapes = m.shapes.clone();
    let mut owed: Vec<Ev> = vec![];
    for (i, e) in evs.iter().enumerate() {
        let bad = |s: &str| Err((s.to_string(), format!("call {}: {:?} (still owed {:?})", i, e, owed)));
        match e {
            Ev::Member(..) => {
                // numbers that are not a number are not equal to themselves: compare the text
                match owed.iter().position(|o| format!("{:?}", o) == format!("{:?}", e)) {
                    Some(k) => {
                        owed.remove(k);
                    }
                    None => return bad("member-call"),
                }
            }
            _ if !owed.is_empty() => return bad("members-late"),
            Ev::Meta(k, v) => match metas.remove(k) {
                Some(w) if w.dump() == v.dump() => {}
                Some(_) => return bad("metadata-value"),
                None => return bad("metadata-call"),
            },
            Ev::Shape(id, s) => match shapes.remove(id) {
                Some(w) if w.dump(id, Default::default()) == s.dump(id, Default::default()) => {
                    if members {
                        owed = expected(id, &w);
                    }
                }
                Some(w) => return Err((format!("shape-content:{}", w.kind.type_name()), format!("call {}: {:?} instead of {:?}", i, e, w))),
                None => return bad("shape-call"),
            },
        }
    }
    if !cut && (!metas.is_empty() || !shapes.is_empty() || !owed.is_empty()) {
        return Err(("calls-missing".into(), format!("never called for {:?} {:?} {:?}", metas.keys(), shapes.keys(), owed)));
    }
    Ok(())
}

fn case(c: &mut Case) {
    let o = GenOpts {
        namespaces: if c.rng.chance(1, 8) { vec!["example.one".into(), "smithy.api".into()] } else { vec!["example.one".into(), "b".into()] },
        shapes: (0, if c.thorough() && c.rng.chance(1, 10) { 50 } else { 9 }),
        unresolved: c.rng.chance(1, 2),
        unresolved_members: c.rng.chance(1, 4),
        dangling: c.rng.chance(1, 2),
        value_depth: 2,
        strings: 2,
        repeats: c.rng.chance(1, 3),
        ..Default::default()
    };
    let m = gen_model(&mut c.rng, &o);
    let model = to_model_shuffled(&m, &mut c.rng);
    c.eval(m.nontrivial(), &format!("{:?}", m.dump()));
    for s in m.shapes.values() {
        c.seen("shape kinds", s.kind.type_name());
    }
    c.sample(|| m.dump().join("\n"));
    partial(c, &m, &model);
    for members in [true, false] {
        let (r, evs) = match c.lib("walk_model", || walk(&model, members, usize::MAX)) {
            Some(x) => x,
            None => return,
        };
        c.add("visitor calls", evs.len() as u64);
        if r.is_err() {
            c.viol("error", "the walk returned an error that no visitor raised");
        }
        if let Err((sig, d)) = follow(&m, members, &evs, false) {
            c.viol(sig, d);
            return;
        }
        let n = evs.len();
        let points: Vec<usize> = if n <= 40 { (0..n).collect() } else { (0..40).map(|_| c.rng.below(n)).collect() };
        for p in points {
            let (r, evs) = match c.lib("walk_model", || walk(&model, members, p)) {
                Some(x) => x,
                None => return,
            };
            c.count("injected errors");
            if r != Err(Injected(p)) {
                c.viol("injected-result", format!("an error at call {} was returned as {:?}", p, r));
            } else if evs.len() != p + 1 {
                let e = &evs[p.min(evs.len() - 1)];
                let k = match e {
                    Ev::Meta(..) => "metadata".to_string(),
                    Ev::Shape(_, s) => s.kind.type_name().to_string(),
                    Ev::Member(_, n, ..) => format!("member {}", if n.len() > 3 { n.as_str() } else { "" }),
                };
                c.viol("goes-on", format!("{} calls although call {} ({}) failed", evs.len(), p, k));
            } else if let Err((sig, d)) = follow(&m, members, &evs, true) {
                c.viol(format!("stopped:{}", sig), d);
            }
        }
    }
}

/// what a visitor does not implement is passed over
fn partial(c: &mut Case, m: &AModel, model: &Model) {
    if let Some(Err(_)) = c.lib("walk_model", || walk_model(model, &Nothing)) {
        c.viol("error", "a visitor without functions gave an error");
    }
    let w = Few(Log { events: Default::default(), fail_at: usize::MAX });
    if let Some(Err(_)) = c.lib("walk_model", || walk_model(model, &w)) {
        c.viol("error", "the walk returned an error that no visitor raised");
    }
    let mut got: Vec<String> = w.0.events.into_inner().iter().map(|e| match e {
        Ev::Meta(k, _) => format!("metadata {}", k),
        Ev::Shape(id, _) => id.clone(),
        Ev::Member(..) => "member".into(),
    }).collect();
    let mut want: Vec<String> = m.metadata.keys().map(|k| format!("metadata {}", k)).collect();
    want.extend(m.shapes.iter().filter(|s| ["set", "operation"].contains(&s.1.kind.type_name())).map(|s| s.0.clone()));
    got.sort();
    want.sort();
    if got != want {
        c.viol("partial", format!("a visitor of metadata, sets and operations saw {:?}, not {:?}", got, want));
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case walks a generated model with a recording visitor, with and without a member visitor; an online checker of the protocol follows the calls. Then an error is injected at every call in turn (at 40 of them for long walks): the walk must return it and make no further call. Non-trivial when the model has members, properties or traits.");
    ctx.assume("resource identifiers and service renames have no member calls (as the visitor's documentation has it)");
    ctx.cases("walks", 3000, 1.0, case);
}
