//! C12: the Smithy IDL writer, judged by the reference parser, and the round trip through the library's own parser.
use super::c11;
use crate::am::*;
use crate::fw::{clip, diff, Case, Ctx};
use crate::idl::{self, Quirks};
use atelier_core::io::write_model_to_string;
use atelier_core::model::Model;
use atelier_smithy::SmithyWriter;

pub fn write(c: &mut Case, m: &AModel, model: &Model, ns: &str) -> Option<String> {
    let before = if c.rng.chance(1, 4) {
        let o = GenOpts { shapes: (0, 4), dangling: true, unresolved: true, ..Default::default() };
        let mut b = gen_model(&mut c.rng, &o);
        add_forward(c, &mut b, ns);
        Some(to_model(&b))
    } else {
        None
    };
    match c.lib("SmithyWriter", || {
        let mut w = SmithyWriter::new(nsid(ns));
        // a writer that has written something else before
        if let Some(b) = &before {
            let _ = write_model_to_string(&mut w, b);
        }
        write_model_to_string(&mut w, model)
    }) {
        None => None,
        Some(Err(e)) => {
            c.viol("write-refused", format!("{} for {}", e, m.dump().join("\n")));
            None
        }
        Some(Ok(t)) => Some(t),
    }
}

/// forward references without traits, in the written namespace and in others
pub fn add_forward(c: &mut Case, m: &mut AModel, ns: &str) {
    for i in 0..c.rng.below(3) {
        let n = if c.rng.chance(2, 3) { ns } else { "other.space" };
        // sometimes named like a prelude shape or trait
        let name = match c.rng.below(8) {
            0 => c.rng.pick(&["String", "Integer", "documentation", "Document"]).to_string(),
            _ => format!("Fwd{}", i),
        };
        if m.shapes.keys().any(|k| k.split('#').nth(1).map(|x| x.eq_ignore_ascii_case(&name)).unwrap_or(false)) {
            continue;
        }
        let id = format!("{}#{}", n, name);
        let mut traits = Traits::new();
        if c.rng.chance(1, 3) {
            traits.insert("smithy.api#sensitive".into(), None);
            traits.insert("other.traits#custom".into(), Some(AVal::Int(i as i64)));
        }
        m.shapes.insert(id.clone(), AShape { kind: AKind::Unresolved, traits });
        // sometimes used as a target
        if c.rng.chance(1, 2) {
            let keys: Vec<Id> = m.shapes.keys().cloned().collect();
            let k = c.rng.pick(&keys).clone();
            if let Some((_, mm)) = m.shapes.get_mut(&k).unwrap().kind.members_mut().into_iter().next() {
                mm.target = id.clone();
            }
        }
        // or a shape of another namespace that has the same name is
        if c.rng.chance(1, 3) {
            let other = c.rng.pick(&["third.space", "other.space", "smithy.api", ns]).to_string();
            let other = format!("{}#{}", other, name);
            if !m.shapes.contains_key(&other) {
                let keys: Vec<Id> = m.shapes.keys().cloned().collect();
                let k = c.rng.pick(&keys).clone();
                if c.rng.chance(1, 2) {
                    if let Some((_, mm)) = m.shapes.get_mut(&k).unwrap().kind.members_mut().into_iter().next() {
                        mm.target = other;
                        c.count("names shared with an imported shape");
                    }
                } else if !matches!(m.shapes[&k].kind, AKind::Unresolved) {
                    m.shapes.get_mut(&k).unwrap().traits.insert(other, None);
                    c.count("names shared with an imported shape");
                }
            }
        }
    }
}

/// `exact`: everything in the model belongs to `ns` or is unresolved
fn check(c: &mut Case, m: &AModel, model: &Model, ns: &str, exact: bool) {
    let text = match write(c, m, model, ns) {
        Some(t) => t,
        None => return,
    };
    c.add("bytes of IDL", text.len() as u64);
    let part = |x: &AModel| -> AModel { if exact { x.clone() } else { x.only_ns(ns) } };
    let want = part(m);
    match idl::model_of(&text, Quirks::default()) {
        Err(e) => return c.viol(format!("malformed:{}", c11::reason(&format!("{:?}", e))), format!("{:?}\n {}", e, clip(&text, 1500))),
        Ok((got, used)) => {
            if let Some((sig, d)) = diff(&want.dump_with(JSONISH), &part(&got).dump_with(JSONISH)) {
                return c.viol(format!("write:{}", sig), format!("{}\n text {}", d, clip(&text, 1500)));
            }
            if used == Default::default() {
                c.count("documents free of recorded deviations");
            }
        }
    }
    match c11::read(c, &text) {
        None => {}
        Some(Err(e)) => c.viol(format!("round-refused:{}", c11::reason(&e)), format!("{}\n text {}", clip(&e, 500), clip(&text, 1500))),
        Some(Ok(back)) => {
            if back.smithy_version() != model.smithy_version() {
                c.viol("version", format!("{} became {}", model.smithy_version(), back.smithy_version()));
            }
            let mut got = from_model(&back);
            if !exact {
                got = got.only_ns(ns);
                if let Ok((full, _)) = idl::model_of(&text, Quirks::default()) {
                    // judged against the whole text, so that a recorded deviation is recognised exactly
                    if let Some((_, d)) = diff(&want.dump_with(JSONISH), &full.only_ns(ns).dump_with(JSONISH)) {
                        return c.viol("write", d);
                    }
                    return c11::judge(c, &text, &full, &from_model(&back), "round");
                }
            }
            c11::judge(c, &text, &want, &got, "round");
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case writes one namespace of a generated model as IDL. The text must be accepted by the reference parser and mean the model's part of that namespace (everything, when the model has no other definitions), and the library's own parser must give the same model back. Non-trivial when the model has members, properties or traits.");
    ctx.assume("the four recorded deviations of the IDL reader show up in the round trip and are recognised exactly; references to an undefined shape by a member ID and name clashes between undefined shapes are not generated");
    ctx.cases("one namespace", 3000, 0.5, |c| {
        let mut o = c11::opts(c);
        o.unresolved_members = c.rng.chance(1, 2);
        let mut m = gen_model(&mut c.rng, &o);
        if c.rng.chance(1, 2) {
            add_forward(c, &mut m, "example.one");
        }
        if c.rng.chance(1, 2) {
            m = idl::plain_model(&m);
        }
        let model = to_model_shuffled(&m, &mut c.rng);
        c.eval(m.nontrivial(), &format!("{:?}", m.dump()));
        for s in m.shapes.values() {
            c.seen("shape kinds", s.kind.type_name());
        }
        c.sample(|| m.dump().join("\n"));
        check(c, &m, &model, "example.one", true);
    });
    ctx.cases("several namespaces", 2000, 0.4, |c| {
        let mut o = c11::opts(c);
        o.namespaces = vec!["example.one".into(), "example.two".into(), "b".into()];
        // now and then one namespace refers to dozens of shapes of another
        o.shapes = if c.rng.chance(1, 150) { (45, 110) } else { (2, 14) };
        if o.shapes.0 > 40 {
            o.namespaces.pop();
            o.value_depth = 0;
        }
        let mut m = gen_model(&mut c.rng, &o);
        if c.rng.chance(1, 2) {
            m = idl::plain_model(&m);
        }
        let model = to_model_shuffled(&m, &mut c.rng);
        for ns in m.namespaces() {
            c.eval(m.nontrivial(), &format!("{} {:?}", ns, m.dump()));
            check(c, &m, &model, &ns, false);
        }
    });
    ctx.cases("not finite", 150, 0.02, |c| {
        let o = GenOpts { shapes: (1, 4), ..Default::default() };
        let mut m = gen_model(&mut c.rng, &o);
        let bad = AVal::Float(*c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
        if c.rng.chance(1, 2) {
            m.metadata.insert("bad".into(), AVal::Arr(vec![bad]));
        } else {
            let id = m.shapes.keys().next().unwrap().clone();
            m.shapes.get_mut(&id).unwrap().traits.insert("ex.t#bad".into(), Some(bad));
        }
        c.eval(true, &format!("{:?}", m.dump()));
        let model = to_model(&m);
        if let Some(Ok(t)) = c.lib("SmithyWriter", || write_model_to_string(&mut SmithyWriter::new(nsid("example.one")), &model)) {
            c.viol("not-finite", format!("a number that the IDL cannot represent was written as {}", clip(&t, 400)));
        }
    });
}
