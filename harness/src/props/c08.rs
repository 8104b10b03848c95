//! C08: JSON AST write/read round trip.
use crate::am::*;
use crate::fw::{clip, diff, Case, Ctx};
use crate::js;
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::Model;
use atelier_json::{JsonReader, JsonWriter};

pub fn opts(c: &mut Case) -> GenOpts {
    let many = c.rng.chance(1, 2);
    GenOpts {
        namespaces: if many {
            vec!["example.one".into(), "Example.two".into(), "b".into(), "a._b.c2".into(), "smithy.api".into()]
        } else {
            vec!["example.one".into()]
        },
        shapes: (0, if c.thorough() && c.rng.chance(1, 10) { 60 } else { 10 }),
        unresolved: c.rng.chance(1, 2),
        unresolved_members: true,
        typed_refs: c.rng.chance(1, 2),
        dangling: c.rng.chance(1, 2),
        value_depth: c.rng.range(0, 4),
        short_floats: true,
        repeats: c.rng.chance(1, 3),
        ..Default::default()
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Generated models of every shape kind, value kind and string class; each (model, compact or pretty writer) is one evaluation: the text must be strict JSON and the reader must give the model back. Non-trivial when the model has a shape with members, properties or traits. Non-finite numbers must be refused.");
    ctx.assume("a trait without a value and one with an empty object value are the same thing");
    ctx.cases("round trip", 3000, 0.8, |c| {
        let o = opts(c);
        let m = gen_model(&mut c.rng, &o);
        let model = to_model_shuffled(&m, &mut c.rng);
        for pretty in [false, true] {
            c.eval(m.nontrivial(), &format!("{}{:?}", pretty, m.dump()));
            round(c, &m, &model, pretty);
        }
        for (_, s) in &m.shapes {
            c.seen("shape kinds", s.kind.type_name());
        }
        c.sample(|| m.dump().join("\n"));
    });
    ctx.cases("numbers", 1500, 0.1, |c| {
        let mut m = AModel::default();
        for i in 0..8 {
            let v = if c.rng.chance(1, 3) { AVal::Int(gen_int(&mut c.rng)) } else { AVal::Float(gen_float(&mut c.rng)) };
            m.metadata.insert(format!("k{}", i), v);
        }
        c.eval(true, &format!("{:?}", m.metadata));
        let model = to_model(&m);
        let text = match c.lib("JsonWriter", || write_model_to_string(&mut JsonWriter::default(), &model)) {
            Some(Ok(t)) => t,
            Some(Err(e)) => return c.viol("write-refused", format!("{} for {:?}", e, m.metadata)),
            None => return,
        };
        numbers_read(c, &m, &text);
    });
    ctx.cases("strings", 1500, 0.1, |c| {
        let mut m = AModel::default();
        for _ in 0..6 {
            let k = gen_string(&mut c.rng, 2);
            m.metadata.insert(k, AVal::Str(gen_string(&mut c.rng, 2)));
        }
        c.eval(true, &format!("{:?}", m.metadata));
        round(c, &m, &to_model(&m), c.idx % 2 == 0);
    });
    ctx.cases("not finite", 150, 0.02, |c| {
        let o = GenOpts { shapes: (1, 4), ..Default::default() };
        let mut m = gen_model(&mut c.rng, &o);
        let bad = AVal::Float(*c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]));
        let bad = match c.rng.below(3) {
            0 => AVal::Arr(vec![AVal::Int(1), bad]),
            1 => AVal::Obj([("k".to_string(), bad)].into_iter().collect()),
            _ => bad,
        };
        let id = m.shapes.keys().next().unwrap().clone();
        let sh = m.shapes.get_mut(&id).unwrap();
        let spot = match c.rng.below(3) {
            0 => {
                m.metadata.insert("bad".into(), bad);
                "metadata"
            }
            1 => {
                sh.traits.insert("ex.t#bad".into(), Some(bad));
                "trait"
            }
            _ => match sh.kind.members_mut().into_iter().next() {
                Some((_, mm)) => {
                    mm.traits.insert("ex.t#bad".into(), Some(bad));
                    "member trait"
                }
                None => {
                    sh.traits.insert("ex.t#bad".into(), Some(bad));
                    "trait"
                }
            },
        };
        c.eval(true, &format!("{} {:?}", spot, m.dump()));
        let model = to_model(&m);
        let pretty = c.rng.chance(1, 2);
        if let Some(Ok(t)) = c.lib("JsonWriter", || write_model_to_string(&mut JsonWriter::new(pretty), &model)) {
            c.viol(format!("not-finite:{}", spot), format!("a number that JSON cannot represent was written as {}", clip(&t, 400)));
        }
    });
}

pub fn round(c: &mut Case, m: &AModel, model: &Model, pretty: bool) {
    let used = c.rng.chance(1, 4);
    let text = match c.lib("JsonWriter", || {
        let mut w = JsonWriter::new(pretty);
        if used {
            let _ = write_model_to_string(&mut w, &to_model(&AModel { metadata: [("before".to_string(), AVal::Int(1))].into_iter().collect(), ..Default::default() }));
        }
        write_model_to_string(&mut w, model)
    }) {
        None => return,
        Some(Err(e)) => {
            c.viol("write-refused", format!("{} for {}", e, m.dump().join("\n")));
            return;
        }
        Some(Ok(t)) => t,
    };
    c.add("bytes of JSON", text.len() as u64);
    if let Err(e) = js::parse(&text) {
        c.viol("malformed", format!("{}: {}", e, clip(&text, 800)));
        return;
    }
    // the layout asked for: one line, or a line for every member of the outermost object
    let lines = text.trim_end().lines().count();
    if pretty != (lines > 1) {
        c.viol("layout", format!("pretty {} on {} lines: {}", pretty, lines, clip(&text, 300)));
    }
    match c.lib("JsonReader", || {
        let mut r = JsonReader::default();
        if used {
            let _ = read_model_from_string(&mut r, r#"{"smithy":"1.0","metadata":{"before":1},"shapes":{"a.b#C":{"type":"string"}}}"#);
        }
        read_model_from_string(&mut r, &text)
    }) {
        None => {}
        Some(Err(e)) => c.viol("read-refused", format!("{} for {}", e, clip(&text, 800))),
        Some(Ok(back)) => {
            if back.smithy_version() != model.smithy_version() {
                c.viol("version", format!("{} became {}", model.smithy_version(), back.smithy_version()));
            }
            if let Some((sig, d)) = diff(&m.dump_with(JSONISH), &from_model(&back).dump_with(JSONISH)) {
                c.viol(format!("round:{}", sig), format!("{}\n text {}", d, clip(&text, 600)));
            }
        }
    }
}

/// Every number of `m`'s metadata must come back; the last binary digit of a float is a known finding (K6).
pub fn numbers_read(c: &mut Case, m: &AModel, text: &str) {
    let back = match c.lib("JsonReader", || read_model_from_string(&mut JsonReader::default(), text)) {
        Some(Ok(b)) => from_model(&b),
        Some(Err(e)) => return c.viol("read-refused", format!("{} for {}", e, clip(text, 800))),
        None => return,
    };
    for (k, v) in &m.metadata {
        let got = back.metadata.get(k);
        if got == Some(v) {
            continue;
        }
        let near = match (v, got) {
            (AVal::Float(a), Some(AVal::Float(b))) => a.signum() == b.signum() && (a.to_bits() as i64 - b.to_bits() as i64).abs() <= 2,
            _ => false,
        };
        c.viol(if near { "float-last-digit" } else { "number" }, format!("{:?} became {:?} in {}", v, got, clip(text, 300)));
    }
}
