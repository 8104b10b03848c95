//! C14: chains of conversions between IDL and JSON AST.
use super::c11;
use crate::am::*;
use crate::fw::{clip, diff, Case, Ctx};
use crate::idl;
use atelier_core::io::lines::make_line_oriented_form;
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::Model;
use atelier_json::{JsonReader, JsonWriter};
use atelier_smithy::SmithyWriter;

fn explicit(t: &mut Traits) {
    for v in t.values_mut() {
        if v.is_none() {
            *v = Some(AVal::Obj(Default::default()));
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case takes a generated single-namespace model through 2 to 6 conversions between Smithy IDL and JSON AST in random order; after every step the model and its line-oriented form must be those of the start. Non-trivial when the model has members, properties or traits.");
    ctx.assume("the four recorded deviations of the IDL reader are recognised exactly at each IDL step (the chain then continues with the intended model)");
    ctx.cases("chains", 2500, 0.7, |c| chain(c, true));
    ctx.cases("chains with any text", 800, 0.3, |c| chain(c, false));
}

fn chain(c: &mut Case, plain: bool) {
    let mut o = c11::opts(c);
    o.short_floats = true;
    o.unresolved_members = c.rng.chance(1, 2);
    let mut m = gen_model(&mut c.rng, &o);
    if c.rng.chance(1, 2) {
        super::c12::add_forward(c, &mut m, "example.one");
    }
    if plain {
        m = idl::plain_model(&m);
    }
    for s in m.shapes.values_mut() {
        explicit(&mut s.traits);
        for (_, mm) in s.kind.members_mut() {
            explicit(&mut mm.traits);
        }
    }
    let want = m.dump_with(JSONISH);
    let first = to_model_shuffled(&m, &mut c.rng);
    let lines = make_line_oriented_form(&first);
    c.eval(m.nontrivial(), &format!("{:?}", m.dump()));
    let mut model: Model = first;
    let steps = c.rng.range(2, 6);
    let mut path = vec![];
    for _ in 0..steps {
        let json = c.rng.chance(1, 2);
        path.push(if json { "JSON" } else { "IDL" });
        c.count(if json { "JSON steps" } else { "IDL steps" });
        let text = if json {
            c.lib("JsonWriter", || write_model_to_string(&mut JsonWriter::new(true), &model).map_err(|e| e.to_string()))
        } else {
            c.lib("SmithyWriter", || write_model_to_string(&mut SmithyWriter::new(nsid("example.one")), &model).map_err(|e| e.to_string()))
        };
        let text = match text {
            None => return,
            Some(Err(e)) => return c.viol("write-refused", format!("{} after {:?}", e, path)),
            Some(Ok(t)) => t,
        };
        let back = if json {
            c.lib("JsonReader", || read_model_from_string(&mut JsonReader::default(), &text).map_err(|e| e.to_string()))
        } else {
            c11::read(c, &text)
        };
        let back = match back {
            None => return,
            Some(Err(e)) => return c.viol(format!("read-refused:{}", c11::reason(&e)), format!("{} after {:?}: {}", clip(&e, 500), path, clip(&text, 800))),
            Some(Ok(b)) => b,
        };
        let got = from_model(&back);
        if got.dump_with(JSONISH) != want {
            if json {
                let (sig, d) = diff(&want, &got.dump_with(JSONISH)).unwrap();
                return c.viol(format!("chain:{}", sig), format!("after {:?}{}\n text {}", path, d, clip(&text, 800)));
            }
            let before = c.viols.len();
            c11::judge(c, &text, &m, &got, "chain");
            if plain || c.viols.len() > before && !c11::K.iter().any(|k| k.0 == c.viols[before].0) {
                return;
            }
            // a recorded deviation: go on with the model as intended
            model = to_model(&m);
            continue;
        }
        if back.smithy_version() != model.smithy_version() {
            return c.viol("version", format!("after {:?}", path));
        }
        let l = make_line_oriented_form(&back);
        if l != lines {
            let (_, d) = diff(&lines, &l).unwrap();
            return c.viol("lines", format!("line-oriented form changed after {:?}{}", path, d));
        }
        model = back;
    }
    c.seen("chains", &path.join(" "));
    c.sample(|| format!("{:?}\n{}", path, m.dump().join("\n")));
}
