//! C11: parsing Smithy IDL against an independent emitter, a reference parser and a reference elaborator.
use super::c07;
use crate::am::*;
use crate::elab::*;
use crate::fw::{clip, diff, Case, Ctx};
use crate::idl::{self, Bad, Layout, Quirks};
use atelier_core::io::read_model_from_string;
use atelier_core::model::Model;
use atelier_smithy::{parse_model, SmithyReader};

/// signatures of the recorded deviations of the IDL reader
pub const K: [(&str, fn(&mut Quirks)); 4] = [
    ("idl-escapes-kept", |q| q.raw_escapes = true),
    ("idl-quoted-keys-kept", |q| q.quoted_keys = true),
    ("idl-text-block-indentation-kept", |q| q.raw_blocks = true),
    ("idl-list-member-traits-dropped", |q| q.list_traits = true),
];

pub fn layout(c: &mut Case) -> Layout {
    let r = &mut c.rng;
    Layout { ws: r.below(3) as u8, crlf: r.chance(1, 5), quote_keys: false, blocks: r.below(2) as u8, escapes: false }
}

pub fn read(c: &mut Case, text: &str) -> Option<Result<Model, String>> {
    let direct = c.rng.chance(1, 2);
    let used = c.rng.chance(1, 4);
    c.lib("parse IDL", || {
        if direct {
            parse_model(text).map_err(|e| e.to_string())
        } else if used {
            // a reader that has read something else before
            let mut r = SmithyReader::default();
            let _ = read_model_from_string(&mut r, "$version: \"1.0\"\nmetadata before = 1\nnamespace example.one\nuse other.ns#Thing\nstring Before\nlist Thing2 { member: Thing }");
            let _ = read_model_from_string(&mut r, "namespace example.one\nstring {");
            read_model_from_string(&mut r, text).map_err(|e| e.to_string())
        } else {
            read_model_from_string(&mut SmithyReader::default(), text).map_err(|e| e.to_string())
        }
    })
}

/// Compare what the library read from `text` with what the text says; differences that are exactly one of the recorded
/// deviations are reported under their own signature.
pub fn judge(c: &mut Case, text: &str, want: &AModel, got: &AModel, tag: &str) {
    let g = got.dump_with(JSONISH);
    let w = want.dump_with(JSONISH);
    if g == w {
        return;
    }
    match explain(text, got) {
        Some(names) => {
            for n in names {
                c.viol(n, format!("read from {}", clip(text, 600)));
            }
            return;
        }
        None => {}
    }
    let (sig, d) = diff(&w, &g).unwrap();
    c.viol(format!("{}:{}", tag, sig), format!("{}\n text {}", d, clip(text, 1200)));
}

/// the recorded deviations with which the text means exactly `got`
pub fn explain(text: &str, got: &AModel) -> Option<Vec<&'static str>> {
    let g = got.dump_with(JSONISH);
    for bits in [1u8, 2, 4, 8, 3, 5, 9, 6, 10, 12, 7, 11, 13, 14, 15] {
        let mut q = Quirks::default();
        let mut names = vec![];
        for (i, (n, f)) in K.iter().enumerate() {
            if bits & (1 << i) != 0 {
                f(&mut q);
                names.push(*n);
            }
        }
        if let Ok((m, _)) = idl::model_of(text, q) {
            if m.dump_with(JSONISH) == g {
                return Some(names);
            }
        }
    }
    None
}

fn what(e: &str) -> String {
    e.chars().filter(|c| !c.is_ascii_digit()).take(30).collect()
}

pub fn opts(c: &mut Case) -> GenOpts {
    GenOpts {
        shapes: (0, if c.thorough() && c.rng.chance(1, 10) { 50 } else { 9 }),
        unresolved: c.rng.chance(1, 2),
        typed_refs: c.rng.chance(1, 2),
        dangling: c.rng.chance(1, 2),
        value_depth: c.rng.range(0, 4),
        repeats: c.rng.chance(1, 3),
        ..Default::default()
    }
}

fn document(c: &mut Case, p: &Prog, l: Layout) {
    let version = *c.rng.pick(&[None, Some("1.0"), Some("\"1.0\""), Some("\"1\""), Some("1")]);
    let text = idl::emit(p, version, l, &mut c.rng);
    let want = Elab::new(p).run();
    // the emitter and the reference parser must agree before the library is judged
    match (&want, idl::model_of(&text, Quirks::default())) {
        (Ok(w), Ok((m, _))) => {
            if let Some((s, d)) = diff(&w.dump_with(JSONISH), &m.dump_with(JSONISH)) {
                panic!("reference parser and emitter disagree {} {}\n{}", s, d, text);
            }
        }
        (Err(_), Err(Bad::Reject(_))) => {}
        (w, r) => panic!("reference parser and emitter disagree: {:?} {:?}\n{}", w.is_ok(), r.err(), text),
    }
    c.eval(!p.defs.is_empty(), &text);
    c.add("bytes of IDL", text.len() as u64);
    for d in &p.defs {
        c.seen("statement kinds", &format!("{:?}", std::mem::discriminant(&d.kind)));
    }
    c.add("apply statements", p.applies.len() as u64);
    c.add("use statements", p.uses.len() as u64);
    c.sample(|| text.clone());
    let got = match read(c, &text) {
        None => return,
        Some(g) => g,
    };
    match (want, got) {
        (Ok(w), Ok(g)) => judge(c, &text, &w, &from_model(&g), "parse"),
        (Err(_), Err(_)) => c.count("documents in error"),
        (Ok(_), Err(e)) => c.viol(format!("rejected:{}", reason(&e)), format!("{}\n text {}", clip(&e, 600), clip(&text, 1200))),
        (Err(w), Ok(_)) => c.viol(format!("accepted:{}", what(&w)), format!("should be an error ({})\n text {}", w, clip(&text, 1200))),
    }
}
/// the class of an error message
pub fn reason(e: &str) -> String {
    match e.find("expected") {
        Some(i) => e[i..].chars().take(60).collect(),
        None => e.chars().filter(|c| !c.is_ascii_digit()).take(30).collect(),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case is one IDL document written by an independent emitter (random layout, comments, commas, name forms, apply statements, documentation comments, text blocks) from a generated model or name-resolution program; the reference parser must first agree with the emitter, then the library's model must equal the reference elaboration. Non-trivial when it defines a shape.");
    ctx.assume("four deviations of the reader are recorded as known findings and recognised exactly: escapes kept, quoted keys kept, text block indentation kept, list member traits dropped");
    ctx.cases("models", 4000, 0.45, |c| {
        let o = opts(c);
        let m = idl::plain_model(&gen_model(&mut c.rng, &o));
        let p = idl::prog_of(&m, "example.one", &mut c.rng);
        let l = layout(c);
        document(c, &p, l);
    });
    ctx.cases("names", 6000, 0.3, |c| {
        let wild = c.idx % 3 == 0;
        let mut p = c07::gen(c, wild);
        p.refs.clear();
        p.defs.retain(|d| !d.name.contains('#'));
        for d in p.defs.iter_mut() {
            plain_tbs(&mut d.traits);
            match &mut d.kind {
                DKind::List(m) => m.traits.clear(),
                DKind::Set(m) => plain_tbs(&mut m.traits),
                DKind::Map(k, v) => {
                    plain_tbs(&mut k.traits);
                    plain_tbs(&mut v.traits);
                }
                DKind::Structure(ms) | DKind::Union(ms) => ms.iter_mut().for_each(|m| plain_tbs(&mut m.traits)),
                _ => {}
            }
        }
        // a member of a shape that is not defined is not judged
        p.applies.retain(|(id, _)| !id.contains('$') || p.defs.iter().any(|d| name_of(shape_part(id)) == d.name && (!id.contains('#') || ns_of(id) == p.ns)));
        for (_, t) in p.applies.iter_mut() {
            plain_tbs(std::slice::from_mut(t));
        }
        for (_, v) in p.meta.iter_mut() {
            *v = idl::plain_val(v, true);
        }
        let l = layout(c);
        document(c, &p, l);
    });
    ctx.cases("strings", 1500, 0.1, |c| {
        let o = opts(c);
        let mut m = gen_model(&mut c.rng, &o);
        m.shapes.retain(|_, s| s.kind != AKind::Unresolved);
        let p = idl::prog_of(&m, "example.one", &mut c.rng);
        let mut l = layout(c);
        l.quote_keys = c.rng.chance(1, 2);
        l.escapes = c.rng.chance(1, 2);
        l.blocks = c.rng.below(3) as u8;
        document(c, &p, l);
    });
    ctx.cases("brackets in texts", 300, 0.03, |c| {
        // what looks like nesting, quotation or a comment inside texts and comments is none
        let mut p = Prog::default();
        let pieces = ["[", "{", "(", "]", "}", ")", "\"", "\\", "//", "'", "\n", "a", " ", "@", "\"\"\""];
        for i in 0..c.rng.range(1, 3) {
            let n = *c.rng.pick(&[3, 20, 200, 1500]);
            let few = c.rng.below(3);
            let s: String = (0..n).map(|_| *c.rng.pick(if few == 0 { &pieces[..3] } else { &pieces[..] })).collect();
            let s = if few == 1 { idl::plain(&s) } else { s };
            p.meta.push((format!("k{}", i), AVal::Str(s)));
        }
        let mut l = layout(c);
        l.escapes = c.rng.chance(1, 2);
        let text = idl::emit(&p, Some("1.0"), l, &mut c.rng);
        let n = *c.rng.pick(&[0, 2, 60, 300]);
        let open: String = (0..n).map(|_| *c.rng.pick(&["[", "{", "(", "\"", "\\", "'", "/"])).collect();
        let text = format!("//{}{}{}", open, c.rng.pick(&["\n", "\r", "\r\n"]), text);
        c.eval(true, &text);
        let want = match idl::model_of(&text, Quirks::default()) {
            Ok((m, _)) => m,
            Err(_) => return c.count("not judged"),
        };
        match read(c, &text) {
            None => {}
            Some(Ok(g)) => judge(c, &text, &want, &from_model(&g), "parse"),
            Some(Err(e)) => c.viol(format!("rejected:{}", reason(&e)), format!("{}\n text {}", clip(&e, 600), clip(&text, 1200))),
        }
    });
    ctx.cases("values", 1500, 0.1, |c| {
        // metadata only: the value grammar
        let mut p = Prog::default();
        let o = GenOpts { strings: 2, ..Default::default() };
        for i in 0..c.rng.range(1, 5) {
            let d = c.rng.range(0, 5);
            p.meta.push((format!("k{}", i), idl::plain_val(&gen_val(&mut c.rng, &o, d), true)));
        }
        let l = layout(c);
        document(c, &p, l);
    });
}
fn plain_tbs(ts: &mut [Tb]) {
    for (_, v) in ts {
        // a trait written without a value has an empty object for its value
        *v = Some(match v {
            Some(x) => idl::plain_val(x, true),
            None => AVal::Obj(Default::default()),
        });
    }
}
