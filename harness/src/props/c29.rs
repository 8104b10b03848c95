//! C29: whatever is read can be processed: every writer, validator, linter, walk, query and merge of a model read from any
//! text gives a result or an error.
use crate::fw::{clip, Case, Ctx};
use crate::untrusted;

fn one(c: &mut Case) {
    let kind = *c.rng.pick(&['i', 'j', 'j']);
    let (t, how) = untrusted::text(kind, &mut c.rng);
    process(c, kind, how, &t);
}
fn process(c: &mut Case, kind: char, how: &str, t: &[u8]) {
    let show = |n: usize| clip(&String::from_utf8_lossy(t), n);
    let v = match untrusted::ask(c, kind, true, t) {
        Some(v) => v,
        None => return,
    };
    c.eval(v[0] == "ok", &format!("{}{:?}", kind, t));
    if v[0] == "ok" {
        c.count(&format!("models read from {} {}", kind, how));
        c.sample(|| format!("{} {}: {}", kind, how, show(300)));
    }
    for n in &v[1..] {
        if let Some(p) = n.strip_prefix("panic ") {
            if p == "monitor" {
                panic!("the monitor failed for {}", show(500));
            }
            if p.contains("panic@") && !p.starts_with("panic@") {
                c.viol(format!("{}", p.split(' ').next().unwrap()), format!("{} for {}", clip(p, 300), show(600)));
            }
        } else if let Some(d) = n.strip_prefix("did ") {
            c.count(d);
            if d.starts_with("merge ") && d != "merge true true" {
                c.viol("merge", format!("{} for {}", d, show(600)));
            }
            if d == "compare false" {
                c.viol("compare", format!("not equal to its clone: {}", show(600)));
            }
        }
    }
}
/// as deep as the readers go
fn nested(c: &mut Case) {
    let (kind, pre, open, mid, close, post) = super::c10::NESTS[c.idx as usize % super::c10::NESTS.len()];
    if kind == 's' {
        return;
    }
    for d in [1usize, 30, 62, 63, 64, 124, 126, 127, 128] {
        let t = format!("{}{}{}{}{}", pre, open.repeat(d), mid, close.repeat(d), post);
        c.seen("nesting", &t);
        process(c, kind, "nested", t.as_bytes());
    }
}
/// large models, chains and circles of references
fn large(c: &mut Case) {
    let n = if c.thorough() { 3000 } else { 600 };
    let shape = |k: usize| -> String {
        let next = (k + 1) % n;
        match c.idx % 8 {
            0 => format!("\"ex.a#S{}\":{{\"type\":\"structure\",\"members\":{{\"m\":{{\"target\":\"ex.a#S{}\"}}}}}}", k, next),
            1 => format!("\"ex.a#S{}\":{{\"type\":\"list\",\"member\":{{\"target\":\"ex.a#S{}\"}}}}", k, next),
            2 => format!("\"ex.a#S{}\":{{\"type\":\"resource\",\"resources\":[{{\"target\":\"ex.a#S{}\"}}]}}", k, next),
            3 => format!("\"ex.a#S{}\":{{\"type\":\"service\",\"version\":\"1\",\"resources\":[{{\"target\":\"ex.a#S{}\"}}]}}", k, next),
            4 => format!("\"ex.a#S{}\":{{\"type\":\"operation\",\"input\":{{\"target\":\"ex.a#S{}\"}},\"errors\":[{{\"target\":\"ex.a#S{}\"}}]}}", k, next, k),
            5 => format!("\"ex.a#S{}\":{{\"type\":\"string\",\"traits\":{{\"ex.a#S{}\":{{}}}}}}", k, next),
            6 => format!("\"ex.n{}#S\":{{\"type\":\"map\",\"key\":{{\"target\":\"ex.n{}#S\"}},\"value\":{{\"target\":\"ex.n{}#S\"}}}}", k, next, k),
            _ => format!("\"ex.a#S{}\":{{\"type\":\"resource\",\"resources\":[{{\"target\":\"ex.a#S{}\"}}],\"identifiers\":{{\"a\":{{\"target\":\"ex.a#S{}\"}}}},\"read\":{{\"target\":\"ex.a#S{}\"}}}}", k, k, k, next),
        }
    };
    let t = format!("{{\"smithy\":\"1.0\",\"shapes\":{{{}}}}}", (0..n).map(shape).collect::<Vec<_>>().join(","));
    process(c, 'j', "large", t.as_bytes());
}
pub fn run(ctx: &Ctx) {
    ctx.assume("Panics while reading are judged by C10.");
    ctx.rule("each text that is read as a model: ten writers (the Smithy writer for each namespace and one that is not there), description, validators, linters, walk, merge into an empty and into the same model, comparison and queries for every shape type return, without a panic, abort, hang or output. Non-trivial when the text is a model.");
    ctx.bounded("nested", super::c10::NESTS.len() as u64, nested);
    ctx.bounded("large", 8, large);
    ctx.cases("texts", 40000, 0.8, one);
}
