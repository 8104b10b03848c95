//! C15: the line-oriented form against an independent rendering of the documented format, its independence of
//! construction order, and its ability to tell models apart.
use super::c04;
use crate::am::*;
use crate::fw::{clip, diff, Case, Ctx};
use crate::rng::Rng;
use atelier_core::io::lines::{make_line_oriented_form, LineOrientedWriter};
use atelier_core::io::write_model_to_string;
use atelier_core::model::Model;

/// A line of the form: everything before the value, and the value at the end, if any.
pub type Fact = (String, Option<AVal>);

fn leaves(prefix: String, v: &AVal, out: &mut Vec<Fact>) {
    match v {
        AVal::Arr(a) if !a.is_empty() => {
            for (i, x) in a.iter().enumerate() {
                leaves(format!("{}[{}]=", prefix, i), x, out);
            }
        }
        AVal::Obj(m) if !m.is_empty() => {
            for (k, x) in m {
                leaves(format!("{}{{{}}}=", prefix, k), x, out);
            }
        }
        v => out.push((prefix, Some(v.clone()))),
    }
}

fn traits(prefix: &str, t: &Traits, out: &mut Vec<Fact>) {
    for (id, v) in t {
        match v {
            None => out.push((format!("{}::trait::{}", prefix, id), None)),
            Some(v) => leaves(format!("{}::trait::{}<=", prefix, id), v, out),
        }
    }
}

/// The facts of the documented format.
pub fn facts(m: &AModel) -> Vec<Fact> {
    let mut out = vec![];
    for (k, v) in &m.metadata {
        leaves(format!("meta::{}<=", k), v, &mut out);
    }
    for (id, s) in &m.shapes {
        let p = format!("{}::{}", s.kind.type_name(), id);
        out.push((p.clone(), None));
        traits(&p, &s.traits, &mut out);
        for (n, mm) in s.kind.members() {
            out.push((format!("{}::{}=>{}", p, n, mm.target), None));
            traits(&format!("{}::{}", p, n), &mm.traits, &mut out);
        }
        if let AKind::Service(x) = &s.kind {
            out.push((format!("{}::version<=", p), Some(AVal::Str(x.version.clone()))));
            for (k, v) in &x.renames {
                out.push((format!("{}::rename::{}<={}", p, k, v), None));
            }
        }
        if let AKind::Resource(x) = &s.kind {
            for (k, v) in &x.identifiers {
                out.push((format!("{}::identifier::{}=>{}", p, k, v), None));
            }
        }
        if s.kind.members().is_empty() {
            for (n, t) in s.kind.refs() {
                let n = match n.as_str() {
                    "operations" => "operation",
                    "resources" => "resource",
                    "errors" => "error",
                    "collectionOperations" => "collection_operation",
                    n => n,
                };
                out.push((format!("{}::{}=>{}", p, n, t), None));
            }
        }
    }
    out
}

fn hostile(s: &str) -> bool {
    s.chars().any(|c| c == '"' || c == '\\' || c.is_control() || c == '\u{2028}' || c == '\u{2029}')
}

/// every rendering of the fact that "correctly quoted" admits
fn renderings(f: &Fact) -> Vec<String> {
    let (p, v) = f;
    match v {
        None => vec![p.clone()],
        Some(AVal::Null) => vec![format!("{}()", p)],
        Some(AVal::Bool(b)) => vec![format!("{}{}", p, b)],
        Some(AVal::Int(i)) => vec![format!("{}{}", p, i)],
        Some(AVal::Arr(_)) => vec![format!("{}[]", p)],
        Some(AVal::Obj(_)) => vec![format!("{}{{}}", p)],
        Some(AVal::Float(_)) => vec![],
        Some(AVal::Str(s)) => {
            vec![
                format!("{}\"{}\"", p, s),
                format!("{}{:?}", p, s),
                format!("{}{}", p, serde_json::to_string(s).unwrap_or_default()),
                format!("{}\"{}\"", p, s.escape_debug()),
            ]
        }
    }
}

fn float_line(l: &str, prefix: &str, f: f64) -> bool {
    match l.strip_prefix(prefix) {
        Some(t) => t.parse::<i128>().is_err() && t.parse::<f64>().map_or(false, |x| x.to_bits() == f.to_bits() || (x.is_nan() && f.is_nan())),
        None => false,
    }
}

/// match the observed lines with the facts; what is left on each side
fn leftover(want: &[Fact], got: &[String]) -> (Vec<String>, Vec<String>) {
    use std::collections::HashMap;
    let mut have: HashMap<&str, usize> = HashMap::new();
    for l in got {
        *have.entry(l).or_insert(0) += 1;
    }
    let mut missing = vec![];
    for f in want {
        let hit: Option<&str> = match &f.1 {
            Some(AVal::Float(x)) => have.iter().find(|(l, n)| **n > 0 && float_line(l, &f.0, *x)).map(|x| *x.0),
            _ => renderings(f).iter().find_map(|r| have.get_key_value(r.as_str()).filter(|x| *x.1 > 0).map(|x| *x.0)),
        };
        match hit {
            Some(l) => *have.get_mut(l).unwrap() -= 1,
            None => missing.push(format!("{}{}", f.0, f.1.as_ref().map(|v| v.dump()).unwrap_or_default())),
        }
    }
    let mut extra: Vec<String> = vec![];
    for (l, n) in have {
        for _ in 0..n {
            extra.push(l.to_string());
        }
    }
    (missing, extra)
}

fn class(l: &str) -> String {
    let mut out = vec![];
    for s in l.split("::") {
        let s: String = s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        out.push(if s.is_empty() { "?".into() } else { s });
    }
    if out.len() > 2 {
        out[1] = "*".into();
        out.truncate(3);
    } else {
        out.truncate(1);
    }
    out.join("::")
}

fn check(c: &mut Case, m: &AModel, model: &Model) -> Option<Vec<String>> {
    let lines = c.lib("make_line_oriented_form", || make_line_oriented_form(model))?;
    c.add("lines", lines.len() as u64);
    if lines.windows(2).any(|w| w[0] > w[1]) {
        c.viol("not-sorted", format!("{:?}", lines));
    }
    let want = facts(m);
    if lines.len() != want.len() {
        let (a, b) = leftover(&want, &lines);
        let sig = format!("lines:-{}+{}", a.first().map(|x| class(x)).unwrap_or_default(), b.first().map(|x| class(x)).unwrap_or_default());
        c.viol(sig, format!("{} facts gave {} lines\n missing {:?}\n extra {:?}", want.len(), lines.len(), a, b));
        return Some(lines);
    }
    let (a, b) = leftover(&want, &lines);
    if !a.is_empty() || !b.is_empty() {
        let sig = format!("lines:-{}+{}", a.first().map(|x| class(x)).unwrap_or_default(), b.first().map(|x| class(x)).unwrap_or_default());
        c.viol(sig, clip(&format!("missing {:?}\n extra {:?}", a, b), 1500));
    }
    let (version, lines_of_text): (Vec<&String>, Vec<&String>) =
        lines.iter().partition(|l| l.starts_with("service::") && !l.contains("::trait::") && l.contains("::version<="));
    if let Some(l) = version.iter().find(|l| l.contains('\n') || l.contains('\r')) {
        c.viol("version-raw", format!("the version of a service is spread over several lines: {:?}", l));
    }
    if lines_of_text.iter().any(|l| l.contains('\n') || l.contains('\r')) {
        c.viol("line-text-raw", format!("a fact is spread over several lines: {:?}", lines_of_text.iter().find(|l| l.contains('\n') || l.contains('\r'))));
    }
    let text = c.lib("LineOrientedWriter", || write_model_to_string(&mut LineOrientedWriter::default(), model).map_err(|e| e.to_string()))?;
    match text {
        Err(e) => c.viol("writer-refused", e),
        Ok(t) => {
            let w: String = lines.iter().map(|l| format!("{}\n", l)).collect();
            if t != w {
                c.viol("writer", format!("the writer gave {:?} for {:?}", clip(&t, 600), clip(&w, 600)));
            }
        }
    }
    Some(lines)
}

fn tame_str(s: &str) -> String {
    s.chars().filter(|c| !hostile(&c.to_string())).collect()
}
fn tame_val(v: &AVal) -> AVal {
    match v {
        AVal::Str(s) => AVal::Str(tame_str(s)),
        AVal::Arr(a) => AVal::Arr(a.iter().map(tame_val).collect()),
        AVal::Obj(m) => AVal::Obj(m.iter().map(|(k, v)| (tame_key(k), tame_val(v))).collect()),
        v => v.clone(),
    }
}
fn tame_key(k: &str) -> String {
    tame_str(k).chars().filter(|c| !matches!(c, '{' | '}' | '[' | ']' | '<' | '=')).collect()
}
pub fn tame(m: &AModel) -> AModel {
    fn tt(t: &mut Traits) {
        for v in t.values_mut() {
            *v = v.as_ref().map(tame_val);
        }
    }
    let mut m = m.clone();
    m.metadata = m.metadata.iter().map(|(k, v)| (tame_key(k), tame_val(v))).collect();
    for s in m.shapes.values_mut() {
        tt(&mut s.traits);
        for (_, mm) in s.kind.members_mut() {
            tt(&mut mm.traits);
        }
    }
    m
}

pub fn opts(c: &mut Case) -> GenOpts {
    GenOpts {
        namespaces: if c.rng.chance(1, 2) { vec!["example.one".into()] } else { vec!["example.one".into(), "b".into(), "example.one.sub".into(), "smithy.api".into()] },
        shapes: (0, if c.thorough() && c.rng.chance(1, 10) { 60 } else { 10 }),
        unresolved: c.rng.chance(1, 2),
        unresolved_members: c.rng.chance(1, 3),
        dangling: c.rng.chance(1, 2),
        value_depth: c.rng.range(0, 4),
        strings: 1,
        repeats: c.rng.chance(1, 3),
        ..Default::default()
    }
}

/// change one fact; the dump tells whether anything changed
fn change(r: &mut Rng, m: &mut AModel) -> &'static str {
    fn cv(r: &mut Rng, v: &AVal) -> AVal {
        match v {
            AVal::Null => AVal::Arr(vec![]),
            AVal::Bool(b) => r.pick(&[AVal::Bool(!*b), AVal::Str(b.to_string())]).clone(),
            AVal::Int(i) => r.pick(&[AVal::Int(i.wrapping_add(1)), AVal::Float(*i as f64), AVal::Str(i.to_string())]).clone(),
            AVal::Float(f) => r.pick(&[AVal::Float(f64::from_bits(f.to_bits() ^ 1)), AVal::Str(format!("{:?}", f)), AVal::Float(-*f)]).clone(),
            AVal::Str(s) => match r.below(3) {
                0 => AVal::Str(format!("{} ", s)),
                1 => AVal::Arr(vec![v.clone()]),
                _ => AVal::Str(s.chars().rev().collect()),
            },
            AVal::Arr(a) => {
                let mut a = a.clone();
                match r.below(4) {
                    0 => a.push(AVal::Null),
                    1 if a.len() > 1 => a.swap(0, 1),
                    2 if !a.is_empty() => {
                        let k = r.below(a.len());
                        a[k] = cv(r, &a[k].clone());
                    }
                    3 if a.is_empty() => return AVal::Obj(Default::default()),
                    _ => {
                        a.pop();
                    }
                }
                AVal::Arr(a)
            }
            AVal::Obj(o) => {
                let mut o = o.clone();
                let ks: Vec<String> = o.keys().cloned().collect();
                match r.below(4) {
                    0 => {
                        o.insert("extra".into(), AVal::Null);
                    }
                    1 if !ks.is_empty() => {
                        o.remove(r.pick(&ks));
                    }
                    2 if !ks.is_empty() => {
                        let k = r.pick(&ks).clone();
                        let v = o.remove(&k).unwrap();
                        o.insert(format!("{}x", k), v);
                    }
                    _ if !ks.is_empty() => {
                        let k = r.pick(&ks).clone();
                        let v = cv(r, &o[&k]);
                        o.insert(k, v);
                    }
                    _ => return AVal::Arr(vec![]),
                }
                AVal::Obj(o)
            }
        }
    }
    fn ct(r: &mut Rng, t: &mut Traits) -> bool {
        let ks: Vec<String> = t.keys().cloned().collect();
        if ks.is_empty() || r.chance(1, 6) {
            t.insert("zz.ns#extra".into(), None);
            return true;
        }
        let k = r.pick(&ks).clone();
        match r.below(4) {
            0 => {
                t.remove(&k);
            }
            1 => {
                let v = t.remove(&k).unwrap();
                t.insert(format!("{}X", k), v);
            }
            _ => {
                let v = t[&k].clone();
                t.insert(k, Some(v.as_ref().map(|v| cv(r, v)).unwrap_or(AVal::Obj(Default::default()))));
            }
        }
        true
    }
    let ids: Vec<Id> = m.shapes.keys().cloned().collect();
    let ms: Vec<String> = m.metadata.keys().cloned().collect();
    if ids.is_empty() || r.chance(1, 5) {
        if ms.is_empty() {
            m.metadata.insert("k".into(), AVal::Null);
            return "metadata added";
        }
        let k = r.pick(&ms).clone();
        match r.below(3) {
            0 => {
                m.metadata.remove(&k);
                return "metadata removed";
            }
            1 => {
                let v = m.metadata.remove(&k).unwrap();
                m.metadata.insert(format!("{}x", k), v);
                return "metadata key";
            }
            _ => {
                let v = cv(r, &m.metadata[&k]);
                m.metadata.insert(k, v);
                return "metadata value";
            }
        }
    }
    let id = r.pick(&ids).clone();
    match r.below(6) {
        0 => {
            m.shapes.remove(&id);
            "shape removed"
        }
        1 => {
            let s = m.shapes.remove(&id).unwrap();
            m.shapes.insert(format!("{}X", id), s);
            "shape renamed"
        }
        2 => {
            ct(r, &mut m.shapes.get_mut(&id).unwrap().traits);
            "trait"
        }
        3 => {
            let s = m.shapes.get_mut(&id).unwrap();
            let mut mem = s.kind.members_mut();
            if mem.is_empty() {
                return "nothing";
            }
            let k = r.below(mem.len());
            ct(r, &mut mem[k].1.traits);
            "member trait"
        }
        4 => {
            // which of two references is which
            let s = m.shapes.get_mut(&id).unwrap();
            match &mut s.kind {
                AKind::Operation(o) => std::mem::swap(&mut o.input, &mut o.output),
                AKind::Service(x) => std::mem::swap(&mut x.operations, &mut x.resources),
                AKind::Resource(x) => match r.below(4) {
                    0 => std::mem::swap(&mut x.operations, &mut x.collection_operations),
                    1 => std::mem::swap(&mut x.operations, &mut x.resources),
                    2 => std::mem::swap(&mut x.create, &mut x.put),
                    _ => std::mem::swap(&mut x.read, &mut x.list),
                },
                AKind::Map(k, v) => std::mem::swap(k, v),
                AKind::Structure(ms) => s.kind = AKind::Union(ms.clone()),
                AKind::Union(ms) => s.kind = AKind::Structure(ms.clone()),
                _ => return "nothing",
            }
            "references swapped"
        }
        _ if id.contains('$') => "nothing",
        _ => c04::tweak(r, m.shapes.get_mut(&id).unwrap()),
    }
}

/// the lists of a model whose order carries no meaning, sorted
fn sorted(m: &AModel) -> Vec<String> {
    let mut m = m.clone();
    for s in m.shapes.values_mut() {
        match &mut s.kind {
            AKind::Service(x) => {
                x.operations.sort();
                x.resources.sort();
            }
            AKind::Operation(x) => x.errors.sort(),
            AKind::Resource(x) => {
                x.operations.sort();
                x.collection_operations.sort();
                x.resources.sort();
            }
            _ => {}
        }
    }
    m.dump()
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each case renders a generated model and compares the lines with an independent rendering of the documented format, the same model built in other orders (insertion orders, merged parts) and a model that differs in one fact; the writer's text must be these lines. Non-trivial when the model has members, properties or traits.");
    ctx.assume("quotation marks and backslashes in strings may be rendered as they are or escaped; text with line breaks is a recorded finding");
    ctx.cases("rendering", 8000, 0.35, |c| {
        let o = opts(c);
        let m = gen_model(&mut c.rng, &o);
        c.eval(m.nontrivial(), &format!("{:?}", m.dump()));
        for s in m.shapes.values() {
            c.seen("shape kinds", s.kind.type_name());
        }
        let model = to_model_shuffled(&m, &mut c.rng);
        let lines = check(c, &m, &model);
        c.sample(|| lines.unwrap_or_default().join("\n"));
    });
    ctx.cases("order", 4000, 0.2, |c| {
        let o = opts(c);
        let m = gen_model(&mut c.rng, &o);
        c.eval(m.nontrivial(), &format!("{:?}", m.dump()));
        let first = match c.lib("lines", || make_line_oriented_form(&to_model(&m))) {
            Some(l) => l,
            None => return,
        };
        for i in 0..3 {
            let mut other = to_model_shuffled(&m, &mut c.rng);
            if i == 2 {
                let parts = super::c06::partition(&mut c.rng, &m, 2);
                let mut ms: Vec<Model> = parts.iter().map(|p| to_model_shuffled(p, &mut c.rng)).collect();
                other = ms.remove(0);
                for x in ms {
                    if other.merge(x).is_err() {
                        return;
                    }
                }
                if from_model(&other).dump() != m.dump() {
                    c.count("parts that do not merge back");
                    return;
                }
            }
            let l = make_line_oriented_form(&other);
            c.count("construction orders");
            if l != first {
                let d = diff(&first, &l).map(|x| x.1).unwrap_or_default();
                c.viol("order", format!("the lines depend on the construction order{}", d));
            }
        }
    });
    ctx.cases("pairs", 12000, 0.35, |c| {
        let o = opts(c);
        let a = tame(&gen_model(&mut c.rng, &o));
        let mut b = a.clone();
        let how = change(&mut c.rng, &mut b);
        if sorted(&a) == sorted(&b) {
            return c.count("changes without effect");
        }
        c.seen("kinds of change", how);
        c.eval(true, &format!("{:?}{:?}", a.dump(), b.dump()));
        let (x, y) = (to_model_shuffled(&a, &mut c.rng), to_model_shuffled(&b, &mut c.rng));
        if let Some((x, y)) = c.lib("lines", || (make_line_oriented_form(&x), make_line_oriented_form(&y))) {
            if x == y {
                let d = diff(&a.dump(), &b.dump()).map(|x| x.1).unwrap_or_default();
                c.viol(format!("collision:{}", how), format!("two models that differ have the same lines ({}){}", how, d));
            }
        }
    });
    ctx.cases("any text", 1500, 0.1, |c| {
        // texts that look like other facts
        let mut o = opts(c);
        o.strings = 2;
        o.shapes = (0, 3);
        let mut m = gen_model(&mut c.rng, &o);
        let mut two = m.clone();
        let v = *c.rng.pick(&["true", "\"y\"", "1", "()"]);
        m.metadata.insert("za".into(), AVal::Str(format!("x\"\nmeta::zb<={}", v)));
        two.metadata.insert("za".into(), AVal::Str("x".into()));
        two.metadata.insert(
            "zb".into(),
            match v {
                "true" => AVal::Bool(true),
                "1" => AVal::Int(1),
                "()" => AVal::Null,
                _ => AVal::Str("y".into()),
            },
        );
        if v == "\"y\"" {
            m.metadata.insert("za".into(), AVal::Str("x\"\nmeta::zb<=\"y".into()));
        }
        c.eval(true, &format!("{:?}", m.dump()));
        let (x, y) = (to_model(&m), to_model(&two));
        check(c, &m, &x);
        let (a, b) = (
            write_model_to_string(&mut LineOrientedWriter::default(), &x).ok(),
            write_model_to_string(&mut LineOrientedWriter::default(), &y).ok(),
        );
        if a.is_some() && a == b {
            c.viol("line-text-raw", "two different models have the same text, one holding a string with a line break");
        }
    });
}
