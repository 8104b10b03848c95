//! C09: the JSON AST layout, in both directions, against an independent emitter and layout.
use super::c08::opts;
use crate::am::*;
use crate::fw::{clip, diff, Case, Ctx};
use crate::js::{self, J};
use crate::rng::Rng;
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_json::{model_to_json, JsonReader, JsonWriter};

pub fn run(ctx: &Ctx) {
    ctx.rule("Reading: an independent emitter lays a generated model out as JSON AST in random key order, whitespace and escapes; the reader must return that model. Writing: the writer's text and model_to_json, parsed by an independent JSON parser, must equal the layout of the specification. Each direction is one evaluation.");
    ctx.assume("absent and empty collections are the same in the layout; integers beyond 64 bits and non-finite numbers are not generated here");
    ctx.cases("read", 3000, 0.5, |c| {
        let o = opts(c);
        let m = gen_model(&mut c.rng, &o);
        let mut j = js::jmodel(&m);
        if c.rng.chance(1, 2) {
            add_empties(&mut j, c);
        }
        if c.rng.chance(1, 4) {
            j.set("smithy", js::s("1"));
        }
        if m.shapes.is_empty() && c.rng.chance(1, 2) {
            j.remove("shapes");
        }
        let st = js::Style { space: c.rng.below(3) as u8, shuffle: c.rng.chance(3, 4), escapes: c.rng.below(2) as u8 };
        let text = js::emit(&j, &st, &mut c.rng);
        c.eval(m.nontrivial(), &text);
        c.add("bytes of JSON", text.len() as u64);
        for (_, s) in &m.shapes {
            c.seen("shape kinds read", s.kind.type_name());
        }
        c.sample(|| text.clone());
        match c.lib("JsonReader", || read_model_from_string(&mut JsonReader::default(), &text)) {
            None => {}
            Some(Err(e)) => c.viol("read-refused", format!("{} for {}", e, clip(&text, 800))),
            Some(Ok(back)) => {
                if let Some((sig, d)) = diff(&m.dump_with(JSONISH), &from_model(&back).dump_with(JSONISH)) {
                    c.viol(format!("read:{}", sig), format!("{}\n text {}", d, clip(&text, 800)));
                }
            }
        }
    });
    ctx.cases("read names in two cases", 1500, 0.05, |c| {
        let mut o = opts(c);
        o.shapes = (1, 5);
        let m = gen_model(&mut c.rng, &o);
        let mut j = js::jmodel(&m);
        if let Some(what) = name_twice(&mut j, &mut c.rng) {
            let st = js::Style { space: c.rng.below(3) as u8, shuffle: false, escapes: 0 };
            let text = js::emit(&j, &st, &mut c.rng);
            c.eval(true, &text);
            c.seen("names given twice", &what);
            match c.lib("JsonReader", || read_model_from_string(&mut JsonReader::default(), &text)) {
                Some(Ok(_)) => c.viol(format!("twice:{}", what), format!("one of two was dropped from {}", clip(&text, 800))),
                Some(Err(_)) => c.count("names given twice: refused"),
                None => {}
            }
        }
    });
    ctx.cases("read numbers", 1500, 0.05, |c| {
        let mut m = AModel::default();
        let mut kv = vec![];
        for i in 0..8 {
            let k = format!("k{}", i);
            let (v, t) = number(c);
            kv.push((k.clone(), J::Num(t)));
            m.metadata.insert(k, v);
        }
        let text = js::compact(&js::o(vec![("smithy", js::s("1.0")), ("metadata", J::Obj(kv))]));
        c.eval(true, &text);
        super::c08::numbers_read(c, &m, &text);
    });
    ctx.cases("write", 3000, 0.5, |c| {
        let o = opts(c);
        let m = gen_model(&mut c.rng, &o);
        let model = to_model_shuffled(&m, &mut c.rng);
        let want = js::normal(&js::jmodel(&m)).lines();
        let pretty = c.rng.chance(1, 2);
        let direct = c.rng.chance(1, 2);
        c.eval(m.nontrivial(), &format!("{:?}", m.dump()));
        let text = if direct {
            match c.lib("model_to_json", || model_to_json(&model).to_string()) {
                Some(t) => t,
                None => return,
            }
        } else {
            match c.lib("JsonWriter", || write_model_to_string(&mut JsonWriter::new(pretty), &model)) {
                Some(Ok(t)) => t,
                Some(Err(e)) => return c.viol("write-refused", format!("{} for {}", e, m.dump().join("\n"))),
                None => return,
            }
        };
        let got = match js::parse(&text) {
            Ok(j) => js::normal(&j).lines(),
            Err(e) => return c.viol("malformed", format!("{}: {}", e, clip(&text, 800))),
        };
        if want != got {
            let (_, d) = diff(&want, &got).unwrap();
            c.viol(format!("layout:{}", kind_of_difference(&want, &got)), d);
        }
    });
}

fn add_empties(j: &mut J, c: &mut Case) {
    if j.get("metadata").is_none() && c.rng.chance(1, 2) {
        j.set("metadata", J::Obj(vec![]));
    }
    if let J::Obj(top) = j {
        for (k, v) in top.iter_mut() {
            if k != "shapes" {
                continue;
            }
            if let J::Obj(shapes) = v {
                for (_, sh) in shapes.iter_mut() {
                    let t = match sh.get("type") {
                        Some(J::Str(t)) => t.clone(),
                        _ => continue,
                    };
                    let mut e: Vec<(&str, J)> = vec![("traits", J::Obj(vec![]))];
                    match t.as_str() {
                        "structure" | "union" => e.push(("members", J::Obj(vec![]))),
                        "service" => {
                            e.push(("operations", J::Arr(vec![])));
                            e.push(("resources", J::Arr(vec![])));
                            e.push(("rename", J::Obj(vec![])));
                        }
                        "operation" => e.push(("errors", J::Arr(vec![]))),
                        "resource" => {
                            e.push(("operations", J::Arr(vec![])));
                            e.push(("collectionOperations", J::Arr(vec![])));
                            e.push(("resources", J::Arr(vec![])));
                            e.push(("identifiers", J::Obj(vec![])));
                        }
                        _ => {}
                    }
                    for (k, v) in e {
                        if sh.get(k).is_none() && c.rng.chance(1, 2) {
                            sh.set(k, v);
                        }
                    }
                }
            }
        }
    }
}

/// the last path components of the first difference, without names
fn kind_of_difference(want: &[String], got: &[String]) -> String {
    let side = |a: &[String], b: &[String], tag: &str| -> Option<String> {
        a.iter().find(|l| !b.contains(l)).map(|l| {
            let path = l.split('|').next().unwrap_or("");
            let keys: Vec<&str> = path.split(".\"").map(|k| k.trim_end_matches('"')).collect();
            let known: Vec<&str> = keys
                .into_iter()
                .filter(|k| {
                    ["smithy", "metadata", "shapes", "type", "member", "members", "key", "value", "target", "traits", "version", "operations",
                     "resources", "rename", "input", "output", "errors", "identifiers", "create", "put", "read", "update", "delete", "list",
                     "collectionOperations"].contains(k)
                })
                .collect();
            format!("{}{}", tag, known.join("."))
        })
    };
    format!("{}{}", side(want, got, "-").unwrap_or_default(), side(got, want, "+").unwrap_or_default())
}

/// a number with one of its JSON spellings
fn number(c: &mut Case) -> (AVal, String) {
    match c.rng.below(5) {
        0 => {
            let i = gen_int(&mut c.rng);
            (AVal::Int(i), i.to_string())
        }
        1 => {
            let n = c.rng.below(1000) as i64;
            let e = c.rng.below(10) as i32;
            (AVal::Float(n as f64 * 10f64.powi(e)), format!("{}{}{}{}", n, c.rng.pick(&["e", "E"]), c.rng.pick(&["", "+"]), e))
        }
        2 => {
            // larger than any 64-bit signed integer: kept as a float
            let u = i64::MAX as u64 + 1 + (c.rng.next() >> 1);
            (AVal::Float(u as f64), u.to_string())
        }
        3 => {
            let f = gen_float(&mut c.rng);
            (AVal::Float(f), format!("{:e}", f).to_uppercase())
        }
        _ => {
            let f = gen_float(&mut c.rng);
            (AVal::Float(f), js::float_text(f))
        }
    }
}

fn flip(k: &str, r: &mut Rng) -> Option<String> {
    let mut v: Vec<char> = k.chars().collect();
    let at: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_alphabetic()).collect();
    if at.is_empty() {
        return None;
    }
    let i = *r.pick(&at);
    v[i] = if v[i].is_ascii_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() };
    Some(v.into_iter().collect())
}
/// Gives one name of the document twice, in another case and with something else behind it; says what was named.
fn name_twice(j: &mut J, r: &mut Rng) -> Option<String> {
    fn obj<'a>(j: &'a mut J, k: &str) -> Option<&'a mut Vec<(String, J)>> {
        match j {
            J::Obj(v) => match v.iter_mut().find(|x| x.0 == k) {
                Some((_, J::Obj(o))) => Some(o),
                _ => None,
            },
            _ => None,
        }
    }
    let shapes = obj(j, "shapes")?;
    if shapes.is_empty() {
        return None;
    }
    let k = r.below(shapes.len());
    let what = *r.pick(&["shapes", "traits", "members", "member traits", "identifiers", "rename"]);
    let other = |v: &J| match v {
        J::Str(x) => J::Str(format!("{}Other", x)),
        J::Obj(x) if x.iter().any(|y| y.0 == "target") => js::o(vec![("target", js::s("ex.zz#Other"))]),
        _ => J::Str("another value".into()),
    };
    if what == "shapes" {
        let (id, sh) = shapes[k].clone();
        let ty = sh.get("type").cloned();
        let new = if ty == Some(js::s("blob")) { "boolean" } else { "blob" };
        if ty == Some(js::s("apply")) {
            return None;
        }
        let id = flip(&id, r)?;
        let at = r.below(shapes.len() + 1);
        shapes.insert(at, (id, js::o(vec![("type", js::s(new))])));
        return Some("shapes".to_string());
    }
    let sh = &mut shapes[k].1;
    let list = match what {
        "member traits" => {
            let ms = obj(sh, "members")?;
            if ms.is_empty() {
                return None;
            }
            let i = r.below(ms.len());
            obj(&mut ms[i].1, "traits")?
        }
        w => obj(sh, w)?,
    };
    if list.is_empty() {
        return None;
    }
    let i = r.below(list.len());
    let (n, v) = list[i].clone();
    let n = flip(&n, r)?;
    let at = r.below(list.len() + 1);
    list.insert(at, (n, other(&v)));
    Some(what.to_string())
}
