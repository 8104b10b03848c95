//! C13: damaged documents are rejected.  The verdict on a damaged text comes from the reference parser (IDL) or from the
//! kind of damage (JSON AST).
use super::{c07, c11};
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use crate::idl::{self, Bad, Quirks};
use crate::js::{self, J};
use crate::rng::Rng;
use atelier_core::io::read_model_from_string;
use atelier_json::JsonReader;

pub fn tokens(t: &str) -> Vec<String> {
    let v: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let st = i;
        let c = v[i];
        if c.is_whitespace() {
            while i < v.len() && v[i].is_whitespace() {
                i += 1;
            }
        } else if c == '"' {
            let triple = v[i..].iter().take(3).filter(|c| **c == '"').count() == 3;
            if triple {
                i += 3;
                while i < v.len() && !(v[i] == '"' && v.get(i + 1) == Some(&'"') && v.get(i + 2) == Some(&'"')) {
                    i += 1;
                }
                i = (i + 3).min(v.len());
            } else {
                i += 1;
                while i < v.len() && v[i] != '"' {
                    i += if v[i] == '\\' { 2 } else { 1 };
                }
                i = (i + 1).min(v.len());
            }
        } else if c == '/' && v.get(i + 1) == Some(&'/') {
            while i < v.len() && v[i] != '\n' && v[i] != '\r' {
                i += 1;
            }
        } else if c.is_alphanumeric() || c == '_' {
            while i < v.len() && (v[i].is_alphanumeric() || v[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
        out.push(v[st..i.min(v.len())].iter().collect());
    }
    out
}

fn damage(text: &str, r: &mut Rng) -> (String, &'static str) {
    let mut t = tokens(text);
    let solid: Vec<usize> = t
        .iter()
        .enumerate()
        .filter(|(_, x)| !x.trim().is_empty() && !(x.starts_with("//")) && x.as_str() != ",")
        .map(|x| x.0)
        .collect();
    if solid.is_empty() {
        return (format!("{}}}", text), "stray");
    }
    let i = *r.pick(&solid);
    let j = *r.pick(&solid);
    match r.below(13) {
        0 | 1 => {
            t.remove(i);
            (t.concat(), "token removed")
        }
        2 => {
            let x = t[i].clone();
            t.insert(i, x);
            (t.concat(), "token doubled")
        }
        3 => {
            t.swap(i, j);
            (t.concat(), "tokens swapped")
        }
        4 => {
            t[i] = t[j].clone();
            (t.concat(), "token replaced")
        }
        5 => {
            let n = text.chars().count();
            let k = r.below(n);
            (text.chars().take(k).collect(), "cut short")
        }
        6 => {
            let n = text.chars().count();
            let k = r.below(n);
            (text.chars().enumerate().filter(|(q, _)| *q != k).map(|x| x.1).collect(), "character removed")
        }
        7 => {
            let n = text.chars().count();
            let k = r.below(n);
            let x = *r.pick(&['{', '}', '[', ']', '(', ')', ':', '@', '"', '#', '$', '.', '=', 'x', '9', '_', '-', '/', '\\', '*', ';', 'é', '\n']);
            let mut v: Vec<char> = text.chars().collect();
            v.insert(k, x);
            (v.into_iter().collect(), "character inserted")
        }
        8 => {
            let x = *r.pick(&["{", "}", "[", "]", "(", ")", ":", "@", "=", "use", "namespace", "metadata", "apply", "structure", "string", "foo", "1", "\"x\"", "$version: \"1.0\"", "::", "#", "|"]);
            t.insert(i, format!(" {} ", x));
            (t.concat(), "token inserted")
        }
        9 => {
            // keywords
            let kws: Vec<usize> = solid
                .iter()
                .copied()
                .filter(|k| {
                    ["namespace", "use", "metadata", "apply", "list", "set", "map", "structure", "union", "service", "operation", "resource", "member",
                     "key", "value", "version", "operations", "errors", "input", "output", "identifiers", "rename", "resources"]
                        .contains(&t[*k].as_str())
                        || SIMPLE.contains(&t[*k].as_str())
                })
                .collect();
            if kws.is_empty() {
                t.remove(i);
                return (t.concat(), "token removed");
            }
            let k = *r.pick(&kws);
            t[k] = match r.below(4) {
                0 => t[k].to_uppercase(),
                1 => format!("x{}", t[k]),
                2 => t[k][..t[k].len() - 1].to_string(),
                _ => r.pick(&["structure", "service", "list", "map", "version", "errors", "member", "use", "apply", "strng"]).to_string(),
            };
            (t.concat(), "keyword changed")
        }
        10 => {
            // move a piece of the document
            let (a, b) = (i.min(j), i.max(j));
            let piece: Vec<String> = t.drain(a..b).collect();
            let k = r.below(t.len() + 1);
            for (n, x) in piece.into_iter().enumerate() {
                t.insert(k + n, x);
            }
            (t.concat(), "piece moved")
        }
        11 => {
            let (a, b) = (i.min(j), i.max(j));
            let piece: Vec<String> = t[a..b].to_vec();
            let k = r.below(t.len() + 1);
            for (n, x) in piece.into_iter().enumerate() {
                t.insert(k + n, x);
            }
            (t.concat(), "piece repeated")
        }
        _ => {
            let v = *r.pick(&["2.0", "\"2\"", "\"1.1\"", "\"0.5\"", "\"\"", "true", "[]", "3", "\"one\""]);
            (format!("$version: {}\n{}", v, text.replacen("$version", "$other", 1)), "version changed")
        }
    }
}

/// the entries `key: value` of a text: start and end of the key, start and end of the value, in tokens
fn entries(t: &[String]) -> Vec<(usize, usize, usize)> {
    let word = |x: &str| x.starts_with('"') || x.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
    let next = |mut i: usize| {
        while i < t.len() && (t[i].trim().is_empty() || t[i] == "," || t[i].starts_with("//")) {
            i += 1;
        }
        i
    };
    let mut out = vec![];
    for i in 0..t.len() {
        if !word(&t[i]) {
            continue;
        }
        let c = next(i + 1);
        if t.get(c).map(|x| x != ":").unwrap_or(true) {
            continue;
        }
        let v = next(c + 1);
        let mut e = v;
        if v >= t.len() {
            continue;
        }
        if t[v] == "{" || t[v] == "[" {
            let mut d = 0;
            while e < t.len() {
                match t[e].as_str() {
                    "{" | "[" => d += 1,
                    "}" | "]" => d -= 1,
                    _ => {}
                }
                e += 1;
                if d == 0 {
                    break;
                }
            }
        } else {
            e += 1;
            while e < t.len() && (word(&t[e]) && !t[e].starts_with('"') || [".", "#", "$", "-", "+"].contains(&t[e].as_str())) {
                e += 1;
            }
        }
        out.push((i, v, e));
    }
    out
}
/// damage to a part of an aggregate, an object or a number
fn damage_part(text: &str, r: &mut Rng) -> Option<(String, &'static str)> {
    let mut t = tokens(text);
    let es = entries(&t);
    if es.is_empty() {
        return None;
    }
    let (k, v, e) = *r.pick(&es);
    Some(match r.below(7) {
        0 | 1 => {
            let copy = t[k..e].concat();
            // after the entry itself or after one of its siblings
            t.insert(e, format!("\n, {}\n", copy));
            (t.concat(), "entry repeated")
        }
        2 => {
            // the same key with another value
            let other = r.pick(&["1", "String", "\"x\"", "null", "[]", "{}"]).to_string();
            let copy = format!("{}: {}", t[k], other);
            t.insert(e, format!("\n, {}\n", copy));
            (t.concat(), "key repeated")
        }
        3 => {
            let n = r.pick(&["other", "member", "key", "value", "extra", "version", "input", "create", "rename"]).to_string();
            let val = r.pick(&["String", "\"x\"", "[]", "Integer"]).to_string();
            t.insert(e, format!("\n, {}: {}\n", n, val));
            (t.concat(), "entry added")
        }
        4 | 5 => {
            let val = r
                .pick(&["1", "0.5", "\"x\"", "\"a b\"", "\"\"", "null", "true", "[]", "{}", "[1]", "[null]", "[\"a b\"]", "[[]]", "{a: 1}", "{a: [A]}", "Foo", "ex.a#Foo", "ex.a#Foo$bar", "[Foo, 1]"])
                .to_string();
            t.splice(v..e, [val]);
            (t.concat(), "value retyped")
        }
        _ => {
            let val = r
                .pick(&["007", "00", "-01", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "1e999", "-1e400", "1.", ".5", "+1", "0x10", "1.2.3", "- 1", "--1", "1e", "1e+", "1.e5", "NaN.0", "1..2"])
                .to_string();
            t.splice(v..e, [val]);
            (t.concat(), "number damaged")
        }
    })
}

fn member_apply(text: &str) -> bool {
    let t: Vec<String> = tokens(text).into_iter().filter(|t| !t.trim().is_empty() && !t.starts_with("//")).collect();
    t.iter().enumerate().any(|(i, w)| w == "apply" && t[i + 1..].iter().take_while(|x| *x != "@").any(|x| x == "$"))
}

fn case_clash(text: &str) -> bool {
    let mut seen: std::collections::BTreeMap<String, String> = Default::default();
    tokens(text).into_iter().map(|t| t.trim_matches('"').to_string()).any(|t| match seen.get(&t.to_ascii_lowercase()) {
        Some(o) => *o != t,
        None => {
            seen.insert(t.to_ascii_lowercase(), t);
            false
        }
    })
}

fn idl_case(c: &mut Case, text: &str, how: &str) {
    let verdict = idl::model_of(text, Quirks::default());
    match &verdict {
        Err(Bad::Unclear(_)) => return c.count("damaged IDL: not judged"),
        // what names that differ only in case mean to each other is not for this property
        Err(Bad::Reject(w)) if !w.starts_with("semantic") => {}
        // applying a trait to a member of a shape that is not defined
        Ok(_) if member_apply(text) => return c.count("damaged IDL: not judged"),
        _ if case_clash(text) => return c.count("damaged IDL: not judged"),
        _ => {}
    }
    c.eval(true, text);
    c.seen("kinds of damage (IDL)", how);
    let got = match c11::read(c, text) {
        Some(g) => g,
        None => return,
    };
    match (verdict, got) {
        (Err(Bad::Reject(w)), Ok(g)) => {
            if let Some(names) = c11::explain(text, &from_model(&g)) {
                for n in names {
                    c.viol(n, format!("read from {}", clip(text, 600)));
                }
                return;
            }
            let w: String = w.split(" at ").next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
            c.viol(
                format!("idl-accepted:{}", w),
                format!("damaged text ({}; {}) was read as {} shapes\n text {}", how, w, g.shapes().count(), clip(text, 1500)),
            )
        }
        (Err(Bad::Unclear(_)), _) => {}
        (Err(_), Err(_)) => c.count("damaged IDL: rejected"),
        (Ok((want, _)), Ok(g)) => {
            c.count("damaged IDL: still a document");
            c11::judge(c, text, &want, &from_model(&g), "idl-misread");
        }
        (Ok(_), Err(_)) => c.count("damaged IDL: still a document, refused"),
    }
}

/// Damage a well-formed JSON AST document so that it breaks the layout; None when the chosen damage does not apply.
fn damage_json(j: &J, r: &mut Rng) -> Option<(J, String)> {
    let mut j = j.clone();
    let wrong = |r: &mut Rng, not: &str| -> J {
        let all: Vec<(&str, J)> = vec![
            ("null", J::Null),
            ("bool", J::Bool(true)),
            ("num", J::Num("1".into())),
            ("str", js::s("ex.a#B")),
            ("arr", J::Arr(vec![js::s("x")])),
            ("arr", J::Arr(vec![])),
            ("str", js::s("")),
            ("num", J::Num("0".into())),
            ("bool", J::Bool(false)),
            ("obj", js::o(vec![])),
            ("obj", js::o(vec![("k", J::Num("1".into()))])),
        ];
        loop {
            let (k, v) = r.pick(&all).clone();
            if k != not {
                return v;
            }
        }
    };
    let bad_id = |r: &mut Rng| -> J {
        js::s(r.pick(&["Relative", "", "ex.a#", "#Foo", "ex.a#1abc", "ex..a#Foo", "ex.a#Foo$", "ex a#Foo", "ex.a#Foo#Bar", "ex.a$Foo", "ex.a#Fo-o", "ex.a#Foo ", ".a#Foo"]))
    };
    match r.below(10) {
        0 => {
            return Some(match r.below(3) {
                0 => {
                    j.remove("smithy");
                    (j, "smithy missing".into())
                }
                1 => {
                    j.set("smithy", js::s(*r.pick(&["2.0", "2", "1.1", "0.9", "", "one", "1.0.0", "v1"])));
                    (j, "smithy unknown".into())
                }
                _ => {
                    let w = wrong(r, "str");
                    j.set("smithy", w);
                    (j, "smithy mistyped".into())
                }
            })
        }
        1 => {
            let k = *r.pick(&["metadata", "shapes"]);
            let w = wrong(r, "obj");
            j.set(k, w);
            return Some((j, format!("{} mistyped", k)));
        }
        2 => {
            let w = wrong(r, "obj");
            return Some((w, "document mistyped".into()));
        }
        _ => {}
    }
    let shapes = match j.get("shapes") {
        Some(J::Obj(v)) if !v.is_empty() => v.clone(),
        _ => return None,
    };
    let mut shapes = shapes;
    let si = r.below(shapes.len());
    let ty = match shapes[si].1.get("type") {
        Some(J::Str(t)) => t.clone(),
        _ => return None,
    };
    let how: String;
    let sh = &mut shapes[si];
    match r.below(9) {
        0 => {
            if let J::Str(k) = bad_id(r) {
                sh.0 = k;
            }
            how = "shape key".into();
        }
        1 => {
            sh.1 = wrong(r, "obj");
            if let J::Obj(_) = sh.1 {
                return None;
            }
            how = "shape mistyped".into();
        }
        2 => {
            match r.below(3) {
                0 => {
                    sh.1.remove("type");
                    how = "type missing".into();
                }
                1 => {
                    let w = wrong(r, "str");
                    sh.1.set("type", w);
                    how = "type mistyped".into();
                }
                _ => {
                    sh.1.set("type", js::s(*r.pick(&["strin", "String", "", "enum", "Structure", "array", "resources", "biginteger", "list "])));
                    how = "type unknown".into();
                }
            }
        }
        3 => {
            // traits of the shape
            match r.below(2) {
                0 => {
                    let w = wrong(r, "obj");
                    sh.1.set("traits", w);
                    how = "traits mistyped".into();
                }
                _ => {
                    let mut t = sh.1.get("traits").cloned().unwrap_or(J::Obj(vec![]));
                    if let J::Str(k) = bad_id(r) {
                        t.set(&k, J::Obj(vec![]));
                    }
                    sh.1.set("traits", t);
                    how = "trait key".into();
                }
            }
        }
        _ => {
            let prop: Vec<&str> = match ty.as_str() {
                "list" | "set" => vec!["member"],
                "map" => vec!["key", "value"],
                "structure" | "union" => vec!["members"],
                "service" => vec!["version", "operations", "resources", "rename"],
                "operation" => vec!["input", "output", "errors"],
                "resource" => vec![
                    "identifiers", "create", "put", "read", "update", "delete", "list", "operations", "collectionOperations", "resources",
                ],
                _ => return None,
            };
            let p = *r.pick(&prop);
            let old = sh.1.get(p).cloned();
            let bad_ref = |r: &mut Rng, ok: Option<&J>, h: &mut String| -> J {
                // a broken { "target": id } object
                match r.below(4) {
                    0 => {
                        h.push_str(" without target");
                        let mut x = ok.cloned().unwrap_or(J::Obj(vec![]));
                        x.remove("target");
                        x
                    }
                    1 => {
                        h.push_str(" target mistyped");
                        let mut x = ok.cloned().unwrap_or(J::Obj(vec![]));
                        let w = wrong(r, "str");
                        x.set("target", w);
                        x
                    }
                    2 => {
                        h.push_str(" target invalid");
                        let mut x = ok.cloned().unwrap_or(J::Obj(vec![]));
                        let w = bad_id(r);
                        x.set("target", w);
                        x
                    }
                    _ => {
                        h.push_str(" not an object");
                        let w = wrong(r, "obj");
                        w
                    }
                }
            };
            let mut h = p.to_string();
            match p {
                "member" | "key" | "value" => {
                    if r.chance(1, 5) {
                        sh.1.remove(p);
                        h.push_str(" missing");
                    } else if r.chance(1, 5) {
                        let mut x = old.unwrap();
                        if r.chance(1, 2) {
                            x.set("traits", wrong(r, "obj"));
                        } else if let J::Str(k) = bad_id(r) {
                            x.set("traits", js::o(vec![(&k, J::Bool(true))]));
                        }
                        sh.1.set(p, x);
                        h.push_str(" traits");
                    } else {
                        let x = bad_ref(r, old.as_ref(), &mut h);
                        sh.1.set(p, x);
                    }
                }
                "members" => match old {
                    Some(J::Obj(mut ms)) if !ms.is_empty() && r.chance(4, 5) => {
                        let k = r.below(ms.len());
                        match r.below(4) {
                            0 => {
                                ms[k].0 = r.pick(&["", "1a", "a b", "a-b", "é", "a.b", "a#b", "$"]).to_string();
                                h.push_str(" name");
                            }
                            1 => {
                                let w = if r.chance(1, 2) {
                                    wrong(r, "obj")
                                } else if let J::Str(k) = bad_id(r) {
                                    js::o(vec![(&k, J::Bool(true))])
                                } else {
                                    J::Null
                                };
                                ms[k].1.set("traits", w);
                                h.push_str(" traits");
                            }
                            _ => ms[k].1 = bad_ref(r, Some(&ms[k].1.clone()), &mut h),
                        }
                        sh.1.set(p, J::Obj(ms));
                    }
                    _ => {
                        let w = wrong(r, "obj");
                        sh.1.set(p, w);
                        h.push_str(" mistyped");
                    }
                },
                "version" => {
                    if r.chance(1, 2) {
                        sh.1.remove(p);
                        h.push_str(" missing");
                    } else {
                        let w = wrong(r, "str");
                        sh.1.set(p, w);
                        h.push_str(" mistyped");
                    }
                }
                "rename" => {
                    if r.chance(1, 3) {
                        let w = wrong(r, "obj");
                        sh.1.set(p, w);
                        h.push_str(" mistyped");
                    } else {
                        let (k, v) = match r.below(3) {
                            0 => (
                                match bad_id(r) {
                                    J::Str(s) => s,
                                    _ => String::new(),
                                },
                                js::s("Ok"),
                            ),
                            1 => ("ex.a#B".to_string(), wrong(r, "str")),
                            _ => ("ex.a#B".to_string(), js::s(*r.pick(&["", "a b", "1x", "a#b", "a.b"]))),
                        };
                        let mut x = old.unwrap_or(J::Obj(vec![]));
                        x.set(&k, v);
                        sh.1.set(p, x);
                        h.push_str(" entry");
                    }
                }
                "identifiers" => {
                    if r.chance(1, 3) {
                        let w = wrong(r, "obj");
                        sh.1.set(p, w);
                        h.push_str(" mistyped");
                    } else {
                        let mut x = old.unwrap_or(J::Obj(vec![]));
                        if r.chance(1, 2) {
                            x.set(*r.pick(&["", "1a", "a b", "a#b"]), js::o(vec![("target", js::s("ex.a#B"))]));
                            h.push_str(" name");
                        } else {
                            let b = bad_ref(r, None, &mut h);
                            x.set("ident", b);
                        }
                        sh.1.set(p, x);
                    }
                }
                "operations" | "resources" | "errors" | "collectionOperations" => {
                    if r.chance(1, 3) {
                        let w = wrong(r, "arr");
                        sh.1.set(p, w);
                        h.push_str(" mistyped");
                    } else {
                        let mut v = match old {
                            Some(J::Arr(v)) => v,
                            _ => vec![],
                        };
                        let b = bad_ref(r, None, &mut h);
                        let k = r.below(v.len() + 1);
                        v.insert(k, b);
                        sh.1.set(p, J::Arr(v));
                    }
                }
                _ => {
                    let b = bad_ref(r, old.as_ref(), &mut h);
                    sh.1.set(p, b);
                }
            }
            how = format!("{} {}", ty, h);
        }
    }
    j.set("shapes", J::Obj(shapes));
    Some((j, how))
}

fn read_json(c: &mut Case, text: &str, how: &str) {
    c.eval(true, text);
    c.seen("kinds of damage (JSON)", how);
    match c.lib("JsonReader", || read_model_from_string(&mut JsonReader::default(), text)) {
        Some(Ok(m)) => c.viol(format!("json-accepted:{}", how), format!("damaged document ({}) was read as {} shapes\n text {}", how, m.shapes().count(), clip(text, 1500))),
        Some(Err(_)) => c.count("damaged JSON: rejected"),
        None => {}
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("IDL: valid documents are damaged (tokens, characters and pieces removed, repeated, moved, replaced; versions and keywords changed); where the reference parser or elaborator definitely rejects the text the library must return an error, and where the damaged text is still a document its meaning must agree. JSON: damage of every required part of the layout and of the text; the reader must return an error.");
    ctx.assume("texts on which the reference parser gives no definite verdict (glued keywords, control characters, documentation comments in other places, ...) are not judged; duplicate JSON keys are not judged");
    ctx.cases("idl", 16000, 0.5, |c| {
        let text = if c.rng.chance(1, 2) {
            let mut o = c11::opts(c);
            o.shapes = (1, 5);
            let m = idl::plain_model(&gen_model(&mut c.rng, &o));
            let p = idl::prog_of(&m, "example.one", &mut c.rng);
            let l = c11::layout(c);
            idl::emit(&p, Some("\"1.0\""), l, &mut c.rng)
        } else {
            let mut p = c07::gen(c, false);
            p.refs.clear();
            p.defs.retain(|d| !d.name.contains('#'));
            p.applies.retain(|(id, _)| !id.contains('$'));
            let mut l = c11::layout(c);
            l.ws = c.rng.below(2) as u8;
            idl::emit(&p, Some("\"1.0\""), l, &mut c.rng)
        };
        let part = if c.rng.chance(2, 5) { damage_part(&text, &mut c.rng) } else { None };
        let (bad, how) = match part {
            Some(x) => x,
            None => damage(&text, &mut c.rng),
        };
        c.sample(|| format!("{}: {}", how, bad));
        idl_case(c, &bad, how);
    });
    ctx.cases("json layout", 6000, 0.25, |c| {
        let mut o = super::c08::opts(c);
        o.shapes = (1, 6);
        let m = gen_model(&mut c.rng, &o);
        let j = js::jmodel(&m);
        if let Some((bad, how)) = damage_json(&j, &mut c.rng) {
            let st = js::Style { space: c.rng.below(3) as u8, shuffle: c.rng.chance(3, 4), escapes: 0 };
            let text = js::emit(&bad, &st, &mut c.rng);
            read_json(c, &text, &how);
        }
    });
    ctx.cases("json text", 4000, 0.2, |c| {
        let mut o = super::c08::opts(c);
        o.shapes = (0, 4);
        let m = gen_model(&mut c.rng, &o);
        let st = js::Style { space: c.rng.below(3) as u8, shuffle: true, escapes: c.rng.below(2) as u8 };
        let text = js::emit(&js::jmodel(&m), &st, &mut c.rng);
        let mut v: Vec<char> = text.chars().collect();
        let k = c.rng.below(v.len());
        let how = match c.rng.below(4) {
            0 => {
                v.truncate(k);
                "json cut short"
            }
            1 => {
                v.remove(k);
                "json character removed"
            }
            2 => {
                let x = *c.rng.pick(&['{', '}', '[', ']', ',', ':', '"', '\\', 'x', '\'', '\u{1}', '/']);
                v.insert(k, x);
                "json character inserted"
            }
            _ => {
                v.extend(c.rng.pick(&["}", " {}", "x", ",", "null", "]"]).chars());
                "json trailing text"
            }
        };
        let text: String = v.into_iter().collect();
        match js::parse(&text) {
            Err(e) if !e.contains("duplicate") => read_json(c, &text, how),
            _ => c.count("damaged JSON: not judged"),
        }
    });
}
