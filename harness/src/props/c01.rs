//! C01: the accepted ID language against a hand-written recogniser of the Smithy 1.0 ABNF, and round trips.
use crate::fw::{Case, Ctx};
use crate::rng::Rng;
use atelier_core::model::{Identifier, NamespaceID, ShapeID};
use std::str::FromStr;

// ---- the oracle: the ABNF, one character at a time -------------------------------------------------------------
fn is_identifier(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] == b'_' {
        i += 1;
    }
    if i >= b.len() || !b[i].is_ascii_alphabetic() {
        return false;
    }
    b[i + 1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
fn is_namespace(s: &str) -> bool {
    s.split('.').all(is_identifier)
}
fn split_shape_id(s: &str) -> Option<(&str, &str, Option<&str>)> {
    let p = s.find('#')?;
    let (ns, rest) = (&s[..p], &s[p + 1..]);
    let (name, mem) = match rest.find('$') {
        Some(d) => (&rest[..d], Some(&rest[d + 1..])),
        None => (rest, None),
    };
    if is_namespace(ns) && is_identifier(name) && mem.map(is_identifier).unwrap_or(true) {
        Some((ns, name, mem))
    } else {
        None
    }
}

/// Words with a meaning somewhere in the language, in any letters: an identifier is an identifier.
const WORDS: [&str; 30] = [
    "smithy", "api", "String", "Integer", "Blob", "true", "false", "null", "namespace", "use", "apply", "metadata", "list", "set", "map",
    "structure", "union", "service", "operation", "resource", "member", "key", "value", "trait", "string", "bigDecimal", "input", "errors",
    "id", "PrimitiveLong",
];
fn gen_good_ident(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        let w = *r.pick(&WORDS);
        return match r.below(4) {
            0 => w.to_uppercase(),
            1 => w.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
            _ => w.to_string(),
        };
    }
    if r.chance(1, 40) {
        let n = r.range(60, 1500);
        return (0..n).map(|i| if i == 0 { 'L' } else { *r.pick(&['a', 'Z', '0', '_']) }).collect();
    }
    let mut s = "_".repeat([0, 0, 0, 1, 2][r.below(5)]);
    s.push(*r.pick(&['a', 'z', 'A', 'Z', 'm', 'Q']));
    for _ in 0..r.below(6) {
        s.push(*r.pick(&['a', 'Z', '0', '9', '_', 'k', 'T']));
    }
    s
}
fn gen_good(r: &mut Rng) -> String {
    let mut ns = if r.chance(1, 6) { r.pick(&["smithy.api", "Smithy.API", "smithy.apI", "aws.api", "smithy"]).to_string() } else { gen_good_ident(r) };
    let more = if r.chance(1, 25) { r.range(5, 60) } else { r.below(3) };
    for _ in 0..more {
        ns = format!("{}.{}", ns, gen_good_ident(r));
    }
    match r.below(4) {
        0 => gen_good_ident(r),
        1 => ns,
        2 => format!("{}#{}", ns, gen_good_ident(r)),
        _ => format!("{}#{}${}", ns, gen_good_ident(r), gen_good_ident(r)),
    }
}
fn mutate(r: &mut Rng, s: &str) -> String {
    const CH: [&str; 26] = [
        "#", "$", ".", "_", "0", "9", " ", "\n", "\t", "é", "Ä", "日", "\u{0}", "-", "a", "Z", "/", ":", "@", "##", "$$",
        "..", "\u{661}", "\u{FF21}", "[", "`",
    ];
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        match r.below(5) {
            0 if !c.is_empty() => {
                let i = r.below(c.len());
                c.remove(i);
            }
            1 if !c.is_empty() => {
                let i = r.below(c.len());
                let x: Vec<char> = r.pick(&CH).chars().collect();
                c.splice(i..i + 1, x);
            }
            2 if c.len() > 1 => {
                let i = r.below(c.len() - 1);
                c.swap(i, i + 1);
            }
            _ => {
                let i = r.below(c.len() + 1);
                let x: Vec<char> = r.pick(&CH).chars().collect();
                c.splice(i..i, x);
            }
        }
    }
    c.into_iter().collect()
}

fn check_one(c: &mut Case, s: &str) {
    let wi = is_identifier(s);
    let wn = is_namespace(s);
    let ws = split_shape_id(s);
    let (i, n, sid) = (Identifier::from_str(s), NamespaceID::from_str(s), ShapeID::from_str(s));
    c.eval(wi || wn || ws.is_some() || s.contains(['#', '$', '.']), s);
    if wi {
        c.count("strings in the identifier language");
    }
    if wn {
        c.count("strings in the namespace language");
    }
    if ws.is_some() {
        c.count("strings in the shape ID language");
    }
    if !wi && !wn && ws.is_none() {
        c.count("strings in no language");
    }
    if i.is_ok() != wi {
        c.viol(format!("identifier:accepts={}", i.is_ok()), format!("{:?}: grammar says {}, from_str says {}", s, wi, i.is_ok()));
    }
    if Identifier::is_valid(s) != wi {
        c.viol("identifier:is_valid", format!("{:?}: grammar says {}", s, wi));
    }
    if n.is_ok() != wn {
        c.viol(format!("namespace:accepts={}", n.is_ok()), format!("{:?}: grammar says {}, from_str says {}", s, wn, n.is_ok()));
    }
    if NamespaceID::is_valid(s) != wn {
        c.viol("namespace:is_valid", format!("{:?}: grammar says {}", s, wn));
    }
    if sid.is_ok() != ws.is_some() {
        c.viol(format!("shapeid:accepts={}", sid.is_ok()), format!("{:?}: grammar says {}, from_str says {}", s, ws.is_some(), sid.is_ok()));
    }
    if ShapeID::is_valid(s) != ws.is_some() {
        c.viol("shapeid:is_valid", format!("{:?}: grammar says {}", s, ws.is_some()));
    }
    // the error names the offending text
    if let Err(e) = &sid {
        if !e.to_string().contains(s) {
            c.viol("shapeid:error-text", format!("{:?}: error {:?} does not name the input", s, e.to_string()));
        }
    }
    if let Ok(i) = &i {
        if i.to_string() != s {
            c.viol("identifier:display", format!("{:?} prints as {:?}", s, i.to_string()));
        }
    }
    if let Ok(n) = &n {
        if n.to_string() != s {
            c.viol("namespace:display", format!("{:?} prints as {:?}", s, n.to_string()));
        }
        let parts: Vec<String> = n.split().map(|x| x.to_string()).collect();
        let want: Vec<String> = s.split('.').map(|x| x.to_string()).collect();
        if parts != want {
            c.viol("namespace:split", format!("{:?} splits into {:?}", s, parts));
        }
    }
    if let (Ok(id), Some((ns, name, mem))) = (&sid, ws) {
        if id.to_string() != s {
            c.viol("shapeid:display", format!("{:?} prints as {:?}", s, id.to_string()));
        }
        let got = (
            id.namespace().to_string(),
            id.shape_name().to_string(),
            id.member_name().as_ref().map(|m| m.to_string()),
        );
        let want = (ns.to_string(), name.to_string(), mem.map(|m| m.to_string()));
        if got != want {
            c.viol("shapeid:components", format!("{:?}: components {:?}", s, got));
        }
        if id.is_member() != mem.is_some() {
            c.viol("shapeid:is_member", format!("{:?}", s));
        }
        // derived IDs against parsed text; compared as text so that only spelling matters
        let other = gen_good_ident(&mut c.rng);
        let oi = Identifier::from_str(&other).ok();
        let p = |t: String| ShapeID::from_str(&t).map(|x| x.to_string()).unwrap_or_else(|e| format!("unparsable {} {}", t, e));
        let expect = |c: &mut Case, what: &str, got: String, want: String| {
            c.eval(true, &format!("{} {} {}", what, s, other));
            if got != want {
                c.viol(format!("derived:{}", what), format!("{:?}: {} gave {:?}, expected {:?}", s, what, got, want));
            }
        };
        expect(c, "shape_only", id.shape_only().to_string(), p(format!("{}#{}", ns, name)));
        let suffix = mem.map(|m| format!("${}", m)).unwrap_or_default();
        if let Some(oi) = oi {
            expect(c, "ShapeID::make_shape", id.make_shape(oi.clone()).to_string(), p(format!("{}#{}{}", ns, other, suffix)));
            expect(c, "ShapeID::make_member", id.make_member(oi.clone()).to_string(), p(format!("{}#{}${}", ns, name, other)));
            let n = id.namespace();
            expect(c, "NamespaceID::make_shape", n.make_shape(oi.clone()).to_string(), p(format!("{}#{}", ns, other)));
            expect(c, "NamespaceID::make_member", n.make_member(id.shape_name().clone(), oi).to_string(), p(format!("{}#{}${}", ns, name, other)));
        }
        let rebuilt = ShapeID::new(id.namespace().clone(), id.shape_name().clone(), id.member_name().clone());
        expect(c, "new", rebuilt.to_string(), s.to_string());
        expect(c, "new_unchecked", ShapeID::new_unchecked(ns, name, mem).to_string(), s.to_string());
        let made = match mem {
            None => c.lib("ShapeID::shape", || ShapeID::shape(ns, name).to_string()),
            Some(m) => c.lib("ShapeID::member", || ShapeID::member(ns, name, m).to_string()),
        };
        if let Some(made) = made {
            expect(c, "shape/member", made, s.to_string());
        }
        // is_valid_member: self without member, other the same shape with member
        let a = id.shape_only();
        let b = a.make_member(ident("someMember"));
        let bad = [
            (a.is_valid_member(&b), true, "shape / its member"),
            (a.is_valid_member(&a), false, "shape / shape"),
            (b.is_valid_member(&b), false, "member / member"),
            (b.is_valid_member(&a), false, "member / shape"),
            (a.is_valid_member(&b.make_shape(ident("qqDifferent"))), false, "shape / member of another shape"),
            (a.is_valid_member(&ShapeID::new_unchecked("qq.other", name, Some("m"))), false, "other namespace"),
            (a.is_in_same_namespace(&b), true, "same namespace"),
            (a.is_in_same_namespace(&ShapeID::new_unchecked("qq.other", name, None)), false, "different namespace"),
        ];
        for (got, want, what) in bad {
            if got != want {
                c.viol(format!("membership:{}", what), format!("{:?}: {} gave {}", s, what, got));
            }
        }
    }
}
fn ident(s: &str) -> Identifier {
    Identifier::new_unchecked(s)
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Strings: grammar-derived IDs, 1-2 edit mutations of them, and every string up to length 5 over {a,_,9,.,#,$,' '}; an evaluation compares acceptance, printing and components with a hand-written recogniser; non-trivial when the string is in one of the languages or contains a separator.");
    // exhaustive small scope: every string over a 7-letter alphabet up to length 5 (6 in thorough)
    let max = if ctx.quick() { 5 } else { 7 };
    let alpha = ['a', '_', '9', '.', '#', '$', ' '];
    let total: u64 = (0..=max).map(|l| 7u64.pow(l)).sum();
    let chunk = 2000;
    if ctx.only.is_none() || ctx.only.as_ref().unwrap().0 == "small" {
        let n = (total + chunk - 1) / chunk;
        ctx.bounded("small", n, |c| {
            for k in (c.idx * chunk)..((c.idx + 1) * chunk).min(total) {
                let mut k = k;
                let mut len = 0u32;
                while k >= 7u64.pow(len) {
                    k -= 7u64.pow(len);
                    len += 1;
                }
                let mut s = String::new();
                for _ in 0..len {
                    s.push(alpha[(k % 7) as usize]);
                    k /= 7;
                }
                check_one(c, &s);
            }
        });
    }
    ctx.cases("mutated", 3000, 0.8, |c| {
        for _ in 0..10 {
            let s = gen_good(&mut c.rng);
            check_one(c, &s);
            let m = mutate(&mut c.rng, &s);
            c.sample(|| format!("{:?} and its mutation {:?}", s, m));
            check_one(c, &m);
        }
    });
}
