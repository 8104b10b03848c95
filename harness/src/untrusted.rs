//! Untrusted text: noise, token soups and damage of valid documents; and the process in which it is read.
use crate::am::*;
use crate::fw::cpu_seconds;
use crate::fw::{guard, Case, Ctx};
use crate::js::{self, J};
use crate::props::{c13, c20};
use crate::rng::Rng;
use crate::{idl, props};
use atelier_core::action::lint::{NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Linter, Validator};
use atelier_core::io::ModelReader;
use atelier_core::model::Model;
use atelier_json::JsonReader;
use atelier_smithy::parser::parse_and_debug_model;
use atelier_smithy::{parse_model, parse_selector, SmithyReader};
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const KINDS: [char; 3] = ['i', 'j', 's'];

// ------------------------------------------------------------------------------------------------ texts

pub const WORDS: &[&str] = &[
    "namespace", "use", "metadata", "apply", "structure", "union", "service", "resource", "operation", "list", "set", "map", "string", "blob", "document", "bigDecimal", "member", "key", "value", "version", "operations",
    "resources", "rename", "identifiers", "create", "put", "read", "update", "delete", "list", "collectionOperations", "input", "output", "errors", "true", "false", "null", "$version", "$", "@", "#", ":", ",", "{", "}",
    "[", "]", "(", ")", "=", "\"", "\"\"\"", "\\", "//", "///", "/*", "ex.a", "ex.a#A", "ex.a#A$m", "smithy.api#required", "A", "_", "__", "_1", "1", "-1", "1e400", "-0.0", "1.", ".5", "1E+", "99999999999999999999999999",
    "-9223372036854775809", "0x1F", "1_000", "+1", "NaN", "Infinity", "\r\n", "\r", "\n", "\t", "\u{0}", "\u{feff}", "\u{2028}", "é", "ß", "\u{1f600}", "\u{10ffff}", "\\u0041", "\\ud800", "\\u", "\\\n", "\"a\\\"b\"", "\"\\ud800\"",
    ">", "<", "~>", ":test(", ":not(", ":is(", ":each(", "-[", "]->", "<-[", "[id", "|", "(length)", "(keys)", "@{", "${", "}", "?=", "^=", "$=", "*=", "!=", ">=", "<=", "{<}", "{<<}", "{=}", "{!=}", "i", "&&", "[@", "*",
    "[trait|", "number", "integer", "'", "'a'", "1..5", "\"smithy\"", "\"shapes\"", "\"traits\"", "\"members\"", "\"target\"", "\"type\"", "\"1.0\"", "\"apply\"",
];

fn junk(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => (0..n).map(|_| r.below(256) as u8).collect(),
        1 => (0..n).map(|_| *r.pick(&[b'{', b'}', b'[', b']', b'"', b':', b',', b'(', b')', b'$', b'@', b'#', b' ', b'\n', b'a', b'1', b'\\', b'/', b'-', b'.', b'\''])).collect(),
        2 => (0..n).map(|_| char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}')).collect::<String>().into_bytes(),
        3 => (0..n).map(|_| (32 + r.below(95)) as u8).collect(),
        _ => (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(*r.pick(&["", " ", "\n"])).into_bytes(),
    }
}

fn opts(r: &mut Rng) -> GenOpts {
    GenOpts {
        shapes: (1, *r.pick(&[2, 3, 8])),
        metadata: (0, 2),
        unresolved: r.chance(1, 2),
        typed_refs: r.chance(1, 2),
        dangling: r.chance(1, 3),
        value_depth: r.range(0, 4) as usize,
        ..Default::default()
    }
}
fn layout(r: &mut Rng) -> idl::Layout {
    idl::Layout { ws: r.below(3) as u8, crlf: r.chance(1, 5), quote_keys: r.chance(1, 2), blocks: r.below(2) as u8, escapes: r.chance(1, 2) }
}
/// a valid document
pub fn valid(kind: char, r: &mut Rng) -> String {
    let o = opts(r);
    match kind {
        'i' => {
            let a = gen_model(r, &o);
            let p = idl::prog_of(&a, "example.one", r);
            let l = layout(r);
            idl::emit(&p, Some("1.0"), l, r)
        }
        'j' => {
            let a = gen_model(r, &o);
            js::emit(&js::jmodel(&a), &js::Style { space: r.below(3) as u8, shuffle: true, escapes: r.below(2) as u8 }, r)
        }
        _ => {
            let v = c20::gen_sel(r, 3);
            let mut t = vec![];
            c20::tokens(&v, r, &mut t);
            let style = r.below(3);
            c20::join(&t, style, r)
        }
    }
}
/// bytes cut out, doubled, changed, put in, exchanged with those of another document
fn bytes(kind: char, r: &mut Rng) -> Vec<u8> {
    let mut t = valid(kind, r).into_bytes();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 5]) {
        let n = t.len();
        let i = r.below(n + 1);
        let far = *r.pick(&[2, 10, 200]);
        let j = (i + r.below(far)).min(n);
        match r.below(9) {
            0 => {
                t.drain(i..j);
            }
            1 => {
                let x = t[i..j].to_vec();
                let at = r.below(t.len() + 1);
                t.splice(at..at, x);
            }
            2 if i < n => t[i] = r.below(256) as u8,
            3 if i < n => t[i] ^= 1 << r.below(8),
            4 => {
                let k = r.range(1, 8) as usize;
                let x = junk(r, k);
                t.splice(i..i, x);
            }
            5 => t.truncate(i),
            6 => {
                let o = valid(if r.chance(1, 5) { *r.pick(&KINDS) } else { kind }, r).into_bytes();
                let a = r.below(o.len() + 1);
                let b = (a + r.below(200)).min(o.len());
                t.splice(i..j, o[a..b].to_vec());
            }
            7 => {
                let x = r.pick(WORDS).as_bytes().to_vec();
                t.splice(i..j, x);
            }
            _ => {
                t.drain(..i);
            }
        }
    }
    t
}
/// tokens removed, doubled, exchanged and replaced
fn token_damage(kind: char, r: &mut Rng) -> Vec<u8> {
    let mut t = c13::tokens(&valid(kind, r));
    let other = c13::tokens(&valid(kind, r));
    for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len());
        let j = r.below(t.len());
        match r.below(7) {
            0 => {
                t.remove(i);
            }
            1 => t.swap(i, j),
            2 => {
                let x = t[i].clone();
                t.insert(j, x);
            }
            3 => t[i] = r.pick(WORDS).to_string(),
            4 if !other.is_empty() => t[i] = r.pick(&other).clone(),
            5 => {
                // a number, name or text of another kind
                t[i] = match r.below(6) {
                    0 => format!("{}", gen_int(r)),
                    1 => format!("{:e}", gen_float(r)),
                    2 => gen_ident(r),
                    3 => format!("\"{}\"", r.pick(WORDS)),
                    4 => format!("\"\"\"{}{}\"\"\"", r.pick(&["", "\n", " ", "\n  "]), r.pick(WORDS)),
                    _ => "9".repeat(*r.pick(&[1, 19, 20, 40, 400])),
                }
            }
            _ => {
                let (a, b) = (i.min(j), i.max(j));
                t[a..b].reverse();
            }
        }
    }
    t.concat().into_bytes()
}
fn odd_json(r: &mut Rng) -> J {
    match r.below(16) {
        0 => J::Null,
        1 => J::Bool(r.chance(1, 2)),
        2 => J::Num("0".into()),
        3 => J::Num(r.pick(&["-1", "1e308", "-0.0", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "1E-400", "0.1"]).to_string()),
        4 => J::Num("7".repeat(r.range(1, 50) as usize)),
        5 => js::s(""),
        6 => js::s(r.pick(WORDS)),
        7 => J::Arr(vec![]),
        8 => J::Obj(vec![]),
        9 => J::Arr(vec![odd_json(r), odd_json(r)]),
        10 => J::Obj(vec![(r.pick(WORDS).to_string(), odd_json(r))]),
        11 => js::o(vec![("target", js::s(r.pick(&["smithy.api#String", "ex.a#A", "String", "ex.a#A$b", "#", ""])))]),
        12 => J::Arr(vec![js::o(vec![("target", js::s("ex.a#A"))])]),
        13 => js::s(r.pick(&["smithy.api#String", "ex.a#A", "A", "ex.a#A$b", "ex.a#", "ex.a#A$", "1.0", "2.0", "structure", "apply", "list", "member"])),
        14 => js::s(&gen_string(r, 2)),
        _ => J::Obj(vec![("member".into(), js::o(vec![("target", js::s("ex.a#A"))]))]),
    }
}
fn node<'a>(j: &'a mut J, r: &mut Rng) -> &'a mut J {
    let stop = r.chance(1, 5);
    let inner = match j {
        J::Arr(v) => v.len(),
        J::Obj(v) => v.len(),
        _ => 0,
    };
    if stop || inner == 0 {
        return j;
    }
    let i = r.below(inner);
    match j {
        J::Arr(v) => node(&mut v[i], r),
        J::Obj(v) => node(&mut v[i].1, r),
        _ => unreachable!(),
    }
}
/// values of another type, keys of another name, repeated keys, missing keys
fn json_damage(r: &mut Rng) -> Vec<u8> {
    let o = opts(r);
    let a = gen_model(r, &o);
    let mut j = js::jmodel(&a);
    for _ in 0..*r.pick(&[1, 1, 1, 2, 4]) {
        let n = node(&mut j, r);
        match (r.below(6), n) {
            (0, J::Obj(v)) if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
            }
            (1, J::Obj(v)) if !v.is_empty() => {
                let i = r.below(v.len());
                v[i].0 = if r.chance(1, 2) { r.pick(WORDS).trim_matches('"').to_string() } else { r.pick(&["ex.a#A", "ex.a#A$m", "smithy.api#documentation", "traits", "members", "target", "type", "member", "shapes", "version", "create", "operations"]).to_string() };
            }
            (2, J::Obj(v)) if !v.is_empty() => {
                let i = r.below(v.len());
                let x = v[i].clone();
                v.push((x.0, if r.chance(1, 2) { x.1 } else { odd_json(r) }));
            }
            (3, J::Obj(v)) => {
                let k = r.pick(&["traits", "members", "member", "key", "value", "version", "operations", "rename", "identifiers", "input", "errors", "type", "target", "ex.a#B"]).to_string();
                v.push((k, odd_json(r)));
            }
            (_, n) => *n = odd_json(r),
        }
    }
    js::emit(&j, &js::Style { space: r.below(3) as u8, shuffle: r.chance(1, 2), escapes: r.below(2) as u8 }, r).into_bytes()
}
/// valid values of any type for the traits which the library itself looks at, and for metadata
fn trait_damage(r: &mut Rng) -> Vec<u8> {
    let o = opts(r);
    let a = gen_model(r, &o);
    let mut j = js::jmodel(&a);
    if let J::Obj(top) = &mut j {
        if r.chance(1, 2) {
            top.push(("metadata".into(), J::Obj(vec![(r.pick(&["suppressions", "validators", "a"]).to_string(), odd_json(r))])));
        }
        for (k, shapes) in top.iter_mut() {
            if k != "shapes" {
                continue;
            }
            if let J::Obj(v) = shapes {
                for (_, shape) in v.iter_mut() {
                    spoil(shape, r);
                }
            }
        }
    }
    js::compact(&j).into_bytes()
}
fn spoil(j: &mut J, r: &mut Rng) {
    let traits = ["documentation", "deprecated", "tags", "title", "since", "externalDocumentation", "enum", "error", "http", "unstable", "internal", "sensitive", "trait", "idRef", "required", "references", "length"];
    if let J::Obj(v) = j {
        if v.iter().any(|x| x.0 == "target" || x.0 == "type") && r.chance(1, 2) {
            let t = J::Obj((0..r.range(1, 4)).map(|k| (format!("smithy.api#{}", traits[(r.below(traits.len()) + k as usize) % traits.len()]), odd_json(r))).collect());
            v.retain(|x| x.0 != "traits");
            v.push(("traits".into(), t));
        }
        for (k, x) in v.iter_mut() {
            if k == "member" || k == "key" || k == "value" {
                spoil(x, r);
            }
            if k == "members" {
                if let J::Obj(m) = x {
                    for (_, x) in m {
                        spoil(x, r);
                    }
                }
            }
        }
    }
}
/// characters of other kinds in place of those of a document
fn characters(kind: char, r: &mut Rng) -> Vec<u8> {
    let mut t: Vec<char> = valid(kind, r).chars().collect();
    for _ in 0..*r.pick(&[1, 1, 1, 3, 8]) {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len());
        let x = *r.pick(&['\u{0}', '\u{7f}', '\u{85}', '\u{a0}', '\u{ad}', 'é', 'ß', 'İ', 'ǆ', '\u{301}', '\u{2028}', '\u{2029}', '\u{200d}', '\u{feff}', '\u{ffff}', '\u{1f600}', '\u{10ffff}', '٣', '²', '\u{1d7d9}', '\r', '\t', '\u{b}', '\u{c}']);
        if r.chance(1, 2) {
            t[i] = x;
        } else {
            t.insert(i, x);
        }
    }
    t.into_iter().collect::<String>().into_bytes()
}
/// an untrusted text of the kind and the way in which it was made
pub fn text(kind: char, r: &mut Rng) -> (Vec<u8>, &'static str) {
    match r.below(if kind == 'j' { 14 } else { 10 }) {
        0 => {
            let n = r.below(200);
            (junk(r, n), "noise")
        }
        1 => {
            let n = r.range(1, 40);
            let mut v: Vec<String> = (0..n).map(|_| r.pick(WORDS).to_string()).collect();
            if kind == 'i' && r.chance(1, 2) {
                v.splice(0..0, ["namespace".to_string(), "ex.a".to_string(), "\n".to_string()]);
            }
            (v.join(*r.pick(&[" ", "", "\n"])).into_bytes(), "words")
        }
        2 => (valid(*r.pick(&KINDS), r).into_bytes(), "of any kind"),
        3 | 4 => (characters(kind, r), "characters"),
        5 | 6 => (token_damage(kind, r), "tokens"),
        7..=9 => (bytes(kind, r), "bytes"),
        10 => (trait_damage(r), "traits"),
        _ => (json_damage(r), "layout"),
    }
}

// ------------------------------------------------------------------------------------------------ the process

pub enum Answer {
    /// lines: outcome, then panics and other observations
    Done(Vec<String>),
    Died(String),
    Hung,
}
pub struct Reader {
    child: Child,
    s: UnixStream,
    out: PathBuf,
    proc: PathBuf,
}
impl Drop for Reader {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
pub const PATIENCE: u64 = 40;
impl Reader {
    pub fn new(ctx: &Ctx, name: &str) -> Reader {
        let (a, b) = UnixStream::pair().expect("socket pair");
        let out = ctx.scratch.join(format!("out-{}-{:?}", name, std::thread::current().id()));
        let f = std::fs::File::create(&out).expect("file");
        let err = std::fs::File::create(out.with_extension("err")).expect("file");
        let child = Command::new("bash")
            .args(["-c", "ulimit -v 6000000; ulimit -c 0; exec \"$@\"", "x"])
            .arg(&ctx.exe)
            .args(["child", "untrusted"])
            .stdin(Stdio::from(OwnedFd::from(b)))
            .stdout(f)
            .stderr(err)
            .spawn()
            .expect("child");
        a.set_read_timeout(Some(Duration::from_secs(2))).unwrap();
        let proc = PathBuf::from(format!("/proc/{}", child.id()));
        Reader { child, s: a, out, proc }
    }
    pub fn ask(&mut self, kind: char, process: bool, t: &[u8]) -> Answer {
        let mut m = vec![kind as u8, process as u8];
        m.extend((t.len() as u32).to_le_bytes());
        m.extend(t);
        let mut n = [0u8; 4];
        let from = (Instant::now(), cpu_seconds(&self.proc));
        let r = self.s.write_all(&m).and_then(|_| self.get(from, &mut n)).and_then(|_| {
            let mut v = vec![0u8; u32::from_le_bytes(n) as usize];
            self.get(from, &mut v).map(|_| v)
        });
        match r {
            Ok(v) => Answer::Done(String::from_utf8_lossy(&v).split('\u{1}').map(|x| x.to_string()).collect()),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Answer::Hung,
            Err(_) => {
                let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                Answer::Died(format!("{} {}", st, std::fs::read_to_string(self.out.with_extension("err")).unwrap_or_default()))
            }
        }
    }
    /// Waits for as long as the process has not used more than its time: a busy machine is no reason to give up.
    fn get(&mut self, from: (Instant, f64), buf: &mut [u8]) -> std::io::Result<()> {
        let mut at = 0;
        while at < buf.len() {
            match self.s.read(&mut buf[at..]) {
                Ok(0) => return Err(std::io::ErrorKind::UnexpectedEof.into()),
                Ok(n) => at += n,
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    let cpu = cpu_seconds(&self.proc) - from.1;
                    if cpu > PATIENCE as f64 || from.0.elapsed() > Duration::from_secs(6 * PATIENCE) {
                        return Err(e);
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    /// what was printed since the last time
    pub fn printed(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.out).unwrap_or_default()).to_string()
    }
}
/// the reader process of this thread
pub fn ask(c: &mut Case, kind: char, process: bool, t: &[u8]) -> Option<Vec<String>> {
    thread_local! {
        static READER: std::cell::RefCell<Option<Reader>> = std::cell::RefCell::new(None);
    }
    let what = match kind {
        'i' => "IDL",
        'j' => "JSON",
        _ => "selector",
    };
    let show = || crate::fw::clip(&String::from_utf8_lossy(t), 700);
    READER.with(|r| {
        let mut r = r.borrow_mut();
        let rd = r.get_or_insert_with(|| Reader::new(c.ctx, "reader"));
        match rd.ask(kind, process, t) {
            Answer::Done(v) => {
                let p = rd.printed();
                if !p.is_empty() {
                    c.viol(format!("printed:{}", what), format!("{} for {}", crate::fw::clip(&p, 200), show()));
                    *r = None;
                }
                Some(v)
            }
            Answer::Died(e) => {
                *r = None;
                let k = if e.contains("overflowed its stack") {
                    "stack-overflow"
                } else if e.contains("memory allocation") {
                    "memory"
                } else {
                    "died"
                };
                c.viol(format!("{}:{}", k, what), format!("{} for {} bytes {}", crate::fw::clip(&e, 300), t.len(), show()));
                None
            }
            Answer::Hung => {
                *r = None;
                c.viol(format!("hang:{}", what), format!("no answer within {} s for {} bytes {}", PATIENCE, t.len(), show()));
                None
            }
        }
    })
}

/// gives its bytes a few at a time
struct Slow<'a>(&'a [u8], usize);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 = self.1 * 7 % 31 + 1;
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn read<R: ModelReader>(r: &mut R, t: &[u8], slow: bool) -> Result<Model, String> {
    if slow {
        r.read(&mut Slow(t, 3)).map_err(|e| e.to_string())
    } else {
        r.read(&mut &t[..]).map_err(|e| e.to_string())
    }
}
const GOOD_IDL: &str = "namespace ex.good\nstructure Good { @required a: String }\n";
const GOOD_JSON: &str = "{\"smithy\":\"1.0\",\"shapes\":{\"ex.good#Good\":{\"type\":\"structure\",\"members\":{\"a\":{\"target\":\"smithy.api#String\"}}}}}";

fn models<R: ModelReader + Default>(t: &[u8], good: &str, notes: &mut Vec<String>) -> Option<Model> {
    let mut reader = R::default();
    let first = match guard(|| read(&mut reader, t, false)) {
        Ok(r) => r,
        Err(p) => {
            notes.push(format!("panic {} {} {}", p.sig(), p.at, p.msg));
            return None;
        }
    };
    // the same bytes again, a few at a time, with the used and with a new reader
    for (what, other) in [("again", guard(|| read(&mut reader, t, false))), ("in parts", guard(|| read(&mut R::default(), t, true)))] {
        match (&first, other) {
            (_, Err(p)) => notes.push(format!("panic {} {} {}", p.sig(), p.at, p.msg)),
            (Ok(a), Ok(Ok(b))) => {
                if from_model(a).dump() != from_model(&b).dump() {
                    notes.push(format!("differs {} models", what));
                }
            }
            (Err(_), Ok(Err(_))) => {}
            (a, Ok(b)) => notes.push(format!("differs {} {:?} {:?}", what, a.as_ref().err(), b.err())),
        }
    }
    // what was read before does not matter
    match guard(|| read(&mut reader, good.as_bytes(), false)) {
        Ok(Ok(m)) if from_model(&m).dump() == from_model(&read(&mut R::default(), good.as_bytes(), false).unwrap()).dump() => {}
        Ok(r) => notes.push(format!("differs after-it {:?}", r.map(|m| from_model(&m).dump()))),
        Err(p) => notes.push(format!("panic {} {} {}", p.sig(), p.at, p.msg)),
    }
    match first {
        Ok(m) => Some(m),
        Err(e) => {
            notes.push(format!("error {}", e));
            None
        }
    }
}
/// everything the library offers for a model
fn process(m: &Model, notes: &mut Vec<String>) {
    let mut go = |what: &str, f: &dyn Fn() -> String| match guard(f) {
        Ok(r) => notes.push(format!("did {} {}", what, r)),
        Err(p) => notes.push(format!("panic {}:{} {} {}", what, p.sig(), p.at, p.msg)),
    };
    let a = from_model(m);
    let mut spaces = a.namespaces();
    spaces.push("not.there".into());
    for w in props::c27::WRITERS {
        for ns in if w == "smithy" { &spaces[..] } else { &spaces[..1] } {
            go(w, &|| if props::c27::write_plain(w, ns, m).is_ok() { "ok".into() } else { "refused".into() });
        }
    }
    let some = |e: bool| if e { "ok".to_string() } else { "error".to_string() };
    go("describe", &|| some(atelier_describe::document::writer::describe_model(m).is_ok()));
    go("types", &|| some(CorrectTypeReferences::default().validate(m).is_ok()));
    go("unresolved", &|| some(NoUnresolvedReferences::default().validate(m).is_ok()));
    go("naming", &|| some(NamingConventions::default().check(m).is_ok()));
    go("terms", &|| some(UnwelcomeTerms::default().check(m).is_ok()));
    go("lint", &|| some(atelier_lib::actions::standard_model_lint(m, false).is_ok()));
    go("validate", &|| some(atelier_lib::actions::standard_model_validation(m, false).is_ok()));
    go("walk", &|| {
        struct Nothing;
        impl atelier_core::model::visitor::ModelVisitor for Nothing {
            type Error = atelier_core::error::Error;
        }
        some(atelier_core::model::visitor::walk_model(m, &Nothing).is_ok())
    });
    go("merge", &|| {
        let mut n = Model::new(m.smithy_version().clone());
        let first = n.merge(m.clone());
        let second = n.merge(m.clone());
        format!("{} {}", first.is_ok(), second.is_ok())
    });
    go("compare", &|| format!("{}", *m == m.clone()));
    for t in c20::TYPES {
        let text = t.0.to_string();
        go("query", &|| match parse_selector(&text) {
            Ok(s) => {
                let _ = atelier_query::evaluate::query(&s, m);
                "done".into()
            }
            Err(_) => "no selector".into(),
        });
    }
}
pub fn child() -> i32 {
    // standard input is the connection
    let mut s = unsafe { UnixStream::from_raw_fd(0) };
    loop {
        let mut h = [0u8; 6];
        if s.read_exact(&mut h).is_err() {
            return 0;
        }
        let mut t = vec![0u8; u32::from_le_bytes([h[2], h[3], h[4], h[5]]) as usize];
        if s.read_exact(&mut t).is_err() {
            return 0;
        }
        // a thread with the stack that threads have unless told otherwise
        let notes = std::thread::spawn(move || {
            let mut notes = vec![];
            let mut outcome = "err".to_string();
            match h[0] as char {
                's' => {
                    if let Ok(x) = std::str::from_utf8(&t) {
                        let go = || guard(|| parse_selector(x).map(|s| s.to_string()).map_err(|e| e.to_string()));
                        match (go(), go()) {
                            (Err(p), _) | (_, Err(p)) => notes.push(format!("panic {} {} {}", p.sig(), p.at, p.msg)),
                            (Ok(Ok(a)), Ok(Ok(b))) => {
                                outcome = "ok".into();
                                if a != b {
                                    notes.push("differs again selectors".into());
                                }
                            }
                            (Ok(Err(_)), Ok(Err(_))) => {}
                            _ => notes.push("differs again outcome".into()),
                        }
                    }
                }
                k => {
                    let m = if k == 'i' { models::<SmithyReader>(&t, GOOD_IDL, &mut notes) } else { models::<JsonReader>(&t, GOOD_JSON, &mut notes) };
                    if k == 'i' {
                        if let Ok(x) = std::str::from_utf8(&t) {
                            match guard(|| parse_model(x).map_err(|e| e.to_string())) {
                                Ok(r) => {
                                    if r.is_ok() != m.is_some() {
                                        notes.push("differs parse_model".into());
                                    }
                                }
                                Err(p) => notes.push(format!("panic {} {} {}", p.sig(), p.at, p.msg)),
                            }
                            // the parse tree is shown whenever there is a model
                            let mut tree = vec![];
                            match guard(|| parse_and_debug_model(&mut tree, x).map_err(|e| e.to_string())) {
                                Ok(r) => {
                                    if m.is_some() && (r.is_err() || tree.is_empty()) {
                                        notes.push("differs parse_and_debug_model".into());
                                    }
                                }
                                Err(p) => notes.push(format!("panic {} {} {}", p.sig(), p.at, p.msg)),
                            }
                        }
                    }
                    if let Some(m) = m {
                        outcome = "ok".into();
                        if h[1] == 1 {
                            process(&m, &mut notes);
                        }
                    }
                }
            }
            let _ = std::io::stdout().flush();
            notes.insert(0, outcome);
            notes
        })
        .join()
        .unwrap_or(vec!["err".into(), "panic monitor".into()]);
        let v = notes.join("\u{1}").into_bytes();
        if s.write_all(&(v.len() as u32).to_le_bytes()).and_then(|_| s.write_all(&v)).is_err() {
            return 0;
        }
    }
}
