//! C27: writers and readers over streams that fail, accept or give only part, or are interrupted; file helpers.
use crate::am::*;
use crate::fw::{clip, guard, Case, Ctx};
use crate::rng::Rng;
use crate::{idl, js};
use atelier_core::io::debug::DebugWriter;
use atelier_core::io::lines::LineOrientedWriter;
use atelier_core::io::{read_model_from_file, write_model_to_file, ModelReader, ModelWriter};
use atelier_core::model::Model;
use atelier_describe::document::writer::DocumentationWriter;
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_rdf::writer::RdfWriter;
use atelier_smithy::parser::parse_and_debug_model;
use atelier_smithy::{SmithyReader, SmithyWriter};
use std::io::{Error, ErrorKind, Read, Write};
use std::path::{Path, PathBuf};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// from this byte on, every request fails
    Fail(usize, ErrorKind),
    /// one request fails, then all goes on
    Once(usize, ErrorKind),
    /// from this byte on nothing is accepted
    Full(usize),
}
const KINDS: [ErrorKind; 5] = [ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::TimedOut];

/// a sink with a fault, which may accept only part of what is asked and be interrupted in between
struct Sink {
    got: Vec<u8>,
    fault: Fault,
    done: bool,
    parts: Option<Rng>,
    calls: u64,
    hit: bool,
    interrupts: u64,
    short: u64,
}
impl Sink {
    fn new(fault: Fault, parts: Option<Rng>) -> Sink {
        Sink { got: vec![], fault, done: false, parts, calls: 0, hit: false, interrupts: 0, short: 0 }
    }
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if let Some(r) = &mut self.parts {
            if r.chance(1, 4) {
                self.interrupts += 1;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            let m = r.range(1, n.min(7));
            if m < n {
                self.short += 1;
            }
            n = m;
        }
        let at = match self.fault {
            Fault::None => usize::MAX,
            Fault::Once(_, _) if self.done => usize::MAX,
            Fault::Fail(k, _) | Fault::Once(k, _) | Fault::Full(k) => k,
        };
        let left = at.saturating_sub(self.got.len());
        if left == 0 {
            self.hit = true;
            self.done = true;
            return match self.fault {
                Fault::Fail(_, e) | Fault::Once(_, e) => Err(Error::new(e, "injected")),
                _ => Ok(0),
            };
        }
        let n = n.min(left);
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// a source with the same faults; at the end of the data it may fail instead of ending
struct Source<'a> {
    data: &'a [u8],
    at: usize,
    fault: Fault,
    done: bool,
    parts: Option<Rng>,
    hit: bool,
    interrupts: u64,
    short: u64,
}
impl<'a> Read for Source<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if let Some(r) = &mut self.parts {
            if r.chance(1, 4) {
                self.interrupts += 1;
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            n = r.range(1, n.min(5));
            self.short += 1;
        }
        let at = match self.fault {
            Fault::None | Fault::Full(_) => usize::MAX,
            Fault::Once(_, _) if self.done => usize::MAX,
            Fault::Fail(k, _) | Fault::Once(k, _) => k,
        };
        if at <= self.at {
            self.hit = true;
            self.done = true;
            if let Fault::Fail(_, e) | Fault::Once(_, e) = self.fault {
                return Err(Error::new(e, "injected"));
            }
        }
        let n = n.min(self.data.len() - self.at).min(at.saturating_sub(self.at));
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

pub const WRITERS: [&str; 10] = ["json", "json-pretty", "smithy", "lines", "debug", "rdf", "graphml", "plantuml", "plantuml-api", "document"];
struct Job<'a, W: Write> {
    what: &'a str,
    ns: &'a str,
    m: &'a Model,
    w: W,
}
impl<'a, W: Write> Job<'a, W> {
    fn go(&mut self) -> Result<(), String> {
        fn w<W: Write>(mut wr: impl ModelWriter, j: &mut Job<'_, W>) -> Result<(), String> {
            wr.write(&mut j.w, j.m).map_err(|e| e.to_string())
        }
        match self.what {
            "json" => w(JsonWriter::new(false), self),
            "json-pretty" => w(JsonWriter::new(true), self),
            "smithy" => w(SmithyWriter::new(nsid(self.ns)), self),
            "lines" => w(LineOrientedWriter::default(), self),
            "debug" => w(DebugWriter::default(), self),
            "rdf" => w(RdfWriter::default(), self),
            "graphml" => w(GraphMLWriter::default(), self),
            "plantuml" => w(PlantUmlWriter::new(false), self),
            "plantuml-api" => w(PlantUmlWriter::new(true), self),
            "document" => w(DocumentationWriter::default(), self),
            _ => unreachable!(),
        }
    }
}
fn write_to(what: &str, ns: &str, m: &Model, s: &mut Sink) -> Result<Result<(), String>, String> {
    guard(|| Job { what, ns, m, w: s }.go()).map_err(|p| format!("{} {}", p.at, p.msg))
}
/// the second of two models written by the same writer
fn second(what: &str, ns: &str, first: &Model, m: &Model) -> Result<Vec<u8>, String> {
    fn w(mut wr: impl ModelWriter, first: &Model, m: &Model) -> Result<Vec<u8>, String> {
        let (mut v, mut u) = (vec![], vec![]);
        let _ = wr.write(&mut u, first);
        wr.write(&mut v, m).map(|_| v).map_err(|e| e.to_string())
    }
    match what {
        "json" => w(JsonWriter::new(false), first, m),
        "json-pretty" => w(JsonWriter::new(true), first, m),
        "smithy" => w(SmithyWriter::new(nsid(ns)), first, m),
        "lines" => w(LineOrientedWriter::default(), first, m),
        "debug" => w(DebugWriter::default(), first, m),
        "rdf" => w(RdfWriter::default(), first, m),
        "graphml" => w(GraphMLWriter::default(), first, m),
        "plantuml" => w(PlantUmlWriter::new(false), first, m),
        "plantuml-api" => w(PlantUmlWriter::new(true), first, m),
        "document" => w(DocumentationWriter::default(), first, m),
        _ => unreachable!(),
    }
}
/// into memory
pub fn write_plain(what: &str, ns: &str, m: &Model) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    Job { what, ns, m, w: &mut v }.go().map(|_| v)
}
/// to a sink that fails after some bytes
pub fn to_broken(what: &str, ns: &str, m: &Model, after: usize) -> Result<(), String> {
    Job { what, ns, m, w: Sink::new(Fault::Fail(after, ErrorKind::Other), None) }.go()
}
pub fn to_file(what: &str, ns: &str, m: &Model, path: PathBuf) -> Result<(), String> {
    fn w(mut wr: impl ModelWriter, m: &Model, p: PathBuf) -> Result<(), String> {
        write_model_to_file(&mut wr, m, p).map_err(|e| e.to_string())
    }
    match what {
        "json" => w(JsonWriter::new(false), m, path),
        "json-pretty" => w(JsonWriter::new(true), m, path),
        "smithy" => w(SmithyWriter::new(nsid(ns)), m, path),
        "lines" => w(LineOrientedWriter::default(), m, path),
        "debug" => w(DebugWriter::default(), m, path),
        "rdf" => w(RdfWriter::default(), m, path),
        "graphml" => w(GraphMLWriter::default(), m, path),
        "plantuml" => w(PlantUmlWriter::new(false), m, path),
        "plantuml-api" => w(PlantUmlWriter::new(true), m, path),
        "document" => w(DocumentationWriter::default(), m, path),
        _ => unreachable!(),
    }
}
pub fn to_text(what: &str, ns: &str, m: &Model) -> Result<Vec<u8>, String> {
    fn w(mut wr: impl ModelWriter, m: &Model) -> Result<Vec<u8>, String> {
        atelier_core::io::write_model_to_string(&mut wr, m).map(|s| s.into_bytes()).map_err(|e| e.to_string())
    }
    match what {
        "json" => w(JsonWriter::new(false), m),
        "json-pretty" => w(JsonWriter::new(true), m),
        "smithy" => w(SmithyWriter::new(nsid(ns)), m),
        "lines" => w(LineOrientedWriter::default(), m),
        "debug" => w(DebugWriter::default(), m),
        "rdf" => w(RdfWriter::default(), m),
        "graphml" => w(GraphMLWriter::default(), m),
        "plantuml" => w(PlantUmlWriter::new(false), m),
        "plantuml-api" => w(PlantUmlWriter::new(true), m),
        "document" => w(DocumentationWriter::default(), m),
        _ => unreachable!(),
    }
}
/// the same bytes, or for writers without a fixed order the same lines apart from labels of blank nodes
fn same(what: &str, a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    if !["rdf", "json", "json-pretty", "document"].contains(&what) {
        return false;
    }
    let bytes = |x: &[u8]| {
        let mut v: Vec<u8> = x.iter().copied().filter(|c| what != "rdf" || (!c.is_ascii_hexdigit() && c.is_ascii_alphabetic())).collect();
        v.sort();
        v
    };
    bytes(a) == bytes(b)
}

fn opts(r: &mut Rng, big: bool) -> GenOpts {
    GenOpts {
        namespaces: if r.chance(1, 2) { vec!["example.one".into()] } else { vec!["example.one".into(), "ex.two".into()] },
        shapes: if big { (25, 40) } else { (0, 5) },
        metadata: (0, 2),
        strings: r.below(3) as u8,
        value_depth: r.below(3),
        foreign_traits: r.chance(1, 2),
        ..Default::default()
    }
}

/// every model is written a hundred times over: seldom a very large one
fn moderate(r: &mut Rng, o: &GenOpts) -> AModel {
    loop {
        let a = gen_model(r, o);
        if a.dump().iter().map(|l| l.len()).sum::<usize>() < 6000 || r.chance(1, 30) {
            return a;
        }
    }
}
fn writers(c: &mut Case) {
    let o = opts(&mut c.rng, false);
    let a = moderate(&mut c.rng, &o);
    let m = to_model_shuffled(&a, &mut c.rng);
    c.sample(|| clip(&a.dump().join("; "), 200));
    let o = opts(&mut c.rng, false);
    let other = to_model(&moderate(&mut c.rng, &o));
    for what in WRITERS {
        let ns = "example.one";
        let mut clean = Sink::new(Fault::None, None);
        match write_to(what, ns, &m, &mut clean) {
            Ok(Ok(())) => {}
            Ok(Err(_)) => {
                c.count("models a writer refuses");
                continue;
            }
            Err(p) => {
                c.viol(format!("panic:{}", what), p);
                continue;
            }
        }
        let n = clean.got.len();
        c.eval(n > 0, &format!("{}{:?}", what, clip(&String::from_utf8_lossy(&clean.got), 2000)));
        c.seen("writers", what);
        // after another model
        if c.rng.chance(1, 2) {
            match guard(|| second(what, ns, &other, &m)) {
                Ok(Ok(v)) => {
                    c.count("writers used again");
                    let lines = |x: &[u8]| {
                        let mut v: Vec<Vec<u8>> = x.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
                        v.sort();
                        v
                    };
                    if !same(what, &clean.got, &v) && lines(&clean.got) != lines(&v) {
                        c.viol(format!("used-writer-differs:{}", what), format!("{} bytes for {}: {}", v.len(), n, clip(&String::from_utf8_lossy(&v), 300)));
                    }
                }
                Ok(Err(e)) => c.viol(format!("used-writer-fails:{}", what), e),
                Err(p) => c.viol(format!("panic:{}", what), p.msg),
            }
        }
        // part at a time
        let mut s = Sink::new(Fault::None, Some(Rng::new(c.rng.next())));
        match write_to(what, ns, &m, &mut s) {
            Ok(Ok(())) => {
                if !same(what, &clean.got, &s.got) {
                    c.viol(format!("partial-writes-change-the-output:{}", what), format!("{} bytes for {}: {}", s.got.len(), n, clip(&String::from_utf8_lossy(&s.got), 300)));
                }
            }
            Ok(Err(e)) => c.viol(format!("partial-writes-fail:{}", what), e),
            Err(p) => c.viol(format!("panic:{}", what), p),
        }
        c.add("short writes", s.short);
        c.add("interrupted writes", s.interrupts);
        // at every byte of small outputs, otherwise spread over the output with both ends
        let at: Vec<usize> = if n <= 160 {
            (0..n).collect()
        } else {
            let mut v: Vec<usize> = (0..40).map(|_| c.rng.below(n)).collect();
            v.extend([0, 1, n - 1, n - 2]);
            v.sort();
            v.dedup();
            v
        };
        for k in at {
            let e = *c.rng.pick(&KINDS);
            let fault = match c.rng.below(3) {
                0 => Fault::Fail(k, e),
                1 => Fault::Full(k),
                _ => Fault::Once(k, e),
            };
            let parts = if c.rng.chance(1, 3) { Some(Rng::new(c.rng.next())) } else { None };
            let mut s = Sink::new(fault, parts);
            let r = write_to(what, ns, &m, &mut s);
            c.count("failing writes");
            let label = match fault {
                Fault::Once(..) => "once",
                Fault::Full(_) => "full",
                _ => "fail",
            };
            match r {
                Ok(Err(_)) => {}
                // the order may differ, and so what is written to the end
                Ok(Ok(())) if !s.hit => c.count("faults not reached"),
                Ok(Ok(())) => c.viol(format!("failed-write-not-reported:{}:{}", what, label), format!("{:?} of {} bytes, {} arrived", fault, n, s.got.len())),
                Err(p) => c.viol(format!("panic:{}", what), format!("{:?} {}", fault, p)),
            }
        }
    }
}

/// the parse tree of an IDL document, which is for people to look at
fn tree(c: &mut Case) {
    let (text, idl) = document(c);
    if !idl || text.len() > 20_000 {
        return;
    }
    let go = |s: &mut Sink| guard(|| parse_and_debug_model(s, &text).map_err(|e| e.to_string())).map_err(|p| format!("{} {}", p.at, p.msg));
    let mut clean = Sink::new(Fault::None, None);
    match go(&mut clean) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return c.viol("tree-refused", format!("{} {}", e, clip(&text, 600))),
        Err(p) => return c.viol("panic:tree", p),
    }
    let n = clean.got.len();
    c.eval(true, &format!("tree {}", text));
    c.count("parse trees");
    if n == 0 {
        return c.viol("tree-empty", clip(&text, 600));
    }
    let mut s = Sink::new(Fault::None, Some(Rng::new(c.rng.next())));
    match go(&mut s) {
        Ok(Ok(())) if s.got == clean.got => {}
        Ok(r) => c.viol("partial-writes-change-the-output:tree", format!("{:?}, {} bytes for {}", r, s.got.len(), n)),
        Err(p) => c.viol("panic:tree", p),
    }
    for _ in 0..6 {
        let k = *c.rng.pick(&[0, n / 2, n - 1, c.idx as usize % n]);
        let mut s = Sink::new(Fault::Fail(k, *c.rng.pick(&KINDS)), None);
        c.count("failing writes");
        match go(&mut s) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => c.viol("failed-write-not-reported:tree:fail", format!("at {} of {}", k, n)),
            Err(p) => c.viol("panic:tree", p),
        }
    }
}

fn read(smithy: bool, r: &mut impl Read) -> Result<Result<Vec<String>, String>, String> {
    guard(|| {
        let m = if smithy { SmithyReader::default().read(r) } else { JsonReader::default().read(r) };
        m.map(|m| from_model(&m).dump()).map_err(|e| e.to_string())
    })
    .map_err(|p| format!("{} {}", p.at, p.msg))
}
fn document(c: &mut Case) -> (String, bool) {
    let mut o = opts(&mut c.rng, false);
    o.namespaces = vec!["example.one".into()];
    o.short_floats = true;
    let a = moderate(&mut c.rng, &o);
    if c.rng.chance(1, 2) {
        let p = idl::prog_of(&a, "example.one", &mut c.rng);
        let l = super::c11::layout(c);
        (idl::emit(&p, Some("1.0"), l, &mut c.rng), true)
    } else {
        let st = js::Style { space: c.rng.below(3) as u8, shuffle: true, escapes: c.rng.below(2) as u8 };
        (js::emit(&js::jmodel(&a), &st, &mut c.rng), false)
    }
}
fn readers(c: &mut Case) {
    let (text, smithy) = document(c);
    let name = if smithy { "smithy" } else { "json" };
    c.eval(text.len() > 30, &text);
    c.sample(|| clip(&text, 200));
    c.seen("readers", name);
    let bytes = text.as_bytes();
    let src = |fault, parts| Source { data: bytes, at: 0, fault, done: false, parts, hit: false, interrupts: 0, short: 0 };
    let clean = match read(smithy, &mut src(Fault::None, None)) {
        Ok(r) => r,
        Err(p) => return c.viol(format!("panic:read-{}", name), p),
    };
    if clean.is_err() {
        c.count("documents refused");
    }
    for _ in 0..3 {
        let mut s = src(Fault::None, Some(Rng::new(c.rng.next())));
        match read(smithy, &mut s) {
            Ok(r) => {
                if r.is_ok() != clean.is_ok() || (r.is_ok() && r != clean) {
                    c.viol(format!("partial-reads-change-the-result:{}", name), format!("{:?}\n{}", r.err(), clip(&text, 500)));
                }
            }
            Err(p) => c.viol(format!("panic:read-{}", name), p),
        }
        c.add("short reads", s.short);
        c.add("interrupted reads", s.interrupts);
    }
    let n = bytes.len();
    let at: Vec<usize> = if n <= 200 {
        (0..=n).collect()
    } else {
        let mut v: Vec<usize> = (0..60).map(|_| c.rng.below(n)).collect();
        v.extend([0, 1, n - 1, n]);
        v.sort();
        v.dedup();
        v
    };
    for k in at {
        let e = *c.rng.pick(&KINDS);
        let fault = if c.rng.chance(1, 2) { Fault::Fail(k, e) } else { Fault::Once(k, e) };
        let parts = if c.rng.chance(1, 3) { Some(Rng::new(c.rng.next())) } else { None };
        let mut s = src(fault, parts);
        let r = read(smithy, &mut s);
        c.count("failing reads");
        match r {
            Ok(Err(_)) => {}
            Ok(Ok(_)) if !s.hit => c.viol(format!("input-not-read-to-its-end:{}", name), format!("{:?} of {} bytes", fault, n)),
            Ok(Ok(_)) => c.viol(format!("failed-read-not-reported:{}", name), format!("{:?} of {} bytes:\n{}", fault, n, clip(&text, 300))),
            Err(p) => c.viol(format!("panic:read-{}", name), format!("{:?} {}", fault, p)),
        }
    }
    // text that is not UTF-8
    let mut bad = bytes.to_vec();
    let k = c.rng.below(n + 1);
    bad.insert(k, *c.rng.pick(&[0xff, 0xfe, 0xc0, 0x80, 0xf8, 0xed]));
    if std::str::from_utf8(&bad).is_err() {
        let r = guard(|| if smithy { SmithyReader::default().read(&mut &bad[..]).is_ok() } else { JsonReader::default().read(&mut &bad[..]).is_ok() });
        c.count("inputs that are not UTF-8");
        match r {
            Ok(false) => {}
            Ok(true) => c.viol(format!("not-utf8-accepted:{}", name), format!("byte {} of {}", k, clip(&text, 300))),
            Err(p) => c.viol(format!("panic:read-{}", name), format!("{} {}", p.at, p.msg)),
        }
    }
}

fn files(c: &mut Case) {
    let o = opts(&mut c.rng, false);
    let a = moderate(&mut c.rng, &o);
    let m = to_model_shuffled(&a, &mut c.rng);
    c.sample(|| clip(&a.dump().join("; "), 200));
    let dir = c.ctx.scratch.join(format!("c27-{}", c.idx));
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    for what in WRITERS {
        let ns = "example.one";
        let mut clean = Sink::new(Fault::None, None);
        if !matches!(write_to(what, ns, &m, &mut clean), Ok(Ok(()))) {
            continue;
        }
        c.eval(true, &format!("{}{:?}", what, clip(&String::from_utf8_lossy(&clean.got), 2000)));
        let path = dir.join(format!("out.{}", what));
        let before = c.rng.below(4);
        match before {
            0 => {}
            1 => std::fs::write(&path, vec![b'#'; clean.got.len() * 2 + 100]).unwrap(),
            2 => std::fs::write(&path, b"").unwrap(),
            _ => std::fs::write(&path, b"short").unwrap(),
        }
        c.seen("files", &format!("{} {}", what, before));
        match guard(|| to_file(what, ns, &m, path.clone())) {
            Ok(Ok(())) => {
                let got = std::fs::read(&path).unwrap_or_default();
                if !same(what, &clean.got, &got) {
                    c.viol(format!("file-differs-from-memory:{}:{}", what, if before == 0 { "new" } else { "existing" }), format!("{} bytes for {}", got.len(), clean.got.len()));
                }
            }
            Ok(Err(e)) => c.viol(format!("file-refused:{}", what), e),
            Err(p) => c.viol(format!("panic:{}", what), format!("{} {}", p.at, p.msg)),
        }
        for bad in [dir.join("missing/out"), dir.join("sub"), dir.join(format!("out.{}/x", what))] {
            c.count("paths that cannot be written");
            match guard(|| to_file(what, ns, &m, bad.clone())) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => c.viol(format!("unwritable-path-not-reported:{}", what), bad.display().to_string()),
                Err(p) => c.viol(format!("panic:{}", what), format!("{} {}", p.at, p.msg)),
            }
        }
    }
    let (text, smithy) = document(c);
    let path = dir.join("in");
    std::fs::write(&path, &text).unwrap();
    let from = |p: &Path| {
        guard(|| {
            let m = if smithy { read_model_from_file(&mut SmithyReader::default(), p.into()) } else { read_model_from_file(&mut JsonReader::default(), p.into()) };
            m.map(|m| from_model(&m).dump()).map_err(|e| e.to_string())
        })
    };
    let want = read(smithy, &mut text.as_bytes());
    match (from(&path), want) {
        (Ok(a), Ok(b)) if a == b => c.count("files read"),
        (a, b) => c.viol("file-read-differs", format!("{:?} {:?}", a.map(|x| x.is_ok()).map_err(|p| p.msg), b.map(|x| x.is_ok()))),
    }
    for bad in [dir.join("nothing"), dir.join("sub"), path.join("x")] {
        match from(&bad) {
            Ok(Err(_)) => c.count("paths that cannot be read"),
            Ok(Ok(_)) => c.viol("unreadable-path-not-reported", bad.display().to_string()),
            Err(p) => c.viol("panic:read-file", format!("{} {}", p.at, p.msg)),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// A child whose files cannot grow beyond 1 KiB writes each format to a file.
fn full_disk(c: &mut Case) {
    let dir = c.ctx.scratch.join(format!("c27f-{}", c.idx));
    std::fs::create_dir_all(&dir).unwrap();
    let seed = c.rng.next() >> 12;
    let out = std::process::Command::new("bash")
        .args(["-c", "trap '' XFSZ; ulimit -f 1; exec \"$@\"", "x"])
        .arg(&c.ctx.exe)
        .args(["child", "c27", &seed.to_string()])
        .arg(&dir)
        .output()
        .expect("bash");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let mut n = 0;
    for l in text.lines() {
        let w: Vec<&str> = l.split('\t').collect();
        if w.len() < 4 {
            continue;
        }
        n += 1;
        let (what, size, arrived, r) = (w[0], w[1].parse::<usize>().unwrap(), w[2].parse::<usize>().unwrap(), w[3]);
        c.eval(size > 1024, &format!("{} {}", seed, what));
        c.count(if size > 1024 { "outputs beyond the limit" } else { "outputs within the limit" });
        // where the order is not fixed the size is not quite either
        let loose = what == "rdf";
        if loose && size > 900 && size < 1150 && r != "panic" {
            c.count("outputs too close to the limit");
            continue;
        }
        match (r, size > 1024) {
            ("ok", false) | ("err", true) => {}
            ("ok", true) => c.viol(format!("full-disk-not-reported:{}", what), l.to_string()),
            ("err", false) => c.viol(format!("file-refused:{}", what), l.to_string()),
            _ => c.viol(format!("panic:{}", what), l.to_string()),
        }
        if size <= 1024 && !loose && arrived != size {
            c.viol(format!("file-differs-from-memory:{}:new", what), l.to_string());
        }
    }
    if n == 0 || !out.status.success() {
        c.viol("child-died", format!("{:?} {} {}", out.status, clip(&text, 300), clip(&String::from_utf8_lossy(&out.stderr), 300)));
    }
    let _ = std::fs::remove_dir_all(&dir);
}
pub fn child(args: &[String]) -> i32 {
    let mut r = Rng::new(args[0].parse().unwrap());
    let dir = PathBuf::from(&args[1]);
    let big = r.chance(3, 4);
    let o = GenOpts { strings: 0, ..opts(&mut r, big) };
    let a = gen_model(&mut r, &o);
    let m = to_model(&a);
    for what in WRITERS {
        let mut clean = Sink::new(Fault::None, None);
        if !matches!(write_to(what, "example.one", &m, &mut clean), Ok(Ok(()))) {
            continue;
        }
        let path = dir.join(format!("out.{}", what));
        let got = guard(|| to_file(what, "example.one", &m, path.clone()));
        let n = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
        println!("{}\t{}\t{}\t{}", what, clean.got.len(), n, match got {
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        });
    }
    0
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Writers are not asked to flush; writers whose order is not fixed are compared as a multiset of bytes (the RDF writer, which also names blank nodes and punctuates by order, of letters).");
    ctx.rule("a failing stream makes every writer and reader return an error; partial and interrupted requests change nothing; files hold the same bytes as memory whatever they held before; unusable paths and full disks are errors. Faults: each byte of small outputs and inputs, 40 to 60 positions and both ends of others. Non-trivial when something is written or read.");
    ctx.cases("tree", 150, 0.1, tree);
    ctx.cases("writers", 320, 0.45, writers);
    ctx.cases("readers", 900, 0.35, readers);
    ctx.cases("files", 240, 0.1, files);
    ctx.cases("full disk", 24, 0.1, full_disk);
}
