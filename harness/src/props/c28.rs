//! C28: the command-line tool, run as a process: exit status, standard streams and files against the library's own results.
use super::c06;
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use crate::{idl, js};
use atelier_assembler::{FileTypeRegistry, ModelAssembler};
use atelier_core::io::{read_model_from_string, write_model_to_string, ModelWriter};
use std::io::Write as _;
use atelier_core::model::Model;
use atelier_describe::document::writer::describe_model;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_lib::actions::{standard_model_lint, standard_model_validation};
use atelier_smithy::{SmithyReader, SmithyWriter};
use somedoc::write::{write_document_to_string, OutputFormat};
use std::convert::TryFrom;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::str::FromStr;

struct Run {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
    line: String,
}
fn tool(ctx: &Ctx) -> PathBuf {
    ctx.exe.parent().unwrap().join("cargo-atelier")
}
fn command(ctx: &Ctx, dir: &Path, args: &[OsString], env: &[(String, OsString)]) -> Command {
    let mut c = Command::new(tool(ctx));
    c.args(args).current_dir(dir).env_remove("SMITHY_PATH").env_remove("RUST_LOG").env("RUST_BACKTRACE", "0").stdin(Stdio::null());
    for (k, v) in env {
        c.env(k, v);
    }
    c
}
fn run_tool(c: &mut Case, dir: &Path, args: &[OsString], env: &[(String, OsString)]) -> Run {
    let o = command(c.ctx, dir, args, env).output().expect("the tool does not start");
    c.count("runs of the tool");
    let r = Run { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).to_string(), line: format!("{:?}", args) };
    crash(c, &r);
    r
}
fn crash(c: &mut Case, r: &Run) {
    if r.code.is_none() || r.code == Some(101) || r.err.contains("panicked at") {
        c.viol(format!("crash:{}", r.err.split("panicked at ").nth(1).unwrap_or("?").split(':').next().unwrap_or("?")), format!("{} {:?} {}", r.line, r.code, clip(&r.err, 400)));
    }
}
fn failed(c: &mut Case, what: &str, r: &Run) {
    c.seen("failures", what);
    if r.code == Some(0) {
        c.viol(format!("failure-not-reported:{}", what), format!("{} out {:?} err {:?}", r.line, clip(&String::from_utf8_lossy(&r.out), 200), clip(&r.err, 200)));
    } else if r.err.trim().is_empty() {
        c.viol(format!("no-error-printed:{}", what), format!("{} out {:?}", r.line, clip(&String::from_utf8_lossy(&r.out), 200)));
    }
}
fn args(v: &[&str]) -> Vec<OsString> {
    v.iter().map(|x| OsString::from(*x)).collect()
}
fn ink(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect();
    v.sort();
    v
}

struct Tree {
    inputs: Vec<PathBuf>,
    search: Vec<PathBuf>,
    count: usize,
}
fn gen_opts(c: &mut Case) -> GenOpts {
    GenOpts {
        namespaces: if c.rng.chance(2, 3) { vec!["ex.a".into()] } else { vec!["ex.a".into(), "ex.b".into()] },
        shapes: if c.rng.chance(1, 20) { (0, 0) } else { (1, 8) },
        metadata: (0, 2),
        unresolved: c.rng.chance(1, 3),
        strings: 1,
        value_depth: 1,
        typed_refs: c.rng.chance(1, 2),
        dangling: c.rng.chance(1, 3),
        short_floats: true,
        ..Default::default()
    }
}
/// files in directories below `root`, given as inputs or by a search path
fn tree(c: &mut Case, root: &Path, a: &AModel) -> Tree {
    let n = if c.rng.chance(1, 12) { *c.rng.pick(&[9, 12, 20]) } else { *c.rng.pick(&[1, 1, 2, 3]) };
    let parts = c06::partition(&mut c.rng, a, n);
    let mut t = Tree { inputs: vec![], search: vec![], count: parts.len() };
    for (k, part) in parts.iter().enumerate() {
        let spaces: std::collections::BTreeSet<String> = part.shapes.iter().filter(|s| s.1.kind != AKind::Unresolved).map(|s| ns_of(s.0).to_string()).collect();
        let (text, ext) = if spaces.len() == 1 && c.rng.chance(1, 2) {
            let p = idl::prog_of(part, spaces.iter().next().unwrap(), &mut c.rng);
            let l = super::c11::layout(c);
            (idl::emit(&p, Some("1.0"), l, &mut c.rng), "smithy")
        } else {
            let st = js::Style { space: c.rng.below(3) as u8, shuffle: true, escapes: 0 };
            (js::emit(&js::jmodel(part), &st, &mut c.rng), "json")
        };
        let dir = PathBuf::from(*c.rng.pick(&["in", "in/sub dir", "other", "-odd", "atelier"]));
        let dir = dir.join(k.to_string());
        std::fs::create_dir_all(root.join(&dir)).unwrap();
        let file = dir.join(format!("{}.{}", c.rng.pick(&["model", "a b", "x.y", "ünï"]), ext));
        std::fs::write(root.join(&file), text).unwrap();
        // by file or by directory, relative or absolute, as an input or on the search path
        let p = if c.rng.chance(1, 3) { dir.clone() } else { file };
        // a name that is also that of the tool
        if p.starts_with("atelier") && parts.len() == 1 {
            t.inputs.push("atelier".into());
            continue;
        }
        let p = if p.starts_with("-odd") || c.rng.chance(1, 2) { root.join(p) } else { p };
        if c.rng.chance(1, 5) {
            t.search.push(root.join(&dir));
        } else {
            t.inputs.push(p);
        }
    }
    t
}
/// arguments and environment which name the inputs
fn inputs(c: &mut Case, t: &Tree) -> (Vec<OsString>, Vec<(String, OsString)>) {
    let mut v: Vec<OsString> = vec![];
    let long = c.rng.chance(1, 2);
    for p in &t.inputs {
        match c.rng.below(3) {
            0 if long => {
                let mut o = OsString::from("--in-file=");
                o.push(p);
                v.push(o);
            }
            _ => {
                v.push((if long { "--in-file" } else { "-i" }).into());
                v.push(p.into());
            }
        }
    }
    let mut env = vec![];
    let joined = std::env::join_paths(&t.search).unwrap();
    if !t.search.is_empty() {
        if c.rng.chance(1, 2) {
            env.push(("SMITHY_PATH".to_string(), joined));
            v.push(c.rng.pick(&["-d", "--default-search-env"]).to_string().into());
        } else {
            env.push(("VMON_C28".to_string(), joined));
            v.push(c.rng.pick(&["-s", "--search-env"]).to_string().into());
            v.push("VMON_C28".into());
        }
    } else if c.rng.chance(1, 4) {
        // not asked for, so not looked at
        env.push(("SMITHY_PATH".to_string(), "/nowhere/at/all".into()));
    }
    (v, env)
}
fn assemble(root: &Path, t: &Tree) -> Result<Model, String> {
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    for p in t.inputs.iter().chain(t.search.iter()) {
        a.push(&root.join(p));
    }
    Model::try_from(a).map_err(|e| e.to_string())
}
fn scratch(c: &mut Case) -> PathBuf {
    let root = c.ctx.scratch.join(format!("c28-{}-{}", c.group.replace(' ', "-"), c.idx));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    root.canonicalize().unwrap()
}

fn written(document: bool, what: &str, ns: &str, m: &Model) -> Result<Vec<u8>, String> {
    fn w(mut w: impl ModelWriter, m: &Model) -> Result<String, String> {
        write_model_to_string(&mut w, m).map_err(|e| e.to_string())
    }
    Ok(match what {
        "json" if !document => w(JsonWriter::new(true), m)?,
        "smithy" => w(SmithyWriter::new(nsid(ns)), m)?,
        "uml" => w(PlantUmlWriter::default(), m)?,
        f => write_document_to_string(&describe_model(m).map_err(|e| e.to_string())?, OutputFormat::from_str(f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
    }
    .into_bytes())
}

fn convert(c: &mut Case) {
    let root = scratch(c);
    let o = gen_opts(c);
    let a = gen_model(&mut c.rng, &o);
    let t = tree(c, &root, &a);
    let m = match assemble(&root, &t) {
        Ok(m) => m,
        Err(_) => {
            // what does not assemble is an error of the tool
            let (mut v, env) = inputs(c, &t);
            v.insert(0, c.rng.pick(&["lint", "validate", "convert", "document"]).to_string().into());
            let r = run_tool(c, &root, &v, &env);
            failed(c, "input that does not assemble", &r);
            return;
        }
    };
    c.eval(true, &format!("{}{:?}", t.count, a.dump()));
    c.sample(|| clip(&a.dump().join("; "), 200));
    let spaces = from_model(&m).namespaces();
    for round in 0..2 {
        let document = round == 1;
        let what = if document { *c.rng.pick(&["markdown", "html", "latex", "json", "xwiki", "md+commonmark"]) } else { *c.rng.pick(&["json", "smithy", "uml"]) };
        if document && OutputFormat::from_str(what).is_err() {
            continue;
        }
        let (mut v, env) = inputs(c, &t);
        v.insert(0, (if document { "document" } else { "convert" }).into());
        if c.rng.chance(1, 4) {
            v.insert(0, "atelier".into());
        }
        if c.rng.chance(1, 6) {
            let at = if v[0] == OsStr::new("atelier") { 1 } else { 0 };
            v.insert(at, c.rng.pick(&["-v", "-vv", "-vvvv", "--no-color"]).to_string().into());
        }
        // the format named or left to the default
        let default = if document { "markdown" } else { "json" };
        if what != default || c.rng.chance(1, 2) {
            match c.rng.below(3) {
                0 => v.extend(args(&["-w", what])),
                1 => v.extend(args(&["--write-format", what])),
                _ => v.push(format!("--write-format={}", what).into()),
            }
        }
        let mut ns = spaces.first().cloned().unwrap_or("ex.a".into());
        let mut must_fail = false;
        if what == "smithy" {
            if spaces.len() != 1 || c.rng.chance(1, 2) {
                if spaces.len() != 1 && c.rng.chance(1, 5) {
                    must_fail = true;
                } else {
                    ns = c.rng.pick(&["ex.a", "ex.b", "not.there"]).to_string();
                    v.extend(args(&["-n", &ns]));
                }
            }
        }
        let want = written(document, what, &ns, &m);
        let to_file = c.rng.chance(1, 2);
        let name = *c.rng.pick(&["output file", "output file", "atelier", "-"]);
        let name = if root.join(name).exists() { "output file" } else { name };
        let file = root.join(name);
        let _ = std::fs::remove_file(&file);
        if to_file {
            if c.rng.chance(1, 2) {
                std::fs::write(&file, vec![b'~'; 20000]).unwrap();
            }
            v.push(c.rng.pick(&["-o", "--out-file"]).to_string().into());
            v.push(if name == "-" || c.rng.chance(1, 2) { file.clone().into() } else { name.into() });
        }
        let before = listing(&root);
        let r = run_tool(c, &root, &v, &env);
        let after = listing(&root);
        if before.iter().any(|p| !after.contains(p)) || after.iter().any(|p| !before.contains(p) && p.file_name() != Some(OsStr::new(name))) {
            c.viol("other-files-touched", format!("{} {:?} {:?}", r.line, before, after));
        }
        c.seen("conversions", &format!("{} {} to file {}", v[0].to_string_lossy(), what, to_file));
        let want = match (want, must_fail) {
            (Ok(w), false) => w,
            _ => {
                failed(c, if must_fail { "no namespace" } else { "model a writer refuses" }, &r);
                continue;
            }
        };
        if r.code != Some(0) {
            c.viol(format!("failed:{}:{}", v[0].to_string_lossy(), what), format!("{} {:?} {}", r.line, r.code, clip(&r.err, 300)));
            continue;
        }
        let got = if to_file {
            if !r.out.is_empty() {
                c.viol("standard-output-with-out-file", format!("{} {}", r.line, clip(&String::from_utf8_lossy(&r.out), 200)));
            }
            std::fs::read(&file).unwrap_or_default()
        } else {
            if file.exists() {
                c.viol("file-not-asked-for", r.line.clone());
            }
            r.out.clone()
        };
        if ink(&got) != ink(&want) {
            c.viol(format!("output:{}{}", if document { "document-" } else { "" }, what), format!("{} {} for {} bytes: {}", r.line, got.len(), want.len(), clip(&String::from_utf8_lossy(&got), 300)));
            continue;
        }
        let text = String::from_utf8_lossy(&got).to_string();
        if !document && (what == "json" || what == "smithy") {
            let read = |t: &str| {
                if what == "json" { read_model_from_string(&mut JsonReader::default(), t) } else { read_model_from_string(&mut SmithyReader::default(), t) }.map(|m| crate::refm::unordered_arrays(&from_model(&m)).dump()).map_err(|e| e.to_string())
            };
            let (g, w) = (read(&text), read(&String::from_utf8_lossy(&want)));
            if g.is_ok() != w.is_ok() || (g.is_ok() && g != w) {
                let d = match (&w, &g) {
                    (Ok(w), Ok(g)) => format!("{:?} for {:?}", g.iter().find(|x| !w.contains(x)), w.iter().find(|x| !g.contains(x))),
                    (w, g) => format!("{:?} {:?}", w.as_ref().err(), g.as_ref().err()),
                };
                c.viol(format!("output-model:{}", what), format!("{} {}", d, r.line));
            }
        }
        if !document && what == "uml" && !text.trim().starts_with("@startuml") {
            c.viol("output-model:uml", clip(&text, 200));
        }
    }
    let _ = std::fs::remove_dir_all(&root);
}
fn listing(d: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    for e in std::fs::read_dir(d).unwrap().flatten() {
        if e.path().is_dir() {
            v.extend(listing(&e.path()));
        } else {
            v.push(e.path());
        }
    }
    v.sort();
    v
}

fn plain(text: &str) -> String {
    // without escape sequences of colours
    let mut out = String::new();
    let mut it = text.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}
fn actions(c: &mut Case) {
    let root = scratch(c);
    let mut o = gen_opts(c);
    o.dangling = c.rng.chance(1, 2);
    o.typed_refs = c.rng.chance(1, 2);
    let a = gen_model(&mut c.rng, &o);
    let t = tree(c, &root, &a);
    let m = match assemble(&root, &t) {
        Ok(m) => m,
        Err(_) => return,
    };
    c.eval(true, &format!("{}{:?}", t.count, a.dump()));
    for cmd in ["lint", "validate"] {
        let want = match if cmd == "lint" { standard_model_lint(&m, false) } else { standard_model_validation(&m, false) } {
            Ok(w) => w,
            Err(e) => {
                c.viol("library-action-failed", e.to_string());
                continue;
            }
        };
        let (mut v, mut env) = inputs(c, &t);
        v.insert(0, cmd.into());
        let colour = c.rng.below(3);
        match colour {
            0 => v.insert(0, "--no-color".into()),
            1 => env.push(("CLICOLOR_FORCE".into(), "1".into())),
            _ => {}
        }
        let r = run_tool(c, &root, &v, &env);
        let text = plain(&String::from_utf8_lossy(&r.out));
        c.seen("actions", &format!("{} colour {} issues {}", cmd, colour, want.len().min(3)));
        c.add("issues", want.len() as u64);
        if text.contains('\u{1b}') || (colour == 0 && r.out.contains(&0x1b)) {
            c.viol("colour-with-no-color", r.line.clone());
        }
        let blocks: Vec<Vec<&str>> = {
            let mut b: Vec<Vec<&str>> = vec![];
            for l in text.lines().filter(|l| !l.trim().is_empty()) {
                if l.starts_with('[') {
                    b.push(vec![l]);
                } else if let Some(x) = b.last_mut() {
                    x.push(l);
                } else {
                    b.push(vec!["", l]);
                }
            }
            b
        };
        if want.is_empty() {
            if !text.contains("No issues") || blocks.iter().any(|b| b[0].starts_with('[')) {
                c.viol(format!("issues-reported-for-none:{}", cmd), clip(&text, 300));
            }
            if r.code != Some(0) {
                c.viol(format!("failed:{}", cmd), format!("{} {:?} {}", r.line, r.code, clip(&r.err, 200)));
            }
            continue;
        }
        let mut left: Vec<String> = blocks.iter().map(|b| b.join("\n")).collect();
        for i in &want {
            let head = format!("[{}] {}", i.level().to_string().to_lowercase(), i.message());
            let locus = i.locus().as_ref().map(|l| l.to_string());
            let at = left.iter().position(|b| {
                let mut l = b.lines();
                let first = l.next().unwrap_or("");
                let rest: String = l.collect::<Vec<_>>().join(" ");
                let words: Vec<&str> = rest.split(|x: char| x.is_whitespace() || x == '`').map(|w| w.trim_end_matches('.')).collect();
                (first.to_lowercase().starts_with(&head[..head.find(']').unwrap() + 1]) && first[first.find(']').unwrap() + 1..].trim() == i.message().trim())
                    && rest.contains(i.reporter().as_str())
                    && locus.as_ref().map(|l| words.contains(&l.as_str())).unwrap_or(true)
            });
            match at {
                Some(k) => {
                    left.remove(k);
                }
                None => {
                    c.viol(format!("issue-not-reported:{}", cmd), format!("{} / {:?} / {} in {:?}", head, locus, i.reporter(), left.iter().take(4).collect::<Vec<_>>()));
                    break;
                }
            }
        }
        if blocks.len() > want.len() {
            c.viol(format!("too-many-issues:{}", cmd), format!("{} for {}: {:?}", blocks.len(), want.len(), left.iter().take(3).collect::<Vec<_>>()));
        }
    }
    let _ = std::fs::remove_dir_all(&root);
}

fn failures(c: &mut Case) {
    let root = scratch(c);
    let good = root.join("good.json");
    let a = AModel {
        shapes: (0..c.rng.range(1, 60)).map(|k| (format!("ex.a#Shape{}", k), AShape { kind: AKind::Simple("string".into()), traits: Default::default() })).collect(),
        ..Default::default()
    };
    std::fs::write(&good, js::compact(&js::jmodel(&a))).unwrap();
    c.eval(true, &format!("{}", c.idx));
    std::fs::create_dir_all(root.join("dir")).unwrap();
    let all = ["lint", "validate", "convert", "document"];
    let writes = ["convert", "document"];
    // inputs
    let bad: Vec<(&str, &str, Vec<u8>)> = vec![
        ("malformed JSON", "bad.json", js::compact(&js::jmodel(&a)).into_bytes()[..10].to_vec()),
        ("no JSON", "bad2.json", b"nothing".to_vec()),
        ("empty JSON", "bad3.json", vec![]),
        ("JSON of another kind", "bad4.json", b"[1,2]".to_vec()),
        ("malformed IDL", "bad.smithy", b"namespace ex.a\nstructure {".to_vec()),
        ("IDL that is not UTF-8", "bad2.smithy", b"namespace ex.a\n// \xff\n".to_vec()),
        ("unsupported version", "bad3.smithy", b"$version: \"9.9\"\nnamespace ex.a\n".to_vec()),
        ("conflicting shapes", "bad5.json", b"{\"smithy\":\"1.0\",\"shapes\":{\"ex.a#Shape0\":{\"type\":\"blob\"}}}".to_vec()),
    ];
    for (what, name, text) in &bad {
        std::fs::write(root.join(name), text).unwrap();
        let cmd = *c.rng.pick(&all);
        let mut v = args(&[cmd, "-i", name]);
        if *what == "conflicting shapes" || c.rng.chance(1, 2) {
            v.extend(args(&["-i", "good.json"]));
        }
        let out = root.join("out");
        let _ = std::fs::remove_file(&out);
        let asked = writes.contains(&cmd) && c.rng.chance(1, 2);
        if asked {
            v.extend(args(&["-o", "out"]));
        }
        let r = run_tool(c, &root, &v, &[]);
        failed(c, what, &r);
        if !r.out.is_empty() && cmd != "lint" && cmd != "validate" {
            c.viol("output-for-bad-input", format!("{} {}", r.line, clip(&String::from_utf8_lossy(&r.out), 200)));
        }
        if asked && std::fs::metadata(&out).map(|m| m.len() > 0).unwrap_or(false) {
            c.viol("output-for-bad-input", r.line.clone());
        }
    }
    for what in ["missing.json", "missing/x.smithy", "good.json/x.json"] {
        let cmd = *c.rng.pick(&all);
        let r = run_tool(c, &root, &args(&[cmd, "-i", what]), &[]);
        failed(c, "missing input", &r);
    }
    std::os::unix::fs::symlink("loop.json", root.join("loop.json")).unwrap();
    let cmd = *c.rng.pick(&all);
    let r = run_tool(c, &root, &args(&[cmd, "-i", "loop.json"]), &[]);
    failed(c, "unreadable input", &r);
    // outputs
    for cmd in writes {
        for o in ["dir", "missing/out", "good.json/out", ""] {
            let r = run_tool(c, &root, &args(&[cmd, "-i", "good.json", "-o", o]), &[]);
            failed(c, "output that cannot be opened", &r);
        }
        // a full disk, for which a limit on the size of files stands
        let format = *c.rng.pick(if cmd == "convert" { &["json", "smithy", "uml"] } else { &["markdown", "html", "json"] });
        let line = format!("trap '' XFSZ; ulimit -f 1; exec \"$@\"");
        let r = Command::new("bash")
            .args(["-c", &line, "x"])
            .arg(tool(c.ctx))
            .args([cmd, "-i", "good.json", "-w", format, "-o", "full"])
            .current_dir(&root)
            .env("RUST_BACKTRACE", "0")
            .output()
            .unwrap();
        let m = assemble(&root, &Tree { inputs: vec![good.clone()], search: vec![], count: 1 }).unwrap();
        let n = written(cmd == "document", format, "ex.a", &m).map(|x| x.len()).unwrap_or(0);
        let r = Run { code: r.status.code(), out: r.stdout, err: String::from_utf8_lossy(&r.stderr).to_string(), line: format!("{} {} with {} bytes", cmd, format, n) };
        crash(c, &r);
        if n > 1024 {
            failed(c, &format!("full disk {}", cmd), &r);
        } else if r.code != Some(0) {
            c.viol("failed:limit", format!("{} {}", r.line, r.err));
        }
    }
    // a reader of the output that has gone
    let m = assemble(&root, &Tree { inputs: vec![good.clone()], search: vec![], count: 1 }).unwrap();
    for cmd in all {
        let (rd, mut wr) = std::io::pipe().expect("pipe");
        drop(rd);
        // a process being started by another thread holds a copy of the reader until it runs
        while wr.write(b"x").is_ok() {
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let v = args(&[cmd, "-i", "good.json"]);
        let p = command(c.ctx, &root, &v, &[]).stdout(wr).stderr(Stdio::piped()).spawn().unwrap();
        let o = p.wait_with_output().unwrap();
        let r = Run { code: o.status.code(), out: vec![], err: String::from_utf8_lossy(&o.stderr).to_string(), line: format!("{:?} into a closed pipe", v) };
        crash(c, &r);
        failed(c, &format!("closed pipe {}", cmd), &r);
    }
    let _ = m;
    // arguments
    for v in [
        vec!["convert", "-i", "good.json", "-w", "yaml"],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", "not a namespace"],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", ""],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", "ex.a."],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", ".ex.a"],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", "ex..a"],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", " ex.a"],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", "ex.a "],
        vec!["convert", "-i", "good.json", "-w", "smithy", "-n", "ex.a#X"],
        vec!["document", "-i", "good.json", "-w", "nothing"],
        vec!["frobnicate"],
        vec![],
        vec!["lint", "--frobnicate"],
    ] {
        let r = run_tool(c, &root, &args(&v), &[]);
        failed(c, &format!("arguments {:?}", v), &r);
    }
    // a name that is not UTF-8
    let odd = OsStr::from_bytes(b"odd\xff.json").to_os_string();
    std::fs::copy(&good, root.join(&odd)).unwrap();
    let cmd = *c.rng.pick(&all);
    let r = run_tool(c, &root, &[cmd.into(), "-i".into(), odd], &[]);
    if r.code != Some(0) {
        c.viol("failed:name-not-utf8", format!("{} {:?} {}", r.line, r.code, clip(&r.err, 200)));
    }
    let _ = std::fs::remove_dir_all(&root);
}

pub fn run(ctx: &Ctx) {
    ctx.assume("What the library assembles, writes, lints and validates for the same files is the reference; whitespace and order of output are not judged, nor the exit status of lint and validate when there are issues; a file size limit stands for a full disk.");
    ctx.rule("each run of the tool: the output file or standard output holds the requested format of the assembled inputs and nothing else is written, all issues are reported, and bad inputs, unusable outputs and arguments give an error on standard error and a failure status, never a panic. Non-trivial when a model is given.");
    if !tool(ctx).exists() {
        panic!("the tool was not built");
    }
    ctx.cases("convert and document", 2000, 0.5, convert);
    ctx.cases("lint and validate", 1200, 0.3, actions);
    ctx.cases("failures", 80, 0.2, failures);
}
