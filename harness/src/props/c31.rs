//! C31: no hidden state. The same tasks in several threads at once, in any order, after any history, against the results
//! of a single thread and of a fresh process that does nothing else.
use super::{c20, c27};
use crate::am::*;
use crate::fw::{clip, diff, guard, Case, Ctx};
use crate::idl;
use crate::js;
use crate::refm;
use crate::rng::Rng;
use crate::untrusted;
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, Linter};
use atelier_core::io::read_model_from_string;
use atelier_core::model::identity::{Identifier, NamespaceID, ShapeID};
use atelier_core::model::Model;
use atelier_json::JsonReader;
use atelier_query::evaluate::query;
use atelier_smithy::{parse_model, parse_selector, SmithyReader};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::str::FromStr;
use std::sync::{Barrier, OnceLock};

/// What the tasks of a case work on. Its models and texts resemble each other: the same names with other contents.
struct World {
    models: Vec<AModel>,
    built: Vec<OnceLock<Model>>,
    texts: Vec<(char, String)>,
    dirs: Vec<Vec<(String, String)>>,
    root: PathBuf,
    tasks: Vec<Task>,
}
#[derive(Clone, Debug)]
enum Task {
    Read(usize),
    /// as bytes, as text or through a file
    Write(usize, &'static str, usize),
    Validate(usize, usize),
    Lint(usize, usize),
    Query(usize, String),
    Merge(usize, usize),
    Assemble(usize),
    /// the files of one, then of another, under the same names
    Rewritten(usize, usize),
    Build(usize),
    Same(usize, usize),
    Names(usize),
    /// the same names in upper, lower and mixed case
    Ids(Vec<String>),
    /// to a stream that fails after some bytes
    Broken(usize, &'static str, usize),
}
impl Task {
    fn name(&self) -> String {
        match self {
            Task::Write(_, w, how) => format!("write {} {}", w, how),
            t => format!("{:?}", t).split('(').next().unwrap().to_lowercase(),
        }
    }
}

/// another model with the same names
fn relative(a: &AModel, r: &mut Rng) -> AModel {
    let mut b = a.clone();
    let all: Vec<String> = a.shapes.keys().cloned().collect();
    for (id, s) in b.shapes.iter_mut() {
        match r.below(6) {
            0 => s.kind = AKind::Simple(r.pick(&["string", "integer", "blob"]).to_string()),
            1 => {
                s.kind = AKind::Structure([("changed".to_string(), AMember { target: r.pick(&all).clone(), traits: Default::default() })].into_iter().collect())
            }
            2 => {
                s.traits.clear();
                s.traits.insert("smithy.api#title".into(), Some(AVal::Str(id.clone())));
            }
            3 => {
                for (_, m) in s.kind.members_mut() {
                    m.target = r.pick(&["smithy.api#String", "smithy.api#Long", "missing.ns#Gone"]).to_string();
                }
            }
            _ => {}
        }
    }
    for v in b.metadata.values_mut() {
        if r.chance(1, 2) {
            *v = AVal::Str("changed".into());
        }
    }
    b
}

/// another model with some names in other case
fn recased(a: &AModel, r: &mut Rng) -> Option<AModel> {
    let m = idl::plain_model(a);
    let p = idl::prog_of(&m, "example.one", r);
    let l = idl::Layout { ws: 1, crlf: false, quote_keys: false, blocks: 0, escapes: false };
    let mut t = idl::emit(&p, Some("1.0"), l, r);
    for id in a.shapes.keys().take(4) {
        let n = name_of(id).to_string();
        if n.len() > 2 && r.chance(2, 3) {
            t = t.replace(&n, &swapped(&n));
        }
    }
    Some(idl::model_of(&t, Default::default()).ok()?.0)
}
fn swapped(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn world(seed: u64, root: &Path) -> World {
    let mut r = Rng::new(seed);
    let o = GenOpts {
        namespaces: if r.chance(1, 2) { vec!["example.one".into()] } else { vec!["example.one".into(), "ex.two".into()] },
        shapes: (1, 8),
        metadata: (0, 3),
        strings: r.below(2) as u8,
        value_depth: r.below(3),
        short_floats: true,
        dangling: r.chance(1, 2),
        typed_refs: r.chance(1, 2),
        ..Default::default()
    };
    let mut first = gen_model(&mut r, &o);
    if r.chance(1, 2) {
        // something for the linters to find
        for n in ["MasterKey", "blackList", "aSlave", "HTTPServer", "odd_name"] {
            if r.chance(1, 2) {
                first.shapes.insert(format!("example.one#{}", n), AShape { kind: AKind::Simple("string".into()), traits: Default::default() });
            }
        }
    }
    let mut models = vec![first.clone(), relative(&first, &mut r), gen_model(&mut r, &o)];
    if r.chance(1, 3) {
        models.push(AModel::default());
    }
    if let Some(m) = recased(&first, &mut r) {
        models.push(m);
    }
    if r.chance(1, 3) {
        // some writers refuse it half-way
        let mut m = first.clone();
        if let Some(s) = m.shapes.values_mut().last() {
            s.traits.insert("example.one#odd".into(), Some(AVal::Float(*r.pick(&[f64::NAN, f64::INFINITY]))));
        }
        models.push(m);
    }
    let mut texts = vec![];
    for m in &models {
        if m.shapes.values().any(|s| s.traits.contains_key("example.one#odd")) {
            continue;
        }
        let style = js::Style { space: r.below(3) as u8, shuffle: true, escapes: 0 };
        texts.push(('j', js::emit(&js::jmodel(m), &style, &mut r)));
        let m = idl::plain_model(m);
        let p = idl::prog_of(&m, "example.one", &mut r);
        let l = idl::Layout { ws: r.below(3) as u8, crlf: false, quote_keys: false, blocks: 0, escapes: false };
        texts.push(('i', idl::emit(&p, if r.chance(1, 2) { Some("1.0") } else { None }, l, &mut r)));
    }
    for k in ['i', 'j', 's', 's'] {
        let t = if r.chance(1, 2) { untrusted::valid(k, &mut r) } else { String::from_utf8_lossy(&untrusted::text(k, &mut r).0).into_owned() };
        if t.len() < 20_000 {
            texts.push((k, t));
        }
    }
    let mut dirs = vec![];
    for _ in 0..2 {
        let mut files = vec![];
        for i in 0..r.range(1, 3) {
            let (k, t) = r.pick(&texts).clone();
            match k {
                'i' => files.push((format!("f{}.smithy", i), t)),
                'j' => files.push((format!("f{}.json", i), t)),
                _ => files.push((format!("f{}.txt", i), t)),
            }
        }
        dirs.push(files);
    }
    let mut tasks = vec![];
    let m = models.len();
    for _ in 0..r.range(6, 18) {
        tasks.push(match r.below(18) {
            0..=2 => Task::Read(r.below(texts.len())),
            3..=5 => Task::Write(r.below(m), *r.pick(&c27::WRITERS), r.below(3)),
            6 => Task::Validate(r.below(m), r.below(3)),
            7 => Task::Lint(r.below(m), r.below(3)),
            8 => Task::Query(r.below(m), r.pick(&c20::TYPES).0.to_string()),
            9 => Task::Merge(r.below(m), r.below(m)),
            10 => Task::Assemble(r.below(dirs.len())),
            11 => Task::Build(r.below(m)),
            12 => Task::Same(r.below(m), r.below(m)),
            13 => Task::Broken(r.below(m), *r.pick(&c27::WRITERS), r.below(400)),
            16 => Task::Rewritten(r.below(dirs.len()), r.below(dirs.len())),
            14 | 15 => {
                let mut l: Vec<String> = models[r.below(m)].shapes.keys().cloned().collect();
                l.push("smithy.api#String".into());
                l.truncate(12);
                for x in l.iter_mut() {
                    match r.below(3) {
                        0 => {}
                        1 => *x = swapped(x),
                        _ => *x = x.to_ascii_uppercase(),
                    }
                }
                Task::Ids(l)
            }
            _ => Task::Names(r.below(m)),
        });
    }
    let built = models.iter().map(|_| OnceLock::new()).collect();
    World { models, built, texts, dirs, root: root.to_path_buf(), tasks }
}
impl World {
    /// built when needed, so that a fresh process does nothing but its task
    fn built(&self, i: usize) -> &Model {
        self.built[i].get_or_init(|| to_model(&self.models[i]))
    }
    fn lay_out(&self) {
        for (i, d) in self.dirs.iter().enumerate() {
            lay_out(&self.root.join(format!("d{}", i)), d);
        }
    }
    /// the result of a task in a form that does not depend on the order of hash maps
    fn go(&self, t: &Task) -> String {
        match guard(|| self.run(t)) {
            Ok(s) => s,
            Err(p) => format!("panic {} {}", p.at, p.msg),
        }
    }
    fn write(&self, i: usize, w: &str, how: usize) -> Result<Vec<u8>, String> {
        let m = self.built(i);
        match how {
            0 => c27::write_plain(w, "example.one", m),
            1 => c27::to_text(w, "example.one", m),
            _ => {
                let p = self.root.join(format!("out{}-{}", std::process::id(), NAMES.fetch_add(1, Ordering::SeqCst)));
                let r = c27::to_file(w, "example.one", m, p.clone());
                let b = std::fs::read(&p).unwrap_or_default();
                let _ = std::fs::remove_file(&p);
                r.map(|_| b)
            }
        }
    }
    fn run(&self, t: &Task) -> String {
        let model = |r: Result<Model, String>| match r {
            Ok(m) => from_model(&m).dump().join("\n"),
            Err(_) => "error".to_string(),
        };
        match t {
            Task::Read(i) => {
                let (k, t) = &self.texts[*i];
                match k {
                    'j' => model(read_model_from_string(&mut JsonReader::default(), t).map_err(|e| e.to_string())),
                    'i' if t.len() % 2 == 0 => model(read_model_from_string(&mut SmithyReader::default(), t).map_err(|e| e.to_string())),
                    'i' => model(parse_model(t).map_err(|e| e.to_string())),
                    _ => match parse_selector(t) {
                        Ok(s) => s.to_string(),
                        Err(_) => "error".into(),
                    },
                }
            }
            Task::Write(i, w, how) => match self.write(*i, w, *how) {
                Err(_) => "error".into(),
                Ok(b) if w.starts_with("json") => match js::parse(&String::from_utf8_lossy(&b)) {
                    Ok(j) => {
                        let mut l = j.lines();
                        l.sort();
                        l.join("\n")
                    }
                    Err(e) => format!("not JSON: {}", e),
                },
                Ok(b) if *w == "smithy" => match idl::model_of(&String::from_utf8_lossy(&b), Default::default()) {
                    Ok((m, _)) => m.dump_with(JSONISH).join("\n"),
                    Err(_) => "not read by the monitor".into(),
                },
                Ok(b) if *w == "debug" => format!("{} bytes", b.len()),
                Ok(b) => {
                    // the order of lines, of blank nodes and of punctuation may differ
                    let mut v: Vec<u8> = b.into_iter().filter(|c| *w != "rdf" || (!c.is_ascii_hexdigit() && c.is_ascii_alphabetic())).collect();
                    v.sort();
                    String::from_utf8_lossy(&v).into_owned()
                }
            },
            Task::Validate(i, how) => {
                let m = self.built(*i);
                let r = match how {
                    0 => atelier_lib::actions::standard_model_validation(m, false),
                    1 => run_validation_actions(&mut [Box::new(CorrectTypeReferences::default())], m, false),
                    _ => run_validation_actions(&mut [Box::new(NoUnresolvedReferences::default()), Box::new(CorrectTypeReferences::default())], m, true),
                };
                issues(r.map_err(|e| e.to_string()), *how == 2)
            }
            Task::Lint(i, how) => {
                let m = self.built(*i);
                match how {
                    0 => issues(atelier_lib::actions::standard_model_lint(m, false).map_err(|e| e.to_string()), false),
                    1 => issues(run_linter_actions(&mut [Box::new(UnwelcomeTerms::default())], m, false).map_err(|e| e.to_string()), false),
                    _ => {
                        let mut l = NamingConventions::default();
                        let r = l.check(m).map(|_| l.issues().clone());
                        issues(r.map_err(|e| e.to_string()), false)
                    }
                }
            }
            Task::Query(i, t) => match parse_selector(t) {
                Ok(s) => {
                    let mut l: Vec<String> = format!("{:?}", query(&s, self.built(*i))).split(',').map(|x| x.trim().to_string()).collect();
                    l = l.join(" ").chars().map(|c| c.to_string()).collect();
                    l.sort();
                    l.concat()
                }
                Err(_) => "no selector".into(),
            },
            Task::Merge(i, j) => {
                let mut m = self.built(*i).clone();
                let r = m.merge(self.built(*j).clone());
                match r {
                    Ok(_) => refm::unordered_arrays(&from_model(&m)).dump().join("\n"),
                    Err(_) => "error".into(),
                }
            }
            Task::Assemble(d) => assembled(&self.root.join(format!("d{}", d))),
            Task::Rewritten(a, b) => {
                let p = self.root.join(format!("re{}-{}", std::process::id(), NAMES.fetch_add(1, Ordering::SeqCst)));
                lay_out(&p, &self.dirs[*a]);
                let first = assembled(&p);
                let _ = std::fs::remove_dir_all(&p);
                lay_out(&p, &self.dirs[*b]);
                let second = assembled(&p);
                let _ = std::fs::remove_dir_all(&p);
                format!("{}\nrewritten\n{}", first, second)
            }
            Task::Ids(l) => l
                .iter()
                .map(|x| {
                    let id = ShapeID::from_str(x).map(|x| x.to_string());
                    let n = NamespaceID::from_str(ns_of(x)).map(|x| x.to_string());
                    let i = Identifier::from_str(name_of(x)).map(|x| x.to_string());
                    format!("{} {} {}", id.unwrap_or_default(), n.unwrap_or_default(), i.unwrap_or_default())
                })
                .collect::<Vec<_>>()
                .join("\n"),
            Task::Broken(i, w, k) => match c27::to_broken(w, "example.one", self.built(*i), *k) {
                // how long RDF is depends on the labels of blank nodes
                Ok(_) if *w != "rdf" => "written".into(),
                _ => "error".into(),
            },
            Task::Build(i) => from_model(&to_model(&self.models[*i])).dump().join("\n"),
            Task::Same(i, j) => format!("{}", self.built(*i) == self.built(*j)),
            Task::Names(i) => {
                let m = self.built(*i);
                let mut v: Vec<String> = m.shape_names().map(|x| x.to_string()).chain(m.namespaces().into_iter().map(|n| n.to_string())).collect();
                v.push(format!("complete {}", m.is_complete()));
                v.sort();
                v.join("\n")
            }
        }
    }
}
/// for names of files nobody else uses
static NAMES: AtomicUsize = AtomicUsize::new(0);
fn lay_out(p: &Path, files: &[(String, String)]) {
    std::fs::create_dir_all(p).unwrap();
    for (n, t) in files {
        std::fs::write(p.join(n), t).unwrap();
    }
}
fn assembled(p: &PathBuf) -> String {
    use atelier_assembler::{FileTypeRegistry, ModelAssembler};
    use std::convert::TryFrom;
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    a.push(p);
    match Model::try_from(a) {
        Ok(m) => refm::unordered_arrays(&from_model(&m)).dump().join("\n"),
        Err(_) => "error".into(),
    }
}
fn issues(r: Result<Vec<atelier_core::action::ActionIssue>, String>, any: bool) -> String {
    match r {
        Err(_) => "error".into(),
        Ok(v) if any => format!("some {}", !v.is_empty()),
        Ok(v) => {
            let mut l: Vec<String> = v.iter().map(|i| format!("{} {:?} {}", i.reporter(), i.locus().as_ref().map(|x| x.to_string()), i.message())).collect();
            l.sort();
            l.join("\n")
        }
    }
}
fn disagree(c: &mut Case, what: &str, t: &Task, a: &str, b: &str) {
    let l = |s: &str| s.lines().map(|x| x.to_string()).collect::<Vec<_>>();
    let d = diff(&l(a), &l(b)).map(|x| x.1).unwrap_or_default();
    c.viol(format!("{}:{}", what, t.name()), format!("{:?}: {}", t, clip(&d, 900)));
}

fn threads(c: &mut Case) {
    let seed = c.rng.next();
    let root = c.ctx.scratch.join(format!("w{}", c.idx));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let w = world(seed, &root);
    w.lay_out();
    (0..w.models.len()).for_each(|i| {
        w.built(i);
    });
    let alone: Vec<String> = w.tasks.iter().map(|t| w.go(t)).collect();
    c.sample(|| format!("{:?}", w.tasks));
    c.add("tasks", alone.len() as u64);
    c.add("tasks that end in an error", alone.iter().filter(|r| *r == "error").count() as u64);
    // the same files whatever was there before
    for (i, t) in w.tasks.iter().enumerate() {
        if let Task::Rewritten(a, b) = t {
            let want = format!("{}\nrewritten\n{}", w.go(&Task::Assemble(*a)), w.go(&Task::Assemble(*b)));
            c.eval(a != b, &format!("{} {} rewritten", seed, i));
            if alone[i] != want {
                disagree(c, "rewritten", t, &want, &alone[i]);
            }
        }
    }
    // together
    let n = c.rng.range(2, 5);
    let rounds = 2;
    let orders: Vec<Vec<usize>> = (0..n)
        .map(|k| {
            let mut v: Vec<usize> = (0..w.tasks.len()).flat_map(|i| std::iter::repeat(i).take(rounds)).collect();
            if k > 0 || c.rng.chance(1, 2) {
                c.rng.shuffle(&mut v);
            }
            v
        })
        .collect();
    let gate = Barrier::new(n);
    let (active, overlaps) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let got: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (w, gate, active, overlaps) = (&w, &gate, &active, &overlaps);
                s.spawn(move || {
                    gate.wait();
                    o.iter()
                        .map(|i| {
                            if active.fetch_add(1, Ordering::SeqCst) > 0 {
                                overlaps.fetch_add(1, Ordering::SeqCst);
                            }
                            let r = w.go(&w.tasks[*i]);
                            active.fetch_sub(1, Ordering::SeqCst);
                            (*i, r)
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    c.add("tasks that overlapped others", overlaps.load(Ordering::SeqCst) as u64);
    for o in &got {
        for (i, r) in o {
            c.eval(overlaps.load(Ordering::SeqCst) > 0, &format!("{} {}", seed, i));
            c.seen("operations", &w.tasks[*i].name());
            if *r != alone[*i] {
                disagree(c, "thread", &w.tasks[*i], &alone[*i], r);
            }
        }
        let order: Vec<usize> = o.iter().map(|x| x.0).collect();
        c.seen("orders", &format!("{} {:?}", seed, order));
    }
    // in a process that does nothing else
    for _ in 0..2 {
        let i = c.rng.below(w.tasks.len());
        let out = std::process::Command::new(&c.ctx.exe).args(["child", "c31", &seed.to_string(), root.to_str().unwrap(), &i.to_string()]).output();
        let out = match out {
            Ok(o) => o,
            Err(_) => continue,
        };
        if !out.status.success() {
            c.viol(format!("process-died:{}", w.tasks[i].name()), format!("{:?} {:?}", w.tasks[i], out.status));
            continue;
        }
        c.eval(true, &format!("{} {} fresh", seed, i));
        c.count("results of fresh processes");
        let fresh = String::from_utf8_lossy(&out.stdout).into_owned();
        if fresh != alone[i] {
            disagree(c, "history", &w.tasks[i], &fresh, &alone[i]);
        }
    }
    let _ = std::fs::remove_dir_all(&root);
}
pub fn child(args: &[String]) -> i32 {
    let root = PathBuf::from(&args[1]);
    let w = world(args[0].parse().unwrap(), &root);
    let i: usize = args[2].parse().unwrap();
    print!("{}", w.go(&w.tasks[i]));
    0
}

pub fn run(ctx: &Ctx) {
    ctx.rule("6-18 tasks (read, write, validate, lint, query, merge, assemble, build, compare) on shared models and texts with the same names and other contents; run by one thread, then by 2-5 threads at once in random orders from a common start, some also alone in a fresh process; one evaluation per result. Non-trivial when tasks of different threads overlapped.");
    ctx.assume("Orders of hash maps, blank node labels and which of several errors is reported are not compared. ThreadSanitizer is not used: the code has no unsafe blocks and std cannot be instrumented offline.");
    ctx.cases("threads", 300, 1.0, threads);
}
