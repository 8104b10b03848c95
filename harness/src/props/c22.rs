//! C22: assembling trees of files in a scratch directory; the readers count what they are given.
use super::{c06, c11};
use crate::am::*;
use crate::fw::{clip, diff, Case, Ctx};
use crate::refm;
use crate::{idl, js};
use atelier_assembler::{FileType, FileTypeRegistry, ModelAssembler};
use atelier_core::error::Result as ModelResult;
use atelier_core::io::{read_model_from_string, ModelReader};
use atelier_core::model::Model;
use atelier_json::JsonReader;
use atelier_smithy::SmithyReader;
use search_path::SearchPath;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::convert::TryFrom;
use std::fs::{self, File};
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};
use std::sync::Mutex;

static READS: Mutex<Option<HashMap<u64, (u64, &'static str)>>> = Mutex::new(None);

fn note(f: &File, by: &'static str) {
    if let Ok(m) = f.metadata() {
        let mut g = READS.lock().unwrap();
        let e = g.get_or_insert_with(HashMap::new).entry(m.ino()).or_insert((0, by));
        e.0 += 1;
        e.1 = by;
    }
}
fn counted_json(f: &mut File) -> ModelResult<Model> {
    note(f, "json");
    JsonReader::default().read(f)
}
fn counted_idl(f: &mut File) -> ModelResult<Model> {
    note(f, "smithy");
    SmithyReader::default().read(f)
}

/// a file of the tree that should be read, with what its reader makes of it
#[derive(Clone)]
struct Src {
    real: PathBuf,
    idl: bool,
    text: Vec<u8>,
}

fn read_direct(s: &Src) -> Option<AModel> {
    let t = std::str::from_utf8(&s.text).ok()?;
    let m = if s.idl { read_model_from_string(&mut SmithyReader::default(), t) } else { read_model_from_string(&mut JsonReader::default(), t) };
    m.ok().map(|m| from_model(&m))
}

fn tree(c: &mut Case) {
    let root = c.ctx.scratch.join(format!("t{}-{}", c.group.len(), c.idx));
    let _ = fs::remove_dir_all(&root);
    fs::create_dir_all(&root).unwrap();
    let root = root.canonicalize().unwrap();
    run_tree(c, &root);
    if root.starts_with(&c.ctx.scratch.canonicalize().unwrap()) {
        let _ = fs::remove_dir_all(&root);
    }
}

fn run_tree(c: &mut Case, root: &Path) {
    let faulty = c.rng.chance(1, 3);
    // what is to be assembled
    let o = GenOpts {
        namespaces: if c.rng.chance(1, 2) { vec!["ex.a".into()] } else { vec!["ex.a".into(), "ex.b".into()] },
        shapes: (1, 8),
        metadata: (0, 3),
        unresolved: true,
        strings: 1,
        value_depth: 1,
        dangling: true,
        ..Default::default()
    };
    let whole = gen_model(&mut c.rng, &o);
    let n = *c.rng.pick(&[1, 2, 2, 3, 4, 6]);
    let parts = c06::partition(&mut c.rng, &whole, n);
    // where
    let mut dirs: Vec<PathBuf> = vec![];
    for k in 0..c.rng.range(1, 3) {
        dirs.push(root.join(format!("top{}", k)));
    }
    for k in 0..c.rng.below(4) {
        let mut base = c.rng.pick(&dirs).clone();
        if c.rng.chance(1, 10) {
            // a long way down
            for i in 0..c.rng.range(5, 40) {
                base = base.join(format!("d{}", i));
            }
        }
        let d = base.join(c.rng.pick(&["sub", "model.json", "x.smithy", ".hidden", "UP", "a b", "ünï"])).join(if k % 2 == 0 { "" } else { "deep" });
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    }
    for d in &dirs {
        fs::create_dir_all(d).unwrap();
    }
    // the registry: the standard types with counting readers, sometimes others
    let mut reg = FileTypeRegistry::default();
    let json_type = FileType::new_with_mime_type("JSON AST", counted_json, "Application/Json");
    let idl_type = FileType::new("Smithy IDL", counted_idl);
    reg.register(json_type.clone(), "json");
    reg.register(idl_type.clone(), "SMITHY");
    let mut known: BTreeMap<String, bool> = [("json".to_string(), false), ("smithy".to_string(), true)].into_iter().collect();
    if c.rng.chance(1, 4) {
        reg.register_all(idl_type.clone(), &["idl", "Foo"]);
        known.insert("idl".into(), true);
        known.insert("foo".into(), true);
    }
    if c.rng.chance(1, 6) {
        reg.register(json_type.clone(), "ast");
        known.insert("ast".into(), false);
    }
    if c.rng.chance(1, 8) {
        reg.remove("JSON");
        known.remove("json");
    }
    let mut files: Vec<Src> = vec![];
    let mut all: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let mut names: BTreeSet<PathBuf> = BTreeSet::new();
    let put = |c: &mut Case, stem: &str, ext: &str, text: &[u8], dirs: &[PathBuf], names: &mut BTreeSet<PathBuf>| -> PathBuf {
        loop {
            let d = c.rng.pick(dirs).clone();
            let p = d.join(format!("{}{}{}", stem, c.rng.below(1000), if ext.is_empty() { String::new() } else { format!(".{}", ext) }));
            if names.insert(p.clone()) && !p.exists() {
                fs::write(&p, text).unwrap();
                return p;
            }
        }
    };
    for part in &parts {
        let exts: Vec<(String, bool)> = known.iter().map(|(k, v)| (k.clone(), *v)).collect();
        let (ext, is_idl) = c.rng.pick(&exts).clone();
        let spaces = part.namespaces();
        let single = part.shapes.iter().filter(|(_, s)| s.kind != AKind::Unresolved).map(|x| ns_of(x.0).to_string()).collect::<BTreeSet<_>>();
        let (text, is_idl, ext) = if is_idl && single.len() <= 1 && !spaces.is_empty() {
            let ns = single.iter().next().cloned().unwrap_or(spaces[0].clone());
            let p = idl::prog_of(part, &ns, &mut c.rng);
            let l = c11::layout(c);
            (idl::emit(&p, Some("1.0"), l, &mut c.rng), true, ext)
        } else if let Some((e, _)) = exts.iter().find(|e| !e.1) {
            let st = js::Style { space: 1, shuffle: true, escapes: 0 };
            (js::emit(&js::jmodel(part), &st, &mut c.rng), false, e.clone())
        } else {
            ("$version: \"1.0\"\nmetadata z = 1\n".to_string(), true, ext)
        };
        let ext = match c.rng.below(4) {
            0 => ext.to_uppercase(),
            1 => ext[..1].to_uppercase() + &ext[1..],
            _ => ext,
        };
        let stem = c.rng.pick(&["m", ".dot", "a.b", "x y", "json"]).to_string();
        let mut p = put(c, &stem, &ext, text.as_bytes(), &dirs, &mut names);
        if c.rng.chance(1, 8) {
            // the file itself is elsewhere and its name does not say what it is
            let away = root.join("away");
            fs::create_dir_all(&away).unwrap();
            let real = away.join(format!("{}.{}", files.len(), c.rng.pick(&["bin", "txt", "x"])));
            fs::rename(&p, &real).unwrap();
            symlink(&real, &p).unwrap();
            c.count("models under another name");
            p = real;
        }
        all.insert(p.clone(), text.clone().into_bytes());
        files.push(Src { real: p, idl: is_idl, text: text.into_bytes() });
    }
    // things that are not models
    for _ in 0..c.rng.below(4) {
        let ext = c.rng.pick(&["txt", "md", "jsonx", "", "smithy~", "js", "smith", "bak", "json ", "smithy ", " json", "xjson", "json.txt", "smithy.bak", "json5", "ſmithy"]).to_string();
        let p = put(c, "other", &ext, b"\xff{ not a model", &dirs, &mut names);
        all.insert(p, b"\xff{ not a model".to_vec());
        c.count("files of other types in the tree");
    }
    // links: more ways to the same files
    let mut expect_error = false;
    let mut why = vec![];
    let mut has_links = false;
    for k in 0..c.rng.below(3) {
        let d = c.rng.pick(&dirs).clone();
        let ok = match c.rng.below(3) {
            0 => symlink(c.rng.pick(&dirs), d.join(format!("dirlink{}", k))).is_ok(),
            1 => {
                let f = c.rng.pick(&files).real.clone();
                let e = if c.rng.chance(1, 3) { "txt".to_string() } else { f.extension().unwrap().to_string_lossy().to_string() };
                symlink(&f, d.join(format!("link{}.{}", k, e))).is_ok()
            }
            _ => symlink(root.join("nowhere"), d.join(format!("broken{}.txt", k))).is_ok(),
        };
        has_links |= ok;
    }
    // faults
    let mut pushes: Vec<PathBuf> = vec![];
    let mut search: Vec<PathBuf> = vec![];
    if faulty {
        let exts: Vec<(String, bool)> = known.iter().map(|(k, v)| (k.clone(), *v)).collect();
        let (ext, is_idl) = c.rng.pick(&exts).clone();
        let kind = c.rng.below(8);
        let name = ["missing path", "malformed file", "file cut short", "not UTF-8", "conflict", "dangling link", "link to itself", "empty file"][kind];
        c.seen("faults", name);
        why.push(name);
        match kind {
            0 => {
                pushes.push(root.join(c.rng.pick(&["gone", "gone.json", "top0/gone.smithy"])));
                expect_error = true;
            }
            1 | 7 => {
                let text = if kind == 7 { "" } else { *c.rng.pick(&["{", "[]", "{\"smithy\": \"1.0\", ", "namespace", "not a model", "shapes { }", "{\"smithy\":\"9\"}"]) };
                let p = put(c, "bad", &ext, text.as_bytes(), &dirs, &mut names);
                all.insert(p.clone(), text.as_bytes().to_vec());
                files.push(Src { real: p, idl: is_idl, text: text.as_bytes().to_vec() });
            }
            2 => {
                let k = c.rng.below(files.len());
                let len = files[k].text.len();
                let at = c.rng.below(len.max(1));
                files[k].text.truncate(at);
                fs::write(&files[k].real, &files[k].text).unwrap();
                all.insert(files[k].real.clone(), files[k].text.clone());
            }
            3 => {
                let k = c.rng.below(files.len());
                let at = c.rng.below(files[k].text.len() + 1);
                files[k].text.insert(at, 0xC3);
                files[k].text.insert(at + 1, 0x28);
                fs::write(&files[k].real, &files[k].text).unwrap();
                all.insert(files[k].real.clone(), files[k].text.clone());
            }
            4 => {
                // the same shape or key with another meaning
                if let Some((e, _)) = exts.iter().find(|e| !e.1) {
                    let mut bad = AModel::default();
                    if let Some((id, s)) = whole.shapes.iter().find(|(_, s)| s.kind != AKind::Unresolved) {
                        let k = if matches!(&s.kind, AKind::Simple(t) if t == "blob") { "string" } else { "blob" };
                        bad.shapes.insert(id.clone(), AShape { kind: AKind::Simple(k.into()), traits: Default::default() });
                        let text = js::compact(&js::jmodel(&bad));
                        let p = put(c, "bad", e, text.as_bytes(), &dirs, &mut names);
                        all.insert(p.clone(), text.clone().into_bytes());
                        files.push(Src { real: p, idl: false, text: text.into_bytes() });
                    }
                }
            }
            5 => {
                let d = c.rng.pick(&dirs).clone();
                let _ = symlink(root.join("nowhere"), d.join(format!("dangling.{}", ext)));
                expect_error = true;
            }
            _ => {
                let d = c.rng.pick(&dirs).clone();
                let p = d.join(format!("self.{}", ext));
                let _ = symlink(&p, &p);
                expect_error = true;
            }
        }
    }
    // how the tree is named: directories or single files, pushed or on the search path, in several spellings
    let tops: Vec<PathBuf> = dirs.iter().filter(|d| d.parent() == Some(root)).cloned().collect();
    for t in &tops {
        let other = tops[c.rng.below(tops.len())].file_name().unwrap().to_os_string();
        let spelled = match c.rng.below(4) {
            0 => root.join(&other).join("..").join(t.file_name().unwrap()),
            1 => root.join(".").join(t.file_name().unwrap()),
            _ => t.clone(),
        };
        if c.rng.chance(1, 3) {
            search.push(spelled.clone());
        } else {
            pushes.push(spelled.clone());
        }
        if c.rng.chance(1, 4) {
            pushes.push(t.clone());
        }
    }
    for _ in 0..c.rng.below(3) {
        // a file that is also in a directory; sometimes one that is no model
        if c.rng.chance(1, 2) {
            pushes.push(c.rng.pick(&files).real.clone());
        } else {
            let v: Vec<&PathBuf> = all.keys().collect();
            pushes.push(c.rng.pick(&v).to_path_buf());
        }
    }
    if c.rng.chance(1, 4) {
        search.push(root.join("not-there"));
        if faulty && c.rng.chance(1, 8) {
            // also asked for by name
            pushes.push(root.join("not-there"));
            expect_error = true;
        }
        c.count("search paths that do not exist");
    }
    // what the result must be
    let mut sorted = files.clone();
    sorted.sort_by(|a, b| a.real.cmp(&b.real));
    let mut want: Option<AModel> = Some(AModel::default());
    for f in &sorted {
        match (read_direct(f), &mut want) {
            (None, _) => want = None,
            (Some(m), Some(w)) => {
                if refm::merge(w, &m).is_err() {
                    want = None;
                }
            }
            _ => {}
        }
    }
    if expect_error {
        want = None;
    }
    let empty = pushes.is_empty() && search.is_empty();
    c.eval(files.len() > 1, &format!("{:?}{:?}{:?}", pushes.len(), files.iter().map(|f| &f.real).collect::<Vec<_>>(), whole.dump()));
    c.seen("files to read", &files.len().to_string());
    if has_links {
        c.count("trees with links");
    }
    c.sample(|| format!("{} files, {} pushed, {} on the search path, links {}, fault {:?}", files.len(), pushes.len(), search.len(), has_links, why));
    let var = format!("VMON_PATH_{}_{}", c.group.len(), c.idx);
    let mut first: Option<Result<Vec<String>, String>> = None;
    for round in 0..2 {
        c.rng.shuffle(&mut pushes);
        c.rng.shuffle(&mut search);
        let joined = std::env::join_paths(&search).unwrap();
        let inos: Vec<(PathBuf, u64)> = all.keys().filter_map(|p| fs::metadata(p).ok().map(|m| (p.clone(), m.ino()))).collect();
        {
            let mut g = READS.lock().unwrap();
            let g = g.get_or_insert_with(HashMap::new);
            for (_, i) in &inos {
                g.remove(i);
            }
        }
        let build = || {
            let sp = if search.is_empty() {
                None
            } else {
                std::env::set_var(&var, &joined);
                Some(SearchPath::new_or_default(&var))
            };
            let mut a = ModelAssembler::new(reg.clone(), sp);
            for p in &pushes {
                if p.to_string_lossy().len() % 2 == 0 {
                    a.push(p);
                } else {
                    a.push_str(p.to_str().unwrap());
                }
            }
            a
        };
        if let Some((given, len, empty)) = c.lib("ModelAssembler::paths", || {
            let a = build();
            let given: BTreeSet<PathBuf> = a.paths().map(|p| p.to_path_buf()).collect();
            (given, a.len(), a.is_empty())
        }) {
            let wanted: BTreeSet<PathBuf> = pushes.iter().chain(search.iter()).cloned().collect();
            if given != wanted || len != given.len() || empty != given.is_empty() {
                c.viol("paths-of-assembler", format!("{:?} for pushes {:?} search {:?}", given, short(&pushes, root), short(&search, root)));
            }
        }
        let r = c.lib("Model::try_from(assembler)", || {
            let mut a = build();
            let expanded = a.expand_file_paths();
            if round == 0 { Model::try_from(&mut a) } else { Model::try_from(a) }.map(|m| (from_model(&m), expanded.clone())).map_err(|e| (e.to_string(), expanded))
        });
        std::env::remove_var(&var);
        let r = match r {
            Some(r) => r,
            None => return,
        };
        c.count("assemblies");
        c.add("Smithy IDL files given", files.iter().filter(|f| f.idl).count() as u64);
        let label = || format!("pushes {:?} search {:?} files {:?} fault {:?}", short(&pushes, root), short(&search, root), short(&files.iter().map(|f| f.real.clone()).collect::<Vec<_>>(), root), why);
        let expanded = match &r {
            Ok(x) => &x.1,
            Err(x) => &x.1,
        };
        // the files found
        if !expanded.windows(2).all(|w| w[0] < w[1]) {
            c.viol("found-files-not-sorted", label());
        }
        let mut reals: Vec<PathBuf> = expanded.iter().filter_map(|p| p.canonicalize().ok()).collect();
        reals.sort();
        let wanted: Vec<PathBuf> = sorted.iter().map(|f| f.real.clone()).collect();
        if !empty && reals != wanted {
            let sig = if reals.len() > wanted.len() { "found-too-many-files" } else { "files-not-found" };
            c.viol(sig, format!("found {:?}, {}", short(&reals, root), label()));
        }
        // each read once, by its reader
        let reads: Vec<(PathBuf, (u64, &'static str))> = {
            let g = READS.lock().unwrap();
            let g = g.as_ref().unwrap();
            inos.iter().map(|(p, i)| (p.clone(), g.get(i).copied().unwrap_or((0, "")))).collect()
        };
        for (p, (k, by)) in reads {
            c.add("files read", k);
            match files.iter().find(|f| f.real == p) {
                None if k > 0 => c.viol("other-file-read", format!("{:?}, {}", short(&[p], root), label())),
                None => {}
                Some(f) => {
                    if k > 1 {
                        c.viol("file-read-twice", format!("{:?} {} times, {}", short(&[p], root), k, label()));
                    } else if k == 0 && r.is_ok() {
                        c.viol("file-not-read", format!("{:?}, {}", short(&[p], root), label()));
                    } else if k == 1 && (by == "smithy") != f.idl {
                        c.viol("read-by-the-wrong-reader", format!("{:?}, {}", short(&[p], root), label()));
                    }
                }
            }
        }
        // the model
        match (&r, &want) {
            (Err(_), None) => c.count("failures reported"),
            (Ok(_), None) => c.viol(format!("no-error:{}", why.first().unwrap_or(&"")), label()),
            (Err((e, _)), Some(_)) => c.viol("assembly-refused", format!("{}; {}", clip(e, 300), label())),
            (Ok((got, _)), Some(w)) => {
                c.count("models assembled");
                if let Some((sig, d)) = diff(&refm::unordered_arrays(w).dump(), &refm::unordered_arrays(got).dump()) {
                    c.viol(format!("model:{}", sig), format!("{}; {}", d, label()));
                }
            }
        }
        let outcome = r.map(|x| x.0.dump()).map_err(|_| String::new());
        match &first {
            None => first = Some(outcome),
            Some(f) if *f != outcome => c.viol("order-of-paths-matters", label()),
            _ => {}
        }
    }
    for (p, t) in &all {
        if fs::read(p).ok().as_ref() != Some(t) {
            c.viol("file-changed", format!("{:?}", p));
        }
    }
}
fn short(v: &[PathBuf], root: &Path) -> Vec<String> {
    v.iter().map(|p| p.strip_prefix(root).unwrap_or(p).to_string_lossy().to_string()).collect()
}

/// histories of a registry against a map
fn registry(c: &mut Case) {
    let mut reg = if c.rng.chance(1, 2) { FileTypeRegistry::default() } else { FileTypeRegistry::empty() };
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    let mut mime: BTreeMap<String, String> = BTreeMap::new();
    for (e, n) in [("json", "JSON AST"), ("smithy", "Smithy IDL")] {
        if reg.contains(e) {
            want.insert(e.into(), n.into());
        }
    }
    let fresh = want.len();
    if fresh != reg.extensions().count() || fresh == 1 {
        return c.viol("registry-start", format!("{:?}", reg));
    }
    const EXT: [&str; 10] = ["json", "JSON", "smithy", "Smithy", "a", "A", "b.c", "", "é", "ttl"];
    let mut hist = vec![];
    for k in 0..c.rng.range(1, 12) {
        let e = *c.rng.pick(&EXT);
        match c.rng.below(4) {
            0 | 1 => {
                let name = format!("type{}", k);
                let mt = c.rng.pick(&["", "text/x", "Text/X", "a/b"]).to_string();
                let t = if mt.is_empty() { FileType::new(&name, counted_json) } else { FileType::new_with_mime_type(&name, counted_json, &mt) };
                if t.name() != &name || t.mime_type().clone().unwrap_or_default() != mt {
                    c.viol("file-type", format!("{:?}", t));
                }
                let mut es = vec![e];
                if c.rng.chance(1, 3) {
                    es.push(*c.rng.pick(&EXT));
                    reg.register_all(t, &es);
                } else {
                    reg.register(t, e);
                }
                hist.push(format!("register {} {:?} {:?}", name, es, mt));
                for e in es {
                    want.insert(e.to_lowercase(), name.clone());
                }
                if !mt.is_empty() {
                    mime.insert(mt.to_lowercase(), name);
                }
            }
            2 => {
                let got = reg.remove(e).map(|t| t.name().clone());
                let w = want.remove(&e.to_lowercase());
                hist.push(format!("remove {:?}", e));
                if got != w {
                    c.viol("registry-remove", format!("{:?} after {:?}: {:?} instead of {:?}", e, hist, got, w));
                }
            }
            _ => {}
        }
        let q = *c.rng.pick(&EXT);
        let got = reg.get(q).map(|t| t.name().clone());
        let w = want.get(&q.to_lowercase()).cloned();
        if got != w || reg.contains(q) != w.is_some() {
            c.viol("registry-get", format!("{:?} after {:?}: {:?} instead of {:?}", q, hist, got, w));
        }
        let got: BTreeSet<String> = reg.extensions().cloned().collect();
        if got != want.keys().cloned().collect() {
            c.viol("registry-extensions", format!("after {:?}: {:?} instead of {:?}", hist, got, want.keys()));
        }
        for (m, n) in &mime {
            // whether removing an extension removes the MIME type is left open
            if want.values().any(|v| v == n) && reg.get_by_mime_type(&m.to_uppercase()).map(|t| t.name().clone()).as_ref() != Some(n) {
                c.viol("registry-mime", format!("{:?} after {:?}", m, hist));
            }
        }
    }
    c.eval(hist.len() > 1, &format!("{:?}", hist));
    c.count("registry histories");
}

fn nothing(c: &mut Case) {
    c.eval(true, "nothing");
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    if !a.is_empty() || a.len() != 0 {
        c.viol("empty-assembler", "");
    }
    match c.lib("try_from", || Model::try_from(&mut a).map(|m| from_model(&m)).map_err(|e| e.to_string())) {
        Some(Ok(m)) if m == AModel::default() => {}
        x => c.viol("empty-assembly", format!("{:?}", x)),
    }
    // the default assembler loads the standard search path and knows the standard file types
    let dir = c.ctx.scratch.join("c22-standard");
    fs::create_dir_all(dir.join("one/sub")).unwrap();
    fs::create_dir_all(dir.join("two")).unwrap();
    fs::write(dir.join("one/a.smithy"), "namespace ex.a\nstring A\n").unwrap();
    fs::write(dir.join("one/sub/b.json"), "{\"smithy\":\"1.0\",\"shapes\":{\"ex.a#B\":{\"type\":\"blob\"}}}").unwrap();
    fs::write(dir.join("two/c.JSON"), "{\"smithy\":\"1.0\",\"shapes\":{\"ex.a#C\":{\"type\":\"long\"}}}").unwrap();
    fs::write(dir.join("two/c.txt"), "nothing").unwrap();
    let before = std::env::var_os("SMITHY_PATH");
    for (paths, names) in [(vec!["one"], vec!["ex.a#A", "ex.a#B"]), (vec!["one", "two"], vec!["ex.a#A", "ex.a#B", "ex.a#C"]), (vec!["two/c.JSON"], vec!["ex.a#C"]), (vec![], vec![])] {
        let joined = std::env::join_paths(paths.iter().map(|p| dir.join(p))).unwrap();
        if paths.is_empty() {
            std::env::remove_var("SMITHY_PATH");
        } else {
            std::env::set_var("SMITHY_PATH", &joined);
        }
        let got = c.lib("default assembler", || Model::try_from(ModelAssembler::default()).map(|m| from_model(&m).shapes.keys().cloned().collect::<Vec<_>>()).map_err(|e| e.to_string()));
        c.eval(true, &format!("standard path {:?}", paths));
        match got {
            Some(Ok(v)) if v == names => {}
            x => c.viol("standard-search-path", format!("{:?} for {:?} in {:?}", x, names, paths)),
        }
    }
    match before {
        Some(v) => std::env::set_var("SMITHY_PATH", v),
        None => std::env::remove_var("SMITHY_PATH"),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Run as root, so files without read permission cannot be made; missing files, links to nowhere, links to themselves and damaged contents stand for unreadable inputs. What one file contains is what its reader makes of it (C09, C11).");
    ctx.rule("model = merge of what the readers make of each file with a registered extension under the given paths, arrays compared as multisets; counting readers observe that each is read once and nothing else is; the two orders of pushing give equal results; any damaged, conflicting or missing input gives an error. Non-trivial with two or more files.");
    ctx.cases("trees", 2000, 0.9, tree);
    ctx.cases("registry", 1000, 0.1, registry);
    ctx.bounded("nothing", 1, nothing);
}
