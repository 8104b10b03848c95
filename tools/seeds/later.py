#!/usr/bin/env python3
"""Later planted bugs: python3 tools/seeds/later.py [ids]"""
import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
only=set(sys.argv[1:])
PRE='''#![allow(unused)]
use atelier_core::model::*; use atelier_core::model::shapes::*; use atelier_core::model::values::*; use atelier_core::io::*; use atelier_core::Version;
use atelier_core::error::ErrorKind; use atelier_core::action::*; use atelier_core::action::validate::*; use atelier_core::action::lint::*;
use atelier_smithy::{SmithyReader,SmithyWriter}; use atelier_json::{JsonReader,JsonWriter}; use std::str::FromStr;
fn id(s:&str)->ShapeID{ShapeID::from_str(s).unwrap()}
fn idl(s:&str)->Model{ read_model_from_string(&mut SmithyReader::default(), format!("$version: \\"1.0\\"\\n{}\\n",s)).unwrap() }
fn exit(ok:bool){ std::process::exit(if ok {0} else {1}) }
'''
def S(name,prop,edits,needs,breaks,main):
    if only and name not in only: return
    mkseed(name,prop,edits,needs,breaks,PRE+main)
CM='atelier-core/src/model/mod.rs'; CS='atelier-core/src/model/shapes/mod.rs'; E='atelier-core/src/error.rs'; IO='atelier-core/src/io/mod.rs'
V='atelier-core/src/action/validate/mod.rs'; L='atelier-core/src/action/lint/mod.rs'; LI='atelier-core/src/io/lines.rs'; JW='atelier-json/src/writer.rs'
SW='atelier-smithy/src/writer.rs'; G='atelier-describe/src/graphml/writer.rs'
S('c30-trait-none','C30',[(CS,'Err(ErrorKind::MergeTraitConflict(id.clone()).into())','''Err(match (left, right) {
                    (Some(_), Some(_)) => ErrorKind::MergeTraitConflict(id.clone()),
                    _ => ErrorKind::InvalidTraitValue(id.to_string()),
                }
                .into())''')],
"a trait applied once with a value and once without","the conflict is reported as an invalid trait value instead of a merge conflict of that trait",
'''fn main(){ let i=id("a#t"); let mut s=TopLevelShape::new(id("a#S"),ShapeKind::Unresolved);
 s.apply_with_value(i.clone(),Some(Value::Boolean(true))).unwrap();
 exit(matches!(s.apply(i.clone()),Err(e) if matches!(e.kind(),ErrorKind::MergeTraitConflict(x) if *x==i))) }
''')
S('c30-member-dropped','C30',[(CM,'ErrorKind::ShapeIDExpected(shape.id().clone())','ErrorKind::ShapeIDExpected(shape.id().shape_only())')],
"adding a resolved shape whose ID is a member ID","the error names the shape and not the member ID that was refused",
'''fn main(){ let mut m=Model::new(Version::V10); let i=id("a#S$m");
 exit(matches!(m.add_shape(TopLevelShape::new(i,ShapeKind::Structure(Default::default()))),Err(e) if e.to_string().contains("a#S$m"))) }
''')
S('c30-display','C30',[(E,"display(\"A merge conflict occurred between two applied traits named '{}'.\", id)","display(\"A merge conflict occurred between two applied traits named '{}'.\", id.shape_name())")],
"traits of the same name from different namespaces","the message of a trait conflict leaves out the namespace",
'''fn main(){ let i=id("a.b#t"); let mut s=TopLevelShape::new(id("a#S"),ShapeKind::Unresolved);
 s.apply_with_value(i.clone(),Some(Value::Boolean(true))).unwrap();
 exit(matches!(s.apply_with_value(i,Some(Value::Boolean(false))),Err(e) if e.to_string().contains("a.b#t"))) }
''')
S('c31-seen','C31',[(L,'''    fn check_trait_name(&mut self, id: &ShapeID) {
        let shape_name = id.shape_name().to_string();
        if shape_name.to_mixed_case() != shape_name {''','''    fn check_trait_name(&mut self, id: &ShapeID) {
        use std::sync::Mutex;
        lazy_static! {
            static ref REPORTED: Mutex<std::collections::HashSet<ShapeID>> = Default::default();
        }
        let shape_name = id.shape_name().to_string();
        if shape_name.to_mixed_case() != shape_name && REPORTED.lock().unwrap().insert(id.clone()) {''')],
"a badly named trait linted by a second linter of the same process","an issue is reported once per process instead of once per check",
'''fn n()->usize{ let m=idl("namespace a\\n@trait\\nstructure BadName {}"); let mut l=NamingConventions::default(); l.check(&m).unwrap(); l.issues().len() }
fn main(){ let a=n(); exit(a==n()) }
''')
S('c31-busy','C31',[(V,'''impl Validator for CorrectTypeReferences {
    fn validate(&mut self, model: &Model) -> ModelResult<()> {
        for shape in model.shapes() {''','''static BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl Validator for CorrectTypeReferences {
    fn validate(&mut self, model: &Model) -> ModelResult<()> {
        if BUSY.swap(true, std::sync::atomic::Ordering::SeqCst) {
            return Ok(());
        }
        let result = self.validate_all(model);
        BUSY.store(false, std::sync::atomic::Ordering::SeqCst);
        result
    }
}

impl CorrectTypeReferences {
    fn validate_all(&mut self, model: &Model) -> ModelResult<()> {
        for shape in model.shapes() {''')],
"two threads validating at the same moment","a validation that starts while another is under way finds nothing",
'''fn main(){ let mut t="namespace a\\n".to_string(); for i in 0..200 { t+=&format!("string S{}\\n",i); } let m=idl(&t);
 let ok=std::sync::atomic::AtomicBool::new(true);
 std::thread::scope(|s| for _ in 0..4 { s.spawn(|| for _ in 0..2000 { let mut v=CorrectTypeReferences::default(); v.validate(&m).unwrap();
   if v.issues().len()!=200 { ok.store(false,std::sync::atomic::Ordering::SeqCst); return; } }); });
 exit(ok.into_inner()) }
''')
S('c31-leftover','C31',[(IO,'''    use std::io::Cursor;
    let mut buffer = Cursor::new(Vec::new());
    w.write(&mut Box::new(&mut buffer), model)?;
    Ok(String::from_utf8(buffer.into_inner()).unwrap())''','''    // one buffer for all calls of a thread saves allocations
    thread_local! {
        static BUFFER: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
    }
    BUFFER.with(|buffer| {
        let mut buffer = buffer.borrow_mut();
        w.write(&mut *buffer, model)?;
        let text = String::from_utf8(buffer.clone()).unwrap();
        buffer.clear();
        Ok(text)
    })''')],
"a model is written to a string after one that the writer refused half-way in the same thread","the text begins with what the failed call had written",
'''fn main(){ let bad={ let mut m=idl("namespace a\nstring S"); let mut s=TopLevelShape::new(id("a#T"),ShapeKind::Simple(Simple::String));
 s.apply_with_value(id("a#t"),Some(Value::Number(Number::Float(f64::NAN)))).unwrap(); m.add_shape(s).unwrap(); m };
 let m=idl("namespace a\nstring S"); let w=|m:&Model|write_model_to_string(&mut SmithyWriter::new("a".parse().unwrap()),m).map_err(|_|());
 let want=w(&m); assert!(w(&bad).is_err()); exit(w(&m)==want) }
''')
S('c24-edge-wrap','C24',[(G,'state.edge_count = id + 1;','state.edge_count = (id + 1) % 256;')],
"a model with more than 256 edges","identifiers of edges repeat after 256 edges",
'''fn main(){ let mut t="namespace a\\nstructure S {\\n".to_string(); for i in 0..300 { t+=&format!("m{}: String,\\n",i); } t+="}"; let m=idl(&t);
 let s=write_model_to_string(&mut atelier_describe::graphml::writer::GraphMLWriter::default(),&m).unwrap();
 let ids:Vec<&str>=s.split("<edge").skip(1).filter_map(|e| e.split("id=\\"").nth(1)).map(|e| e.split('"').next().unwrap()).collect();
 let n=ids.len(); let u:std::collections::HashSet<&str>=ids.into_iter().collect(); exit(n>=300 && u.len()==n) }
''')
S('c08-float-whole','C08',[(JW,'Number::Float(v) => JsonNumber::from_f64(*v)','Number::Float(v) if v.fract() == 0.0 && v.abs() < 9e15 => Value::Number((*v as i64).into()),\n            Number::Float(v) => JsonNumber::from_f64(*v)')],
"a trait or metadata value that is a float with no fraction","whole floats are written as integers and come back as integers",
'''fn main(){ let mut m=Model::new(Version::V10); m.add_metadata("k".to_string(),Value::Number(Number::Float(3.0))).unwrap();
 let s=write_model_to_string(&mut JsonWriter::default(),&m).unwrap(); exit(read_model_from_string(&mut JsonReader::default(),s).unwrap()==m) }
''')
