import sys,json; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
only=set(sys.argv[1:])
D=json.load(open('/verif/tools/seeds/edits.json'))
PRE='''#![allow(unused)]
use atelier_core::model::*; use atelier_core::model::shapes::*; use atelier_core::model::values::*; use atelier_core::io::*; use atelier_core::Version;
use atelier_smithy::{SmithyReader,SmithyWriter}; use atelier_json::{JsonReader,JsonWriter}; use std::str::FromStr;
fn id(s:&str)->ShapeID{ShapeID::from_str(s).unwrap()}
fn idl(s:&str)->Model{ read_model_from_string(&mut SmithyReader::default(), format!("$version: \\"1.0\\"\\n{}\\n",s)).unwrap() }
fn bad(s:&str)->bool{ read_model_from_string(&mut SmithyReader::default(), format!("$version: \\"1.0\\"\\n{}\\n",s)).is_err() }
fn exit(ok:bool){ std::process::exit(if ok {0} else {1}) }
'''
def S(name,prop,needs,breaks,main,edits=None,demo=None,extra=None):
    if only and name not in only: return
    mkseed(name,prop,edits or D[name][2],needs,breaks,PRE+main if main else None,demo,extra)
S('c02-ord-member','C02',"two shape IDs that are equal ignoring case but spelt differently, compared with cmp","ordering of shape IDs disagrees with equality",
'fn main(){ let (a,b)=(id("a.b#Foo"),id("a.b#foo")); exit(a==b && a.cmp(&b)==std::cmp::Ordering::Equal) }\n')
S('c03-anyop','C03',"a resource whose only operation is list (or collection operations)","has_any_resource_operation ignores the list operation",
'fn main(){ let mut r=Resource::default(); r.set_list(id("a#L")); exit(r.has_any_resource_operation()) }\n')
S('c03-mapmember','C03',"looking up the value member of a map by a name in other case","member lookup on maps becomes case-sensitive for value only",
'''fn main(){ let s=TopLevelShape::new(id("a#M"),ShapeKind::Map(Map::new(id("a#K"),id("a#V")))); exit(s.member(&Identifier::from_str("Value").unwrap()).is_some()==s.member(&Identifier::from_str("Key").unwrap()).is_some()) }
''')
S('c04-set-list','C04',"a list of the same ID and member merged into a set, in this order only","a list is silently dropped when merged into a set of the same name",
'''fn main(){ let mut m=idl("namespace a\\nset S { member: String }"); exit(m.merge(idl("namespace a\\nlist S { member: String }")).is_err()) }
''')
S('c05-dedupe','C05',"the same trait applied twice with equal non-empty arrays","equal arrays are not concatenated",
'''fn main(){ let i=id("smithy.api#tags"); let mut s=TopLevelShape::new(id("a#S"),ShapeKind::Unresolved); let v=||Some(Value::Array(vec![Value::String("x".to_string())]));
 s.apply_with_value(i.clone(),v()).unwrap(); s.apply_with_value(i.clone(),v()).unwrap();
 exit(matches!(s.trait_named(&i),Some(Some(Value::Array(a))) if a.len()==2)) }
''')
S('c07-identifiers-ref','C07',"a resource built with an identifier whose target no other shape of the builder defines or refers to","no unresolved shape is added for the target of a resource identifier",
'''use atelier_core::builder::*; use std::convert::TryFrom;
fn main(){ let mut b=ModelBuilder::new(Version::V10,"a.b"); let mut r=ResourceBuilder::new("R"); let _=r.identifier("id","IdType"); let _=b.resource(r);
 let m=Model::try_from(b).unwrap(); exit(m.has_shape(&id("a.b#IdType"))) }
''')
S('c08-put-create','C08',"a resource with put and no create written as JSON AST","put is written as create when there is no create",
'''fn main(){ let m=idl("namespace a\\noperation P {}\\nresource R { put: P }"); let s=write_model_to_string(&mut JsonWriter::default(),&m).unwrap();
 let n=read_model_from_string(&mut JsonReader::default(),s).unwrap(); exit(m==n) }
''')
S('c08-errors-dedup','C08',"an operation listing the same error twice or listing errors in an order that is not sorted","errors are sorted and deduplicated on writing",
'''fn main(){ let m=idl("namespace a\\nstructure Z {}\\nstructure B {}\\noperation P { errors: [Z, B] }"); let s=write_model_to_string(&mut JsonWriter::default(),&m).unwrap();
 let n=read_model_from_string(&mut JsonReader::default(),s).unwrap(); exit(m==n) }
''')
S('c11-union-order','C11',"a union of more than 255 members","members of a union after the 255th are dropped by the parser",
'''fn main(){ let t:String=(0..300).map(|i|format!("m{}: String, ",i)).collect(); let m=idl(&format!("namespace a\\nunion U {{ {} }}",t));
 exit(m.shape(&id("a#U")).unwrap().body().as_union().unwrap().members().count()==300) }
''')
S('c12-put','C12',"a resource with both put and update written as IDL","put of a resource that has update is not written",
'''fn main(){ let m=idl("namespace a\\noperation P {}\\noperation U {}\\nresource R { put: P, update: U }"); let s=write_model_to_string(&mut SmithyWriter::new(NamespaceID::from_str("a").unwrap()),&m).unwrap();
 let n=read_model_from_string(&mut SmithyReader::default(),s).unwrap(); exit(n.shape(&id("a#R"))==m.shape(&id("a#R"))) }
''')
S('c13-leadzero','C13',"a number with a leading zero inside a node value","numbers with leading zeros are accepted",
'fn main(){ exit(bad("metadata x = 007\\nnamespace a")) }\n')
S('c13-int-overflow','C13',"an integer literal that does not fit 64 bits","integer literals out of range are silently saturated",
'fn main(){ exit(bad("metadata x = 9223372036854775808\\nnamespace a")) }\n')
S('c14-json-apply','C14',"a model with an unresolved shape that has no traits, converted to JSON AST","unresolved shapes without traits become structures in JSON",
'''fn main(){ let m=idl("namespace a\\nlist L { member: Missing }"); let s=write_model_to_string(&mut JsonWriter::default(),&m).unwrap(); let n=read_model_from_string(&mut JsonReader::default(),s).unwrap();
 exit(n.shape(&id("a#Missing")).map(|s|s.is_unresolved()).unwrap_or(true)) }
''')
S('c15-read-update','C15',"a resource whose put and update are the same operation","the update line is missing from the line-oriented form",
'''fn main(){ let m=idl("namespace a\\noperation P {}\\nresource R { put: P, update: P }"); let l=atelier_core::io::lines::make_line_oriented_form(&m);
 exit(l.iter().any(|l|l.contains("update"))) }
''')
S('c20-proj-both','C20',"a selector with the proper-subset projection comparator","{<<} is printed as {<}",
'''use atelier_core::model::selector::*;
fn main(){ let s=Comparator::ProjectionProperSubset.to_string(); exit(s=="{<<}") }
''')
S('c22-remove','C22',"removing a registered extension spelt with capitals","extensions are removed case-sensitively while they are registered ignoring case",
'''use atelier_assembler::FileTypeRegistry;
fn main(){ let mut r=FileTypeRegistry::default(); let _=r.remove("JSON"); exit(!r.contains("json")) }
''')
S('c23-mapkey','C23',"a map whose key and value have the same target, written as RDF","the key member is missing from the graph",
'''fn main(){ let a=idl("namespace a\\nmap M { key: String, value: String }"); let b=idl("namespace a\\nmap M { key: String, value: Integer }");
 let w=|m:&Model|write_model_to_string(&mut atelier_rdf::writer::RdfWriter::default(),m).unwrap(); println!("{}",w(&a));
 exit(w(&a).to_lowercase().contains("key")) }
''')
S('c24-map-val','C24',"a map whose key and value have the same target, written as GraphML","the edge of the map value is missing",
'''fn main(){ let m=idl("namespace a\\nmap M { key: String, value: String }"); let s=write_model_to_string(&mut atelier_describe::graphml::writer::GraphMLWriter::default(),&m).unwrap(); println!("{}",s);
 exit(s.matches("<edge").count()==2) }
''')
S('c26-mapval','C26',"a map whose value has its own documentation trait","the documentation of a map value is replaced by that of the key",
'''fn main(){ let m=idl("namespace a\\nmap M { @documentation(\\"keytext\\") key: String, @documentation(\\"valuetext\\") value: String }"); let s=write_model_to_string(&mut atelier_describe::document::writer::DocumentationWriter::default(),&m).unwrap(); println!("{}",s);
 exit(s.contains("valuetext")) }
''')
S('c27-puml','C27',"a writer that fails on the last line of a diagram","the error of writing the last line is lost",
'''struct W(Vec<u8>,usize); impl std::io::Write for W { fn write(&mut self,b:&[u8])->std::io::Result<usize>{ if self.0.len()+b.len()>self.1 { return Err(std::io::Error::new(std::io::ErrorKind::Other,"full")) } self.0.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self)->std::io::Result<()>{Ok(())} }
fn main(){ let m=idl("namespace a\\nstring S"); let mut w=atelier_describe::plant_uml::writer::PlantUmlWriter::new(false); let full=write_model_to_string(&mut w,&m).unwrap().len();
 exit((0..full).all(|n|{ let mut o=W(vec![],n); w.write(&mut o,&m).is_err() })) }
''')
S('c24-put','C24',"a resource with put written as GraphML","the edge of put is labelled update",
'''fn main(){ let m=idl("namespace a\\noperation P {}\\nresource R { put: P }"); let s=write_model_to_string(&mut atelier_describe::graphml::writer::GraphMLWriter::default(),&m).unwrap(); println!("{}",s);
 exit(s.contains("put")&&!s.contains("update")) }
''')
S('c26-anyop','C26',"a resource whose only operation is put, described as documentation","the operations of a resource that has only put are not described",
'''fn main(){ let m=idl("namespace a\\noperation P {}\\nresource R { put: P }"); let n=idl("namespace a\\noperation P {}\\nresource R { }"); let w=|m:&Model|write_model_to_string(&mut atelier_describe::document::writer::DocumentationWriter::default(),m).unwrap();
 exit(w(&m)!=w(&n)) }
''')
S('c21-coll','C21',"a query by simpleType over a model with a document shape","simpleType does not select document shapes",
'''fn main(){ let m=idl("namespace a\\ndocument D\\nstring T"); let s=atelier_smithy::parse_selector("simpleType").unwrap(); let p=atelier_query::evaluate::query(&s,&m); let t=format!("{:?}",p);
 let only=idl("namespace a\\nstring T"); exit(t.len()>format!("{:?}",atelier_query::evaluate::query(&s,&only)).len()) }
''')
S('c25-colop','C25',"a resource with an operation that is also a collection operation","the collection operation is missing from the diagram",
'''fn main(){ let m=idl("namespace a\\noperation PeculiarOp {}\\nresource R { operations: [PeculiarOp], collectionOperations: [PeculiarOp] }"); let s=write_model_to_string(&mut atelier_describe::plant_uml::writer::PlantUmlWriter::new(false),&m).unwrap(); println!("{}",s);
 let t=s.split("R").count(); exit(s.matches("peculiarOp").count()+s.matches("PeculiarOp").count()>=2) }
''')
S('c25-mapts','C25',"a map whose key and value targets differ, in a diagram","key and value types are exchanged in the stereotype of maps",
'''fn main(){ let m=idl("namespace a\\nstring KeyT\\nstring ValT\\nmap M { key: KeyT, value: ValT }\\noperation P { output: M }\\nresource V { operations: [P] }"); let s=write_model_to_string(&mut atelier_describe::plant_uml::writer::PlantUmlWriter::new(false),&m).unwrap(); println!("{}",s);
 exit(s.find("KeyT, ValT").or_else(||s.find("KeyT,ValT")).is_some() || !s.contains("ValT, KeyT")) }
''')
S('c16-err-ignored','C16',"a member visitor failing on a collection operation of a resource that also has sub-resources","the error of the member visitor is lost and the walk goes on",
'''use atelier_core::model::visitor::*;
struct V; impl ModelVisitor for V { type Error=String; fn member_visitor(&self)->Option<&dyn MemberVisitor<Error=String>>{ Some(self) } }
impl MemberVisitor for V { type Error=String; fn member(&self,_:&ShapeID,n:&Identifier,_:&ShapeID,_:Option<&AppliedTraits>)->Result<(),String>{ if n.to_string()=="collectionOperations" { Err("stop".to_string()) } else { Ok(()) } } }
fn main(){ let m=idl("namespace a\\noperation P {}\\nresource Q {}\\nresource R { collectionOperations: [P], resources: [Q] }"); exit(walk_model(&m,&V).is_err()) }
''')
S('c16-map-target','C16',"a map whose key has traits and whose value has none","the visitor is given the traits of the key for the value",
'''use atelier_core::model::visitor::*;
struct V(std::cell::Cell<usize>); impl ModelVisitor for V { type Error=String; fn member_visitor(&self)->Option<&dyn MemberVisitor<Error=String>>{ Some(self) } }
impl MemberVisitor for V { type Error=String; fn member(&self,_:&ShapeID,n:&Identifier,_:&ShapeID,t:Option<&AppliedTraits>)->Result<(),String>{ if n.to_string()=="value" { self.0.set(t.map(|t|t.len()).unwrap_or(0)) } Ok(()) } }
fn main(){ let m=idl("namespace a\\nmap M { @sensitive key: String, value: String }"); let v=V(std::cell::Cell::new(9)); walk_model(&m,&v).unwrap(); exit(v.0.get()==0) }
''')
S('c17-operation-error','C17',"an operation whose output is also one of its errors and is not a structure","the error target is not checked when it equals the output",
'''use atelier_core::action::{*,validate::*};
fn main(){ let m=idl("namespace a\\nservice S { version: \\"1\\" }\\noperation P { output: S, errors: [S] }"); let n=idl("namespace a\\nservice S { version: \\"1\\" }\\noperation P { output: S }");
 let r=|m:&Model|{ let mut v:Vec<Box<dyn Validator>>=vec![Box::new(CorrectTypeReferences::default())]; run_validation_actions(&mut v,m,false).unwrap().len() };
 println!("{} {}",r(&m),r(&n)); exit(r(&m)==r(&n)+1) }
''')
S('c18-terms-plural','C18',"a name with a word that is an unwelcome term followed by s","words that are not on the list are reported",
'''use atelier_core::action::{*,lint::*};
fn main(){ let m=idl("namespace a\\n@sensitive\\nstring MastersThing"); let n=idl("namespace a\\n@sensitive\\nstring MasterThing");
 let r=|m:&Model|{ let mut v:Vec<Box<dyn Linter>>=vec![Box::new(UnwelcomeTerms::default())]; run_linter_actions(&mut v,m,false).unwrap().len() };
 println!("{} {}",r(&m),r(&n)); exit(r(&m)==0&&r(&n)>0) }
''')
S('c18-traitonly','C18',"a structure with eight or more members one of which has a trait with an unwelcome name","traits of members of large structures are not linted",
'''use atelier_core::action::{*,lint::*};
fn main(){ let k=|n:usize|{ let t:String=(0..n).map(|i|format!("m{}: String, ",i)).collect(); let mut m=idl(&format!("namespace a\\nstructure S {{ {} @blacklist last: String }}",t)); let _=m.remove_shape(&id("a#blacklist")); m };
 let r=|m:&Model|{ let mut v:Vec<Box<dyn Linter>>=vec![Box::new(UnwelcomeTerms::default())]; run_linter_actions(&mut v,m,false).unwrap().len() };
 println!("{} {}",r(&k(2)),r(&k(12))); exit(r(&k(2))==r(&k(12))) }
''')
S('c19-err','C19',"a validator that fails after an earlier one has reported issues","the error of a validator is lost when earlier validators reported issues",
'''use atelier_core::action::{*,validate::*}; use atelier_core::error::Result as R;
#[derive(Debug)] struct F(Vec<ActionIssue>); impl Action for F { fn label(&self)->&'static str{"F"} fn issues(&self)->&Vec<ActionIssue>{&self.0} fn issues_mut(&mut self)->&mut Vec<ActionIssue>{&mut self.0} }
impl Validator for F { fn validate(&mut self,_:&Model)->R<()>{ Err("failed".into()) } }
fn main(){ let m=idl("namespace a\\nlist L { member: Missing }"); let mut v:Vec<Box<dyn Validator>>=vec![Box::new(NoUnresolvedReferences::default()),Box::new(F(vec![]))];
 exit(run_validation_actions(&mut v,&m,false).is_err()) }
''')
CLI='''#!/bin/bash
# Builds the command-line tool from the repository in the current directory and runs it on files in a scratch directory.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/seed-demo.XXXXXX); trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_HUSKY_DONT_INSTALL_HOOKS=1 RUSTC_WRAPPER= CARGO_TARGET_DIR="$T/target" CARGO_PROFILE_DEV_DEBUG=0
mkdir "$T/src"; (cd "$R" && tar cf - --exclude ./target --exclude ./.git .) | tar xf - -C "$T/src" || exit 2
cd "$T/src" && cargo build --offline -p cargo_atelier --bin cargo-atelier >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 2; }
X="$T/target/debug/cargo-atelier"; cd "$T" || exit 2
'''
S('c28-ns','C28',"converting a model of several namespaces to Smithy IDL with the tool and no namespace given","the tool writes an arbitrary namespace instead of reporting that it does not know which",
None,demo=CLI+'''printf '$version: "1.0"\\nnamespace a\\nstring S\\n' >a.smithy; printf '$version: "1.0"\\nnamespace b\\nstring T\\n' >b.smithy
"$X" convert -i a.smithy -i b.smithy -o out.smithy -w smithy >o 2>&1; RC=$?; cat o
[ $RC -ne 0 ]
''')
S('c28-rep-level','C28',"a model for which a warning is reported by the tool","warnings are reported as errors",
None,demo=CLI+'''printf '$version: "1.0"\\nnamespace a\\nstring masterThing\\nstring S\\nlist badName { member: S }\\n' >a.smithy
for c in lint validate; do "$X" $c -i a.smithy; done >o 2>&1; cat o
grep -qi '\\[warning\\]' o
''')
S('c06-empty-structure','C06',"a structure defined with members merged with an empty definition of it, in one order only","an empty definition is accepted when it comes second, a conflict when it comes first",
'''fn main(){ let a="namespace a\\nstructure S { x: String }"; let b="namespace a\\nstructure S {}"; let mut m=idl(a); let mut n=idl(b); exit(m.merge(idl(b)).is_err()==n.merge(idl(a)).is_err()) }
''',[('atelier-core/src/model/mod.rs','''if existing.equal_without_traits(&shape) {''','''if existing.equal_without_traits(&shape)
                        || matches!(
                            (existing.body(), shape.body()),
                            (ShapeKind::Structure(_), ShapeKind::Structure(s)) if !s.has_members()
                        )
                    {''')])
S('c09-float-integral','C09',"a JSON AST document with a number written with a fraction of zero or an exponent","numbers such as 2.0 and 1e3 are read as integers",
'''fn main(){ let m=read_model_from_string(&mut JsonReader::default(),r#"{"smithy":"1.0","metadata":{"x":2.0}}"#.to_string()).unwrap();
 exit(matches!(m.metadata_value("x"),Some(Value::Number(Number::Float(_))))) }
''',[('atelier-json/src/reader.rs','''                    Ok(NodeValue::from(v.as_f64().unwrap()))''','''                    let number = v.as_f64().unwrap();
                    Ok(
                        if number.fract() == 0.0 && number.abs() < 9_007_199_254_740_992.0 {
                            NodeValue::from(number as i64)
                        } else {
                            NodeValue::from(number)
                        },
                    )''')])
S('c10-int-unwrap','C10',"an integer literal that does not fit 64 bits","the parser panics on integers out of range",
'''fn main(){ exit(std::panic::catch_unwind(||bad("metadata x = -9223372036854775809\\nnamespace a")).is_ok()) }
''',[('atelier-smithy/src/parser/smithy.rs','''inner.as_str().parse().chain_err(|| "number format error")?,
                ))''','''inner.as_str().parse().unwrap(),
                ))''')])
S('c27-reader-split','C27',"a reader whose first read ends inside a multi-byte character","the IDL reader fails when the first read splits a character",
'''struct R(Vec<u8>,usize); impl std::io::Read for R { fn read(&mut self,b:&mut [u8])->std::io::Result<usize>{ if self.1>=self.0.len()||b.is_empty(){return Ok(0)} b[0]=self.0[self.1]; self.1+=1; Ok(1) } }
fn main(){ let t="\\u{feff}".len(); let _=t; let s="// \\u{e9}\\n$version: \\"1.0\\"\\nnamespace a\\n"; let ok=(0..s.len()).all(|n|{ struct C(Vec<u8>,usize,usize); impl std::io::Read for C { fn read(&mut self,b:&mut [u8])->std::io::Result<usize>{ let e=if self.1<self.2 {self.2} else {self.0.len()}; let n=(e-self.1).min(b.len()); b[..n].copy_from_slice(&self.0[self.1..self.1+n]); self.1+=n; Ok(n) } }
 let mut r=SmithyReader::default(); r.read(&mut C(s.as_bytes().to_vec(),0,n)).is_ok() }); exit(ok) }
''',[('atelier-smithy/src/reader.rs','''let mut content: String = String::new();
        let _ = r.read_to_string(&mut content)?;''','''let mut head = vec![0u8; 65536];
        let n = r.read(&mut head)?;
        head.truncate(n);
        let mut content: String = String::from_utf8(head).map_err(|e| e.to_string())?;
        let _ = r.read_to_string(&mut content)?;''')])
S('c29-type-recursion','C29',"a recursive list used as the input of an operation of a service or resource, drawn as PlantUML","the type of a list is spelt out recursively, without end for recursive lists",
'''fn main(){ let m=idl("namespace a\\nlist L { member: L }\\noperation P { input: L }\\nresource R { operations: [P] }"); exit(write_model_to_string(&mut atelier_describe::plant_uml::writer::PlantUmlWriter::new(false),&m).is_ok()) }
''',[('atelier-describe/src/plant_uml/writer.rs','''ShapeKind::List(list) => format!("List<{}>", list.member().target().shape_name()),''','''ShapeKind::List(list) => match model.shape(list.member().target()) {
                    Some(inner) if inner.is_list() => {
                        format!("List<{}>", self.type_string(inner.id(), model))
                    }
                    _ => format!("List<{}>", list.member().target().shape_name()),
                },''')])
