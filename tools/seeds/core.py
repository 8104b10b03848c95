import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
ID='atelier-core/src/model/identity.rs'
mkseed('c01-unicode-member','C01',[(ID,'''        (\\$(_*[[:alpha:]][_[[:alnum:]]]*))?
''','''        (\\$(_*[[:alpha:]]\\w*))?
''')],"an ID whose member part (not shape or namespace) contains a non-ASCII letter after its first character","the shape ID grammar accepts Unicode letters in member names",
'''use atelier_core::model::ShapeID; use std::str::FromStr;
fn main(){ std::process::exit(if ShapeID::from_str("a.b#Foo$caf\\u{e9}").is_ok() || ShapeID::is_valid("a#B$c\\u{663}") {1} else {0}) }
''')
mkseed('c02-namespace-eq','C02',[(ID,'''    fn eq(&self, other: &Self) -> bool {
        self.0.to_lowercase() == other.0.to_lowercase()
    }
}

impl Hash for NamespaceID''','''    fn eq(&self, other: &Self) -> bool {
        self.0.len() == other.0.len()
            && self
                .split()
                .zip(other.split())
                .all(|(left, right)| left == right || left.0.is_empty())
            && (self.0 == other.0 || !self.0.contains(SHAPE_ID_NAMESPACE_SEPARATOR))
    }
}

impl Hash for NamespaceID''')],"two namespaces of more than one component that differ only in case","namespaces with several components compare case-sensitively while hashing and ordering ignore case",
'''use atelier_core::model::NamespaceID; use std::str::FromStr;
fn main(){ let a=NamespaceID::from_str("com.Example").unwrap(); let b=NamespaceID::from_str("com.example").unwrap(); std::process::exit(if a==b {0} else {1}) }
''')
SH='atelier-core/src/model/shapes/mod.rs'
mkseed('c04-map-key','C04',[(SH,'''                    l.key.equal_without_traits(&r.key) && l.value.equal_without_traits(&r.value)
''','''                    l.value.equal_without_traits(&r.value) && l.key.id() == r.key.id()
''')],"two definitions of a map that differ only in the target of the key","conflicting map definitions are merged silently, one is dropped",
'''use atelier_core::model::{Model,ShapeID}; use atelier_core::model::shapes::*; use atelier_core::Version; use std::str::FromStr;
fn map(k:&str)->TopLevelShape{ TopLevelShape::new(ShapeID::from_str("a#M").unwrap(), ShapeKind::Map(Map::new(ShapeID::from_str(k).unwrap(), ShapeID::from_str("smithy.api#String").unwrap()))) }
fn main(){ let mut m=Model::new(Version::V10); m.add_shape(map("smithy.api#String")).unwrap(); std::process::exit(if m.add_shape(map("a#Other")).is_err() {0} else {1}) }
''')
mkseed('c05-array-overlap','C05',[(SH,'''                result.extend(right.iter().cloned());
''','''                let shared = (0..=left.len().min(right.len()))
                    .rev()
                    .find(|n| left[left.len() - n..] == right[..*n])
                    .unwrap_or(0);
                result.extend(right.iter().skip(shared).cloned());
''')],"two non-empty array values of the same trait where the end of the first equals the start of the second","concatenating trait values collapses the overlap",
'''use atelier_core::model::ShapeID; use atelier_core::model::shapes::*; use atelier_core::model::values::Value; use std::str::FromStr;
fn main(){ let id=ShapeID::from_str("smithy.api#tags").unwrap(); let mut s=TopLevelShape::new(ShapeID::from_str("a#S").unwrap(),ShapeKind::Unresolved);
 let v=|x:&[&str]|Some(Value::Array(x.iter().map(|s|Value::String(s.to_string())).collect()));
 s.apply_with_value(id.clone(),v(&["a","b"])).unwrap(); s.apply_with_value(id.clone(),v(&["b","c"])).unwrap();
 std::process::exit(if s.trait_named(&id)==Some(&v(&["a","b","b","c"])) {0} else {1}) }
''')
MO='atelier-core/src/model/mod.rs'
B='atelier-core/src/builder/mod.rs'
mkseed('c07-trait-prelude','C07',[(B,'''(!is_trait
                            && defined_prelude_shapes()''','''(!(is_trait && self.shapes.is_empty())
                            && defined_prelude_shapes()''')],"an applied trait whose relative name is that of a prelude shape which is not a prelude trait","a locally unknown trait named like a prelude shape resolves to the prelude shape instead of the current namespace",
'''use atelier_core::builder::*; use atelier_core::model::*; use atelier_core::model::shapes::HasTraits; use atelier_core::Version; use std::convert::TryFrom; use std::str::FromStr;
fn main(){ let mut b=ModelBuilder::new(Version::V10,"a.b"); let mut s=SimpleShapeBuilder::string("S"); let _=s.apply_trait(TraitBuilder::new("Timestamp")); let _=b.simple_shape(s);
 let m=Model::try_from(b).unwrap(); let s=m.shape(&ShapeID::from_str("a.b#S").unwrap()).unwrap();
 std::process::exit(if s.has_trait(&ShapeID::from_str("a.b#Timestamp").unwrap()) {0} else {1}) }
''')
