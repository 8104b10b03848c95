//! An abstract Smithy model, independent of the data structures under test.  Generated by the workloads, fed to the
//! library through its public interfaces, and rebuilt from the library's objects through their accessors; the two are
//! compared as canonical line dumps.
use crate::rng::Rng;
use atelier_core::model::shapes::{
    HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, Simple,
    StructureOrUnion, TopLevelShape,
};
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
use atelier_core::Version;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq)]
pub enum AVal {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Arr(Vec<AVal>),
    Obj(BTreeMap<String, AVal>),
}

/// absolute id `ns#Name` or `ns#Name$member`, as text
pub type Id = String;
pub type Traits = BTreeMap<Id, Option<AVal>>;

#[derive(Clone, Debug, PartialEq)]
pub struct AMember {
    pub target: Id,
    pub traits: Traits,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct AService {
    pub version: String,
    pub operations: Vec<Id>,
    pub resources: Vec<Id>,
    pub renames: BTreeMap<Id, String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct AOperation {
    pub input: Option<Id>,
    pub output: Option<Id>,
    pub errors: Vec<Id>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct AResource {
    pub identifiers: BTreeMap<String, Id>,
    pub create: Option<Id>,
    pub put: Option<Id>,
    pub read: Option<Id>,
    pub update: Option<Id>,
    pub delete: Option<Id>,
    pub list: Option<Id>,
    pub operations: Vec<Id>,
    pub collection_operations: Vec<Id>,
    pub resources: Vec<Id>,
}
impl AResource {
    pub fn lifecycle(&self) -> [(&'static str, &Option<Id>); 6] {
        [
            ("create", &self.create),
            ("put", &self.put),
            ("read", &self.read),
            ("update", &self.update),
            ("delete", &self.delete),
            ("list", &self.list),
        ]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum AKind {
    Simple(String),
    List(AMember),
    Set(AMember),
    Map(AMember, AMember),
    Structure(BTreeMap<String, AMember>),
    Union(BTreeMap<String, AMember>),
    Service(AService),
    Operation(AOperation),
    Resource(AResource),
    Unresolved,
}

#[derive(Clone, Debug, PartialEq)]
pub struct AShape {
    pub kind: AKind,
    pub traits: Traits,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct AModel {
    pub metadata: BTreeMap<String, AVal>,
    pub shapes: BTreeMap<Id, AShape>,
}

pub const SIMPLE: [&str; 13] = [
    "blob", "boolean", "document", "string", "byte", "short", "integer", "long", "float", "double",
    "bigInteger", "bigDecimal", "timestamp",
];

impl AKind {
    pub fn type_name(&self) -> &str {
        match self {
            AKind::Simple(s) => s,
            AKind::List(_) => "list",
            AKind::Set(_) => "set",
            AKind::Map(..) => "map",
            AKind::Structure(_) => "structure",
            AKind::Union(_) => "union",
            AKind::Service(_) => "service",
            AKind::Operation(_) => "operation",
            AKind::Resource(_) => "resource",
            AKind::Unresolved => "unresolved",
        }
    }
    /// (member name, member) pairs of aggregates
    pub fn members(&self) -> Vec<(String, &AMember)> {
        match self {
            AKind::List(m) | AKind::Set(m) => vec![("member".into(), m)],
            AKind::Map(k, v) => vec![("key".into(), k), ("value".into(), v)],
            AKind::Structure(ms) | AKind::Union(ms) => ms.iter().map(|(k, v)| (k.clone(), v)).collect(),
            _ => vec![],
        }
    }
    pub fn members_mut(&mut self) -> Vec<(String, &mut AMember)> {
        match self {
            AKind::List(m) | AKind::Set(m) => vec![("member".into(), m)],
            AKind::Map(k, v) => vec![("key".into(), k), ("value".into(), v)],
            AKind::Structure(ms) | AKind::Union(ms) => ms.iter_mut().map(|(k, v)| (k.clone(), v)).collect(),
            _ => vec![],
        }
    }
    /// every reference: (property, target)
    pub fn refs(&self) -> Vec<(String, Id)> {
        let mut out: Vec<(String, Id)> = self.members().into_iter().map(|(n, m)| (n, m.target.clone())).collect();
        match self {
            AKind::Service(s) => {
                out.extend(s.operations.iter().map(|x| ("operations".into(), x.clone())));
                out.extend(s.resources.iter().map(|x| ("resources".into(), x.clone())));
            }
            AKind::Operation(o) => {
                out.extend(o.input.iter().map(|x| ("input".into(), x.clone())));
                out.extend(o.output.iter().map(|x| ("output".into(), x.clone())));
                out.extend(o.errors.iter().map(|x| ("errors".into(), x.clone())));
            }
            AKind::Resource(r) => {
                for (n, t) in r.lifecycle() {
                    out.extend(t.iter().map(|x| (n.to_string(), x.clone())));
                }
                out.extend(r.operations.iter().map(|x| ("operations".into(), x.clone())));
                out.extend(r.collection_operations.iter().map(|x| ("collectionOperations".into(), x.clone())));
                out.extend(r.resources.iter().map(|x| ("resources".into(), x.clone())));
            }
            _ => {}
        }
        out
    }
}

// ---------------------------------------------------------------------------------------------- dump

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '|' => o.push_str("\\u{7c}"),
            c if (c as u32) < 0x20 || (c as u32) >= 0x7f => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl AVal {
    pub fn dump(&self) -> String {
        match self {
            AVal::Null => "null".into(),
            AVal::Bool(b) => b.to_string(),
            AVal::Int(i) => i.to_string(),
            AVal::Float(f) => format!("f{:?}", f),
            AVal::Str(s) => q(s),
            AVal::Arr(v) => format!("[{}]", v.iter().map(|x| x.dump()).collect::<Vec<_>>().join(",")),
            AVal::Obj(m) => format!(
                "{{{}}}",
                m.iter().map(|(k, v)| format!("{}:{}", q(k), v.dump())).collect::<Vec<_>>().join(",")
            ),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            AVal::Null => "null",
            AVal::Bool(_) => "bool",
            AVal::Int(_) => "int",
            AVal::Float(_) => "float",
            AVal::Str(_) => "str",
            AVal::Arr(_) => "arr",
            AVal::Obj(_) => "obj",
        }
    }
}
pub fn dump_tv(v: &Option<AVal>) -> String {
    match v {
        None => "-".into(),
        Some(v) => v.dump(),
    }
}

#[derive(Clone, Copy)]
pub struct DumpOpts {
    /// a trait without value and one with an empty object are the same fact
    pub none_is_empty_obj: bool,
    /// letter case of ids is not significant
    pub fold_case: bool,
}
impl Default for DumpOpts {
    fn default() -> Self {
        DumpOpts { none_is_empty_obj: false, fold_case: false }
    }
}
pub const JSONISH: DumpOpts = DumpOpts { none_is_empty_obj: true, fold_case: false };

fn tv(v: &Option<AVal>, o: DumpOpts) -> String {
    match v {
        None => {
            if o.none_is_empty_obj {
                "{}".into()
            } else {
                "-".into()
            }
        }
        Some(v) => v.dump(),
    }
}

impl AShape {
    pub fn dump(&self, id: &str, o: DumpOpts) -> Vec<String> {
        let mut out = vec![];
        let t = self.kind.type_name();
        out.push(format!("shape:{}|{}", t, id));
        for (tid, v) in &self.traits {
            out.push(format!("trait:{}|{}|{}|{}", t, id, tid, tv(v, o)));
        }
        for (n, m) in self.kind.members() {
            out.push(format!("member:{}|{}|{}|{}", t, id, n, m.target));
            for (tid, v) in &m.traits {
                out.push(format!("mtrait:{}|{}|{}|{}|{}", t, id, n, tid, tv(v, o)));
            }
        }
        match &self.kind {
            AKind::Service(s) => {
                out.push(format!("service.version|{}|{}", id, q(&s.version)));
                for (i, x) in s.operations.iter().enumerate() {
                    out.push(format!("service.operations|{}|{}|{}", id, i, x));
                }
                for (i, x) in s.resources.iter().enumerate() {
                    out.push(format!("service.resources|{}|{}|{}", id, i, x));
                }
                for (k, v) in &s.renames {
                    out.push(format!("service.rename|{}|{}|{}", id, k, v));
                }
            }
            AKind::Operation(s) => {
                if let Some(x) = &s.input {
                    out.push(format!("operation.input|{}|{}", id, x));
                }
                if let Some(x) = &s.output {
                    out.push(format!("operation.output|{}|{}", id, x));
                }
                for (i, x) in s.errors.iter().enumerate() {
                    out.push(format!("operation.errors|{}|{}|{}", id, i, x));
                }
            }
            AKind::Resource(s) => {
                for (k, x) in &s.identifiers {
                    out.push(format!("resource.identifiers|{}|{}|{}", id, k, x));
                }
                for (n, x) in s.lifecycle() {
                    if let Some(x) = x {
                        out.push(format!("resource.{}|{}|{}", n, id, x));
                    }
                }
                for (i, x) in s.operations.iter().enumerate() {
                    out.push(format!("resource.operations|{}|{}|{}", id, i, x));
                }
                for (i, x) in s.collection_operations.iter().enumerate() {
                    out.push(format!("resource.collectionOperations|{}|{}|{}", id, i, x));
                }
                for (i, x) in s.resources.iter().enumerate() {
                    out.push(format!("resource.resources|{}|{}|{}", id, i, x));
                }
            }
            _ => {}
        }
        out
    }
}

impl AModel {
    pub fn dump_with(&self, o: DumpOpts) -> Vec<String> {
        let mut out = vec![];
        for (k, v) in &self.metadata {
            out.push(format!("meta|{}|{}", q(k), v.dump()));
        }
        for (id, s) in &self.shapes {
            out.extend(s.dump(id, o));
        }
        if o.fold_case {
            out = out.into_iter().map(|l| l.to_lowercase()).collect();
        }
        out.sort();
        out
    }
    pub fn dump(&self) -> Vec<String> {
        self.dump_with(DumpOpts::default())
    }
    pub fn namespaces(&self) -> Vec<String> {
        let mut v: Vec<String> = self
            .shapes
            .iter()
            .filter(|(_, s)| s.kind != AKind::Unresolved)
            .map(|(i, _)| ns_of(i).to_string())
            .collect();
        v.sort();
        v.dedup();
        v
    }
    /// the part of the model in one namespace (metadata kept)
    pub fn only_ns(&self, ns: &str) -> AModel {
        AModel {
            metadata: self.metadata.clone(),
            shapes: self
                .shapes
                .iter()
                .filter(|(i, _)| ns_of(i) == ns)
                .map(|(i, s)| (i.clone(), s.clone()))
                .collect(),
        }
    }
    pub fn nontrivial(&self) -> bool {
        self.shapes.len() >= 2
            && (self.shapes.values().any(|s| !s.traits.is_empty())
                || !self.metadata.is_empty()
                || self.shapes.values().any(|s| !s.kind.members().is_empty()))
    }
}

pub fn ns_of(id: &str) -> &str {
    id.split_once('#').map(|x| x.0).unwrap_or("")
}
/// name part, including any `$member`
pub fn name_of(id: &str) -> &str {
    id.split_once('#').map(|x| x.1).unwrap_or(id)
}
pub fn shape_part(id: &str) -> &str {
    id.split_once('$').map(|x| x.0).unwrap_or(id)
}

// ---------------------------------------------------------------------------------------------- to library

pub fn sid(id: &str) -> ShapeID {
    let (ns, rest) = id.split_once('#').expect("absolute id");
    match rest.split_once('$') {
        None => ShapeID::new_unchecked(ns, rest, None),
        Some((s, m)) => ShapeID::new_unchecked(ns, s, Some(m)),
    }
}
pub fn ident(s: &str) -> Identifier {
    Identifier::new_unchecked(s)
}
pub fn nsid(s: &str) -> NamespaceID {
    NamespaceID::new_unchecked(s)
}

pub fn to_value(v: &AVal) -> Value {
    match v {
        AVal::Null => Value::None,
        AVal::Bool(b) => Value::Boolean(*b),
        AVal::Int(i) => Value::Number(Number::Integer(*i)),
        AVal::Float(f) => Value::Number(Number::Float(*f)),
        AVal::Str(s) => Value::String(s.clone()),
        AVal::Arr(a) => Value::Array(a.iter().map(to_value).collect()),
        AVal::Obj(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), to_value(v))).collect()),
    }
}
pub fn from_value(v: &Value) -> AVal {
    match v {
        Value::None => AVal::Null,
        Value::Boolean(b) => AVal::Bool(*b),
        Value::Number(Number::Integer(i)) => AVal::Int(*i),
        Value::Number(Number::Float(f)) => AVal::Float(*f),
        Value::String(s) => AVal::Str(s.clone()),
        Value::Array(a) => AVal::Arr(a.iter().map(from_value).collect()),
        Value::Object(m) => AVal::Obj(m.iter().map(|(k, v)| (k.clone(), from_value(v))).collect()),
    }
}
pub fn to_traits(t: &Traits) -> HashMap<ShapeID, Option<Value>> {
    t.iter().map(|(k, v)| (sid(k), v.as_ref().map(to_value))).collect()
}
pub fn from_traits(t: &HashMap<ShapeID, Option<Value>>) -> Traits {
    t.iter().map(|(k, v)| (k.to_string(), v.as_ref().map(from_value))).collect()
}
pub fn to_member(name: &str, m: &AMember) -> MemberShape {
    MemberShape::with_traits(ident(name), sid(&m.target), to_traits(&m.traits))
}
pub fn from_member(m: &MemberShape) -> AMember {
    AMember { target: m.target().to_string(), traits: from_traits(m.traits()) }
}

pub fn to_kind(k: &AKind) -> ShapeKind {
    match k {
        AKind::Simple(s) => ShapeKind::Simple(Simple::from_str(s).unwrap()),
        AKind::List(m) => ShapeKind::List(ListOrSet::from(to_member("member", m))),
        AKind::Set(m) => ShapeKind::Set(ListOrSet::from(to_member("member", m))),
        AKind::Map(k, v) => ShapeKind::Map(Map::from(to_member("key", k), to_member("value", v))),
        AKind::Structure(ms) => {
            let v: Vec<MemberShape> = ms.iter().map(|(n, m)| to_member(n, m)).collect();
            ShapeKind::Structure(StructureOrUnion::with_members(&v))
        }
        AKind::Union(ms) => {
            let v: Vec<MemberShape> = ms.iter().map(|(n, m)| to_member(n, m)).collect();
            ShapeKind::Union(StructureOrUnion::with_members(&v))
        }
        AKind::Service(s) => {
            let mut b = Service::new(&s.version);
            for x in &s.operations {
                b.add_operation(sid(x));
            }
            for x in &s.resources {
                b.add_resource(sid(x));
            }
            for (k, v) in &s.renames {
                let _ = b.insert_rename_shape(sid(k), ident(v));
            }
            ShapeKind::Service(b)
        }
        AKind::Operation(s) => {
            let mut b = Operation::default();
            if let Some(x) = &s.input {
                b.set_input(sid(x));
            }
            if let Some(x) = &s.output {
                b.set_output(sid(x));
            }
            for x in &s.errors {
                b.add_error(sid(x));
            }
            ShapeKind::Operation(b)
        }
        AKind::Resource(s) => {
            let mut b = Resource::default();
            for (k, x) in &s.identifiers {
                let _ = b.add_identifier(ident(k), sid(x));
            }
            if let Some(x) = &s.create {
                b.set_create(sid(x));
            }
            if let Some(x) = &s.put {
                b.set_put(sid(x));
            }
            if let Some(x) = &s.read {
                b.set_read(sid(x));
            }
            if let Some(x) = &s.update {
                b.set_update(sid(x));
            }
            if let Some(x) = &s.delete {
                b.set_delete(sid(x));
            }
            if let Some(x) = &s.list {
                b.set_list(sid(x));
            }
            for x in &s.operations {
                b.add_operation(sid(x));
            }
            for x in &s.collection_operations {
                b.add_collection_operation(sid(x));
            }
            for x in &s.resources {
                b.add_resource(sid(x));
            }
            ShapeKind::Resource(b)
        }
        AKind::Unresolved => ShapeKind::Unresolved,
    }
}

pub fn to_shape(id: &str, s: &AShape) -> TopLevelShape {
    TopLevelShape::with_traits(sid(id), to_kind(&s.kind), to_traits(&s.traits))
}

/// Build with the core interface; shapes inserted in `order` (defaults to sorted).
pub fn to_model(m: &AModel) -> Model {
    let mut out = Model::new(Version::V10);
    for (k, v) in &m.metadata {
        out.add_metadata(k.clone(), to_value(v)).expect("fresh metadata key");
    }
    for (id, s) in &m.shapes {
        out.add_shape(to_shape(id, s)).expect("fresh shape id");
    }
    out
}
/// As `to_model` but in a random insertion order.
pub fn to_model_shuffled(m: &AModel, rng: &mut Rng) -> Model {
    let mut out = Model::new(Version::V10);
    let mut ms: Vec<_> = m.metadata.iter().collect();
    rng.shuffle(&mut ms);
    for (k, v) in ms {
        out.add_metadata(k.clone(), to_value(v)).expect("fresh metadata key");
    }
    let mut ss: Vec<_> = m.shapes.iter().collect();
    rng.shuffle(&mut ss);
    for (id, s) in ss {
        out.add_shape(to_shape(id, s)).expect("fresh shape id");
    }
    out
}

pub fn from_kind(k: &ShapeKind) -> AKind {
    fn ids<'a>(i: impl Iterator<Item = &'a ShapeID>) -> Vec<Id> {
        i.map(|x| x.to_string()).collect()
    }
    fn o(x: &Option<ShapeID>) -> Option<Id> {
        x.as_ref().map(|x| x.to_string())
    }
    match k {
        ShapeKind::Simple(s) => AKind::Simple(
            match s {
                Simple::Blob => "blob",
                Simple::Boolean => "boolean",
                Simple::Document => "document",
                Simple::String => "string",
                Simple::Byte => "byte",
                Simple::Short => "short",
                Simple::Integer => "integer",
                Simple::Long => "long",
                Simple::Float => "float",
                Simple::Double => "double",
                Simple::BigInteger => "bigInteger",
                Simple::BigDecimal => "bigDecimal",
                Simple::Timestamp => "timestamp",
            }
            .to_string(),
        ),
        ShapeKind::List(v) => AKind::List(named(v.member(), "member")),
        ShapeKind::Set(v) => AKind::Set(named(v.member(), "member")),
        ShapeKind::Map(v) => AKind::Map(named(v.key(), "key"), named(v.value(), "value")),
        ShapeKind::Structure(v) => AKind::Structure(from_members(v)),
        ShapeKind::Union(v) => AKind::Union(from_members(v)),
        ShapeKind::Service(v) => AKind::Service(AService {
            version: v.version().clone(),
            operations: ids(v.operations()),
            resources: ids(v.resources()),
            renames: v.renames().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        }),
        ShapeKind::Operation(v) => AKind::Operation(AOperation {
            input: o(v.input()),
            output: o(v.output()),
            errors: ids(v.errors()),
        }),
        ShapeKind::Resource(v) => AKind::Resource(AResource {
            identifiers: v.identifiers().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            create: o(v.create()),
            put: o(v.put()),
            read: o(v.read()),
            update: o(v.update()),
            delete: o(v.delete()),
            list: o(v.list()),
            operations: ids(v.operations()),
            collection_operations: ids(v.collection_operations()),
            resources: ids(v.resources()),
        }),
        ShapeKind::Unresolved => AKind::Unresolved,
    }
}
/// a fixed-name member; a wrong name is made visible in its target
fn named(m: &MemberShape, want: &str) -> AMember {
    let mut a = from_member(m);
    if m.id().to_string() != want {
        a.target = format!("<member named {}>{}", m.id(), a.target);
    }
    a
}
fn from_members(v: &StructureOrUnion) -> BTreeMap<String, AMember> {
    v.members().map(|m| (m.id().to_string(), from_member(m))).collect()
}
pub fn from_shape(s: &TopLevelShape) -> AShape {
    AShape { kind: from_kind(s.body()), traits: from_traits(s.traits()) }
}
pub fn from_model(m: &Model) -> AModel {
    AModel {
        metadata: m.metadata().map(|(k, v)| (k.clone(), from_value(v))).collect(),
        shapes: m.shapes().map(|s| (s.id().to_string(), from_shape(s))).collect(),
    }
}

// ---------------------------------------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub namespaces: Vec<String>,
    pub shapes: (usize, usize),
    pub metadata: (usize, usize),
    pub unresolved: bool,
    pub unresolved_members: bool,
    pub renames: bool,
    pub traits: bool,
    /// allow trait values that are explicitly null
    pub null_values: bool,
    pub floats: bool,
    /// only floats with few significant digits and small exponents
    pub short_floats: bool,
    /// 0 plain ascii, 1 printable incl. quotes and backslashes, 2 any Unicode incl. controls
    pub strings: u8,
    /// targets of references are kept to the right kind (valid models)
    pub typed_refs: bool,
    /// allow references to ids that the model does not define
    pub dangling: bool,
    pub value_depth: usize,
    /// only traits defined in the prelude or in the model's namespaces
    pub foreign_traits: bool,
    pub empty_aggregates: bool,
    /// lists of operations, resources and errors may name a shape twice
    pub repeats: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            namespaces: vec!["example.one".into()],
            shapes: (1, 12),
            metadata: (0, 4),
            unresolved: false,
            unresolved_members: false,
            renames: true,
            traits: true,
            null_values: true,
            floats: true,
            short_floats: false,
            strings: 2,
            typed_refs: true,
            dangling: false,
            value_depth: 3,
            foreign_traits: true,
            empty_aggregates: true,
            repeats: false,
        }
    }
}

pub const PRELUDE_SIMPLE: [&str; 20] = [
    "String", "Blob", "BigInteger", "BigDecimal", "Timestamp", "Document", "Boolean", "PrimitiveBoolean", "Byte",
    "PrimitiveByte", "Short", "PrimitiveShort", "Integer", "PrimitiveInteger", "Long", "PrimitiveLong", "Float",
    "PrimitiveFloat", "Double", "PrimitiveDouble",
];
pub const PRELUDE_TRAITS: [&str; 59] = [
    "trait", "authDefinition", "protocolDefinition", "references", "idRef", "externalDocumentation", "title",
    "documentation", "box", "tags", "private", "deprecated", "since", "unstable", "required", "readonly",
    "idempotent", "idempotencyToken", "jsonName", "xmlAttribute", "xmlFlattened", "xmlName", "xmlNamespace",
    "error", "retryable", "auth", "optionalAuth", "httpBasicAuth", "httpDigestAuth", "httpBearerAuth",
    "httpApiKeyAuth", "range", "length", "pattern", "uniqueItems", "enum", "paginated", "resourceIdentifier",
    "streaming", "requiresLength", "mediaType", "timestampFormat", "endpoint", "hostLabel", "httpError", "http",
    "httpLabel", "httpQuery", "httpHeader", "httpPrefixHeaders", "httpPayload", "httpChecksumRequired", "cors",
    "eventPayload", "eventHeader", "suppress", "examples", "sensitive", "noReplace",
];

const WORDS: [&str; 28] = [
    "foo", "bar", "city", "weather", "item", "list", "get", "set", "map", "name", "id", "String", "Thing", "data",
    "value", "key", "member", "operation", "resource", "service", "structure", "namespace", "trueish", "nullable",
    "falsey", "applyIt", "metadata", "use",
];

/// mostly at most `small`, sometimes up to 30, rarely `huge`
pub fn gen_size(r: &mut Rng, lo: usize, small: usize, huge: usize) -> usize {
    match r.below(800) {
        0 => huge,
        1..=30 => r.range(small, 30),
        _ => r.range(lo, small),
    }
}

pub fn gen_ident(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 500) {
        let n = *r.pick(&[65, 129, 256, 300, 700]);
        return format!("L{}", "abcXY_9z".chars().cycle().take(n).collect::<String>());
    }
    match r.below(10) {
        0 => s.push_str("_"),
        1 => s.push_str("__"),
        _ => {}
    }
    let w = if r.chance(1, 40) { *r.pick(&["true", "false", "null"]) } else { *r.pick(&WORDS) };
    match r.below(4) {
        0 => s.push_str(w),
        1 => {
            let mut c = w.chars();
            let f = c.next().unwrap();
            s.push(f.to_ascii_uppercase());
            s.push_str(c.as_str());
        }
        2 => s.push_str(&w.to_uppercase()),
        _ => {
            s.push_str(w);
            s.push_str(r.pick(&["Input", "Output", "_x", "2", "X9_", "Error", "s"]));
        }
    }
    if r.chance(1, 4) {
        s.push_str(&r.below(100).to_string());
    }
    s
}

pub fn gen_string(r: &mut Rng, class: u8) -> String {
    const PLAIN: [&str; 8] = ["", "a", "hello world", "nextToken", "2006-03-01", "^[A-Za-z0-9 ]+$", "true", "42"];
    const PRINT: [&str; 16] = [
        "\"", "\\", "a\"b", "c:\\d\\n", "//not a comment", "{}", "[x]=", "<=", "::", "${a}", "'", "#", "@", "<b>&amp;</b>",
        "|", "\\u0041",
    ];
    const UNI: [&str; 20] = [
        "\n", "\r\n", "\t", "\u{0}", "\u{7f}", "é", "日本", "\u{1F600}", "\u{2028}", "\u{feff}", "\u{8}", "\u{c}", "a\nb\n",
        "\"\"\"", " \n  x", "\u{10FFFF}", "\u{e000}", "\u{85}", "\u{1b}", "\u{a0}",
    ];
    let n = if r.chance(1, 300) { *r.pick(&[20, 60, 300, 1200]) } else { r.range(0, 3) };
    let mut s = String::new();
    if class >= 1 && r.chance(1, 300) {
        // not nesting
        s = r.pick(&["[", "{", "(", "\"[", "'("]).repeat(r.range(100, 300));
    }
    for _ in 0..n {
        let k = r.below(1 + class as usize);
        s.push_str(match k {
            0 => *r.pick(&PLAIN),
            1 => *r.pick(&PRINT),
            _ => *r.pick(&UNI),
        });
    }
    if class >= 2 && r.chance(1, 6) {
        for _ in 0..r.range(1, 6) {
            let c = loop {
                let x = match r.below(3) {
                    0 => r.below(0x80) as u32,
                    1 => r.below(0x3000) as u32,
                    _ => r.below(0x110000) as u32,
                };
                if let Some(c) = char::from_u32(x) {
                    break c;
                }
            };
            s.push(c);
        }
    }
    s
}

pub fn gen_int(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, -1, 1]),
        2 => r.next() as i64,
        3 => -(r.below(1000) as i64),
        _ => r.below(1000) as i64,
    }
}
pub fn gen_float(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.5, -0.5, 1.0, -1.0, 100.0, 1e10, 1e21, 1e300, 1e-7, 5e-324, f64::MAX, f64::MIN, 0.1, 0.0, -0.0]),
        1 => 3.14,
        2 => r.below(1000) as f64,
        3 => {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                f
            } else {
                2.5
            }
        }
        _ => (r.below(100000) as f64 - 50000.0) / 64.0,
    }
}

pub fn gen_short_float(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => *r.pick(&[0.5, -0.5, 1.0, -1.0, 100.0, 1e10, 1e21, 1e-7, 0.1, 2.75e-5, 1.5e20, 0.0, -0.0]),
        1 => 3.14,
        2 => r.below(1000) as f64,
        3 => (r.below(2_000_000_000) as f64 - 1e9) / 1000.0,
        _ => (r.below(100000) as f64 - 50000.0) / 64.0,
    }
}

pub fn gen_val(r: &mut Rng, o: &GenOpts, depth: usize) -> AVal {
    let n = if depth == 0 { 5 } else { 8 };
    match r.below(n) {
        0 => {
            if o.null_values {
                AVal::Null
            } else {
                AVal::Bool(true)
            }
        }
        1 => AVal::Bool(r.chance(1, 2)),
        2 => AVal::Int(gen_int(r)),
        3 => {
            if o.floats && o.short_floats {
                AVal::Float(gen_short_float(r))
            } else if o.floats {
                AVal::Float(gen_float(r))
            } else {
                AVal::Int(gen_int(r))
            }
        }
        4 => AVal::Str(gen_string(r, o.strings)),
        5 | 6 => {
            let n = gen_size(r, 0, 3, 260);
            let d = if n > 30 { 0 } else { depth - 1 };
            AVal::Arr((0..n).map(|_| gen_val(r, o, d)).collect())
        }
        _ => {
            let n = gen_size(r, 0, 3, 260);
            let d = if n > 30 { 0 } else { depth - 1 };
            AVal::Obj((0..n).map(|_| (gen_key(r, o), gen_val(r, o, d))).collect())
        }
    }
}

pub fn gen_key(r: &mut Rng, o: &GenOpts) -> String {
    if o.strings == 0 || r.chance(2, 3) {
        gen_ident(r)
    } else {
        gen_string(r, o.strings)
    }
}

pub fn gen_traits(r: &mut Rng, o: &GenOpts, max: usize) -> Traits {
    let mut t = Traits::new();
    if !o.traits {
        return t;
    }
    let n = if r.chance(1, 3) { 0 } else { gen_size(r, 0, max, 40) };
    for _ in 0..n {
        let id = if r.chance(1, 6) {
            "smithy.api#documentation".to_string()
        } else if r.chance(3, 4) || !o.foreign_traits {
            format!("smithy.api#{}", r.pick(&PRELUDE_TRAITS))
        } else if r.chance(1, 4) {
            format!("{}#{}", r.pick(&["smithy.api", "example.one"]), r.pick(&["String", "nope", "Blob", "null", "localTrait", "documentation"]))
        } else {
            format!("{}#{}", r.pick(&["other.traits", "aws.api", "smithy.waiters", "smithy.api.more", "smithy.apix", "smithy"]), r.pick(&["custom", "arn", "Flag", "documentation", "error", "trait", "required", "externalDocumentation"]))
        };
        let v = if r.chance(1, 4) {
            None
        } else if id == "smithy.api#documentation" && r.chance(9, 10) {
            Some(AVal::Str(gen_string(r, o.strings)))
        } else {
            Some(gen_val(r, o, o.value_depth))
        };
        t.insert(id, v);
    }
    t
}

/// Names of kinds for planning.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum P {
    Simple,
    List,
    Set,
    Map,
    Structure,
    Union,
    Service,
    Operation,
    Resource,
}

pub fn gen_model(r: &mut Rng, o: &GenOpts) -> AModel {
    use std::collections::HashSet;
    let mut m = AModel::default();
    let n = match r.below(300) {
        0 if o.shapes.1 > 5 => 130,
        1..=4 if o.shapes.1 > 5 => r.range(o.shapes.1, o.shapes.1.max(45)),
        _ => r.range(o.shapes.0, o.shapes.1),
    };
    let mut used: HashSet<String> = HashSet::new();
    let mut plan: Vec<(Id, P)> = vec![];
    let mut namespaces = o.namespaces.clone();
    if namespaces.len() > 1 && r.chance(1, 3) {
        // relatives: a namespace inside another one, and one that merely starts alike
        let base = r.pick(&o.namespaces).clone();
        namespaces.push(format!("{}.sub", base));
        namespaces.push(format!("{}x", base));
    }
    for _ in 0..n {
        let ns = r.pick(&namespaces).clone();
        let name = gen_ident(r);
        // a definition whose name differs only in case from a name that is also used without a definition
        let clash = ["null", "true", "false", "String"].iter().any(|k| k.eq_ignore_ascii_case(&name) && *k != name);
        let id = format!("{}#{}{}", ns, if clash { "K" } else { "" }, name);
        if !used.insert(id.to_lowercase()) {
            continue;
        }
        let k = *r.pick(&[
            P::Simple, P::Simple, P::List, P::Set, P::Map, P::Structure, P::Structure, P::Union, P::Service, P::Operation,
            P::Operation, P::Resource, P::Resource,
        ]);
        plan.push((id, k));
    }
    let data: Vec<Id> = plan
        .iter()
        .filter(|(_, k)| !matches!(k, P::Service | P::Operation | P::Resource))
        .map(|x| x.0.clone())
        .collect();
    let ops: Vec<Id> = plan.iter().filter(|(_, k)| *k == P::Operation).map(|x| x.0.clone()).collect();
    let ress: Vec<Id> = plan.iter().filter(|(_, k)| *k == P::Resource).map(|x| x.0.clone()).collect();
    let all: Vec<Id> = plan.iter().map(|x| x.0.clone()).collect();
    let dangling = |r: &mut Rng| -> Id {
        if r.chance(1, 4) {
            // names that other namespaces or the language know
            return format!(
                "{}#{}",
                r.pick(&["example.one", "missing.ns", "smithy.api"]),
                r.pick(&["null", "true", "false", "String", "documentation", "sensitive", "Nothing", "apply", "Integer"])
            );
        }
        format!("{}#{}", r.pick(&["example.one", "missing.ns", "other.place"]), r.pick(&["Missing", "Absent", "Ghost2"]))
    };
    let pick_data = |r: &mut Rng| -> Id {
        if o.dangling && r.chance(1, 10) {
            return dangling(r);
        }
        if !o.typed_refs && r.chance(1, 5) && !all.is_empty() {
            return r.pick(&all).clone();
        }
        if data.is_empty() || r.chance(1, 2) {
            format!("smithy.api#{}", r.pick(&PRELUDE_SIMPLE))
        } else {
            r.pick(&data).clone()
        }
    };
    let pick_of = |r: &mut Rng, pool: &Vec<Id>| -> Option<Id> {
        if o.dangling && r.chance(1, 10) {
            return Some(dangling(r));
        }
        if !o.typed_refs && r.chance(1, 5) && !all.is_empty() {
            return Some(r.pick(&all).clone());
        }
        if pool.is_empty() {
            None
        } else {
            Some(r.pick(pool).clone())
        }
    };
    let members = |r: &mut Rng| -> BTreeMap<String, AMember> {
        let mut out = BTreeMap::new();
        let mut seen = HashSet::new();
        let n = gen_size(r, if o.empty_aggregates { 0 } else { 1 }, 5, 270);
        for i in 0..n {
            let name = if i < 20 { gen_ident(r) } else { format!("field{}", i) };
            if seen.insert(name.to_lowercase()) {
                out.insert(name, AMember { target: pick_data(r), traits: gen_traits(r, o, 2) });
            }
        }
        out
    };
    let some_of = |r: &mut Rng, pool: &Vec<Id>, max: usize| -> Vec<Id> {
        let mut v: Vec<Id> = vec![];
        for _ in 0..gen_size(r, 0, max, 40) {
            if let Some(x) = pick_of(r, pool) {
                if o.repeats && r.chance(1, 20) || !v.contains(&x) {
                    v.push(x);
                }
            }
        }
        v
    };
    for (id, k) in &plan {
        let mem = |r: &mut Rng| AMember { target: pick_data(r), traits: gen_traits(r, o, 2) };
        let kind = match k {
            P::Simple => AKind::Simple(r.pick(&SIMPLE).to_string()),
            P::List => AKind::List(mem(r)),
            P::Set => AKind::Set(mem(r)),
            P::Map => AKind::Map(mem(r), mem(r)),
            P::Structure => AKind::Structure(members(r)),
            P::Union => AKind::Union(members(r)),
            P::Service => {
                let mut s = AService {
                    version: loop {
                        let v = if r.chance(2, 3) { "2006-03-01".to_string() } else { gen_string(r, o.strings) };
                        if !v.is_empty() {
                            break v;
                        }
                    },
                    operations: some_of(r, &ops, 3),
                    resources: some_of(r, &ress, 2),
                    renames: Default::default(),
                };
                if o.renames {
                    for _ in 0..gen_size(r, 0, 2, 40) {
                        if !data.is_empty() {
                            s.renames.insert(r.pick(&data).clone(), gen_ident(r));
                        }
                    }
                }
                AKind::Service(s)
            }
            P::Operation => AKind::Operation(AOperation {
                input: if r.chance(1, 2) { Some(pick_data(r)) } else { None },
                output: if r.chance(1, 2) { Some(pick_data(r)) } else { None },
                errors: some_of(r, &data, 2),
            }),
            P::Resource => {
                let mut ids = BTreeMap::new();
                let mut seen = HashSet::new();
                for _ in 0..gen_size(r, 0, 2, 40) {
                    let n = gen_ident(r);
                    if seen.insert(n.to_lowercase()) {
                        ids.insert(n, pick_data(r));
                    }
                }
                let one = |r: &mut Rng| if r.chance(1, 3) { pick_of(r, &ops) } else { None };
                AKind::Resource(AResource {
                    identifiers: ids,
                    create: one(r),
                    put: one(r),
                    read: one(r),
                    update: one(r),
                    delete: one(r),
                    list: one(r),
                    operations: some_of(r, &ops, 2),
                    collection_operations: some_of(r, &ops, 2),
                    resources: some_of(r, &ress, 2),
                })
            }
        };
        let traits = gen_traits(r, o, 3);
        m.shapes.insert(id.clone(), AShape { kind, traits });
    }
    if o.unresolved && r.chance(1, 2) {
        for _ in 0..r.range(1, 2) {
            let ns = r.pick(&namespaces).clone();
            let name = format!("Unres{}", r.below(5));
            let mut id = format!("{}#{}", ns, name);
            if o.unresolved_members && r.chance(1, 2) {
                id.push_str("$memb");
            }
            if used.insert(id.to_lowercase()) {
                let mut traits = gen_traits(r, o, 2);
                if traits.is_empty() {
                    traits.insert("smithy.api#sensitive".into(), None);
                }
                m.shapes.insert(id, AShape { kind: AKind::Unresolved, traits });
            }
        }
    }
    let n = if o.metadata.1 == 0 { 0 } else { gen_size(r, o.metadata.0, o.metadata.1, 40) };
    for _ in 0..n {
        let k = gen_key(r, o);
        m.metadata.insert(k, gen_val(r, o, o.value_depth));
    }
    m
}
