//! C20: selectors. An independent structure, emitted as text in arbitrary spacing and as library values, and read back
//! from library values through their accessors.
use crate::am::*;
use crate::fw::{clip, Case, Ctx};
use crate::rng::Rng;
use atelier_core::builder::selector::{AttributeBuilder, ScopedAttributeBuilder, SelectorBuilder};
use atelier_core::model::selector as s;
use atelier_core::model::values::Number;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Text(String),
    Int(i64),
    Float(f64),
    Root(String),
    Abs(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    V(V),
    F(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct K(pub String, pub Vec<Seg>);
#[derive(Clone, Debug, PartialEq)]
pub enum SV {
    V(V),
    Ctx(Vec<Seg>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Assertion {
    pub lhs: SV,
    pub cmp: usize,
    pub rhs: Vec<SV>,
    pub ci: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Type(usize),
    Attr(K, Option<(usize, Vec<V>, bool)>),
    Scoped(Option<K>, Vec<Assertion>),
    Fwd,
    Rev,
    FwdDir(Vec<String>),
    RevDir(Vec<String>),
    Rec,
    Fun(String, Vec<Vec<E>>),
    Def(String, Vec<E>),
    Ref(String),
}

pub const TYPES: [(&str, s::ShapeType); 26] = [
    ("*", s::ShapeType::Any),
    ("number", s::ShapeType::Number),
    ("simpleType", s::ShapeType::SimpleType),
    ("collection", s::ShapeType::Collection),
    ("blob", s::ShapeType::Blob),
    ("boolean", s::ShapeType::Boolean),
    ("document", s::ShapeType::Document),
    ("string", s::ShapeType::String),
    ("integer", s::ShapeType::Integer),
    ("byte", s::ShapeType::Byte),
    ("short", s::ShapeType::Short),
    ("long", s::ShapeType::Long),
    ("float", s::ShapeType::Float),
    ("double", s::ShapeType::Double),
    ("bigDecimal", s::ShapeType::BigDecimal),
    ("bigInteger", s::ShapeType::BigInteger),
    ("timestamp", s::ShapeType::Timestamp),
    ("list", s::ShapeType::List),
    ("set", s::ShapeType::Set),
    ("map", s::ShapeType::Map),
    ("structure", s::ShapeType::Structure),
    ("union", s::ShapeType::Union),
    ("service", s::ShapeType::Service),
    ("operation", s::ShapeType::Operation),
    ("resource", s::ShapeType::Resource),
    ("member", s::ShapeType::Member),
];
const CMPS: [(&str, s::Comparator); 14] = [
    ("=", s::Comparator::StringEqual),
    ("!=", s::Comparator::StringNotEqual),
    ("^=", s::Comparator::StringStartsWith),
    ("$=", s::Comparator::StringEndsWith),
    ("*=", s::Comparator::StringContains),
    ("?=", s::Comparator::StringExists),
    (">", s::Comparator::NumberGreaterThan),
    (">=", s::Comparator::NumberGreaterOrEqual),
    ("<", s::Comparator::NumberLessThan),
    ("<=", s::Comparator::NumberLessOrEqual),
    ("{=}", s::Comparator::ProjectionEqual),
    ("{!=}", s::Comparator::ProjectionNotEqual),
    ("{<}", s::Comparator::ProjectionSubset),
    ("{<<}", s::Comparator::ProjectionProperSubset),
];

// ---- generation -----------------------------------------------------------------------------------------------------
fn gen_id(r: &mut Rng) -> String {
    const I: [&str; 22] = ["id", "service", "trait", "var", "a", "B", "_x", "__y9", "i", "I", "e5", "E", "list", "map", "string", "number", "member", "true", "null", "abc_DEF_12", "x1", "operation"];
    if r.chance(1, 4) {
        let mut t = String::new();
        for _ in 0..r.below(2) {
            t.push('_');
        }
        t.push(*r.pick(&['a', 'z', 'A', 'Z', 'q', 'i']));
        for _ in 0..r.below(6) {
            t.push(*r.pick(&['a', 'z', 'A', 'Z', '0', '9', '_', 'm']));
        }
        t
    } else {
        r.pick(&I).to_string()
    }
}
/// mostly one of these sizes, now and then more
fn few(r: &mut Rng, sizes: &[usize]) -> usize {
    if r.chance(1, 30) {
        r.range(4, 14)
    } else {
        *r.pick(sizes)
    }
}
fn gen_text(r: &mut Rng) -> String {
    let quote = r.below(3);
    let pool: Vec<char> = " !#%&()*+,-./09:;<=>?@AZ[]^_`az{|}~i\u{7f}\u{a0}é√\u{2028}\u{feff}\u{fffd}\u{1F600}\u{10FFFF}".chars().collect();
    let mut t = String::new();
    for _ in 0..r.range(1, 8) {
        match quote {
            1 if r.chance(1, 3) => t.push('\''),
            2 if r.chance(1, 3) => t.push('"'),
            _ => t.push(*r.pick(&pool)),
        }
    }
    if r.chance(1, 12) {
        if r.chance(1, 6) {
            return r.pick(&["[", "(", "{", ":is("]).repeat(r.range(100, 300));
        }
        t = r.pick(&[" ", "  a ", "i", "true", "true", "false", "1", "a#b", "]", "//x", "]]>", "$", "@{x}"]).to_string();
    }
    t
}
fn gen_v(r: &mut Rng) -> V {
    match r.below(10) {
        0..=3 => V::Text(gen_text(r)),
        4 => V::Int(*r.pick(&[0, 1, -1, 10, 42, -7, 100, i64::MAX, i64::MIN, 1 << 53])),
        5 => V::Int(r.next() as i64),
        6 => V::Float(*r.pick(&[0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -2.5e-300, 5e-324, f64::MAX, 1e15, 1e16, 123456.789])),
        7 => V::Float(loop {
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                break f;
            }
        }),
        8 => V::Root(gen_id(r)),
        _ => {
            let n = few(r, &[1, 2, 3]);
            V::Abs(format!("{}#{}", (0..n).map(|_| gen_id(r)).collect::<Vec<_>>().join("."), gen_id(r)))
        }
    }
}
fn gen_seg(r: &mut Rng) -> Seg {
    if r.chance(1, 4) {
        Seg::F(gen_id(r))
    } else {
        Seg::V(gen_v(r))
    }
}
fn gen_k(r: &mut Rng) -> K {
    let n = few(r, &[0, 0, 1, 1, 2, 3, 5]);
    K(gen_id(r), (0..n).map(|_| gen_seg(r)).collect())
}
fn gen_sv(r: &mut Rng) -> SV {
    if r.chance(1, 2) {
        SV::Ctx((0..few(r, &[1, 2, 3])).map(|_| gen_seg(r)).collect())
    } else {
        SV::V(gen_v(r))
    }
}
pub fn gen_sel(r: &mut Rng, depth: usize) -> Vec<E> {
    let n = few(r, &[1, 1, 1, 2, 2, 3, 4, 6]);
    (0..n).map(|_| gen_e(r, depth)).collect()
}
fn gen_e(r: &mut Rng, depth: usize) -> E {
    match r.below(if depth == 0 { 10 } else { 13 }) {
        0 | 1 => E::Type(r.below(TYPES.len())),
        2 | 3 => {
            let k = gen_k(r);
            let c = if r.chance(1, 3) {
                None
            } else {
                Some((r.below(CMPS.len()), (0..few(r, &[1, 1, 2, 4])).map(|_| gen_v(r)).collect(), r.chance(1, 2)))
            };
            E::Attr(k, c)
        }
        4 => E::Scoped(
            if r.chance(1, 3) { None } else { Some(gen_k(r)) },
            (0..few(r, &[1, 1, 2, 3]))
                .map(|_| Assertion { lhs: gen_sv(r), cmp: r.below(CMPS.len()), rhs: (0..few(r, &[1, 1, 2, 3])).map(|_| gen_sv(r)).collect(), ci: r.chance(1, 2) })
                .collect(),
        ),
        5 => E::Fwd,
        6 => E::Rev,
        7 => {
            let v = (0..few(r, &[1, 1, 2, 4])).map(|_| gen_id(r)).collect();
            if r.chance(1, 2) {
                E::FwdDir(v)
            } else {
                E::RevDir(v)
            }
        }
        8 => E::Rec,
        9 => E::Ref(gen_id(r)),
        10 | 11 => E::Fun(
            if r.chance(1, 2) { r.pick(&["test", "is", "not", "topdown", "each", "root"]).to_string() } else { gen_id(r) },
            (0..few(r, &[1, 1, 2, 3])).map(|_| gen_sel(r, depth - 1)).collect(),
        ),
        _ => E::Def(gen_id(r), gen_sel(r, depth - 1)),
    }
}

// ---- text -----------------------------------------------------------------------------------------------------------
fn t_v(v: &V, r: &mut Rng, out: &mut Vec<String>) {
    out.push(match v {
        V::Text(t) if t.contains('"') => format!("'{}'", t),
        V::Text(t) if t.contains('\'') => format!("\"{}\"", t),
        V::Text(t) => {
            if r.chance(1, 2) {
                format!("'{}'", t)
            } else {
                format!("\"{}\"", t)
            }
        }
        V::Int(0) if r.chance(1, 3) => "-0".into(),
        V::Int(i) => i.to_string(),
        V::Float(f) => match r.below(4) {
            0 => format!("{:?}", f),
            1 => format!("{:e}", f),
            2 => format!("{:E}", f),
            _ => {
                let t = format!("{:e}", f);
                if t.contains("e-") {
                    t.replace("e-", "E-00")
                } else {
                    t.replace('e', "e+0")
                }
            }
        },
        V::Root(i) => i.clone(),
        V::Abs(i) => i.clone(),
    });
}
fn t_path(p: &[Seg], r: &mut Rng, out: &mut Vec<String>) {
    for (i, x) in p.iter().enumerate() {
        if i > 0 {
            out.push("|".into());
        }
        match x {
            Seg::V(v) => t_v(v, r, out),
            Seg::F(n) => out.extend(["(".into(), n.clone(), ")".into()]),
        }
    }
}
fn t_k(k: &K, r: &mut Rng, out: &mut Vec<String>) {
    out.push(k.0.clone());
    if !k.1.is_empty() {
        out.push("|".into());
        t_path(&k.1, r, out);
    }
}
fn t_sv(v: &SV, r: &mut Rng, out: &mut Vec<String>) {
    match v {
        SV::V(v) => t_v(v, r, out),
        SV::Ctx(p) => {
            out.push("@{".into());
            t_path(p, r, out);
            out.push("}".into());
        }
    }
}
pub fn tokens(v: &[E], r: &mut Rng, out: &mut Vec<String>) {
    let names = |open: &str, close: &str, v: &Vec<String>, out: &mut Vec<String>| {
        out.push(open.into());
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                out.push(",".into());
            }
            out.push(x.clone());
        }
        out.push(close.into());
    };
    for e in v {
        match e {
            E::Type(t) => out.push(TYPES[*t].0.into()),
            E::Attr(k, c) => {
                out.push("[".into());
                t_k(k, r, out);
                if let Some((c, v, ci)) = c {
                    out.push(CMPS[*c].0.into());
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            out.push(",".into());
                        }
                        t_v(x, r, out);
                    }
                    if *ci {
                        out.push("i".into());
                    }
                }
                out.push("]".into());
            }
            E::Scoped(k, v) => {
                out.push("[@".into());
                if let Some(k) = k {
                    t_k(k, r, out);
                }
                out.push(":".into());
                for (i, a) in v.iter().enumerate() {
                    if i > 0 {
                        out.push("&&".into());
                    }
                    t_sv(&a.lhs, r, out);
                    out.push(CMPS[a.cmp].0.into());
                    for (i, x) in a.rhs.iter().enumerate() {
                        if i > 0 {
                            out.push(",".into());
                        }
                        t_sv(x, r, out);
                    }
                    if a.ci {
                        out.push("i".into());
                    }
                }
                out.push("]".into());
            }
            E::Fwd => out.push(">".into()),
            E::Rev => out.push("<".into()),
            E::FwdDir(v) => names("-[", "]->", v, out),
            E::RevDir(v) => names("<-[", "]-", v, out),
            E::Rec => out.push("~>".into()),
            E::Fun(n, args) => {
                out.extend([":".into(), n.clone(), "(".into()]);
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        out.push(",".into());
                    }
                    tokens(a, r, out);
                }
                out.push(")".into());
            }
            E::Def(n, a) => {
                out.extend(["$".into(), n.clone(), "(".into()]);
                tokens(a, r, out);
                out.push(")".into());
            }
            E::Ref(n) => out.extend(["${".into(), n.clone(), "}".into()]),
        }
    }
}
/// tokens with white space: 0 as little as possible, 1 one blank everywhere, 2 anything
pub fn join(t: &[String], style: usize, r: &mut Rng) -> String {
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '#' || c == '.';
    let mut out = String::new();
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            let (a, b) = (out.chars().last().unwrap(), x.chars().next().unwrap());
            let must = (word(a) && word(b)) || (a == '-' && b == '>') || (a == '<' && b == '-') || (a == '<' && b == '<') || (a == '$' && b == '{');
            let n = match style {
                0 => 0,
                1 => 1,
                _ => *r.pick(&[0, 0, 1, 2, 3]),
            };
            for _ in 0..n.max(must as usize) {
                out.push(if style < 2 { ' ' } else { *r.pick(&[' ', '\n', '\t', '\r']) });
            }
        } else if style == 2 && r.chance(1, 3) {
            out.push(*r.pick(&[' ', '\n', '\t']));
        }
        out.push_str(x);
    }
    if style == 2 && r.chance(1, 3) {
        out.push_str(*r.pick(&[" ", "\r\n", "\t "]));
    }
    out
}

// ---- library values -------------------------------------------------------------------------------------------------
fn l_v(v: &V) -> s::Value {
    match v {
        V::Text(t) if t.len() % 2 == 0 => t.as_str().into(),
        V::Text(t) => t.clone().into(),
        V::Int(i) if i % 2 == 0 => Number::Integer(*i).into(),
        V::Int(i) => (*i).into(),
        V::Float(i) => (*i).into(),
        V::Root(i) => ident(i).into(),
        V::Abs(i) => sid(i).into(),
    }
}
fn l_seg(x: &Seg) -> s::KeyPathSegment {
    match x {
        Seg::V(v) => l_v(v).into(),
        Seg::F(i) => ident(i).into(),
    }
}
fn l_path(p: &[Seg]) -> Vec<s::KeyPathSegment> {
    p.iter().map(l_seg).collect()
}
fn l_k(k: &K) -> s::Key {
    if k.1.is_empty() && k.0.len() % 2 == 0 {
        s::Key::new(ident(&k.0))
    } else if k.1.is_empty() {
        ident(&k.0).into()
    } else {
        s::Key::with_path(ident(&k.0), &l_path(&k.1))
    }
}
fn l_sv(v: &SV) -> s::ScopedValue {
    match v {
        SV::V(v) => s::ScopedValue::Value(l_v(v)),
        SV::Ctx(p) => s::ScopedValue::ContextValue(l_path(p)),
    }
}
fn l_cmp(c: &(usize, Vec<V>, bool)) -> s::AttributeComparison {
    let v: Vec<s::Value> = c.1.iter().map(l_v).collect();
    let op = CMPS[c.0].1.clone();
    if c.2 {
        s::AttributeComparison::new_case_insensitive(op, &v)
    } else {
        s::AttributeComparison::new(op, &v)
    }
}
fn l_assert(a: &Assertion) -> s::ScopedAttributeAssertion {
    let v: Vec<s::ScopedValue> = a.rhs.iter().map(l_sv).collect();
    let op = CMPS[a.cmp].1.clone();
    if a.ci {
        s::ScopedAttributeAssertion::new_case_insensitive(l_sv(&a.lhs), op, &v)
    } else {
        s::ScopedAttributeAssertion::new(l_sv(&a.lhs), op, &v)
    }
}
fn l_attr(k: &K, c: &Option<(usize, Vec<V>, bool)>) -> s::AttributeSelector {
    match c {
        None => s::AttributeSelector::new(l_k(k)),
        Some(c) => s::AttributeSelector::with_comparison(l_k(k), l_cmp(c)),
    }
}
fn l_scoped(k: &Option<K>, v: &[Assertion]) -> s::ScopedAttributeSelector {
    let a: Vec<s::ScopedAttributeAssertion> = v.iter().map(l_assert).collect();
    match k {
        None => s::ScopedAttributeSelector::new(&a),
        Some(k) => s::ScopedAttributeSelector::with_key(l_k(k), &a),
    }
}
fn ids(v: &[String]) -> Vec<atelier_core::model::Identifier> {
    v.iter().map(|x| ident(x)).collect()
}
fn l_e(e: &E) -> s::SelectorExpression {
    match e {
        E::Type(t) => TYPES[*t].1.clone().into(),
        E::Attr(k, c) => l_attr(k, c).into(),
        E::Scoped(k, v) => l_scoped(k, v).into(),
        E::Fwd => s::NeighborSelector::ForwardUndirected.into(),
        E::Rev => s::NeighborSelector::ReverseUndirected.into(),
        E::FwdDir(v) => s::NeighborSelector::ForwardDirected(ids(v)).into(),
        E::RevDir(v) => s::NeighborSelector::ReverseDirected(ids(v)).into(),
        E::Rec => s::NeighborSelector::ForwardRecursiveDirected.into(),
        E::Fun(n, a) => s::Function::new(ident(n), &a.iter().map(|x| l_sel(x)).collect::<Vec<_>>()).into(),
        E::Def(n, a) => s::VariableDefinition::new(ident(n), l_sel(a)).into(),
        E::Ref(n) => s::VariableReference::new(ident(n)).into(),
    }
}
pub fn l_sel(v: &[E]) -> s::Selector {
    v.iter().map(l_e).collect::<Vec<_>>().into()
}

fn b_attr(k: &K, c: &Option<(usize, Vec<V>, bool)>, r: &mut Rng) -> AttributeBuilder {
                let mut a = match k.0.as_str() {
                    "id" => AttributeBuilder::named_id(),
                    "service" => AttributeBuilder::named_service(),
                    "trait" => AttributeBuilder::named_trait(),
                    "var" => AttributeBuilder::named_var(),
                    _ => AttributeBuilder::named(ident(&k.0)),
                };
                let at = if r.chance(1, 3) { r.below(k.1.len() + 1) } else { 0 };
                if at > 0 || r.chance(1, 6) {
                    a.path_segment_for_text("other");
                    a.path(&l_path(&k.1[..at]));
                }
                for x in &k.1[at..] {
                    match x {
                        x if r.chance(1, 6) => a.path_segment(l_seg(x)),
                        Seg::V(V::Text(t)) => a.path_segment_for_text(t),
                        Seg::V(V::Int(t)) => a.path_segment_for_number(Number::Integer(*t)),
                        Seg::V(V::Float(t)) => a.path_segment_for_number(Number::Float(*t)),
                        Seg::V(V::Root(t)) => a.path_segment_for_id(ident(t)),
                        Seg::V(V::Abs(t)) => a.path_segment_for_shape(sid(t)),
                        Seg::F(t) => a.path_segment_for_function(ident(t)),
                    };
                }
                if let Some((c, v, ci)) = c {
                    let w: Vec<s::Value> = v.iter().map(l_v).collect();
                    let nums: Option<Vec<Number>> = v.iter().map(|x| match x {
                        V::Int(i) => Some(Number::Integer(*i)),
                        V::Float(i) => Some(Number::Float(*i)),
                        _ => None,
                    }).collect();
                    match (CMPS[*c].0, nums) {
                        ("=", _) => a.string_equal(&w, *ci),
                        ("!=", _) => a.string_not_equal(&w, *ci),
                        ("^=", _) => a.string_starts_with(&w, *ci),
                        ("$=", _) => a.string_ends_with(&w, *ci),
                        ("*=", _) => a.string_contains(&w, *ci),
                        ("?=", _) if v.len() == 1 && matches!(&v[0], V::Text(t) if t == "true" || t == "false") => a.string_exists(matches!(&v[0], V::Text(t) if t == "true"), *ci),
                        ("?=", _) => a.string_compare(CMPS[*c].1.clone(), &w, *ci),
                        (">", Some(n)) if !*ci => a.number_greater(&n),
                        (">=", Some(n)) if !*ci => a.number_greater_or_equal(&n),
                        ("<", Some(n)) if !*ci => a.number_less(&n),
                        ("<=", Some(n)) if !*ci => a.number_less_or_equal(&n),
                        ("{=}", _) if !*ci => a.projection_equal(&w),
                        ("{!=}", _) if !*ci => a.projection_not_equal(&w),
                        ("{<}", _) if !*ci => a.projection_subset(&w),
                        ("{<<}", _) if !*ci => a.projection_proper_subset(&w),
                        _ => a.compare(l_cmp(&(*c, v.clone(), *ci))),
                    };
                }
                a
}
fn b_scoped(k: &Option<K>, v: &[Assertion], r: &mut Rng) -> ScopedAttributeBuilder {
                let mut a = match k {
                    None => ScopedAttributeBuilder::default(),
                    Some(k) => {
                        let mut a = match k.0.as_str() {
                            "id" => ScopedAttributeBuilder::new_id(),
                            "service" => ScopedAttributeBuilder::new_service(),
                            "trait" => ScopedAttributeBuilder::new_trait(),
                            "var" => ScopedAttributeBuilder::new_var(),
                            _ => ScopedAttributeBuilder::named(ident(&k.0)),
                        };
                        let at = if r.chance(1, 3) { r.below(k.1.len() + 1) } else { 0 };
                        if at > 0 || r.chance(1, 6) {
                            a.path_segment_for_text("other");
                            a.path(&l_path(&k.1[..at]));
                        }
                        for x in &k.1[at..] {
                            match x {
                                x if r.chance(1, 6) => a.path_segment(l_seg(x)),
                                Seg::V(V::Text(t)) => a.path_segment_for_text(t),
                                Seg::V(V::Int(t)) => a.path_segment_for_number(Number::Integer(*t)),
                                Seg::V(V::Float(t)) => a.path_segment_for_number(Number::Float(*t)),
                                Seg::V(V::Root(t)) => a.path_segment_for_id(ident(t)),
                                Seg::V(V::Abs(t)) => a.path_segment_for_shape(sid(t)),
                                Seg::F(t) => a.path_segment_for_function(ident(t)),
                            };
                        }
                        a
                    }
                };
                for x in v {
                    let w: Vec<s::ScopedValue> = x.rhs.iter().map(l_sv).collect();
                    let num = match &x.rhs[..] {
                        [SV::V(V::Int(i))] => Some(Number::Integer(*i)),
                        [SV::V(V::Float(i))] => Some(Number::Float(*i)),
                        _ => None,
                    };
                    let one = w.len() == 1;
                    let l = l_sv(&x.lhs);
                    let first = w[0].clone();
                    match (CMPS[x.cmp].0, num) {
                        (">", Some(n)) if !x.ci => a.number_greater(l, n),
                        (">=", Some(n)) if !x.ci => a.number_greater_or_equal(l, n),
                        ("<", Some(n)) if !x.ci => a.number_less(l, n),
                        ("<=", Some(n)) if !x.ci => a.number_less_or_equal(l, n),
                        ("{=}", _) if !x.ci && one => a.projection_equal(l, first),
                        ("{!=}", _) if !x.ci && one => a.projection_not_equal(l, first),
                        ("{<}", _) if !x.ci => a.projection_subset(l, &w),
                        ("{<<}", _) if !x.ci => a.projection_proper_subset(l, &w),
                        ("?=", _) if !x.ci && one && matches!(&x.rhs[0], SV::V(V::Text(t)) if t == "true" || t == "false") => a.string_exists(l, matches!(&x.rhs[0], SV::V(V::Text(t)) if t == "true")),
                        ("=", _) if one => a.string_equal(l, first, x.ci),
                        ("!=", _) if one => a.string_not_equal(l, first, x.ci),
                        ("^=", _) if one => a.string_starts_with(l, first, x.ci),
                        ("$=", _) if one => a.string_ends_with(l, first, x.ci),
                        ("*=", _) if one => a.string_contains(l, first, x.ci),
                        ("=" | "!=" | "^=" | "$=" | "*=" | "?=", _) => a.string_assertion(l, CMPS[x.cmp].1.clone(), &w, x.ci),
                        _ => a.assertion(l_assert(x)),
                    };
                }
                a
}
/// a builder of one expression, by the function made for its kind
fn b_one(e: &E, r: &mut Rng) -> SelectorBuilder {
    if r.chance(1, 4) {
        return SelectorBuilder::from(l_e(e));
    }
    let raw = r.chance(1, 3);
    match e {
        E::Type(t) if raw => SelectorBuilder::shape(TYPES[*t].1.clone()),
        E::Type(t) => match TYPES[*t].0 {
            "*" => SelectorBuilder::any_shape(),
            "number" => SelectorBuilder::any_number(),
            "simpleType" => SelectorBuilder::any_simple_type(),
            "collection" => SelectorBuilder::any_collection(),
            "blob" => SelectorBuilder::blob(),
            "boolean" => SelectorBuilder::boolean(),
            "document" => SelectorBuilder::document(),
            "string" => SelectorBuilder::string(),
            "integer" => SelectorBuilder::integer(),
            "byte" => SelectorBuilder::byte(),
            "short" => SelectorBuilder::short(),
            "long" => SelectorBuilder::long(),
            "float" => SelectorBuilder::float(),
            "double" => SelectorBuilder::double(),
            "bigDecimal" => SelectorBuilder::big_decimal(),
            "bigInteger" => SelectorBuilder::big_integer(),
            "timestamp" => SelectorBuilder::timestamp(),
            "list" => SelectorBuilder::list(),
            "set" => SelectorBuilder::set(),
            "map" => SelectorBuilder::map(),
            "structure" => SelectorBuilder::structure(),
            "union" => SelectorBuilder::union(),
            "service" => SelectorBuilder::service(),
            "operation" => SelectorBuilder::operation(),
            "resource" => SelectorBuilder::resource(),
            "member" => SelectorBuilder::member(),
            _ => SelectorBuilder::shape(TYPES[*t].1.clone()),
        },
        E::Attr(k, c) if raw => SelectorBuilder::attribute(l_attr(k, c)),
        E::Attr(k, c) => match r.below(6) {
            0 => SelectorBuilder::from(b_attr(k, c, r).into()),
            1 => b_attr(k, c, r).into(),
            2 => (&mut b_attr(k, c, r)).into(),
            3 => SelectorBuilder::attribute((&mut b_attr(k, c, r)).into()),
            _ => SelectorBuilder::attribute(b_attr(k, c, r).into()),
        },
        E::Scoped(k, v) if raw => SelectorBuilder::scoped_attribute(l_scoped(k, v)),
        E::Scoped(k, v) => match r.below(6) {
            0 => SelectorBuilder::from(b_scoped(k, v, r).into()),
            1 => b_scoped(k, v, r).into(),
            2 => (&mut b_scoped(k, v, r)).into(),
            3 => SelectorBuilder::scoped_attribute((&mut b_scoped(k, v, r)).into()),
            _ => SelectorBuilder::scoped_attribute(b_scoped(k, v, r).into()),
        },
        E::Fwd if raw => SelectorBuilder::neighbor(s::NeighborSelector::ForwardUndirected),
        E::Fwd => SelectorBuilder::forward_undirected(),
        E::Rev if raw => SelectorBuilder::neighbor(s::NeighborSelector::ReverseUndirected),
        E::Rev => SelectorBuilder::reverse_undirected(),
        E::Rec if raw => SelectorBuilder::neighbor(s::NeighborSelector::ForwardRecursiveDirected),
        E::Rec => SelectorBuilder::forward_recursive_directed(),
        E::FwdDir(v) if raw => SelectorBuilder::neighbor(s::NeighborSelector::ForwardDirected(ids(v))),
        E::FwdDir(v) => SelectorBuilder::forward_directed(&ids(v)),
        E::RevDir(v) if raw => SelectorBuilder::neighbor(s::NeighborSelector::ReverseDirected(ids(v))),
        E::RevDir(v) => SelectorBuilder::reverse_directed(&ids(v)),
        E::Fun(n, a) if raw => SelectorBuilder::function(s::Function::new(ident(n), &a.iter().map(|x| l_sel(x)).collect::<Vec<_>>())),
        E::Fun(n, a) => {
            let args: Vec<SelectorBuilder> = a.iter().map(|x| b_sel(x, r)).collect();
            match n.as_str() {
                "test" => SelectorBuilder::fn_test(&args),
                "is" => SelectorBuilder::fn_is(&args),
                "not" => SelectorBuilder::fn_not(&args),
                "topdown" => SelectorBuilder::fn_topdown(&args),
                _ => SelectorBuilder::function_from(ident(n), &args),
            }
        }
        E::Def(n, a) if raw => SelectorBuilder::variable_definition(s::VariableDefinition::new(ident(n), l_sel(a))),
        E::Def(n, a) => SelectorBuilder::variable_definition_from(ident(n), b_sel(a, r)),
        E::Ref(n) if raw => SelectorBuilder::variable_reference(s::VariableReference::new(ident(n))),
        E::Ref(n) => SelectorBuilder::variable_reference_from(ident(n)),
    }
}
/// the same expression put together with the setters of the selector types, starting from something else
fn m_e(e: &E, r: &mut Rng) -> s::SelectorExpression {
    let other_key = || s::Key::new(ident("other"));
    let cmp = |c: &(usize, Vec<V>, bool), r: &mut Rng| -> s::AttributeComparison {
        let v: Vec<s::Value> = c.1.iter().map(l_v).collect();
        let num = |x: &V| match x {
            V::Int(i) => Some(Number::Integer(*i)),
            V::Float(i) => Some(Number::Float(*i)),
            _ => None,
        };
        if v.len() == 1 && r.chance(1, 2) {
            let w = v[0].clone();
            let mut a = match (CMPS[c.0].0, num(&c.1[0])) {
                ("=", _) => s::AttributeComparison::string_equal(w),
                ("!=", _) => s::AttributeComparison::string_not_equal(w),
                ("^=", _) => s::AttributeComparison::string_starts_with(w),
                ("$=", _) => s::AttributeComparison::string_ends_with(w),
                ("*=", _) => s::AttributeComparison::string_contains(w),
                ("?=", _) if matches!(&c.1[0], V::Text(t) if t == "true" || t == "false") => s::AttributeComparison::string_exists(matches!(&c.1[0], V::Text(t) if t == "true")),
                (">", Some(n)) => s::AttributeComparison::number_greater(n),
                (">=", Some(n)) => s::AttributeComparison::number_greater_or_equal(n),
                ("<", Some(n)) => s::AttributeComparison::number_less(n),
                ("<=", Some(n)) => s::AttributeComparison::number_less_or_equal(n),
                ("{=}", _) => s::AttributeComparison::projection_equal(w),
                ("{!=}", _) => s::AttributeComparison::projection_not_equal(w),
                ("{<}", _) => s::AttributeComparison::projection_subset(&[w]),
                ("{<<}", _) => s::AttributeComparison::projection_proper_subset(&[w]),
                _ => s::AttributeComparison::new(CMPS[c.0].1.clone(), &[w]),
            };
            if c.2 {
                a.set_case_insensitive(true);
            }
            return a;
        }
        let mut a = s::AttributeComparison::new_case_insensitive(s::Comparator::StringExists, &[s::Value::Text("x".into())]);
        a.set_comparator(CMPS[c.0].1.clone());
        a.set_case_insensitive(c.2);
        if r.chance(1, 2) {
            a.set_rhs_values(&v);
        } else {
            a.set_rhs_values(&[]);
            let n = r.below(v.len() + 1);
            a.append_rhs_values(&v[..n]);
            v[n..].iter().for_each(|x| a.add_value(x.clone()));
        }
        a
    };
    let sv = |x: &SV, r: &mut Rng| -> s::ScopedValue {
        match x {
            SV::V(V::Text(t)) if r.chance(1, 2) => t.as_str().into(),
            SV::V(V::Text(t)) => t.clone().into(),
            SV::V(V::Int(i)) if r.chance(1, 2) => (*i).into(),
            SV::V(V::Int(i)) => Number::Integer(*i).into(),
            SV::V(V::Float(i)) => (*i).into(),
            SV::V(V::Root(i)) => ident(i).into(),
            SV::V(V::Abs(i)) => sid(i).into(),
            SV::Ctx(p) if r.chance(1, 2) => l_path(p).into(),
            SV::Ctx(p) => l_path(p)[..].into(),
        }
    };
    match e {
        E::Type(t) => TYPES[*t].1.clone().into(),
        E::Attr(k, c) => {
            let mut a = if r.chance(1, 2) { s::AttributeSelector::from(other_key()) } else { s::AttributeSelector::with_comparison(other_key(), s::AttributeComparison::string_exists(true)) };
            let mut key = s::Key::new(ident("x"));
            key.set_identifier(ident(&k.0));
            if r.chance(1, 2) {
                key.set_path(&l_path(&k.1));
            } else {
                l_path(&k.1).into_iter().for_each(|x| key.add_path_segment(x));
            }
            a.set_key(key);
            match c {
                None => a.unset_comparison(),
                Some(c) => a.set_comparison(cmp(c, r)),
            }
            a.into()
        }
        E::Scoped(k, v) => {
            let first = s::ScopedAttributeAssertion::string_exists("y".into(), false);
            let mut a = if r.chance(1, 2) { s::ScopedAttributeSelector::new(&[first]) } else { s::ScopedAttributeSelector::with_key(other_key(), &[first]) };
            match k {
                None => a.unset_key(),
                Some(k) => a.set_key(l_k(k)),
            }
            let w: Vec<s::ScopedAttributeAssertion> = v
                .iter()
                .map(|x| {
                    let rhs: Vec<s::ScopedValue> = x.rhs.iter().map(|y| sv(y, r)).collect();
                    let num = match &x.rhs[..] {
                        [SV::V(V::Int(i))] => Some(Number::Integer(*i)),
                        [SV::V(V::Float(i))] => Some(Number::Float(*i)),
                        _ => None,
                    };
                    let l = sv(&x.lhs, r);
                    let one = rhs.len() == 1;
                    let f = rhs[0].clone();
                    type A = s::ScopedAttributeAssertion;
                    let mut y = match (CMPS[x.cmp].0, num) {
                        ("=", _) if one => A::string_equal(l, f),
                        ("!=", _) if one => A::string_not_equal(l, f),
                        ("^=", _) if one => A::string_starts_with(l, f),
                        ("$=", _) if one => A::string_ends_with(l, f),
                        ("*=", _) if one => A::string_contains(l, f),
                        ("?=", _) if one && matches!(&x.rhs[0], SV::V(V::Text(t)) if t == "true" || t == "false") => A::string_exists(l, matches!(&x.rhs[0], SV::V(V::Text(t)) if t == "true")),
                        (">", Some(n)) => A::number_greater(l, n),
                        (">=", Some(n)) => A::number_greater_or_equal(l, n),
                        ("<", Some(n)) => A::number_less(l, n),
                        ("<=", Some(n)) => A::number_less_or_equal(l, n),
                        ("{=}", _) if one => A::projection_equal(l, f),
                        ("{!=}", _) if one => A::projection_not_equal(l, f),
                        ("{<}", _) => A::projection_subset(l, &rhs),
                        ("{<<}", _) => A::projection_proper_subset(l, &rhs),
                        _ => {
                            let mut y = A::string_exists("z".into(), true);
                            y.set_lhs_value(l);
                            y.set_comparator(CMPS[x.cmp].1.clone());
                            y.set_rhs_values(&rhs);
                            y
                        }
                    };
                    y.set_case_insensitive(x.ci);
                    y
                })
                .collect();
            if r.chance(1, 2) {
                a.set_assertions(&w);
            } else {
                a.set_assertions(&[]);
                w.into_iter().for_each(|x| a.add_assertion(x));
            }
            a.into()
        }
        E::Fun(n, v) => {
            let mut f = s::Function::new(ident("first"), &[l_sel(&[E::Fwd])]);
            f.set_name(ident(n));
            f.set_arguments(&[]);
            v.iter().for_each(|x| {
                let y = m_sel(x, r);
                f.add_argument(y)
            });
            f.into()
        }
        E::Def(n, v) => {
            let mut d = s::VariableDefinition::new(ident("first"), l_sel(&[E::Rev]));
            d.set_name(ident(n));
            d.set_selector(m_sel(v, r));
            d.into()
        }
        E::Ref(n) => {
            if r.chance(1, 2) {
                s::VariableDefinition::new(ident(n), l_sel(&[E::Rev])).new_reference().into()
            } else if r.chance(1, 2) {
                s::VariableReference::from(ident(n)).into()
            } else {
                let mut d = s::VariableReference::new(ident("first"));
                d.set_name(ident(n));
                d.into()
            }
        }
        _ => l_e(e),
    }
}
fn m_sel(v: &[E], r: &mut Rng) -> s::Selector {
    let w: Vec<s::SelectorExpression> = v.iter().map(|e| m_e(e, r)).collect();
    if v.len() == 1 && r.chance(1, 2) {
        return w[0].clone().into();
    }
    let mut x = s::Selector::default();
    if r.chance(1, 3) {
        x.set_expressions(&w);
    } else {
        let n = r.below(w.len() + 1);
        w[..n].iter().for_each(|y| x.add_expression(y.clone()));
        x.append_expressions(&w[n..]);
    }
    x
}
/// what the kind tests and views of an expression say, against what they should say
fn views(e: &E, x: &s::SelectorExpression) -> Option<String> {
    let tests = [
        ("shape_type", x.is_shape_type(), x.as_shape_type().is_some()),
        ("attribute_selector", x.is_attribute_selector(), x.as_attribute_selector().is_some()),
        ("scoped_attribute_selector", x.is_scoped_attribute_selector(), x.as_scoped_attribute_selector().is_some()),
        ("neighbor_selector", x.is_neighbor_selector(), x.as_neighbor_selector().is_some()),
        ("function", x.is_function(), x.as_function().is_some()),
        ("variable_definition", x.is_variable_definition(), x.as_variable_definition().is_some()),
        ("variable_reference", x.is_variable_reference(), x.as_variable_reference().is_some()),
    ];
    let kind = match e {
        E::Type(_) => "shape_type",
        E::Attr(..) => "attribute_selector",
        E::Scoped(..) => "scoped_attribute_selector",
        E::Fun(..) => "function",
        E::Def(..) => "variable_definition",
        E::Ref(..) => "variable_reference",
        _ => "neighbor_selector",
    };
    for (name, is, as_) in tests {
        if is != (name == kind) || as_ != is {
            return Some(format!("{} of {:?}: is {} as {}", name, x, is, as_));
        }
    }
    if let Some(n) = x.as_neighbor_selector() {
        let got = [n.is_forward_undirected(), n.is_reverse_undirected(), n.is_forward_recursive_directed(), n.is_forward_directed(), n.is_reverse_directed()];
        let want = [matches!(e, E::Fwd), matches!(e, E::Rev), matches!(e, E::Rec), matches!(e, E::FwdDir(_)), matches!(e, E::RevDir(_))];
        let f = n.as_forward_directed().map(|v| v.map(|i| i.to_string()).collect::<Vec<_>>());
        let b = n.as_reverse_directed().map(|v| v.map(|i| i.to_string()).collect::<Vec<_>>());
        let wf = if let E::FwdDir(v) = e { Some(v.clone()) } else { None };
        let wb = if let E::RevDir(v) = e { Some(v.clone()) } else { None };
        if got != want || f != wf || b != wb {
            return Some(format!("neighbor {:?}: {:?} {:?} {:?}", n, got, f, b));
        }
    }
    match (e, x.as_attribute_selector(), x.as_scoped_attribute_selector()) {
        (E::Attr(k, c), Some(a), _) => {
            if a.has_comparison() != c.is_some() || a.key().has_path() == k.1.is_empty() {
                return Some(format!("attribute {:?}", a));
            }
        }
        (E::Scoped(k, v), _, Some(a)) => {
            if a.has_key() != k.is_some() || a.has_assertions() == v.is_empty() {
                return Some(format!("scoped attribute {:?}", a));
            }
        }
        _ => {}
    }
    None
}
/// the same selector through the builders, with the method made for each case where there is one
fn b_sel(v: &[E], r: &mut Rng) -> SelectorBuilder {
    let mut fresh = true;
    let mut b = b_one(&v[0], r);
    for e in v {
        if std::mem::take(&mut fresh) {
            continue;
        }
        match e {
            e if r.chance(1, 8) => {
                b.add(l_e(e));
            }
            E::Type(t) if r.chance(1, 4) => {
                b.add_shape(TYPES[*t].1.clone());
            }
            E::Fwd if r.chance(1, 4) => {
                b.add_neighbor(s::NeighborSelector::ForwardUndirected);
            }
            E::Fun(n, a) if r.chance(1, 4) => {
                b.add_function(s::Function::new(ident(n), &a.iter().map(|x| l_sel(x)).collect::<Vec<_>>()));
            }
            E::Def(n, a) if r.chance(1, 4) => {
                b.add_variable_definition(s::VariableDefinition::new(ident(n), l_sel(a)));
            }
            E::Ref(n) if r.chance(1, 4) => {
                b.add_variable_reference(s::VariableReference::new(ident(n)));
            }
            E::Type(t) => {
                match TYPES[*t].0 {
                    "*" => b.add_any_shape(),
                    "number" => b.add_any_number(),
                    "simpleType" => b.add_any_simple_type(),
                    "collection" => b.add_any_collection(),
                    "blob" => b.add_blob(),
                    "boolean" => b.add_boolean(),
                    "document" => b.add_document(),
                    "string" => b.add_string(),
                    "integer" => b.add_integer(),
                    "byte" => b.add_byte(),
                    "short" => b.add_short(),
                    "long" => b.add_long(),
                    "float" => b.add_float(),
                    "double" => b.add_double(),
                    "bigDecimal" => b.add_big_decimal(),
                    "bigInteger" => b.add_big_integer(),
                    "timestamp" => b.add_timestamp(),
                    "list" => b.add_list(),
                    "set" => b.add_set(),
                    "map" => b.add_map(),
                    "structure" => b.add_structure(),
                    "union" => b.add_union(),
                    "service" => b.add_service(),
                    "operation" => b.add_operation(),
                    "resource" => b.add_resource(),
                    "member" => b.add_member(),
                    _ => unreachable!(),
                };
            }
            E::Attr(k, None) if r.chance(1, 2) => {
                b.add_attribute_from(l_k(k), None);
            }
            E::Attr(k, Some(c)) if r.chance(1, 3) => {
                b.add_attribute_from(l_k(k), Some(l_cmp(c)));
            }
            E::Attr(k, c) => {
                let a = b_attr(k, c, r);
                b.add_attribute(a.into());
            }
            E::Scoped(k, v) => {
                let a = b_scoped(k, v, r);
                b.add_scoped_attribute(a.into());
            }
            E::Fwd => {
                b.add_forward_undirected();
            }
            E::Rev => {
                b.add_reverse_undirected();
            }
            E::FwdDir(v) => {
                b.add_forward_directed(&ids(v));
            }
            E::RevDir(v) => {
                b.add_reverse_directed(&ids(v));
            }
            E::Rec => {
                b.add_forward_recursive_directed();
            }
            E::Fun(n, a) => {
                let args: Vec<SelectorBuilder> = a.iter().map(|x| b_sel(x, r)).collect();
                match n.as_str() {
                    "test" => b.add_test_function(&args),
                    "is" => b.add_is_function(&args),
                    "not" => b.add_not_function(&args),
                    "topdown" => b.add_topdown_function(&args),
                    _ => b.add_function_from(ident(n), &args),
                };
            }
            E::Def(n, a) => {
                let a = b_sel(a, r);
                b.add_variable_definition_from(ident(n), a);
            }
            E::Ref(n) => {
                b.add_variable_reference_from(ident(n));
            }
        }
    }
    b
}

fn f_v(v: &s::Value) -> V {
    match v {
        s::Value::Text(t) => V::Text(t.clone()),
        s::Value::Number(Number::Integer(i)) => V::Int(*i),
        s::Value::Number(Number::Float(i)) => V::Float(*i),
        s::Value::RootShapeIdentifier(i) => V::Root(i.to_string()),
        s::Value::AbsoluteRootShapeIdentifier(i) => V::Abs(i.to_string()),
    }
}
fn f_seg(x: &s::KeyPathSegment) -> Seg {
    match x {
        s::KeyPathSegment::Value(v) => Seg::V(f_v(v)),
        s::KeyPathSegment::FunctionProperty(i) => Seg::F(i.to_string()),
    }
}
fn f_k(k: &s::Key) -> K {
    K(k.identifier().to_string(), k.path().map(f_seg).collect())
}
fn f_sv(v: &s::ScopedValue) -> SV {
    match v {
        s::ScopedValue::Value(v) => SV::V(f_v(v)),
        s::ScopedValue::ContextValue(p) => SV::Ctx(p.iter().map(f_seg).collect()),
    }
}
fn f_cmp(c: &s::Comparator) -> usize {
    CMPS.iter().position(|x| &x.1 == c).unwrap()
}
fn f_e(e: &s::SelectorExpression) -> E {
    use s::SelectorExpression as X;
    match e {
        X::ShapeType(t) => E::Type(TYPES.iter().position(|x| &x.1 == t).unwrap()),
        X::AttributeSelector(a) => E::Attr(
            f_k(a.key()),
            a.comparison().as_ref().map(|c| (f_cmp(c.comparator()), c.rhs_values().map(f_v).collect(), c.is_case_insensitive())),
        ),
        X::ScopedAttributeSelector(a) => E::Scoped(
            a.key().as_ref().map(f_k),
            a.assertions()
                .map(|a| Assertion { lhs: f_sv(a.lhs_value()), cmp: f_cmp(a.comparator()), rhs: a.rhs_values().map(f_sv).collect(), ci: a.is_case_insensitive() })
                .collect(),
        ),
        X::NeighborSelector(n) => match n {
            s::NeighborSelector::ForwardUndirected => E::Fwd,
            s::NeighborSelector::ReverseUndirected => E::Rev,
            s::NeighborSelector::ForwardRecursiveDirected => E::Rec,
            s::NeighborSelector::ForwardDirected(v) => E::FwdDir(v.iter().map(|x| x.to_string()).collect()),
            s::NeighborSelector::ReverseDirected(v) => E::RevDir(v.iter().map(|x| x.to_string()).collect()),
        },
        X::Function(f) => E::Fun(f.name().to_string(), f.arguments().map(f_sel).collect()),
        X::VariableDefinition(f) => E::Def(f.name().to_string(), f_sel(f.selector())),
        X::VariableReference(f) => E::Ref(f.name().to_string()),
    }
}
pub fn f_sel(x: &s::Selector) -> Vec<E> {
    x.expressions().map(f_e).collect()
}

/// equality that tells signs of zero apart
fn same(a: &[E], b: &[E]) -> bool {
    format!("{:?}", a) == format!("{:?}", b)
}
fn explain(want: &[E], got: &[E]) -> String {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return format!("expression {} is missing: {}", i, clip(&format!("{:?}", w), 200)),
            Some(g) if format!("{:?}", g) != format!("{:?}", w) => {
                return format!("expression {} is {} instead of {}", i, clip(&format!("{:?}", g), 200), clip(&format!("{:?}", w), 200))
            }
            _ => {}
        }
    }
    format!("{} expressions too many", got.len().saturating_sub(want.len()))
}
fn kind(want: &[E], got: &[E]) -> &'static str {
    for (i, w) in want.iter().enumerate() {
        if got.get(i).map(|g| format!("{:?}", g)) != Some(format!("{:?}", w)) {
            return match w {
                E::Type(_) => "shape-type",
                E::Attr(..) => "attribute",
                E::Scoped(..) => "scoped-attribute",
                E::Fwd | E::Rev | E::Rec => "neighbour",
                E::FwdDir(_) | E::RevDir(_) => "directed-neighbour",
                E::Fun(..) => "function",
                E::Def(..) => "variable-definition",
                E::Ref(_) => "variable-reference",
            };
        }
    }
    "too-many"
}
fn note(c: &mut Case, v: &[E], depth: usize) {
    for e in v {
        match e {
            E::Type(t) => c.seen("shape types", TYPES[*t].0),
            E::Attr(k, x) => {
                c.seen("key path lengths", &k.1.len().to_string());
                if let Some(x) = x {
                    c.seen("comparators", CMPS[x.0].0);
                }
                c.seen("expressions", "attribute");
            }
            E::Scoped(..) => c.seen("expressions", "scoped attribute"),
            E::Fwd => c.seen("expressions", ">"),
            E::Rev => c.seen("expressions", "<"),
            E::Rec => c.seen("expressions", "~>"),
            E::FwdDir(_) => c.seen("expressions", "-[]->"),
            E::RevDir(_) => c.seen("expressions", "<-[]-"),
            E::Ref(_) => c.seen("expressions", "${}"),
            E::Fun(_, a) => {
                c.seen("expressions", "function");
                for x in a {
                    note(c, x, depth + 1);
                }
            }
            E::Def(_, a) => {
                c.seen("expressions", "definition");
                note(c, a, depth + 1);
            }
        }
    }
    c.seen("nesting depths", &depth.to_string());
}

fn check(c: &mut Case, ast: &[E]) {
    note(c, ast, 0);
    let nontrivial = ast.len() > 1 || !matches!(ast[0], E::Type(_));
    let lib = match c.lib("build", || l_sel(ast)) {
        Some(x) => x,
        None => return,
    };
    let back = f_sel(&lib);
    if !same(ast, &back) {
        c.viol(format!("structure-{}", kind(ast, &back)), explain(ast, &back));
    }
    // text in several spacings
    for style in 0..3 {
        let mut t = vec![];
        tokens(ast, &mut c.rng, &mut t);
        let text = join(&t, style, &mut c.rng);
        c.count("texts parsed");
        c.eval(nontrivial, &text);
        let shown = clip(&text, 300);
        c.sample(|| shown.clone());
        match c.lib("parse_selector", || atelier_smithy::parse_selector(&text)) {
            None => {}
            Some(Err(e)) => c.viol("valid-selector-refused", format!("{:?}: {}", shown, clip(&e.to_string(), 200))),
            Some(Ok(x)) => {
                let got = f_sel(&x);
                if !same(ast, &got) {
                    c.viol(format!("parsed-{}", kind(ast, &got)), format!("{:?}: {}", shown, explain(ast, &got)));
                } else if x != lib {
                    c.viol("equal-structures-differ", shown);
                }
            }
        }
    }
    // display
    if let Some(text) = c.lib("Display", || lib.to_string()) {
        c.count("selectors printed");
        match c.lib("parse_selector", || atelier_smithy::parse_selector(&text)) {
            None => {}
            Some(Err(e)) => c.viol("printed-selector-refused", format!("{:?}: {}", clip(&text, 300), clip(&e.to_string(), 200))),
            Some(Ok(x)) => {
                let got = f_sel(&x);
                if !same(ast, &got) {
                    c.viol(format!("printed-{}", kind(ast, &got)), format!("{:?}: {}", clip(&text, 300), explain(ast, &got)));
                }
            }
        }
    }
    // builders
    let mut r = Rng::new(c.rng.next());
    if let Some(x) = c.lib("SelectorBuilder", || {
        let mut b = b_sel(ast, &mut r);
        match (r.below(8), ast) {
            (0, _) => s::Selector::from(&mut b),
            (1, _) => s::Selector::from(<SelectorBuilder as From<&mut SelectorBuilder>>::from(&mut b)),
            (2, _) => Vec::<s::Selector>::from(&mut b).pop().unwrap(),
            (3, [E::Attr(k, c)]) => b_attr(k, c, &mut r).into(),
            (4, [E::Attr(k, c)]) => (&mut b_attr(k, c, &mut r)).into(),
            (3, [E::Scoped(k, v)]) => b_scoped(k, v, &mut r).into(),
            (4, [E::Scoped(k, v)]) => (&mut b_scoped(k, v, &mut r)).into(),
            (3, _) if b.is_empty() => s::Selector::from(vec![]),
            _ => s::Selector::from(b),
        }
    }) {
        let got = f_sel(&x);
        c.count("selectors built");
        if !same(ast, &got) {
            c.viol(format!("builder-{}", kind(ast, &got)), explain(ast, &got));
        }
    }
    // setters and views
    if let Some(x) = c.lib("Selector", || m_sel(ast, &mut r)) {
        let got = f_sel(&x);
        c.count("selectors put together with setters");
        if !same(ast, &got) {
            c.viol(format!("setters-{}", kind(ast, &got)), explain(ast, &got));
        } else if x != lib {
            c.viol("equal-structures-differ", clip(&format!("{:?}", x), 300));
        }
        if x.has_expressions() == ast.is_empty() {
            c.viol("has_expressions", clip(&format!("{:?}", x), 300));
        }
        for (e, y) in ast.iter().zip(x.expressions()) {
            if let Some(what) = views(e, y) {
                c.viol("views", clip(&what, 300));
            }
        }
    }
    // different structures are told apart
    let mut other = ast.to_vec();
    if let Some(what) = alter(&mut other, &mut c.rng) {
        if !same(ast, &other) && format!("{:?}", ast).to_lowercase().replace("-0.0", "0.0") != format!("{:?}", other).to_lowercase().replace("-0.0", "0.0") {
            c.count("altered selectors told apart");
            let o = l_sel(&other);
            if o == lib {
                c.viol(format!("different-selectors-equal-{}", what), format!("{} and {}", clip(&lib.to_string(), 200), clip(&o.to_string(), 200)));
            }
        }
    }
}
fn alter(v: &mut Vec<E>, r: &mut Rng) -> Option<&'static str> {
    let i = r.below(v.len());
    Some(match &mut v[i] {
        E::Type(t) => {
            *t = (*t + 1 + r.below(TYPES.len() - 1)) % TYPES.len();
            "type"
        }
        E::Attr(k, c) => match r.below(4) {
            0 => {
                k.1.push(gen_seg(r));
                "path"
            }
            1 => {
                *c = None;
                "comparison"
            }
            2 => {
                if let Some(c) = c {
                    c.2 = !c.2;
                }
                "case"
            }
            _ => {
                if let Some(c) = c {
                    c.0 = (c.0 + 1) % CMPS.len();
                    c.1.push(gen_v(r));
                }
                "values"
            }
        },
        E::Scoped(k, a) => match r.below(3) {
            0 => {
                *k = None;
                "scope"
            }
            1 => {
                a[0].ci = !a[0].ci;
                "case"
            }
            _ => {
                if a.len() > 1 {
                    a.pop();
                }
                "assertion"
            }
        },
        E::Fwd => {
            v[i] = E::Rec;
            "neighbour"
        }
        E::Rev => {
            v[i] = E::Fwd;
            "neighbour"
        }
        E::Rec => {
            v[i] = E::Rev;
            "neighbour"
        }
        E::FwdDir(x) => {
            let x = x.clone();
            v[i] = E::RevDir(x);
            "direction"
        }
        E::RevDir(x) => {
            x.push("zz".into());
            "relationship"
        }
        E::Fun(n, a) => {
            if r.chance(1, 2) {
                n.push('q');
                "function"
            } else {
                let a0 = a[0].clone();
                a.push(a0);
                "arguments"
            }
        }
        E::Def(n, a) => {
            if r.chance(1, 2) {
                n.push('q');
            } else {
                a.push(E::Fwd);
            }
            "definition"
        }
        E::Ref(n) => {
            n.push('q');
            "reference"
        }
    })
}

pub fn run(ctx: &Ctx) {
    ctx.assume("Selector texts contain no quotation mark of their own kind, backslash, line break or empty text, which the selector grammar cannot write; '>' directly after ']-' and '-[' directly after '<' are written with white space, as the grammar is ambiguous without.");
    ctx.rule("parse(text) = the structure the text was written from; parse(print(s)) = s; builders give the structure of their calls; structures that differ are unequal");
    ctx.cases("generated", 12000, 1.0, |c| {
        let d = *c.rng.pick(&[0, 1, 2, 2, 3]);
        let ast = gen_sel(&mut c.rng, d);
        check(c, &ast);
    });
    // every expression alone and next to every other one
    let pieces: Vec<E> = (0..TYPES.len())
        .map(E::Type)
        .chain(vec![
            E::Attr(K("id".into(), vec![]), None),
            E::Scoped(None, vec![Assertion { lhs: SV::Ctx(vec![Seg::V(V::Root("a".into()))]), cmp: 0, rhs: vec![SV::V(V::Text("x".into()))], ci: true }]),
            E::Fwd,
            E::Rev,
            E::Rec,
            E::FwdDir(vec!["a".into(), "b".into()]),
            E::RevDir(vec!["a".into(), "b".into()]),
            E::Fun("not".into(), vec![vec![E::Type(0)], vec![E::Fwd, E::Rev]]),
            E::Def("v".into(), vec![E::Type(7)]),
            E::Ref("v".into()),
        ])
        .collect();
    let n = pieces.len();
    ctx.bounded("pairs", (n * (n + 1)) as u64, |c| {
        let i = c.idx as usize;
        let (a, b) = (i / (n + 1), i % (n + 1));
        let mut v = vec![pieces[a].clone()];
        if b < n {
            v.push(pieces[b].clone());
        }
        check(c, &v);
    });
    // every comparator with every form of value
    let values = vec![V::Text("a b".into()), V::Text("'".into()), V::Text("\"".into()), V::Int(-3), V::Float(1.5), V::Float(2.0), V::Root("i".into()), V::Abs("a.b#C".into())];
    let m = values.len();
    ctx.bounded("comparisons", (CMPS.len() * m * m * 2) as u64, |c| {
        let i = c.idx as usize;
        let (op, a, b, ci) = (i % CMPS.len(), i / CMPS.len() % m, i / CMPS.len() / m % m, i / CMPS.len() / m / m == 1);
        let v = vec![
            E::Attr(K("trait".into(), vec![Seg::V(values[a].clone()), Seg::F("keys".into())]), Some((op, vec![values[a].clone(), values[b].clone()], ci))),
            E::Scoped(
                Some(K("trait".into(), vec![Seg::V(values[b].clone())])),
                vec![Assertion { lhs: SV::V(values[a].clone()), cmp: op, rhs: vec![SV::Ctx(vec![Seg::F("x".into()), Seg::V(values[a].clone())]), SV::V(values[b].clone())], ci }],
            ),
        ];
        check(c, &v);
    });
    // nesting
    ctx.bounded("nesting", 60, |c| {
        let mut v = vec![E::Type(c.idx as usize % 26)];
        for k in 0..(c.idx as usize * 2).min(100) {
            v = if k % 3 == 2 { vec![E::Def("x".into(), v)] } else { vec![E::Fun("not".into(), vec![v]), E::Fwd] };
        }
        check(c, &v);
    });
}
