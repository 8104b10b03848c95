//! An independent JSON text model: a strict parser (RFC 8259, duplicate keys refused), an emitter with free layout, and
//! the Smithy JSON AST layout of an abstract model.
use crate::am::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn o(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, j: J) {
        if let J::Obj(v) = self {
            match v.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 = j,
                None => v.push((k.to_string(), j)),
            }
        }
    }
    pub fn remove(&mut self, k: &str) -> Option<J> {
        if let J::Obj(v) = self {
            if let Some(i) = v.iter().position(|x| x.0 == k) {
                return Some(v.remove(i).1);
            }
        }
        None
    }
    /// canonical lines: path = scalar, key order forgotten
    pub fn lines(&self) -> Vec<String> {
        let mut out = vec![];
        self.lines_into("", &mut out);
        out.sort();
        out
    }
    fn lines_into(&self, path: &str, out: &mut Vec<String>) {
        match self {
            J::Null => out.push(format!("{}|null", path)),
            J::Bool(b) => out.push(format!("{}|{}", path, b)),
            J::Num(n) => out.push(format!("{}|{}", path, num_key(n))),
            J::Str(x) => out.push(format!("{}|{}", path, q(x))),
            J::Arr(v) => {
                out.push(format!("{}|array of {}", path, v.len()));
                for (i, x) in v.iter().enumerate() {
                    x.lines_into(&format!("{}[{}]", path, i), out)
                }
            }
            J::Obj(v) => {
                out.push(format!("{}|object of {}", path, v.len()));
                for (k, x) in v {
                    x.lines_into(&format!("{}.{}", path, q(k)), out)
                }
            }
        }
    }
}

pub fn is_int(n: &str) -> bool {
    !n.contains(|c| c == '.' || c == 'e' || c == 'E')
}
fn num_key(n: &str) -> String {
    if is_int(n) {
        format!("int {}", n)
    } else {
        format!("float {:x}", n.parse::<f64>().unwrap_or(f64::NAN).to_bits())
    }
}

// ------------------------------------------------------------------------------------------------ parser

struct Ps<'a> {
    c: Vec<char>,
    i: usize,
    _t: &'a str,
}
pub fn parse(t: &str) -> Result<J, String> {
    let mut p = Ps { c: t.chars().collect(), i: 0, _t: t };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.c.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}
impl<'a> Ps<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1
        }
    }
    fn lit(&mut self, w: &str, v: J) -> Result<J, String> {
        for x in w.chars() {
            if self.peek() != Some(x) {
                return Err(format!("bad literal at {}", self.i));
            }
            self.i += 1;
        }
        Ok(v)
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 400 {
            return Err("too deep".into());
        }
        match self.peek() {
            Some('n') => self.lit("null", J::Null),
            Some('t') => self.lit("true", J::Bool(true)),
            Some('f') => self.lit("false", J::Bool(false)),
            Some('"') => Ok(J::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == Some(']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.peek() {
                        Some(',') => self.i += 1,
                        Some(']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return Err(format!("expected , or ] at {}", self.i)),
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut v: Vec<(String, J)> = vec![];
                self.ws();
                if self.peek() == Some('}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.peek() != Some('"') {
                        return Err(format!("expected key at {}", self.i));
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != Some(':') {
                        return Err(format!("expected : at {}", self.i));
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.value(depth + 1)?;
                    if v.iter().any(|y| y.0 == k) {
                        return Err(format!("duplicate key {:?}", k));
                    }
                    v.push((k, x));
                    self.ws();
                    match self.peek() {
                        Some(',') => self.i += 1,
                        Some('}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return Err(format!("expected , or }} at {}", self.i)),
                    }
                }
            }
            Some(c) if c == '-' || c.is_ascii_digit() => {
                let st = self.i;
                if c == '-' {
                    self.i += 1
                }
                match self.peek() {
                    Some('0') => self.i += 1,
                    Some(c) if c.is_ascii_digit() => {
                        while matches!(self.peek(), Some(c) if c.is_ascii_digit()) {
                            self.i += 1
                        }
                    }
                    _ => return Err(format!("bad number at {}", st)),
                }
                let digits = |p: &mut Self| {
                    let s = p.i;
                    while matches!(p.peek(), Some(c) if c.is_ascii_digit()) {
                        p.i += 1
                    }
                    p.i > s
                };
                if self.peek() == Some('.') {
                    self.i += 1;
                    if !digits(self) {
                        return Err(format!("bad fraction at {}", st));
                    }
                }
                if matches!(self.peek(), Some('e' | 'E')) {
                    self.i += 1;
                    if matches!(self.peek(), Some('+' | '-')) {
                        self.i += 1
                    }
                    if !digits(self) {
                        return Err(format!("bad exponent at {}", st));
                    }
                }
                Ok(J::Num(self.c[st..self.i].iter().collect()))
            }
            _ => Err(format!("unexpected character at {}", self.i)),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut x = 0;
        for _ in 0..4 {
            let d = self.peek().and_then(|c| c.to_digit(16)).ok_or("bad \\u")?;
            x = x * 16 + d;
            self.i += 1;
        }
        Ok(x)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        '"' | '\\' | '/' => out.push(e),
                        'b' => out.push('\u{8}'),
                        'f' => out.push('\u{c}'),
                        'n' => out.push('\n'),
                        'r' => out.push('\r'),
                        't' => out.push('\t'),
                        'u' => {
                            let x = self.hex4()?;
                            let x = if (0xD800..0xDC00).contains(&x) {
                                if self.peek() != Some('\\') || self.c.get(self.i + 1) != Some(&'u') {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 2;
                                let y = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&y) {
                                    return Err("bad surrogate pair".into());
                                }
                                0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00)
                            } else {
                                x
                            };
                            out.push(char::from_u32(x).ok_or("lone surrogate")?);
                        }
                        _ => return Err(format!("bad escape \\{}", e)),
                    }
                }
                c if (c as u32) < 0x20 => return Err(format!("raw control character {:?}", c)),
                c => out.push(c),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ emitter

pub struct Style {
    /// 0 compact, 1 spaces, 2 anything
    pub space: u8,
    pub shuffle: bool,
    /// 0 minimal, 1 some optional escapes
    pub escapes: u8,
}
pub fn emit(j: &J, st: &Style, r: &mut Rng) -> String {
    let mut out = String::new();
    gap(st, r, &mut out);
    emit_into(j, st, r, &mut out);
    gap(st, r, &mut out);
    out
}
pub fn compact(j: &J) -> String {
    emit(j, &Style { space: 0, shuffle: false, escapes: 0 }, &mut Rng::new(1))
}
fn gap(st: &Style, r: &mut Rng, out: &mut String) {
    match st.space {
        0 => {}
        1 => out.push(' '),
        _ => {
            for _ in 0..r.below(3) {
                out.push_str(r.pick(&[" ", "\n", "\t", "\r\n", "  "]));
            }
        }
    }
}
fn emit_str(x: &str, st: &Style, r: &mut Rng, out: &mut String) {
    out.push('"');
    for c in x.chars() {
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        if must || (st.escapes > 0 && r.chance(1, 12)) {
            let short = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '/' => Some("\\/"),
                _ => None,
            };
            match short {
                Some(e) if st.escapes == 0 || r.chance(3, 4) => out.push_str(e),
                _ => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        if r.chance(1, 2) {
                            *out += &format!("\\u{:04x}", u)
                        } else {
                            *out += &format!("\\u{:04X}", u)
                        }
                    }
                }
            }
        } else {
            out.push(c)
        }
    }
    out.push('"');
}
fn emit_into(j: &J, st: &Style, r: &mut Rng, out: &mut String) {
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(x) => emit_str(x, st, r, out),
        J::Arr(v) => {
            out.push('[');
            gap(st, r, out);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    gap(st, r, out);
                }
                emit_into(x, st, r, out);
                gap(st, r, out);
            }
            out.push(']');
        }
        J::Obj(v) => {
            let mut v: Vec<&(String, J)> = v.iter().collect();
            if st.shuffle {
                r.shuffle(&mut v);
            }
            out.push('{');
            gap(st, r, out);
            for (i, (k, x)) in v.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    gap(st, r, out);
                }
                emit_str(k, st, r, out);
                gap(st, r, out);
                out.push(':');
                gap(st, r, out);
                emit_into(x, st, r, out);
                gap(st, r, out);
            }
            out.push('}');
        }
    }
}

// ------------------------------------------------------------------------------------------------ JSON AST layout

pub fn jval(v: &AVal) -> J {
    match v {
        AVal::Null => J::Null,
        AVal::Bool(b) => J::Bool(*b),
        AVal::Int(i) => J::Num(i.to_string()),
        AVal::Float(f) => J::Num(float_text(*f)),
        AVal::Str(x) => s(x),
        AVal::Arr(v) => J::Arr(v.iter().map(jval).collect()),
        AVal::Obj(v) => J::Obj(v.iter().map(|(k, x)| (k.clone(), jval(x))).collect()),
    }
}
/// a JSON number that is not spelled as an integer
pub fn float_text(f: f64) -> String {
    format!("{:?}", f)
}
fn jtraits(t: &Traits) -> J {
    J::Obj(t.iter().map(|(k, v)| (k.clone(), v.as_ref().map(jval).unwrap_or(J::Obj(vec![])))).collect())
}
fn jref(id: &str) -> J {
    o(vec![("target", s(id))])
}
fn jmember(m: &AMember) -> J {
    let mut j = jref(&m.target);
    if !m.traits.is_empty() {
        j.set("traits", jtraits(&m.traits));
    }
    j
}
fn jrefs(j: &mut J, k: &str, v: &[Id]) {
    if !v.is_empty() {
        j.set(k, J::Arr(v.iter().map(|x| jref(x)).collect()));
    }
}
pub fn jshape(sh: &AShape) -> J {
    let t = match &sh.kind {
        AKind::Unresolved => "apply",
        k => k.type_name(),
    };
    let mut j = o(vec![("type", s(t))]);
    match &sh.kind {
        AKind::Simple(_) | AKind::Unresolved => {}
        AKind::List(m) | AKind::Set(m) => j.set("member", jmember(m)),
        AKind::Map(k, v) => {
            j.set("key", jmember(k));
            j.set("value", jmember(v));
        }
        AKind::Structure(ms) | AKind::Union(ms) => {
            if !ms.is_empty() {
                j.set("members", J::Obj(ms.iter().map(|(k, m)| (k.clone(), jmember(m))).collect()));
            }
        }
        AKind::Service(x) => {
            j.set("version", s(&x.version));
            jrefs(&mut j, "operations", &x.operations);
            jrefs(&mut j, "resources", &x.resources);
            if !x.renames.is_empty() {
                j.set("rename", J::Obj(x.renames.iter().map(|(k, v)| (k.clone(), s(v))).collect()));
            }
        }
        AKind::Operation(x) => {
            if let Some(i) = &x.input {
                j.set("input", jref(i));
            }
            if let Some(i) = &x.output {
                j.set("output", jref(i));
            }
            jrefs(&mut j, "errors", &x.errors);
        }
        AKind::Resource(x) => {
            if !x.identifiers.is_empty() {
                j.set("identifiers", J::Obj(x.identifiers.iter().map(|(k, v)| (k.clone(), jref(v))).collect()));
            }
            for (k, v) in x.lifecycle() {
                if let Some(v) = v {
                    j.set(k, jref(v));
                }
            }
            jrefs(&mut j, "operations", &x.operations);
            jrefs(&mut j, "collectionOperations", &x.collection_operations);
            jrefs(&mut j, "resources", &x.resources);
        }
    }
    if !sh.traits.is_empty() {
        j.set("traits", jtraits(&sh.traits));
    }
    j
}
pub fn jmodel(m: &AModel) -> J {
    let mut j = o(vec![("smithy", s("1.0"))]);
    if !m.metadata.is_empty() {
        j.set("metadata", J::Obj(m.metadata.iter().map(|(k, v)| (k.clone(), jval(v))).collect()));
    }
    j.set("shapes", J::Obj(m.shapes.iter().map(|(k, v)| (k.clone(), jshape(v))).collect()));
    j
}
/// Forget the difference between absent and empty where the specification does.
pub fn normal(j: &J) -> J {
    let mut j = j.clone();
    let drop_empty = |x: &mut J, ks: &[&str]| {
        for k in ks {
            if matches!(x.get(k), Some(J::Obj(v)) if v.is_empty()) || matches!(x.get(k), Some(J::Arr(v)) if v.is_empty()) {
                x.remove(k);
            }
        }
    };
    drop_empty(&mut j, &["metadata", "shapes"]);
    if let J::Obj(top) = &mut j {
        for (k, v) in top.iter_mut() {
            if k == "shapes" {
                if let J::Obj(shapes) = v {
                    for (_, sh) in shapes.iter_mut() {
                        drop_empty(sh, &["traits", "operations", "resources", "errors", "collectionOperations", "identifiers", "rename"]);
                        if let J::Obj(props) = sh {
                            for (pk, pv) in props.iter_mut() {
                                if pk == "members" {
                                    if let J::Obj(ms) = pv {
                                        for (_, mv) in ms.iter_mut() {
                                            drop_empty(mv, &["traits"]);
                                        }
                                    }
                                } else if pk == "member" || pk == "key" || pk == "value" {
                                    drop_empty(pv, &["traits"]);
                                }
                            }
                        }
                        drop_empty(sh, &["members"]);
                    }
                }
            }
        }
    }
    j
}
