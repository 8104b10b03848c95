//! An independent Smithy 1.0 IDL layer: an emitter with free layout and a strict reference parser.
//!
//! The reference parser decides three ways: a document, a definite rejection, or `Unclear` (places where the grammar of
//! the specification and reasonable readings of it differ; never judged).
use crate::am::*;
use crate::elab::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// Reading modes: deviations of the library's reader that are recorded as known findings.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Quirks {
    /// K1: escapes in strings are kept as written
    pub raw_escapes: bool,
    /// K2: quoted keys inside node objects keep their quotation marks
    pub quoted_keys: bool,
    /// K3: text blocks keep their indentation and lose all leading white space
    pub raw_blocks: bool,
    /// K5: traits on the member of a list are dropped
    pub list_traits: bool,
}
pub const QUIRKS: Quirks = Quirks { raw_escapes: true, quoted_keys: true, raw_blocks: true, list_traits: true };

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Reject(String),
    Unclear(String),
}
type P<T> = Result<T, Bad>;
fn rej<T>(s: impl Into<String>) -> P<T> {
    Err(Bad::Reject(s.into()))
}
fn unc<T>(s: impl Into<String>) -> P<T> {
    Err(Bad::Unclear(s.into()))
}

/// what the text used, so that a check can tell which known finding explains a difference
#[derive(Default, Debug, Clone, PartialEq)]
pub struct Used {
    pub escapes: bool,
    pub quoted_keys: bool,
    pub blocks: bool,
    pub list_traits: bool,
}

#[derive(Debug, Clone)]
enum Node {
    Val(AVal),
    Obj(Vec<(String, Node)>),
    Arr(Vec<Node>),
}
impl Node {
    fn val(&self) -> AVal {
        match self {
            Node::Val(v) => v.clone(),
            Node::Arr(v) => AVal::Arr(v.iter().map(|x| x.val()).collect()),
            Node::Obj(v) => AVal::Obj(v.iter().map(|(k, x)| (k.clone(), x.val())).collect()),
        }
    }
}

pub struct Parsed {
    pub prog: Prog,
    pub used: Used,
    pub has_namespace: bool,
}

pub fn parse(text: &str, quirks: Quirks) -> P<Parsed> {
    let mut p = Ps { t: text.chars().collect(), i: 0, k: quirks, used: Used::default(), object_keys_raw: true, deep: 0 };
    let (prog, has_namespace) = p.idl()?;
    Ok(Parsed { prog, used: p.used, has_namespace })
}

/// The model a text describes, or why it is not one.
pub fn model_of(text: &str, quirks: Quirks) -> P<(AModel, Used)> {
    let p = parse(text, quirks)?;
    match Elab::new(&p.prog).run() {
        Ok(m) => Ok((m, p.used)),
        Err(e) => Err(Bad::Reject(format!("semantic: {}", e))),
    }
}

struct Ps {
    t: Vec<char>,
    i: usize,
    k: Quirks,
    used: Used,
    /// K2 applies to keys of values, not to the keys of shape properties
    object_keys_raw: bool,
    /// values around this one, itself included
    deep: usize,
}
fn idc(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

impl Ps {
    fn peek(&self) -> Option<char> {
        self.t.get(self.i).copied()
    }
    fn at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(j, c)| self.t.get(self.i + j) == Some(&c))
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.at(s) {
            self.i += s.chars().count();
            true
        } else {
            false
        }
    }
    fn here(&self) -> String {
        let a: String = self.t[self.i..].iter().take(12).collect();
        format!("at {} {:?}", self.i, a)
    }
    /// white space, commas and comments; stops at a documentation comment
    fn ws(&mut self) -> P<bool> {
        let start = self.i;
        loop {
            match self.peek() {
                Some(' ') | Some('\t') | Some('\n') | Some(',') => self.i += 1,
                Some('\r') => self.i += 1,
                Some('/') if self.at("//") && !self.at("///") => {
                    while let Some(c) = self.peek() {
                        if c == '\n' || c == '\r' {
                            break;
                        }
                        if (c as u32) < 0x20 && c != '\t' {
                            return unc("control character in a comment");
                        }
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
        Ok(self.i > start)
    }
    fn ws_nodoc(&mut self) -> P<bool> {
        let r = self.ws()?;
        if self.at("///") {
            return unc("documentation comment in another place");
        }
        Ok(r)
    }
    fn docs(&mut self) -> P<Vec<String>> {
        let mut out = vec![];
        loop {
            self.ws()?;
            if !self.eat("///") {
                return Ok(out);
            }
            let mut s = String::new();
            loop {
                match self.peek() {
                    None => return unc("documentation comment at the end"),
                    Some('\n') | Some('\r') => break,
                    Some(c) if (c as u32) < 0x20 && c != '\t' => return unc("control character in a comment"),
                    Some(c) => {
                        s.push(c);
                        self.i += 1;
                    }
                }
            }
            out.push(s.strip_prefix(' ').map(|x| x.to_string()).unwrap_or(s));
        }
    }
    fn identifier(&mut self) -> P<String> {
        let st = self.i;
        while self.peek() == Some('_') {
            self.i += 1;
        }
        match self.peek() {
            Some(c) if c.is_ascii_alphabetic() => {}
            _ => {
                self.i = st;
                return rej(format!("identifier expected {}", self.here()));
            }
        }
        while self.peek().map(idc).unwrap_or(false) {
            self.i += 1;
        }
        Ok(self.t[st..self.i].iter().collect())
    }
    fn namespace(&mut self) -> P<String> {
        let mut s = self.identifier()?;
        while self.peek() == Some('.') {
            self.i += 1;
            s.push('.');
            s.push_str(&self.identifier()?);
        }
        Ok(s)
    }
    fn shape_id(&mut self) -> P<String> {
        let mut s = self.namespace()?;
        if self.peek() == Some('#') {
            self.i += 1;
            s.push('#');
            s.push_str(&self.identifier()?);
        } else if s.contains('.') {
            return rej(format!("dotted name without # {}", self.here()));
        }
        if self.peek() == Some('$') {
            self.i += 1;
            s.push('$');
            s.push_str(&self.identifier()?);
        }
        Ok(s)
    }
    fn quoted(&mut self) -> P<String> {
        // at a single quotation mark
        self.i += 1;
        let mut s = String::new();
        loop {
            let c = match self.peek() {
                None => return rej("unterminated string"),
                Some(c) => c,
            };
            self.i += 1;
            match c {
                '"' => return Ok(s),
                '\\' => {
                    self.used.escapes = true;
                    self.escape(&mut s)?;
                }
                c if (c as u32) < 0x20 => return unc("control character in a string"),
                c => s.push(c),
            }
        }
    }
    fn escape(&mut self, s: &mut String) -> P<()> {
        let e = match self.peek() {
            None => return rej("unterminated string"),
            Some(e) => e,
        };
        self.i += 1;
        if self.k.raw_escapes {
            s.push('\\');
            s.push(e);
            return Ok(());
        }
        match e {
            '"' | '\\' | '/' => s.push(e),
            'b' => s.push('\u{8}'),
            'f' => s.push('\u{c}'),
            'n' => s.push('\n'),
            'r' => s.push('\r'),
            't' => s.push('\t'),
            'u' => {
                let h: String = self.t[self.i..].iter().take(4).collect();
                if h.len() != 4 || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                    return unc("bad unicode escape");
                }
                self.i += 4;
                match char::from_u32(u32::from_str_radix(&h, 16).unwrap()) {
                    Some(c) => s.push(c),
                    None => return unc("surrogate escape"),
                }
            }
            _ => return unc(format!("escape {:?}", e)),
        }
        Ok(())
    }
    fn block(&mut self) -> P<String> {
        self.used.blocks = true;
        self.i += 3;
        let open = self.i;
        match self.peek() {
            Some('\n') => self.i += 1,
            Some('\r') if self.at("\r\n") => self.i += 2,
            _ => return unc("text block without a new line"),
        }
        let mut raw = String::new();
        loop {
            if self.at("\"\"\"") {
                break;
            }
            match self.peek() {
                None => return unc("unterminated text block"),
                Some('\\') => {
                    self.used.escapes = true;
                    return unc("escape in a text block");
                }
                Some(c) if (c as u32) < 0x20 && c != '\n' && c != '\t' && c != '\r' => return unc("control character in a text block"),
                Some(c) => raw.push(c),
            }
            self.i += 1;
        }
        let all: String = self.t[open..self.i].iter().collect();
        self.i += 3;
        if self.peek() == Some('"') {
            return unc("more than three quotation marks");
        }
        if self.k.raw_blocks {
            return Ok(all.trim_start_matches([' ', '\t', '\r', '\n']).to_string());
        }
        // the specification: normalise line endings, remove incidental white space, trailing spaces
        let raw = raw.replace("\r\n", "\n").replace('\r', "\n");
        let lines: Vec<&str> = raw.split('\n').collect();
        let n = lines.len();
        let blank = |l: &str| l.chars().all(|c| c == ' ' || c == '\t');
        let indent = lines
            .iter()
            .enumerate()
            .filter(|(i, l)| *i == n - 1 || !blank(l))
            .map(|(_, l)| l.chars().take_while(|c| *c == ' ').count())
            .min()
            .unwrap_or(0);
        let out: Vec<String> = lines
            .iter()
            .map(|l| {
                if blank(l) {
                    String::new()
                } else {
                    l.chars().skip(indent).collect::<String>().trim_end_matches([' ', '\t']).to_string()
                }
            })
            .collect();
        Ok(out.join("\n"))
    }
    fn string(&mut self) -> P<String> {
        if self.at("\"\"\"") {
            self.block()
        } else {
            self.quoted()
        }
    }
    fn key(&mut self) -> P<String> {
        if self.at("\"\"\"") {
            return unc("text block as a key");
        }
        if self.peek() == Some('"') {
            self.quoted()
        } else {
            self.identifier()
        }
    }
    fn glued(&self) -> bool {
        // the next element starts right after the previous one
        self.i > 0 && {
            let p = self.t[self.i - 1];
            !matches!(p, ' ' | '\t' | '\n' | '\r' | ',' | '[' | '{' | '(' | ':' | '=')
        }
    }
    fn node(&mut self) -> P<Node> {
        self.deep += 1;
        let r = self.node_in();
        self.deep -= 1;
        r
    }
    fn node_in(&mut self) -> P<Node> {
        match self.peek() {
            None => rej("value expected"),
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.ws_nodoc()?;
                    if self.eat("]") {
                        return Ok(Node::Arr(v));
                    }
                    if self.peek().is_none() {
                        return rej("unterminated array");
                    }
                    if !v.is_empty() && self.glued() {
                        return unc("elements without separator");
                    }
                    v.push(self.node()?);
                }
            }
            Some('{') => Ok(Node::Obj(self.object()?)),
            Some('"') => Ok(Node::Val(AVal::Str(self.string()?))),
            Some(c) if c == '-' || c.is_ascii_digit() => self.number(),
            Some(c) if c == '_' || c.is_ascii_alphabetic() => {
                let id = self.shape_id()?;
                Ok(Node::Val(match id.as_str() {
                    "true" => AVal::Bool(true),
                    "false" => AVal::Bool(false),
                    "null" => AVal::Null,
                    _ => AVal::Str(id),
                }))
            }
            Some(_) => rej(format!("value expected {}", self.here())),
        }
    }
    fn number(&mut self) -> P<Node> {
        let st = self.i;
        let _ = self.eat("-");
        let d0 = self.i;
        while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) {
            self.i += 1;
        }
        if self.i == d0 {
            return rej(format!("digits expected {}", self.here()));
        }
        if self.t[d0] == '0' && self.i > d0 + 1 {
            // between other values it can be read as several numbers
            return if self.deep > 1 { unc("leading zero") } else { rej("leading zero") };
        }
        let mut float = false;
        if self.peek() == Some('.') {
            self.i += 1;
            let d = self.i;
            while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) {
                self.i += 1;
            }
            if self.i == d {
                return rej("fraction without digits");
            }
            float = true;
        }
        if matches!(self.peek(), Some('e') | Some('E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+') | Some('-')) {
                self.i += 1;
            }
            let d = self.i;
            while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) {
                self.i += 1;
            }
            if self.i == d {
                return if self.deep > 1 { unc("exponent without digits") } else { rej("exponent without digits") };
            }
            float = true;
        }
        if self.peek().map(|c| idc(c) || c == '.').unwrap_or(false) {
            return if self.peek() != Some('.') { unc("number glued to a name") } else { rej("number glued to a point") };
        }
        let s: String = self.t[st..self.i].iter().collect();
        if float {
            let f: f64 = s.parse().map_err(|_| Bad::Unclear("float".into()))?;
            if !f.is_finite() {
                return rej("number out of range");
            }
            Ok(Node::Val(AVal::Float(f)))
        } else {
            match s.parse::<i64>() {
                Ok(i) => Ok(Node::Val(AVal::Int(i))),
                Err(_) => rej("number out of range"),
            }
        }
    }
    fn object(&mut self) -> P<Vec<(String, Node)>> {
        self.i += 1;
        let raw = self.object_keys_raw;
        let mut v: Vec<(String, Node)> = vec![];
        let mut spelled: BTreeMap<String, bool> = BTreeMap::new();
        loop {
            self.ws_nodoc()?;
            if self.eat("}") {
                return Ok(v);
            }
            if self.peek().is_none() {
                return rej("unterminated object");
            }
            if !v.is_empty() && self.glued() {
                return unc("elements without separator");
            }
            let quoted = self.peek() == Some('"');
            let mut k = self.key()?;
            let plain_key = k.clone();
            if quoted && raw {
                self.used.quoted_keys = true;
                if self.k.quoted_keys {
                    k = format!("\"{}\"", k);
                }
            }
            self.colon()?;
            let n = self.node()?;
            match spelled.get(&plain_key) {
                Some(q) if *q == quoted => return rej(format!("duplicate key {}", k)),
                Some(_) => return unc("key with and without quotation marks"),
                None => {
                    spelled.insert(plain_key, quoted);
                }
            }
            v.push((k, n));
        }
    }
    fn colon(&mut self) -> P<()> {
        self.ws_nodoc()?;
        if !self.eat(":") {
            return rej(format!("colon expected {}", self.here()));
        }
        self.ws_nodoc()?;
        Ok(())
    }
    fn a_trait(&mut self) -> P<Tb> {
        self.i += 1;
        let id = self.shape_id()?;
        let mut v = Some(AVal::Obj(BTreeMap::new()));
        if self.eat("(") {
            self.ws_nodoc()?;
            if !self.eat(")") {
                // a structure without braces, or one value
                let st = self.i;
                let is_key = match self.peek() {
                    Some('"') if !self.at("\"\"\"") => true,
                    Some(c) if c == '_' || c.is_ascii_alphabetic() => true,
                    _ => false,
                };
                let used = self.used.clone();
                let structure = is_key && self.key().is_ok() && self.ws().is_ok() && self.peek() == Some(':');
                self.i = st;
                self.used = used;
                if structure {
                    let mut o: Vec<(String, Node)> = vec![];
                    loop {
                        self.ws_nodoc()?;
                        if self.eat(")") {
                            break;
                        }
                        if self.peek().is_none() {
                            return rej("unterminated trait");
                        }
                        if !o.is_empty() && self.glued() {
                            return unc("elements without separator");
                        }
                        let k = self.key()?;
                        self.colon()?;
                        self.deep += 1;
                        let n = self.node();
                        self.deep -= 1;
                        let n = n?;
                        if o.iter().any(|x| x.0 == k) {
                            return rej(format!("duplicate key {}", k));
                        }
                        o.push((k, n));
                    }
                    v = Some(Node::Obj(o).val());
                } else {
                    let n = self.node()?;
                    self.ws_nodoc()?;
                    if !self.eat(")") {
                        if self.glued() {
                            return unc("value followed directly by something");
                        }
                        return rej(format!("closing parenthesis expected {}", self.here()));
                    }
                    v = Some(n.val());
                }
            }
        }
        Ok((id, v))
    }
    fn traits(&mut self) -> P<Vec<Tb>> {
        let mut out = vec![];
        loop {
            self.ws()?;
            if self.peek() != Some('@') {
                return Ok(out);
            }
            out.push(self.a_trait()?);
        }
    }
    fn docs_traits(&mut self) -> P<(bool, Vec<Tb>)> {
        let d = self.docs()?;
        let mut ts = self.traits()?;
        if self.at("///") {
            return unc("documentation comment in another place");
        }
        let any = !d.is_empty() || !ts.is_empty();
        if !d.is_empty() {
            ts.insert(0, ("smithy.api#documentation".into(), Some(AVal::Str(d.join("\n")))));
        }
        Ok((any, ts))
    }
    fn members(&mut self) -> P<Vec<Mem>> {
        self.ws_nodoc()?;
        if !self.eat("{") {
            return rej(format!("members expected {}", self.here()));
        }
        let mut out: Vec<Mem> = vec![];
        loop {
            let (any, traits) = self.docs_traits()?;
            if self.peek() == Some('}') {
                if any {
                    return if traits.len() == 1 && traits[0].0 == "smithy.api#documentation" {
                        unc("documentation comment before a brace")
                    } else {
                        rej("traits without a member")
                    };
                }
                self.i += 1;
                return Ok(out);
            }
            if self.peek().is_none() {
                return rej("unterminated members");
            }
            if !out.is_empty() && !any && self.glued() {
                return unc("elements without separator");
            }
            if self.peek() == Some('"') {
                return unc("quoted member name");
            }
            let name = self.identifier()?;
            self.colon()?;
            let target = self.shape_id()?;
            out.push(Mem { name, target, traits });
        }
    }
    fn word(&mut self) -> String {
        let st = self.i;
        let mut j = self.i;
        while j < self.t.len() && idc(self.t[j]) {
            j += 1;
        }
        self.t[st..j].iter().collect()
    }
    /// a required gap after a keyword
    fn gap(&mut self) -> P<()> {
        if !self.ws_nodoc()? {
            if self.peek().map(|c| idc(c) || c == '"').unwrap_or(false) {
                return unc("keyword glued to a name");
            }
        }
        Ok(())
    }
    fn idl(&mut self) -> P<(Prog, bool)> {
        let mut p = Prog::default();
        let mut control: BTreeSet<String> = BTreeSet::new();
        self.ws_nodoc()?;
        while self.peek() == Some('$') {
            self.i += 1;
            self.ws_nodoc()?;
            let k = self.key()?;
            self.colon()?;
            let st = self.i;
            let v = self.node()?;
            if !control.insert(k.clone()) {
                return rej("control key twice");
            }
            if k == "version" {
                let spelled: String = self.t[st..self.i].iter().collect();
                match (&v, spelled.as_str()) {
                    (Node::Val(AVal::Str(s)), _) if s == "1" || s == "1.0" => {}
                    (_, "1") | (_, "1.0") => {}
                    (Node::Val(AVal::Str(s)), _) if s.starts_with("1.0") => return unc("version"),
                    (Node::Val(AVal::Float(f)), _) if *f == 1.0 => return unc("version"),
                    _ => return rej("unknown version"),
                }
            }
            self.ws_nodoc()?;
        }
        while self.word() == "metadata" {
            self.i += 8;
            self.gap()?;
            let k = self.key()?;
            self.ws_nodoc()?;
            if !self.eat("=") {
                return rej("= expected");
            }
            self.ws_nodoc()?;
            let v = self.node()?.val();
            p.meta.push((k, v));
            self.ws_nodoc()?;
        }
        let mut has_namespace = false;
        if self.word() == "namespace" {
            has_namespace = true;
            self.i += 9;
            self.gap()?;
            p.ns = self.namespace()?;
            self.ws()?;
            while self.word() == "use" {
                self.i += 3;
                self.gap()?;
                let st = self.i;
                let id = self.shape_id()?;
                if !id.contains('#') || id.contains('$') {
                    self.i = st;
                    return rej("use of something that is not an absolute root shape");
                }
                p.uses.push(id);
                self.ws()?;
            }
            self.shapes(&mut p)?;
        }
        self.ws()?;
        if self.at("///") {
            return unc("documentation comment at the end");
        }
        if self.i != self.t.len() {
            let w = self.word();
            for k in ["metadata", "namespace", "use"] {
                if w.starts_with(k) && w.len() > k.len() {
                    return unc("keyword glued to a name");
                }
            }
            return rej(format!("statement expected {}", self.here()));
        }
        Ok((p, has_namespace))
    }
    fn shapes(&mut self, p: &mut Prog) -> P<()> {
        loop {
            let st = self.i;
            let (any, traits) = self.docs_traits()?;
            let w = self.word();
            if w.is_empty() {
                if any {
                    return if self.i == self.t.len() && traits.len() == 1 && traits[0].0 == "smithy.api#documentation" {
                        unc("documentation comment at the end")
                    } else {
                        rej("traits without a shape")
                    };
                }
                self.i = st;
                return Ok(());
            }
            if w == "apply" {
                if any {
                    return if traits.len() == 1 && traits[0].0 == "smithy.api#documentation" {
                        unc("documentation of an apply statement")
                    } else {
                        rej("traits before apply")
                    };
                }
                self.i += 5;
                self.gap()?;
                let id = self.shape_id()?;
                self.ws_nodoc()?;
                if self.peek() != Some('@') {
                    return rej("trait expected");
                }
                let t = self.a_trait()?;
                p.applies.push((id, t));
                continue;
            }
            let known = ["list", "set", "map", "structure", "union", "service", "operation", "resource", "apply"];
            let kw = known.iter().chain(SIMPLE.iter()).find(|k| **k == w);
            let kw = match kw {
                Some(k) => *k,
                None => {
                    if known.iter().chain(SIMPLE.iter()).chain(["use", "metadata", "namespace"].iter()).any(|k| w.starts_with(k)) {
                        return unc("keyword glued to a name");
                    }
                    return rej(format!("unknown statement {}", w));
                }
            };
            self.i += kw.len();
            self.gap()?;
            let name = self.identifier()?;
            let kind = if let Some(i) = SIMPLE.iter().position(|k| *k == kw) {
                DKind::Simple(i)
            } else if ["service", "operation", "resource"].contains(&kw) {
                self.ws_nodoc()?;
                if self.peek() != Some('{') {
                    return rej("object expected");
                }
                self.object_keys_raw = false;
                let o = self.object();
                self.object_keys_raw = true;
                let o = o?;
                match kw {
                    "service" => DKind::Service(service(&o)?),
                    "operation" => DKind::Operation(operation(&o)?),
                    _ => DKind::Resource(resource(&o)?),
                }
            } else {
                let mut ms = self.members()?;
                match kw {
                    "structure" => DKind::Structure(ms),
                    "union" => DKind::Union(ms),
                    "list" | "set" => {
                        if ms.len() != 1 || ms[0].name != "member" {
                            if ms.len() == 1 && ms[0].name.eq_ignore_ascii_case("member") {
                                return unc("case of member");
                            }
                            return rej("one member named member expected");
                        }
                        let mut m = ms.remove(0);
                        if kw == "list" {
                            if !m.traits.is_empty() {
                                self.used.list_traits = true;
                            }
                            if self.k.list_traits {
                                m.traits.clear();
                            }
                            DKind::List(m)
                        } else {
                            DKind::Set(m)
                        }
                    }
                    _ => {
                        let k = ms.iter().position(|m| m.name == "key");
                        let v = ms.iter().position(|m| m.name == "value");
                        match (k, v) {
                            (Some(k), Some(v)) if ms.len() == 2 => DKind::Map(ms[k].clone(), ms[v].clone()),
                            _ => {
                                if ms.len() == 2
                                    && ms.iter().any(|m| m.name.eq_ignore_ascii_case("key"))
                                    && ms.iter().any(|m| m.name.eq_ignore_ascii_case("value"))
                                {
                                    return unc("case of key or value");
                                }
                                return rej("key and value expected");
                            }
                        }
                    }
                }
            };
            p.defs.push(Def { name, kind, traits });
        }
    }
}

fn shape_name(n: &Node) -> P<String> {
    match n {
        Node::Val(AVal::Str(s)) => {
            let mut p = Ps { t: s.chars().collect(), i: 0, k: Quirks::default(), used: Used::default(), object_keys_raw: true, deep: 0 };
            let id = p.shape_id()?;
            if p.i != p.t.len() {
                return rej("not a shape id");
            }
            Ok(id)
        }
        Node::Val(AVal::Bool(_)) | Node::Val(AVal::Null) => unc("keyword as a shape name"),
        _ => rej("shape id expected"),
    }
}
fn names(n: &Node) -> P<Vec<String>> {
    match n {
        Node::Arr(v) => v.iter().map(shape_name).collect(),
        _ => rej("array expected"),
    }
}
fn service(o: &[(String, Node)]) -> P<AService> {
    let mut s = AService::default();
    let mut version = false;
    for (k, v) in o {
        match k.as_str() {
            "version" => match v {
                Node::Val(AVal::Str(x)) if !x.is_empty() => {
                    s.version = x.clone();
                    version = true;
                }
                Node::Val(AVal::Str(_)) => return unc("empty version"),
                _ => return rej("version must be text"),
            },
            "operations" => s.operations = names(v)?,
            "resources" => s.resources = names(v)?,
            "rename" => match v {
                Node::Obj(r) => {
                    for (k, v) in r {
                        let id = shape_name(&Node::Val(AVal::Str(k.clone())))?;
                        if !id.contains('#') {
                            return rej("rename of a relative name");
                        }
                        if id.contains('$') {
                            return unc("rename of a member");
                        }
                        let to = shape_name(v)?;
                        if to.contains('#') || to.contains('$') {
                            return rej("rename to something that is not a name");
                        }
                        s.renames.insert(id, to);
                    }
                }
                _ => return rej("object expected"),
            },
            _ => return rej(format!("unknown property {}", k)),
        }
    }
    if !version {
        return rej("service without version");
    }
    Ok(s)
}
fn operation(o: &[(String, Node)]) -> P<AOperation> {
    let mut s = AOperation::default();
    for (k, v) in o {
        match k.as_str() {
            "input" => s.input = Some(shape_name(v)?),
            "output" => s.output = Some(shape_name(v)?),
            "errors" => s.errors = names(v)?,
            _ => return rej(format!("unknown property {}", k)),
        }
    }
    Ok(s)
}
fn resource(o: &[(String, Node)]) -> P<AResource> {
    let mut s = AResource::default();
    for (k, v) in o {
        match k.as_str() {
            "identifiers" => match v {
                Node::Obj(r) => {
                    for (k, v) in r {
                        let id = shape_name(&Node::Val(AVal::Str(k.clone())))?;
                        if id.contains('#') || id.contains('$') {
                            return rej("identifier name expected");
                        }
                        s.identifiers.insert(id, shape_name(v)?);
                    }
                }
                _ => return rej("object expected"),
            },
            "create" => s.create = Some(shape_name(v)?),
            "put" => s.put = Some(shape_name(v)?),
            "read" => s.read = Some(shape_name(v)?),
            "update" => s.update = Some(shape_name(v)?),
            "delete" => s.delete = Some(shape_name(v)?),
            "list" => s.list = Some(shape_name(v)?),
            "operations" => s.operations = names(v)?,
            "collectionOperations" => s.collection_operations = names(v)?,
            "resources" => s.resources = names(v)?,
            _ => return rej(format!("unknown property {}", k)),
        }
    }
    Ok(s)
}

// ------------------------------------------------------------------------------------------------- from model to document

/// Describe the part of `m` in namespace `ns` (plus unresolved shapes) as a document with a random choice of names.
pub fn prog_of(m: &AModel, ns: &str, r: &mut Rng) -> Prog {
    let mut p = Prog { ns: ns.to_string(), ..Default::default() };
    let defs: BTreeSet<String> = m
        .shapes
        .iter()
        .filter(|(i, s)| ns_of(i) == ns && s.kind != AKind::Unresolved)
        .map(|(i, _)| name_of(i).to_lowercase())
        .collect();
    // imports: some of the foreign ids that are mentioned and whose names are free
    let mut foreign: BTreeSet<String> = BTreeSet::new();
    for (i, s) in &m.shapes {
        if ns_of(i) != ns || s.kind == AKind::Unresolved {
            continue;
        }
        foreign.extend(s.kind.refs().into_iter().map(|x| x.1));
        foreign.extend(s.traits.keys().cloned());
        for (_, mm) in s.kind.members() {
            foreign.extend(mm.traits.keys().cloned());
        }
    }
    let mut imported: BTreeMap<String, String> = BTreeMap::new();
    for id in foreign {
        let low = name_of(&id).to_lowercase();
        let clash = defs.contains(&low) || imported.contains_key(&low);
        if !clash && (ns_of(&id) != ns || r.chance(1, 3)) && r.chance(1, 2) {
            imported.insert(low, id.clone());
            p.uses.push(id);
        }
    }
    let spell = |id: &str, is_trait: bool, r: &mut Rng| -> String {
        let name = name_of(id);
        let low = name.to_lowercase();
        let relative = match imported.get(&low) {
            Some(x) => x == id,
            None if defs.contains(&low) => {
                ns_of(id) == ns && m.shapes.get(id).map(|s| s.kind != AKind::Unresolved).unwrap_or(false)
            }
            None => {
                let prelude = if is_trait { PRELUDE_TRAITS.contains(&name) } else { PRELUDE_SIMPLE.contains(&name) };
                let fold = |l: &[&str]| l.iter().any(|x| x.eq_ignore_ascii_case(name));
                let near = if is_trait { fold(&PRELUDE_TRAITS) } else { fold(&PRELUDE_SIMPLE) };
                if prelude {
                    ns_of(id) == "smithy.api"
                } else {
                    ns_of(id) == ns && !near
                }
            }
        };
        if relative && !["true", "false", "null"].contains(&name) && r.chance(4, 5) {
            name.to_string()
        } else {
            id.to_string()
        }
    };
    for (id, s) in &m.shapes {
        if s.kind == AKind::Unresolved {
            for (t, v) in &s.traits {
                p.applies.push((id.clone(), (spell(t, true, r), v.clone())));
            }
            continue;
        }
        if ns_of(id) != ns {
            continue;
        }
        let name = name_of(id).to_string();
        let mut applies: Vec<(String, Tb)> = vec![];
        let mut traits = |ts: &Traits, member: Option<&str>, r: &mut Rng| -> Vec<Tb> {
            let mut out = vec![];
            for (t, v) in ts {
                let tb = (spell(t, true, r), v.clone());
                if r.chance(1, 8) {
                    let top = if r.chance(1, 2) { spell(id, false, r) } else { id.clone() };
                    applies.push((match member {
                        Some(x) => format!("{}${}", top, x),
                        None => top,
                    }, tb));
                } else {
                    out.push(tb);
                }
            }
            r.shuffle(&mut out);
            out
        };
        let mut mem = |n: &str, a: &AMember, r: &mut Rng| Mem { name: n.to_string(), target: spell(&a.target, false, r), traits: traits(&a.traits, Some(n), r) };
        let all = |v: &Vec<Id>, r: &mut Rng| v.iter().map(|x| spell(x, false, r)).collect::<Vec<_>>();
        let opt = |v: &Option<Id>, r: &mut Rng| v.as_ref().map(|x| spell(x, false, r));
        let kind = match &s.kind {
            AKind::Simple(x) => DKind::Simple(SIMPLE.iter().position(|y| y == x).unwrap()),
            AKind::List(a) => DKind::List(mem("member", a, r)),
            AKind::Set(a) => DKind::Set(mem("member", a, r)),
            AKind::Map(k, v) => DKind::Map(mem("key", k, r), mem("value", v, r)),
            AKind::Structure(ms) | AKind::Union(ms) => {
                let mut v: Vec<Mem> = ms.iter().map(|(n, a)| mem(n, a, r)).collect();
                r.shuffle(&mut v);
                if matches!(s.kind, AKind::Union(_)) {
                    DKind::Union(v)
                } else {
                    DKind::Structure(v)
                }
            }
            AKind::Service(x) => DKind::Service(AService {
                version: x.version.clone(),
                operations: all(&x.operations, r),
                resources: all(&x.resources, r),
                renames: x.renames.clone(),
            }),
            AKind::Operation(x) => DKind::Operation(AOperation { input: opt(&x.input, r), output: opt(&x.output, r), errors: all(&x.errors, r) }),
            AKind::Resource(x) => DKind::Resource(AResource {
                identifiers: x.identifiers.iter().map(|(k, v)| (k.clone(), spell(v, false, r))).collect(),
                create: opt(&x.create, r),
                put: opt(&x.put, r),
                read: opt(&x.read, r),
                update: opt(&x.update, r),
                delete: opt(&x.delete, r),
                list: opt(&x.list, r),
                operations: all(&x.operations, r),
                collection_operations: all(&x.collection_operations, r),
                resources: all(&x.resources, r),
            }),
            AKind::Unresolved => unreachable!(),
        };
        let st = traits(&s.traits, None, r);
        p.defs.push(Def { name, kind, traits: st });
        p.applies.extend(applies);
    }
    r.shuffle(&mut p.defs);
    r.shuffle(&mut p.applies);
    r.shuffle(&mut p.uses);
    p.meta = m.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    r.shuffle(&mut p.meta);
    p
}

// ------------------------------------------------------------------------------------------------- emitter

#[derive(Clone, Copy, Debug)]
pub struct Layout {
    /// 0 tidy, 1 mixed, 2 wild
    pub ws: u8,
    pub crlf: bool,
    /// quote object keys although they are identifiers (K2)
    pub quote_keys: bool,
    /// write some text as text blocks, indented ones when 2 (K3)
    pub blocks: u8,
    /// spell plain characters as escapes (K1)
    pub escapes: bool,
}
pub struct Em<'r> {
    doc_ok: bool,
    pub out: String,
    r: &'r mut Rng,
    l: Layout,
}

pub fn emit(p: &Prog, version: Option<&str>, l: Layout, r: &mut Rng) -> String {
    let other = |n: &str| n.eq_ignore_ascii_case("documentation");
    let doc_ok = !p.uses.iter().any(|u| other(name_of(u))) && !p.defs.iter().any(|d| other(name_of(&d.name)));
    let mut e = Em { out: String::new(), r, l, doc_ok };
    e.doc(p, version);
    e.out
}

impl<'r> Em<'r> {
    fn push(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn nl(&mut self) -> &'static str {
        if self.l.crlf {
            "\r\n"
        } else {
            "\n"
        }
    }
    fn comment(&mut self) {
        const C: [&str; 10] = [
            "", " a comment", "structure X {", " \"quote", " @trait(", " é日本\u{1F600}", "\ttab // again", " {a: 1}", " namespace other", " ]})",
        ];
        let mut c = self.r.pick(&C).to_string();
        if self.r.chance(1, 150) {
            // not nesting
            c = self.r.pick(&["[", "{", "("]).repeat(200);
        }
        let n = self.nl();
        self.push(&format!("//{}{}", c, n));
    }
    /// optional white space
    fn g(&mut self) {
        match self.l.ws {
            0 => {}
            w => {
                let k = if w == 1 { self.r.below(3) } else { self.r.below(8) };
                for _ in 0..if w == 1 { 1 } else { self.r.range(1, 3) } {
                    match k {
                        0 | 1 => {}
                        2 | 3 => self.push(" "),
                        4 => self.push("\t"),
                        5 => {
                            let n = self.nl();
                            self.push(n)
                        }
                        6 => self.push(","),
                        _ => self.comment(),
                    }
                }
            }
        }
    }
    /// required white space
    fn s(&mut self) {
        if self.l.ws == 2 {
            match self.r.below(6) {
                0 => {
                    let n = self.nl();
                    self.push(n)
                }
                1 => self.push("\t"),
                2 => {
                    self.push(" ");
                    self.comment()
                }
                _ => self.push(" "),
            }
            self.g();
        } else {
            self.push(" ");
        }
    }
    /// between the elements of something
    fn sep(&mut self) {
        match self.l.ws {
            0 => self.push(", "),
            1 => {
                let x = *self.r.pick(&[", ", " ", ",", " , "]);
                self.push(x)
            }
            _ => {
                let x = *self.r.pick(&[", ", " ", ",", " , ", "\n", "\t", ",,", "  "]);
                self.push(x);
                self.g()
            }
        }
    }
    fn end(&mut self) {
        let n = self.nl();
        self.push(n);
        for _ in 0..self.r.below(3) {
            if self.l.ws > 0 && self.r.chance(1, 3) {
                self.comment()
            } else {
                self.push(n)
            }
        }
    }
    fn quoted(&mut self, s: &str) {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                '\u{8}' => o.push_str("\\b"),
                '\u{c}' => o.push_str("\\f"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c if self.l.escapes && (c as u32) < 0x7f && self.r.chance(1, 8) => o.push_str(&format!("\\u{:04X}", c as u32)),
                '/' if self.l.escapes => o.push_str("\\/"),
                c => o.push(c),
            }
        }
        o.push('"');
        self.push(&o);
    }
    fn text(&mut self, s: &str) {
        if self.l.blocks > 0 && block_friendly(s) && self.r.chance(1, 2) {
            let n = self.nl();
            if self.l.blocks == 2 {
                // indented: the closing delimiter sets the left margin
                self.push("\"\"\"");
                self.push(n);
                let lines: Vec<&str> = s.split('\n').collect();
                for (i, l) in lines.iter().enumerate() {
                    if !l.is_empty() || i + 1 == lines.len() {
                        self.push("    ");
                    }
                    self.push(l);
                    if i + 1 < lines.len() {
                        self.push(n);
                    }
                }
                self.push("\"\"\"");
            } else {
                self.push("\"\"\"");
                self.push(n);
                self.push(&s.replace('\n', n));
                self.push("\"\"\"");
            }
        } else {
            self.quoted(s)
        }
    }
    fn key(&mut self, k: &str, nested: bool) {
        if is_ident(k) && !(nested && self.l.quote_keys && self.r.chance(1, 2)) && (nested || self.r.chance(1, 2)) {
            self.push(k)
        } else {
            self.quoted(k)
        }
    }
    pub fn val(&mut self, v: &AVal) {
        match v {
            AVal::Null => self.push("null"),
            AVal::Bool(b) => self.push(&b.to_string()),
            AVal::Int(i) => self.push(&i.to_string()),
            AVal::Float(f) => {
                let t = match self.r.below(3) {
                    0 => format!("{:e}", f),
                    1 => format!("{:E}", f),
                    _ => format!("{:?}", f),
                };
                let t = if self.r.chance(1, 3) { plus_exponent(&t) } else { t };
                let t = if t.contains(|c| c == '.' || c == 'e' || c == 'E') { t } else { format!("{}.0", t) };
                self.push(&t)
            }
            AVal::Str(s) => {
                // a text that is a shape id may be written as one
                if is_id(s) && self.r.chance(1, 3) {
                    self.push(s)
                } else {
                    self.text(s)
                }
            }
            AVal::Arr(a) => {
                self.push("[");
                self.g();
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.sep();
                    }
                    self.val(x);
                }
                if !a.is_empty() && self.r.chance(1, 4) {
                    self.push(",");
                }
                self.g();
                self.push("]");
            }
            AVal::Obj(o) => {
                self.push("{");
                self.g();
                self.kvs(o.iter().collect(), true);
                self.g();
                self.push("}");
            }
        }
    }
    fn kvs(&mut self, mut kv: Vec<(&String, &AVal)>, nested: bool) {
        self.r.shuffle(&mut kv);
        let n = kv.len();
        for (i, (k, v)) in kv.into_iter().enumerate() {
            if i > 0 {
                self.sep();
            }
            if nested {
                self.key(k, true)
            } else {
                self.key(k, false)
            }
            self.g();
            self.push(":");
            self.g();
            self.val(v);
            if i + 1 == n && self.r.chance(1, 4) {
                self.push(",");
            }
        }
    }
    fn a_trait(&mut self, t: &Tb) {
        self.push("@");
        self.push(&t.0);
        match &t.1 {
            None => {
                if self.r.chance(1, 4) {
                    self.push("(");
                    self.g();
                    self.push(")");
                }
            }
            Some(AVal::Obj(o)) if o.is_empty() && self.r.chance(1, 2) => {
                if self.r.chance(1, 2) {
                    self.push("()");
                }
            }
            Some(AVal::Obj(o)) if !o.is_empty() && self.r.chance(2, 3) => {
                self.push("(");
                self.g();
                self.kvs(o.iter().collect(), false);
                self.g();
                self.push(")");
            }
            Some(v) => {
                self.push("(");
                self.g();
                self.val(v);
                self.g();
                self.push(")");
            }
        }
    }
    fn docs_traits(&mut self, ts: &[Tb], indent: &str) {
        let mut rest: Vec<&Tb> = vec![];
        let mut docs: Option<String> = None;
        for t in ts {
            match (&t.0[..], &t.1) {
                ("documentation", Some(AVal::Str(s))) if self.doc_ok && docs.is_none() && doc_friendly(s) && self.r.chance(1, 2) => docs = Some(s.clone()),
                _ => rest.push(t),
            }
        }
        if let Some(d) = docs {
            let n = self.nl();
            for l in d.split('\n') {
                self.push(indent);
                let plain = !l.starts_with(' ') && !l.starts_with('/') && self.r.chance(1, 4);
                self.push(if plain { "///" } else { "/// " });
                self.push(l);
                self.push(n);
                if self.l.ws == 2 && self.r.chance(1, 6) {
                    self.comment();
                }
            }
        }
        for t in rest {
            self.push(indent);
            self.a_trait(t);
            let n = self.nl();
            let one_line = self.l.ws > 0 && self.r.chance(1, 3);
            self.push(if one_line { " " } else { n });
            self.g();
        }
    }
    fn members(&mut self, ms: &[&Mem]) {
        self.g();
        self.push("{");
        let n = self.nl();
        self.push(n);
        for (i, m) in ms.iter().enumerate() {
            self.docs_traits(&m.traits, "    ");
            self.push("    ");
            self.push(&m.name);
            self.g();
            self.push(":");
            self.g();
            self.push(" ");
            self.push(&m.target);
            if i + 1 < ms.len() || self.r.chance(1, 3) {
                self.sep();
            }
            if self.l.ws == 0 || self.r.chance(1, 2) {
                self.push(n);
            }
        }
        self.g();
        self.push("}");
    }
    fn ids(&mut self, v: &[String]) -> String {
        let mut o = String::new();
        std::mem::swap(&mut o, &mut self.out);
        self.push("[");
        self.g();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.sep();
            }
            self.push(x);
        }
        self.g();
        self.push("]");
        std::mem::swap(&mut o, &mut self.out);
        o
    }
    fn props(&mut self, mut kv: Vec<(String, String)>) {
        self.r.shuffle(&mut kv);
        self.g();
        self.push("{");
        let n = self.nl();
        self.push(n);
        let k = kv.len();
        for (i, (a, b)) in kv.into_iter().enumerate() {
            self.push("    ");
            if self.l.ws > 0 && self.r.chance(1, 6) {
                self.push(&format!("\"{}\"", a));
            } else {
                self.push(&a);
            }
            self.g();
            self.push(":");
            self.g();
            self.push(" ");
            self.push(&b);
            if i + 1 < k {
                self.sep();
            }
            self.push(n);
        }
        self.push("}");
    }
    fn sub(&mut self, f: impl FnOnce(&mut Self)) -> String {
        let mut o = String::new();
        std::mem::swap(&mut o, &mut self.out);
        f(self);
        std::mem::swap(&mut o, &mut self.out);
        o
    }
    fn def(&mut self, d: &Def) {
        self.docs_traits(&d.traits, "");
        let kw = match &d.kind {
            DKind::Simple(i) => SIMPLE[*i],
            DKind::List(_) => "list",
            DKind::Set(_) => "set",
            DKind::Map(..) => "map",
            DKind::Structure(_) => "structure",
            DKind::Union(_) => "union",
            DKind::Service(_) => "service",
            DKind::Operation(_) => "operation",
            DKind::Resource(_) => "resource",
        };
        self.push(kw);
        self.s();
        self.push(&d.name);
        match &d.kind {
            DKind::Simple(_) => {}
            DKind::List(m) | DKind::Set(m) => self.members(&[m]),
            DKind::Map(k, v) => {
                if self.r.chance(1, 2) {
                    self.members(&[k, v])
                } else {
                    self.members(&[v, k])
                }
            }
            DKind::Structure(ms) | DKind::Union(ms) => self.members(&ms.iter().collect::<Vec<_>>()),
            DKind::Service(s) => {
                let v = self.sub(|e| e.text(&s.version));
                let mut kv = vec![("version".to_string(), v)];
                if !s.operations.is_empty() || self.r.chance(1, 4) {
                    let x = self.ids(&s.operations);
                    kv.push(("operations".into(), x));
                }
                if !s.resources.is_empty() || self.r.chance(1, 4) {
                    let x = self.ids(&s.resources);
                    kv.push(("resources".into(), x));
                }
                if !s.renames.is_empty() {
                    let x = self.sub(|e| {
                        e.push("{");
                        for (i, (k, v)) in s.renames.iter().enumerate() {
                            if i > 0 {
                                e.sep();
                            }
                            e.g();
                            e.push(&format!("\"{}\"", k));
                            e.g();
                            e.push(":");
                            e.g();
                            e.push(&format!("\"{}\"", v));
                        }
                        e.g();
                        e.push("}");
                    });
                    kv.push(("rename".into(), x));
                }
                self.props(kv);
            }
            DKind::Operation(o) => {
                let mut kv = vec![];
                kv.extend(o.input.iter().map(|x| ("input".to_string(), x.clone())));
                kv.extend(o.output.iter().map(|x| ("output".to_string(), x.clone())));
                if !o.errors.is_empty() || self.r.chance(1, 4) {
                    let x = self.ids(&o.errors);
                    kv.push(("errors".into(), x));
                }
                self.props(kv);
            }
            DKind::Resource(o) => {
                let mut kv = vec![];
                for (n, x) in o.lifecycle() {
                    kv.extend(x.iter().map(|x| (n.to_string(), x.clone())));
                }
                for (n, v) in [("operations", &o.operations), ("collectionOperations", &o.collection_operations), ("resources", &o.resources)] {
                    if !v.is_empty() || self.r.chance(1, 6) {
                        let x = self.ids(v);
                        kv.push((n.into(), x));
                    }
                }
                if !o.identifiers.is_empty() {
                    let x = self.sub(|e| {
                        e.push("{");
                        for (i, (k, v)) in o.identifiers.iter().enumerate() {
                            if i > 0 {
                                e.sep();
                            }
                            e.g();
                            if e.r.chance(1, 6) {
                                e.push(&format!("\"{}\"", k));
                            } else {
                                e.push(k);
                            }
                            e.g();
                            e.push(":");
                            e.g();
                            e.push(v);
                        }
                        e.g();
                        e.push("}");
                    });
                    kv.push(("identifiers".into(), x));
                }
                self.props(kv);
            }
        }
        self.end();
    }
    fn doc(&mut self, p: &Prog, version: Option<&str>) {
        if self.l.ws > 0 && self.r.chance(1, 3) {
            self.comment();
        }
        if let Some(v) = version {
            self.push("$");
            if self.r.chance(1, 6) {
                self.push("\"version\"");
            } else {
                self.push("version");
            }
            self.g();
            self.push(":");
            self.g();
            self.push(" ");
            self.push(v);
            self.end();
        }
        for (k, v) in &p.meta {
            self.push("metadata");
            self.s();
            self.key(k, false);
            self.g();
            self.push(" = ");
            self.g();
            self.val(v);
            self.end();
        }
        if p.ns.is_empty() {
            return;
        }
        self.push("namespace");
        self.s();
        self.push(&p.ns);
        self.end();
        for u in &p.uses {
            self.push("use");
            self.s();
            self.push(u);
            self.end();
        }
        let mut order: Vec<bool> = vec![true; p.defs.len()];
        order.extend(vec![false; p.applies.len()]);
        self.r.shuffle(&mut order);
        let (mut d, mut a) = (0, 0);
        for is_def in order {
            if is_def {
                self.def(&p.defs[d]);
                d += 1;
            } else {
                let (id, t) = &p.applies[a];
                a += 1;
                self.push("apply");
                self.s();
                self.push(id);
                self.s();
                self.a_trait(t);
                self.end();
            }
        }
        if self.l.ws > 0 && self.r.chance(1, 6) {
            self.push("// the end");
        }
    }
}

/// the same number with the sign of a positive exponent written
fn plus_exponent(t: &str) -> String {
    match t.find(['e', 'E']) {
        Some(i) if !t[i + 1..].starts_with('-') => format!("{}+{}", &t[..i + 1], &t[i + 1..]),
        _ => t.to_string(),
    }
}
pub fn is_ident(s: &str) -> bool {
    let mut p = Ps { t: s.chars().collect(), i: 0, k: Quirks::default(), used: Used::default(), object_keys_raw: true, deep: 0 };
    p.identifier().is_ok() && p.i == p.t.len()
}
fn is_id(s: &str) -> bool {
    let mut p = Ps { t: s.chars().collect(), i: 0, k: Quirks::default(), used: Used::default(), object_keys_raw: true, deep: 0 };
    p.shape_id().is_ok() && p.i == p.t.len() && !["true", "false", "null"].contains(&s)
}
/// can be the text of a text block at the left margin, read the same with and without incidental white space rules
pub fn block_friendly(s: &str) -> bool {
    !s.is_empty()
        && !s.starts_with([' ', '\t', '\n'])
        && !s.contains("\"\"")
        && !s.ends_with('"')
        && s.chars().all(|c| c == '\n' || ((c as u32) >= 0x20 && c != '\\'))
        && s.split('\n').all(|l| !l.ends_with([' ', '\t']))
}
fn doc_friendly(s: &str) -> bool {
    s.chars().all(|c| c == '\n' || c == '\t' || (c as u32) >= 0x20)
}
/// text that needs no escape
pub fn plain(s: &str) -> String {
    s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 0x20 { '_' } else { c }).collect()
}
pub fn plain_val(v: &AVal, keys: bool) -> AVal {
    match v {
        AVal::Str(s) => AVal::Str(plain(s)),
        AVal::Arr(a) => AVal::Arr(a.iter().map(|x| plain_val(x, keys)).collect()),
        AVal::Obj(o) => {
            let mut out = BTreeMap::new();
            for (i, (k, x)) in o.iter().enumerate() {
                let k = if keys {
                    if is_ident(k) { k.clone() } else { format!("key{}", i) }
                } else {
                    plain(k)
                };
                out.insert(k, plain_val(x, keys));
            }
            AVal::Obj(out)
        }
        x => x.clone(),
    }
}
/// A model without the things that known findings are about.
pub fn plain_model(m: &AModel) -> AModel {
    let mut out = AModel::default();
    let ts = |t: &Traits| -> Traits { t.iter().map(|(k, v)| (k.clone(), v.as_ref().map(|v| plain_val(v, true)))).collect() };
    for (k, v) in &m.metadata {
        out.metadata.insert(plain(k), plain_val(v, true));
    }
    for (id, s) in &m.shapes {
        let mut s = s.clone();
        s.traits = ts(&s.traits);
        let list = matches!(s.kind, AKind::List(_));
        for (_, mm) in s.kind.members_mut() {
            mm.traits = if list { Traits::new() } else { ts(&mm.traits) };
        }
        if let AKind::Service(x) = &mut s.kind {
            x.version = plain(&x.version);
        }
        out.shapes.insert(id.clone(), s);
    }
    out
}
