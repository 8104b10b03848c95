//! A small strict XML 1.0 reader: elements, attributes, text, the five predefined entities and character references.
#[derive(Debug, Clone, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    pub text: String,
}
impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn named<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> {
        self.kids.iter().filter(move |k| k.name == n)
    }
}
pub fn allowed(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
struct P<'a> {
    s: &'a [char],
    i: usize,
}
type R<T> = Result<T, String>;
fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let from = self.i.saturating_sub(30);
        let to = (self.i + 30).min(self.s.len());
        Err(format!("{} near {:?}", m, self.s[from..to].iter().collect::<String>()))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn at(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.s.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.at(t) {
            self.i += t.chars().count();
            return true;
        }
        false
    }
    fn ws(&mut self) -> bool {
        let k = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > k
    }
    fn name(&mut self) -> R<String> {
        let k = self.i;
        match self.peek() {
            Some(c) if name_start(c) => {}
            _ => return self.err("name expected"),
        }
        while matches!(self.peek(), Some(c) if name_start(c) || c.is_numeric() || c == '-' || c == '.') {
            self.i += 1;
        }
        Ok(self.s[k..self.i].iter().collect())
    }
    fn entity(&mut self) -> R<char> {
        for (t, c) in [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&apos;", '\'')] {
            if self.eat(t) {
                return Ok(c);
            }
        }
        let radix = if self.eat("&#x") {
            16
        } else if self.eat("&#") {
            10
        } else {
            return self.err("unknown entity");
        };
        let k = self.i;
        while matches!(self.peek(), Some(c) if c.is_digit(radix)) {
            self.i += 1;
        }
        let t: String = self.s[k..self.i].iter().collect();
        if !self.eat(";") {
            return self.err("character reference not closed");
        }
        match u32::from_str_radix(&t, radix).ok().and_then(char::from_u32) {
            Some(c) if allowed(c) => Ok(c),
            _ => self.err("reference to a character XML does not allow"),
        }
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.at("<!--") {
                self.comment()?;
            } else if self.at("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.eat("<!--");
        while self.i < self.s.len() {
            if self.eat("--") {
                return if self.eat(">") { Ok(()) } else { self.err("-- in a comment") };
            }
            self.i += 1;
        }
        self.err("comment not closed")
    }
    fn pi(&mut self) -> R<()> {
        self.eat("<?");
        if self.name()?.to_lowercase() == "xml" {
            return self.err("XML declaration in the middle");
        }
        while self.i < self.s.len() {
            if self.eat("?>") {
                return Ok(());
            }
            self.i += 1;
        }
        self.err("instruction not closed")
    }
    fn element(&mut self) -> R<El> {
        if !self.eat("<") {
            return self.err("element expected");
        }
        let mut e = El { name: self.name()?, ..Default::default() };
        loop {
            let sp = self.ws();
            if self.eat("/>") {
                return Ok(e);
            }
            if self.eat(">") {
                break;
            }
            if !sp {
                return self.err("space expected");
            }
            let n = self.name()?;
            self.ws();
            if !self.eat("=") {
                return self.err("= expected");
            }
            self.ws();
            let q = match self.peek() {
                Some(q @ ('"' | '\'')) => q,
                _ => return self.err("quote expected"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("attribute not closed"),
                    Some(c) if c == q => {
                        self.i += 1;
                        break;
                    }
                    Some('<') => return self.err("< in an attribute"),
                    Some('&') => v.push(self.entity()?),
                    Some('\t' | '\n' | '\r') => {
                        v.push(' ');
                        self.i += 1;
                    }
                    Some(c) => {
                        v.push(c);
                        self.i += 1;
                    }
                }
            }
            if e.attr(&n).is_some() {
                return self.err("attribute repeated");
            }
            e.attrs.push((n, v));
        }
        loop {
            if self.at("<!--") {
                self.comment()?;
            } else if self.at("</") {
                self.eat("</");
                let n = self.name()?;
                self.ws();
                if n != e.name || !self.eat(">") {
                    return self.err(&format!("</{}> expected", e.name));
                }
                return Ok(e);
            } else if self.eat("<![CDATA[") {
                while !self.at("]]>") {
                    match self.peek() {
                        Some(c) => e.text.push(c),
                        None => return self.err("CDATA not closed"),
                    }
                    self.i += 1;
                }
                self.eat("]]>");
            } else if self.at("<?") {
                self.pi()?;
            } else if self.at("<") {
                let k = self.element()?;
                e.kids.push(k);
            } else if self.at("]]>") {
                return self.err("]]> in text");
            } else if self.at("&") {
                e.text.push(self.entity()?);
            } else {
                match self.peek() {
                    None => return self.err(&format!("<{}> not closed", e.name)),
                    Some('\r') => {
                        // line ends are normalised
                        self.i += 1;
                        if self.peek() != Some('\n') {
                            e.text.push('\n');
                        }
                    }
                    Some(c) => {
                        e.text.push(c);
                        self.i += 1;
                    }
                }
            }
        }
    }
}
pub fn parse(text: &str) -> Result<El, String> {
    let s: Vec<char> = text.chars().collect();
    if let Some(c) = s.iter().find(|c| !allowed(**c)) {
        return Err(format!("character {:?} is not allowed in XML", c));
    }
    let mut p = P { s: &s, i: 0 };
    if p.eat("<?xml") {
        while !p.eat("?>") {
            if p.i >= s.len() {
                return p.err("declaration not closed");
            }
            p.i += 1;
        }
    }
    p.misc()?;
    let e = p.element()?;
    p.misc()?;
    if p.i != s.len() {
        return p.err("text after the document");
    }
    Ok(e)
}
