//! Independent strict, namespace-aware XML 1.0 parser (oracle; shares no code with ppt-rs).
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Debug, Clone, PartialEq)]
pub struct Attr {
    pub ns: Arc<str>,
    pub local: Arc<str>,
    pub value: String,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    E(Elem),
    T(String),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Elem {
    pub ns: Arc<str>,
    pub local: Arc<str>,
    pub prefix: Arc<str>,
    pub attrs: Vec<Attr>,
    pub kids: Vec<Node>,
}

pub const NS_A: &str = "http://schemas.openxmlformats.org/drawingml/2006/main";
pub const NS_R: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
pub const NS_P: &str = "http://schemas.openxmlformats.org/presentationml/2006/main";
pub const NS_C: &str = "http://schemas.openxmlformats.org/drawingml/2006/chart";
pub const NS_PR: &str = "http://schemas.openxmlformats.org/package/2006/relationships";
pub const NS_CT: &str = "http://schemas.openxmlformats.org/package/2006/content-types";
pub const NS_XML: &str = "http://www.w3.org/XML/1998/namespace";

impl Elem {
    pub fn is(&self, ns: &str, local: &str) -> bool {
        &*self.local == local && &*self.ns == ns
    }
    pub fn attr(&self, local: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.ns.is_empty() && &*a.local == local).map(|a| a.value.as_str())
    }
    pub fn attr_ns(&self, ns: &str, local: &str) -> Option<&str> {
        self.attrs.iter().find(|a| &*a.ns == ns && &*a.local == local).map(|a| a.value.as_str())
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| if let Node::E(e) = k { Some(e) } else { None })
    }
    pub fn child(&self, local: &str) -> Option<&Elem> {
        self.elems().find(|e| &*e.local == local)
    }
    pub fn path(&self, p: &[&str]) -> Option<&Elem> {
        let mut e = self;
        for x in p {
            e = e.child(x)?;
        }
        Some(e)
    }
    pub fn children<'a>(&'a self, local: &'a str) -> impl Iterator<Item = &'a Elem> + 'a {
        self.elems().filter(move |e| &*e.local == local)
    }
    /// Direct character data.
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            if let Node::T(t) = k {
                s.push_str(t)
            }
        }
        s
    }
    pub fn deep_text(&self) -> String {
        let mut s = String::new();
        fn go(e: &Elem, s: &mut String) {
            for k in &e.kids {
                match k {
                    Node::T(t) => s.push_str(t),
                    Node::E(e) => go(e, s),
                }
            }
        }
        go(self, &mut s);
        s
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Elem)) {
        f(self);
        for e in self.elems() {
            e.walk(f)
        }
    }
    /// All descendants-or-self with this local name, document order.
    pub fn all<'a>(&'a self, local: &str) -> Vec<&'a Elem> {
        let mut v = vec![];
        self.walk(&mut |e| {
            if &*e.local == local {
                v.push(e)
            }
        });
        v
    }
    /// Canonical string (attributes sorted; whitespace-only text between elements dropped).
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.local);
        let mut at: Vec<_> = self.attrs.iter().map(|a| format!(" {}{}={:?}", if a.ns.is_empty() { "" } else { "@" }, a.local, a.value)).collect();
        at.sort();
        for a in at {
            s.push_str(&a)
        }
        s.push('>');
        let has_e = self.elems().next().is_some();
        for k in &self.kids {
            match k {
                Node::E(e) => e.canon_into(s),
                Node::T(t) => {
                    if !(has_e && t.trim().is_empty()) {
                        s.push_str(&format!("{:?}", t))
                    }
                }
            }
        }
        s.push_str("</>");
    }
}

thread_local! { static INTERN: RefCell<HashMap<String, Arc<str>>> = RefCell::new(HashMap::new()); }
fn intern(s: &str) -> Arc<str> {
    INTERN.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(a) = m.get(s) {
            return a.clone();
        }
        if m.len() > 20000 {
            m.clear();
        }
        let a: Arc<str> = s.into();
        m.insert(s.to_string(), a.clone());
        a
    })
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn name_start(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn name_char(c: char) -> bool {
    name_start(c) || c == '-' || c == '.' || c.is_numeric() || c == '\u{b7}'
}

struct P<'a> {
    s: &'a str,
    i: usize,
    ns: Vec<(String, Arc<str>)>,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn err<T>(&self, m: impl Into<String>) -> R<T> {
        let mut a = self.i.saturating_sub(60);
        while !self.s.is_char_boundary(a) {
            a -= 1
        }
        let mut b = (self.i + 40).min(self.s.len());
        while !self.s.is_char_boundary(b) {
            b += 1
        }
        Err(format!("{} at byte {} near {:?}", m.into(), self.i, &self.s[a..b]))
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) -> bool {
        let b = self.s.as_bytes();
        let st = self.i;
        while self.i < b.len() && matches!(b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1
        }
        self.i > st
    }
    fn ncname(&mut self) -> R<&'a str> {
        let r = self.rest();
        let mut end = 0;
        for (k, c) in r.char_indices() {
            if (k == 0 && !name_start(c)) || !name_char(c) {
                break;
            }
            end = k + c.len_utf8();
        }
        if end == 0 {
            return self.err("expected a name");
        }
        self.i += end;
        Ok(&r[..end])
    }
    fn qname(&mut self) -> R<(&'a str, &'a str)> {
        let a = self.ncname()?;
        if self.rest().starts_with(':') {
            self.i += 1;
            let b = self.ncname()?;
            Ok((a, b))
        } else {
            Ok(("", a))
        }
    }
    fn reference(&mut self, out: &mut String) -> R<()> {
        // at '&'
        let r = self.rest();
        let Some(e) = r.find(';') else { return self.err("unterminated reference") };
        let n = &r[1..e];
        let c = match n {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = n.strip_prefix("#x") {
                    if h.is_empty() || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
                        return self.err("bad char reference");
                    }
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                        return self.err("bad char reference");
                    }
                    d.parse().ok()
                } else {
                    return self.err(format!("unknown entity or bare '&'"));
                };
                match v.and_then(char::from_u32) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return self.err("reference to a character XML cannot represent"),
                }
            }
        };
        out.push(c);
        self.i += e + 1;
        Ok(())
    }
    fn attr_value(&mut self) -> R<String> {
        let q = match self.rest().as_bytes().first() {
            Some(b'"') => '"',
            Some(b'\'') => '\'',
            _ => return self.err("expected quoted attribute value"),
        };
        self.i += 1;
        let mut v = String::new();
        loop {
            let Some(c) = self.rest().chars().next() else { return self.err("unterminated attribute") };
            if c == q {
                self.i += 1;
                return Ok(v);
            }
            match c {
                '<' => return self.err("'<' in attribute value"),
                '&' => self.reference(&mut v)?,
                '\r' => {
                    self.i += 1;
                    if self.rest().starts_with('\n') {
                        self.i += 1
                    }
                    v.push(' ');
                }
                '\n' | '\t' => {
                    self.i += 1;
                    v.push(' ')
                }
                _ => {
                    if !is_xml_char(c) {
                        return self.err(format!("illegal character U+{:04X}", c as u32));
                    }
                    v.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
    fn lookup(&self, p: &str) -> Option<Arc<str>> {
        self.ns.iter().rev().find(|(k, _)| k == p).map(|x| x.1.clone())
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") {
                self.comment()?
            } else if self.rest().starts_with("<?") {
                self.pi()?
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.i += 4;
        let Some(e) = self.rest().find("--") else { return self.err("unterminated comment") };
        if let Some(c) = self.rest()[..e].chars().find(|c| !is_xml_char(*c)) {
            return self.err(format!("illegal character U+{:04X} in comment", c as u32));
        }
        self.i += e + 2;
        if !self.eat(">") {
            return self.err("'--' in comment");
        }
        Ok(())
    }
    fn pi(&mut self) -> R<()> {
        self.i += 2;
        let n = self.ncname()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("misplaced XML declaration");
        }
        let Some(e) = self.rest().find("?>") else { return self.err("unterminated PI") };
        self.i += e + 2;
        Ok(())
    }
    fn element(&mut self, depth: usize) -> R<Elem> {
        if depth > 300 {
            return self.err("too deep");
        }
        if !self.eat("<") {
            return self.err("expected '<'");
        }
        let (pfx, local) = self.qname()?;
        let mut raw: Vec<(&'a str, &'a str, String)> = vec![];
        let nsmark = self.ns.len();
        let empty;
        loop {
            let had = self.ws();
            if self.eat("/>") {
                empty = true;
                break;
            }
            if self.eat(">") {
                empty = false;
                break;
            }
            if !had {
                return self.err("expected whitespace, '>' or '/>' in tag");
            }
            let (ap, al) = self.qname()?;
            self.ws();
            if !self.eat("=") {
                return self.err("expected '='");
            }
            self.ws();
            let v = self.attr_value()?;
            if raw.iter().any(|(p, l, _)| *p == ap && *l == al) {
                return self.err(format!("duplicate attribute {al}"));
            }
            if ap == "xmlns" {
                if v.is_empty() {
                    return self.err("empty namespace for prefix");
                }
                self.ns.push((al.to_string(), intern(&v)));
            } else if ap.is_empty() && al == "xmlns" {
                self.ns.push((String::new(), intern(&v)));
            }
            raw.push((ap, al, v));
        }
        let ns = match self.lookup(pfx) {
            Some(n) => n,
            None if pfx.is_empty() => intern(""),
            None => return self.err(format!("undeclared prefix {pfx}")),
        };
        let mut attrs: Vec<Attr> = Vec::with_capacity(raw.len());
        for (ap, al, v) in raw {
            if ap == "xmlns" || (ap.is_empty() && al == "xmlns") {
                continue;
            }
            let an = if ap.is_empty() {
                intern("")
            } else if let Some(n) = self.lookup(ap) {
                n
            } else {
                return self.err(format!("undeclared prefix {ap}"));
            };
            if attrs.iter().any(|x| x.ns == an && &*x.local == al) {
                return self.err(format!("duplicate attribute {al}"));
            }
            attrs.push(Attr { ns: an, local: intern(al), value: v });
        }
        let mut e = Elem { ns, local: intern(local), prefix: intern(pfx), attrs, kids: vec![] };
        if !empty {
            let mut t = String::new();
            loop {
                let r = self.rest();
                let Some(c) = r.chars().next() else { return self.err(format!("unclosed element {local}")) };
                match c {
                    '<' => {
                        if r.starts_with("</") {
                            if !t.is_empty() {
                                e.kids.push(Node::T(std::mem::take(&mut t)));
                            }
                            self.i += 2;
                            let (p2, l2) = self.qname()?;
                            if p2 != pfx || l2 != local {
                                return self.err(format!("mismatched end tag {l2}, expected {local}"));
                            }
                            self.ws();
                            if !self.eat(">") {
                                return self.err("bad end tag");
                            }
                            break;
                        } else if r.starts_with("<!--") {
                            self.comment()?;
                        } else if r.starts_with("<![CDATA[") {
                            self.i += 9;
                            let Some(en) = self.rest().find("]]>") else { return self.err("unterminated CDATA") };
                            let d = &self.rest()[..en];
                            if let Some(c) = d.chars().find(|c| !is_xml_char(*c)) {
                                return self.err(format!("illegal character U+{:04X}", c as u32));
                            }
                            t.push_str(&d.replace("\r\n", "\n").replace('\r', "\n"));
                            self.i += en + 3;
                        } else if r.starts_with("<?") {
                            self.pi()?;
                        } else {
                            if !t.is_empty() {
                                e.kids.push(Node::T(std::mem::take(&mut t)));
                            }
                            let k = self.element(depth + 1)?;
                            e.kids.push(Node::E(k));
                        }
                    }
                    '&' => self.reference(&mut t)?,
                    '\r' => {
                        self.i += 1;
                        if self.rest().starts_with('\n') {
                            self.i += 1
                        }
                        t.push('\n');
                    }
                    _ => {
                        // fast path: run of plain characters
                        let mut end = 0;
                        for (k, c) in r.char_indices() {
                            if matches!(c, '<' | '&' | '\r') {
                                break;
                            }
                            if !is_xml_char(c) {
                                self.i += k;
                                return self.err(format!("illegal character U+{:04X}", c as u32));
                            }
                            if c == ']' && r[k..].starts_with("]]>") {
                                return self.err("']]>' in character data");
                            }
                            end = k + c.len_utf8();
                        }
                        t.push_str(&r[..end]);
                        self.i += end;
                    }
                }
            }
        }
        self.ns.truncate(nsmark);
        Ok(e)
    }
}

pub fn parse(bytes: &[u8]) -> Result<Elem, String> {
    let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let s = s.strip_prefix('\u{feff}').unwrap_or(s);
    parse_str(s)
}
pub fn parse_str(s: &str) -> Result<Elem, String> {
    let mut p = P { s, i: 0, ns: vec![("xml".into(), intern(NS_XML))] };
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\n', '\r']) {
        let Some(e) = p.rest().find("?>") else { return p.err("unterminated XML declaration") };
        let d = &p.rest()[5..e];
        if !d.contains("version=") {
            return p.err("XML declaration without version");
        }
        if let Some(k) = d.find("encoding=") {
            let enc = d[k + 9..].trim_start_matches(['"', '\'']).to_ascii_lowercase();
            if !enc.starts_with("utf-8") {
                return p.err("encoding is not UTF-8");
            }
        }
        p.i = e + 2;
    }
    p.misc()?;
    if p.rest().starts_with("<!DOCTYPE") {
        return p.err("DOCTYPE");
    }
    let e = p.element(0)?;
    p.misc()?;
    if p.i != s.len() {
        return p.err("content after the root element");
    }
    Ok(e)
}

/// The text XML can carry: characters outside XML's repertoire removed.
pub fn representable(s: &str) -> String {
    s.chars().filter(|c| is_xml_char(*c)).collect()
}
