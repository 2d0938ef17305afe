//! X03: the PDF export is a well-formed file with one page per slide, and each page shows the
//! slide's title, its bullets and its code as far as there is room.
use super::x01::{items, roman};
use super::*;
use ppt_rs::api::Presentation;
use ppt_rs::export::pdf_export::{export_to_pdf_bytes, PdfExportOptions};
use ppt_rs::export::slide_render::render_to_pdf_bytes;
use ppt_rs::generator::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
enum Obj {
    Num(f64),
    Name(String),
    Str(Vec<u8>),
    Arr(Vec<Obj>),
    Dict(BTreeMap<String, Obj>),
    Ref(u32),
    Word(String),
}
impl Obj {
    fn get(&self, k: &str) -> Option<&Obj> {
        match self {
            Obj::Dict(d) => d.get(k),
            _ => None,
        }
    }
    fn num(&self) -> Option<f64> {
        match self {
            Obj::Num(n) => Some(*n),
            _ => None,
        }
    }
    fn name(&self) -> &str {
        match self {
            Obj::Name(n) => n,
            _ => "",
        }
    }
    fn arr(&self) -> &[Obj] {
        match self {
            Obj::Arr(a) => a,
            _ => &[],
        }
    }
}
type R<T> = Result<T, String>;
struct Lex<'a> {
    b: &'a [u8],
    at: usize,
}
fn white(c: u8) -> bool {
    matches!(c, 0 | 9 | 10 | 12 | 13 | 32)
}
fn delimiter(c: u8) -> bool {
    b"()<>[]{}/%".contains(&c)
}
impl Lex<'_> {
    fn skip(&mut self) {
        while self.at < self.b.len() {
            if white(self.b[self.at]) {
                self.at += 1;
            } else if self.b[self.at] == b'%' {
                while self.at < self.b.len() && !matches!(self.b[self.at], b'\n' | b'\r') {
                    self.at += 1;
                }
            } else {
                break;
            }
        }
    }
    fn done(&mut self) -> bool {
        self.skip();
        self.at >= self.b.len()
    }
    fn regular(&mut self) -> String {
        let s = self.at;
        while self.at < self.b.len() && !white(self.b[self.at]) && !delimiter(self.b[self.at]) {
            self.at += 1;
        }
        String::from_utf8_lossy(&self.b[s..self.at]).into_owned()
    }
    /// One object; a reference only where `refs` allows.
    fn obj(&mut self, refs: bool) -> R<Obj> {
        self.skip();
        let rest = &self.b[self.at..];
        match rest.first() {
            None => Err("the end".into()),
            Some(b'/') => {
                self.at += 1;
                Ok(Obj::Name(self.regular()))
            }
            Some(b'(') => self.string(),
            Some(b'<') if rest.starts_with(b"<<") => {
                self.at += 2;
                let mut d = BTreeMap::new();
                loop {
                    self.skip();
                    if self.b[self.at..].starts_with(b">>") {
                        self.at += 2;
                        return Ok(Obj::Dict(d));
                    }
                    let Obj::Name(k) = self.obj(refs)? else {
                        return Err("a dictionary key that is no name".into());
                    };
                    let v = self.obj(refs)?;
                    if d.insert(k.clone(), v).is_some() {
                        return Err(format!("{k} twice in a dictionary"));
                    }
                }
            }
            Some(b'<') => {
                let e = rest.iter().position(|c| *c == b'>').ok_or("an open string")?;
                let h: Vec<u8> = rest[1..e].iter().copied().filter(|c| !white(*c)).collect();
                self.at += e + 1;
                let mut out = vec![];
                for p in h.chunks(2) {
                    let t = if p.len() == 2 { [p[0], p[1]] } else { [p[0], b'0'] };
                    out.push(u8::from_str_radix(std::str::from_utf8(&t).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())?);
                }
                Ok(Obj::Str(out))
            }
            Some(b'[') => {
                self.at += 1;
                let mut a = vec![];
                loop {
                    self.skip();
                    if self.b.get(self.at) == Some(&b']') {
                        self.at += 1;
                        return Ok(Obj::Arr(a));
                    }
                    a.push(self.obj(refs)?);
                }
            }
            Some(c) if delimiter(*c) => Err(format!("a stray {:?}", *c as char)),
            _ => {
                let w = self.regular();
                let number = |w: &str| !w.is_empty() && w.bytes().enumerate().all(|(i, c)| c.is_ascii_digit() || c == b'.' || i == 0 && (c == b'-' || c == b'+')) && w.bytes().filter(|c| *c == b'.').count() < 2;
                if !number(&w) {
                    return Ok(Obj::Word(w));
                }
                if refs && w.bytes().all(|c| c.is_ascii_digit()) {
                    let back = self.at;
                    self.skip();
                    if self.regular() == "0" {
                        self.skip();
                        if self.regular() == "R" {
                            return w.parse().map(Obj::Ref).map_err(|_| w);
                        }
                    }
                    self.at = back;
                }
                w.parse().map(Obj::Num).map_err(|_| format!("a number {w:?}"))
            }
        }
    }
    fn string(&mut self) -> R<Obj> {
        let mut out = vec![];
        let mut deep = 1;
        self.at += 1;
        loop {
            let c = *self.b.get(self.at).ok_or("an open string")?;
            self.at += 1;
            match c {
                b'(' => deep += 1,
                b')' => {
                    deep -= 1;
                    if deep == 0 {
                        return Ok(Obj::Str(out));
                    }
                }
                b'\\' => {
                    let e = *self.b.get(self.at).ok_or("an open string")?;
                    self.at += 1;
                    match e {
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'0'..=b'7' => {
                            let mut v = (e - b'0') as u32;
                            for _ in 0..2 {
                                match self.b.get(self.at) {
                                    Some(d @ b'0'..=b'7') => {
                                        v = v * 8 + (d - b'0') as u32;
                                        self.at += 1;
                                    }
                                    _ => break,
                                }
                            }
                            out.push(v as u8);
                        }
                        b'\r' => {
                            if self.b.get(self.at) == Some(&b'\n') {
                                self.at += 1;
                            }
                        }
                        b'\n' => (),
                        c => out.push(c),
                    }
                    continue;
                }
                _ => (),
            }
            out.push(c);
        }
    }
}
struct Pdf {
    objs: BTreeMap<u32, (Obj, Option<Vec<u8>>)>,
    root: u32,
}
fn find(b: &[u8], what: &[u8], from: usize) -> Option<usize> {
    b[from..].windows(what.len()).position(|w| w == what).map(|p| p + from)
}
impl Pdf {
    fn read(b: &[u8]) -> R<Pdf> {
        if !b.starts_with(b"%PDF-1.") && !b.starts_with(b"%PDF-2.") {
            return Err("no header".into());
        }
        if !b.trim_ascii_end().ends_with(b"%%EOF") {
            return Err("no end".into());
        }
        let at = b.windows(9).rposition(|w| w == b"startxref").ok_or("no startxref")?;
        let mut l = Lex { b, at: at + 9 };
        let x = l.obj(false)?.num().ok_or("startxref")? as usize;
        if !b.get(x..).is_some_and(|r| r.starts_with(b"xref")) {
            return Err(format!("no xref table at {x}"));
        }
        let mut l = Lex { b, at: x + 4 };
        let (first, n) = (l.obj(false)?.num(), l.obj(false)?.num().ok_or("xref size")? as usize);
        if first != Some(0.0) {
            return Err("the xref table does not begin at 0".into());
        }
        l.skip();
        let start = l.at;
        let mut objs = BTreeMap::new();
        for k in 0..n {
            let e = b.get(start + 20 * k..start + 20 * k + 20).ok_or("a short xref table")?;
            let line = std::str::from_utf8(e).map_err(|e| e.to_string())?;
            if !line.as_bytes()[..10].iter().all(|c| c.is_ascii_digit()) || !matches!(&line[18..], " \n" | " \r" | "\r\n") || !matches!(&line[10..18], " 00000 n" | " 65535 f") {
                return Err(format!("xref line {line:?}"));
            }
            if line.as_bytes()[17] == b'f' {
                if k != 0 {
                    return Err(format!("object {k} is free"));
                }
                continue;
            }
            let mut o = Lex { b, at: line[..10].parse().unwrap() };
            let id = o.obj(false)?;
            if id != Obj::Num(k as f64) || o.obj(false)? != Obj::Num(0.0) || o.obj(false)? != Obj::Word("obj".into()) {
                return Err(format!("object {k} is not where the xref table says"));
            }
            let v = o.obj(true)?;
            let mut data = None;
            let mut end = o.obj(false)?;
            if end == Obj::Word("stream".into()) {
                if b[o.at..].starts_with(b"\r\n") {
                    o.at += 2;
                } else if b[o.at] == b'\n' {
                    o.at += 1;
                } else {
                    return Err(format!("the stream of object {k} begins without a line break"));
                }
                let len = v.get("Length").and_then(Obj::num).ok_or("a stream without a length")? as usize;
                data = Some(b.get(o.at..o.at + len).ok_or("a stream longer than the file")?.to_vec());
                o.at += len;
                if o.obj(false)? != Obj::Word("endstream".into()) {
                    return Err(format!("the stream of object {k} does not end after its {len} bytes"));
                }
                end = o.obj(false)?;
            }
            if end != Obj::Word("endobj".into()) {
                return Err(format!("object {k} ends with {end:?}"));
            }
            objs.insert(k as u32, (v, data));
        }
        let mut l = Lex { b, at: start + 20 * n };
        if l.obj(false)? != Obj::Word("trailer".into()) {
            return Err("no trailer after the xref table".into());
        }
        let t = l.obj(true)?;
        if t.get("Size").and_then(Obj::num) != Some(n as f64) {
            return Err(format!("a size of {:?}, {n} in the xref table", t.get("Size")));
        }
        let Some(Obj::Ref(root)) = t.get("Root") else {
            return Err("no root".into());
        };
        let p = Pdf { objs, root: *root };
        for (k, (o, _)) in &p.objs {
            p.refs(o).map_err(|e| format!("object {k}: {e}"))?;
        }
        Ok(p)
    }
    fn refs(&self, o: &Obj) -> R<()> {
        match o {
            Obj::Ref(n) if !self.objs.contains_key(n) => Err(format!("refers to {n}, which is not there")),
            Obj::Arr(a) => a.iter().try_for_each(|x| self.refs(x)),
            Obj::Dict(d) => d.values().try_for_each(|x| self.refs(x)),
            _ => Ok(()),
        }
    }
    fn at<'a>(&'a self, o: Option<&'a Obj>) -> R<&'a Obj> {
        match o {
            Some(Obj::Ref(n)) => self.objs.get(n).map(|x| &x.0).ok_or(format!("no object {n}")),
            Some(x) => Ok(x),
            None => Err("a missing entry".into()),
        }
    }
    /// The pages in order: box, fonts, content.
    fn pages(&self) -> R<Vec<Page>> {
        let cat = &self.objs.get(&self.root).ok_or("no catalog")?.0;
        if cat.get("Type").map(Obj::name) != Some("Catalog") {
            return Err("the root is no catalog".into());
        }
        let mut out = vec![];
        let Some(Obj::Ref(n)) = cat.get("Pages") else {
            return Err("no pages".into());
        };
        self.tree(*n, None, &mut out)?;
        Ok(out)
    }
    fn tree(&self, n: u32, parent: Option<u32>, out: &mut Vec<Page>) -> R<usize> {
        let o = &self.objs[&n].0;
        if o.get("Parent") != parent.map(Obj::Ref).as_ref() {
            return Err(format!("page object {n} has the parent {:?}", o.get("Parent")));
        }
        match o.get("Type").map(Obj::name) {
            Some("Pages") => {
                let mut total = 0;
                for k in self.at(o.get("Kids"))?.arr() {
                    let Obj::Ref(k) = k else {
                        return Err("a kid that is no reference".into());
                    };
                    if out.len() > 500 {
                        return Err("too many pages".into());
                    }
                    total += self.tree(*k, Some(n), out)?;
                }
                if o.get("Count").and_then(Obj::num) != Some(total as f64) {
                    return Err(format!("{:?} pages counted, {total} there", o.get("Count")));
                }
                Ok(total)
            }
            Some("Page") => {
                let b: Vec<f64> = self.at(o.get("MediaBox"))?.arr().iter().filter_map(Obj::num).collect();
                if b.len() != 4 || b[2] <= b[0] || b[3] <= b[1] {
                    return Err(format!("a page box of {b:?}"));
                }
                let res = self.at(o.get("Resources"))?;
                let mut fonts = BTreeMap::new();
                if let Obj::Dict(d) = self.at(res.get("Font"))? {
                    for (k, f) in d {
                        let f = self.at(Some(f))?;
                        fonts.insert(k.clone(), (f.get("BaseFont").map(|x| x.name().to_string()).unwrap_or_default(), f.get("Encoding").map(|x| x.name().to_string()).unwrap_or_default()));
                    }
                }
                let parts = match o.get("Contents") {
                    Some(Obj::Arr(a)) => a.clone(),
                    Some(x) => vec![x.clone()],
                    None => vec![],
                };
                let mut content = vec![];
                for p in parts {
                    let Obj::Ref(n) = p else {
                        return Err("content that is no reference".into());
                    };
                    content.extend(self.objs[&n].1.as_ref().ok_or("content that is no stream")?);
                    content.push(b'\n');
                }
                out.push(Page { w: b[2], h: b[3], fonts, content });
                Ok(1)
            }
            x => Err(format!("a page object of type {x:?}")),
        }
    }
}
struct Page {
    w: f64,
    h: f64,
    fonts: BTreeMap<String, (String, String)>,
    content: Vec<u8>,
}
#[derive(Clone, Debug)]
struct Text {
    x: f64,
    y: f64,
    font: String,
    size: f64,
    color: [f64; 3],
    text: String,
}
const HIGH: &str = "€\u{81}‚ƒ„…†‡ˆ‰Š‹Œ\u{8d}Ž\u{8f}\u{90}‘’“”•–—˜™š›œ\u{9d}žŸ";
fn shown(b: &[u8], encoding: &str) -> R<String> {
    b.iter()
        .map(|c| match (c, encoding) {
            (32..=126, _) => Ok(*c as char),
            (128..=159, "WinAnsiEncoding") => Ok(HIGH.chars().nth(*c as usize - 128).unwrap()),
            (160..=255, "WinAnsiEncoding") => Ok(*c as char),
            _ => Err(format!("byte {c} in a text under the encoding {encoding:?}")),
        })
        .collect()
}
/// The texts of a page in the order in which they are drawn.
fn draw(p: &Page) -> R<Vec<Text>> {
    let mut l = Lex { b: &p.content, at: 0 };
    let mut args: Vec<Obj> = vec![];
    let (mut inside, mut font, mut color) = (false, None::<(String, f64)>, [0.0; 3]);
    let mut saved = vec![];
    let mut path = false;
    let (mut pos, mut line) = ((0.0, 0.0), 0.0);
    let mut out = vec![];
    while !l.done() {
        let o = l.obj(false)?;
        let Obj::Word(op) = o else {
            args.push(o);
            continue;
        };
        let nums: Vec<f64> = args.iter().filter_map(Obj::num).collect();
        let want = match &op[..] {
            "BT" | "ET" | "q" | "Q" | "f" | "S" | "h" | "n" | "B" | "T*" | "s" | "W" => 0,
            "g" | "G" | "w" | "Tc" | "Tw" | "TL" | "Tz" => 1,
            "Td" | "TD" | "m" | "l" => 2,
            "rg" | "RG" => 3,
            "re" => 4,
            "cm" | "Tm" | "c" => 6,
            "d" => 1,
            "Tj" | "Tf" => 9,
            x => return Err(format!("the operator {x:?}")),
        };
        let fits = match &op[..] {
            "Tj" => matches!(&args[..], [Obj::Str(_)]),
            "Tf" => matches!(&args[..], [Obj::Name(_), Obj::Num(_)]),
            "d" => args.len() == 2,
            _ => args.len() == want && nums.len() == want,
        };
        if !fits {
            return Err(format!("{op} with {args:?}"));
        }
        match &op[..] {
            "BT" | "ET" => {
                if inside != (op == "ET") || path {
                    return Err(format!("a stray {op}"));
                }
                inside = !inside;
                pos = (0.0, 0.0);
            }
            "Td" | "TD" if inside => {
                pos = (pos.0 + nums[0], pos.1 + nums[1]);
                if op == "TD" {
                    line = -nums[1];
                }
            }
            "T*" if inside => pos.1 -= line,
            "TL" => line = nums[0],
            "Tm" if inside => pos = (nums[4], nums[5]),
            "Tf" => {
                let f = args[0].name();
                if !p.fonts.contains_key(f) {
                    return Err(format!("the font {f:?}, which the page has not"));
                }
                font = Some((f.to_string(), nums[0]));
            }
            "Tj" if inside => {
                let (f, size) = font.clone().ok_or("text without a font")?;
                let Obj::Str(s) = &args[0] else { unreachable!() };
                let (base, enc) = &p.fonts[&f];
                out.push(Text { x: pos.0, y: pos.1, font: base.clone(), size, color, text: shown(s, enc)? });
            }
            "rg" => {
                if nums.iter().any(|c| !(0.0..=1.0).contains(c)) {
                    return Err(format!("the colour {nums:?}"));
                }
                color = [nums[0], nums[1], nums[2]];
            }
            "g" => color = [nums[0]; 3],
            "q" if !inside => saved.push((color, font.clone())),
            "Q" if !inside => (color, font) = saved.pop().ok_or("a stray Q")?,
            "re" | "m" | "l" | "c" if !inside => path = true,
            "f" | "S" | "B" | "n" | "s" if !inside && path => path = false,
            "RG" | "G" | "w" | "Tc" | "Tw" | "Tz" | "d" => (),
            "h" | "W" | "cm" if !inside => (),
            x => return Err(format!("{x} out of place")),
        }
        args.clear();
    }
    if inside || path || !args.is_empty() || !saved.is_empty() {
        return Err("the content stops in the middle".into());
    }
    Ok(out)
}
/// A line of a deck as the standard fonts can show it.
fn line(s: &str) -> String {
    s.chars()
        .filter(|c| !c.is_control() || *c == '\t')
        .map(|c| match c {
            '\t' => ' ',
            ' '..='~' | '\u{a0}'..='\u{ff}' => c,
            c if HIGH.contains(c) => c,
            _ => '?',
        })
        .collect()
}
fn lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split('\n').map(line).collect();
    while v.last().is_some_and(|l| l.is_empty()) {
        v.pop();
    }
    v
}
fn prefix(b: &BulletPoint, number: Option<&str>, nth: usize) -> String {
    let letters = |a: u8| ((a + ((nth - 1) % 26) as u8) as char).to_string().repeat((nth - 1) / 26 + 1);
    match b.style {
        BulletStyle::Bullet => "•".into(),
        BulletStyle::Custom(c) => line(&c.to_string()),
        BulletStyle::None => String::new(),
        BulletStyle::LetterLower => letters(b'a') + ".",
        BulletStyle::LetterUpper => letters(b'A') + ".",
        BulletStyle::RomanLower => roman(nth),
        BulletStyle::RomanUpper => roman(nth).to_uppercase(),
        BulletStyle::Number => number.unwrap_or("").to_string() + ".",
    }
}
fn rgb(hex: &str) -> Option<[f64; 3]> {
    let h = hex.trim_start_matches('#');
    if h.len() != 6 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
        return None;
    }
    let v = |i: usize| u8::from_str_radix(&h[i..i + 2], 16).unwrap() as f64 / 255.0;
    Some([v(0), v(2), v(4)])
}
fn face(bold: bool, italic: bool) -> &'static str {
    match (bold, italic) {
        (false, false) => "Helvetica",
        (true, false) => "Helvetica-Bold",
        (false, true) => "Helvetica-Oblique",
        (true, true) => "Helvetica-BoldOblique",
    }
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 0.06
}
fn page(ch: &mut Ch, k: usize, n: usize, s: &SlideContent, p: &Page) -> Res {
    let t = match draw(p) {
        Ok(t) => t,
        Err(e) => {
            ch.check(false, "content", || format!("page {}: {e}: {}", k + 1, String::from_utf8_lossy(&p.content)));
            return Ok(());
        }
    };
    let dump = || format!("{:?}", t.iter().map(|t| (&t.text, t.x as i32, t.y as i32)).collect::<Vec<_>>());
    for x in &t {
        ch.check(x.y > 0.0 && x.y < p.h && x.x > 0.0 && x.x < p.w, "off the page", || format!("page {}: {x:?}", k + 1));
    }
    let mut i = 0;
    // texts without a character may be left out
    let skip = |i: &mut usize, want: &str| {
        while !want.trim().is_empty() && t.get(*i).is_some_and(|x| x.text.trim().is_empty()) {
            *i += 1;
        }
    };
    let mut y = f64::MAX;
    let title_size = s.title_size.unwrap_or(36) as f64 * 0.75;
    for w in lines(&s.title) {
        skip(&mut i, &w);
        if w.trim().is_empty() {
            continue;
        }
        let Some(x) = t.get(i).filter(|x| x.text.trim() == w.trim()) else {
            ch.check(false, "title", || format!("page {}: no line {w:?} in place {i}: {}", k + 1, dump()));
            return Ok(());
        };
        ch.check(x.y < y && x.font == face(s.title_bold, s.title_italic) && near(x.size, title_size), "title form", || format!("page {}: {x:?}", k + 1));
        if let Some(c) = s.title_color.as_deref().and_then(rgb) {
            ch.check((0..3).all(|i| (c[i] - x.color[i]).abs() < 0.001), "title colour", || format!("page {}: {x:?} instead of {c:?}", k + 1));
        }
        y = x.y;
        i += 1;
    }
    // the bullets, then the code, each line below the one before, as far as there is room
    let size = s.content_size.unwrap_or(24) as f64 * 0.75;
    struct Line {
        prefix: String,
        text: String,
        font: &'static str,
        size: f64,
        color: Option<[f64; 3]>,
        level: usize,
    }
    let mut want: Vec<Line> = vec![];
    let plain = s.content.iter().map(|c| BulletPoint::new(c).with_style(BulletStyle::None)).collect::<Vec<_>>();
    let bullets = if s.bullets.is_empty() { &plain } else { &s.bullets };
    let mut nth: Vec<(Option<BulletStyle>, usize)> = vec![];
    for (b, (level, number, _)) in bullets.iter().zip(items(bullets, false)) {
        nth.truncate(level + 1);
        nth.resize(level + 1, (None, 0));
        if nth[level].0 != Some(b.style) {
            nth[level] = (Some(b.style), 0);
        }
        nth[level].1 += 1;
        let f = b.format.clone().unwrap_or_default();
        for (j, l) in b.text.split('\n').enumerate() {
            want.push(Line {
                prefix: if j == 0 { prefix(b, number.as_deref(), nth[level].1) } else { String::new() },
                text: line(l),
                font: face(s.content_bold || f.bold, s.content_italic || f.italic),
                size: f.font_size.map(|x| x as f64 * 0.75).unwrap_or(size),
                color: f.color.as_deref().or(s.content_color.as_deref()).and_then(rgb),
                level,
            });
        }
    }
    for c in &s.code_blocks {
        for l in c.code.split('\n') {
            want.push(Line { prefix: String::new(), text: line(l), font: "Courier", size: size * 0.85, color: None, level: 0 });
        }
    }
    let mut room = false;
    let mut left: BTreeMap<usize, f64> = BTreeMap::new();
    for w in &want {
        skip(&mut i, &format!("{}{}", w.prefix, w.text));
        if w.prefix.is_empty() && w.text.trim().is_empty() {
            continue;
        }
        let have = |i: usize, w: &str| t.get(i).is_some_and(|x| x.text.trim() == w.trim() && i + 1 < t.len());
        let at = i;
        if !w.prefix.is_empty() {
            if !have(i, &w.prefix) {
                break;
            }
            i += 1;
            if w.text.trim().is_empty() {
                y = t[at].y;
                continue;
            }
        }
        if !have(i, &w.text) {
            i = at;
            break;
        }
        let x = &t[i];
        ch.check(x.y < y && near(t[at].y, x.y), "order", || format!("page {}: {x:?} is not below the line before: {}", k + 1, dump()));
        ch.check(x.font == w.font && near(x.size, w.size), "form", || format!("page {}: {x:?} instead of {} {}", k + 1, w.font, w.size));
        if let Some(c) = w.color {
            ch.check((0..3).all(|i| (c[i] - x.color[i]).abs() < 0.001), "colour", || format!("page {}: {x:?} instead of {c:?}", k + 1));
        }
        if !w.prefix.is_empty() {
            let l = *left.entry(w.level).or_insert(t[at].x);
            ch.check(near(l, t[at].x), "level", || format!("page {}: {} begins at another place than the level: {}", k + 1, w.text, dump()));
        }
        y = x.y;
        i += 1;
    }
    let lefts: Vec<f64> = left.values().copied().collect();
    ch.check(lefts.windows(2).all(|w| w[0] < w[1]), "level", || format!("page {}: levels begin at {lefts:?}", k + 1));
    // whatever is missing found no room
    let shown = t[..i.min(t.len())].iter().map(|x| x.text.clone()).collect::<Vec<_>>();
    while i + 1 < t.len() && t[i].text.trim().is_empty() {
        i += 1;
    }
    let lost = want.iter().any(|w| {
        let all = if w.text.trim().is_empty() { &w.prefix } else { &w.text };
        !all.trim().is_empty() && !shown.iter().any(|s| s.trim() == all.trim())
    });
    if lost {
        room = y > 54.0 + 3.0 * size * 1.5 && y < f64::MAX;
    }
    ch.check(!room, "lost", || format!("page {}: lines are missing though there is room: {}", k + 1, dump()));
    ch.check(i + 1 == t.len() && t[i].text == format!("{} / {n}", k + 1), "footer", || format!("page {}: line {i} is not the footer: {}", k + 1, dump()));
    Ok(())
}
/// The number of pages of a PDF file, as a strict reader finds them.
pub fn page_count(b: &[u8]) -> R<usize> {
    Ok(Pdf::read(b)?.pages()?.len())
}
fn judge(ch: &mut Ch, slides: &[SlideContent]) -> Res {
    let mut p = Presentation::with_title("deck");
    for s in slides {
        p = p.add_slide(s.clone());
    }
    let b = match guarded(|| render_to_pdf_bytes(&p)) {
        Err(e) => return Err(panic_fail(e)),
        Ok(Err(e)) => {
            ch.check(slides.is_empty(), "refused", || format!("no file: {e}"));
            return Ok(());
        }
        Ok(Ok(b)) => b,
    };
    ch.step();
    ch.outcome(hash_bytes(&b));
    let pages = match Pdf::read(&b).and_then(|p| p.pages()) {
        Ok(x) => x,
        Err(e) => {
            ch.check(false, "structure", || e.clone());
            return Ok(());
        }
    };
    ch.check(pages.len() == slides.len(), "pages", || format!("{} pages for {} slides", pages.len(), slides.len()));
    for (k, (s, p)) in slides.iter().zip(&pages).enumerate() {
        ch.state(hash_bytes(&p.content));
        page(ch, k, slides.len(), s, p)?;
    }
    ch.nontrivial(hash_bytes(&b));
    Ok(())
}
const TOKENS: &[&str] = &[
    "a", " ", "(", ")", "\\", "\n", "\r", "\t", "é", "€", "–", "日", "😀", "endstream", "%", "<<", "\u{0}", "\u{7f}", "\u{ad}", "Tj", "\\)", "n", "053", "•", "\u{301}",
];
fn texts(ch: &mut Ch, n: usize) -> Res {
    let place = ch.pick(5);
    let t: String = (0..n).map(|_| TOKENS[ch.pick(TOKENS.len())]).collect();
    let mut s = SlideContent::new("title").add_bullet("before");
    match place {
        0 => s.title = t,
        1 => s = s.add_bullet(&t).add_bullet("after"),
        2 => s.code_blocks = vec![CodeBlock::new(&t, "x"), CodeBlock::new("z", "y")],
        3 => {
            s.bullets.clear();
            s.content = vec![t, "after".into()];
        }
        _ => s = s.add_numbered(&t).layout(SlideLayout::CenteredTitle),
    }
    judge(ch, &[s])
}
const STYLES: &[BulletStyle] = super::x01::STYLES;
fn lists(ch: &mut Ch, n: usize) -> Res {
    let mut s = SlideContent::new("t");
    let n = ch.pick(n + 1);
    for k in 0..n {
        s.bullets.push(BulletPoint::new(&format!("b{k}")).with_level(ch.pick(3) as u32).with_style(STYLES[ch.pick(STYLES.len())]));
    }
    judge(ch, &[s])
}
/// Decks that fill their pages to every degree.
fn room(ch: &mut Ch) -> Res {
    let n = ch.pick(61);
    let kind = ch.pick(4);
    let size = *ch.of(&[24u32, 8, 40, 100]);
    let title = *ch.of(&[36u32, 10, 120]);
    let mut s = SlideContent::new("t").title_size(title).content_size(size);
    for k in 0..n {
        s = match kind {
            0 => s.add_bullet(&format!("b{k}")),
            1 => s.add_styled_bullet(&format!("b{k}"), BulletStyle::LetterLower),
            2 => s.add_styled_bullet(&format!("b{k}"), BulletStyle::RomanUpper),
            _ => s,
        };
    }
    if kind == 3 {
        s.code_blocks.push(CodeBlock::new(&(0..n).map(|k| format!("c{k}\n")).collect::<String>(), "x"));
    }
    judge(ch, &[s])
}
fn form(ch: &mut Ch) -> Res {
    const COLORS: [Option<&str>; 7] = [None, Some("FF8000"), Some("#0a0B0c"), Some("red"), Some("éééa"), Some("日本"), Some("12345")];
    let mut s = SlideContent::new("t").title_bold(ch.flag()).title_italic(ch.flag()).title_underline(ch.flag()).content_bold(ch.flag()).content_italic(ch.flag());
    s.title_color = COLORS[ch.pick(7)].map(str::to_string);
    s.content_color = COLORS[ch.pick(7)].map(str::to_string);
    let f = BulletTextFormat { bold: ch.flag(), italic: ch.flag(), color: COLORS[ch.pick(7)].map(str::to_string), font_size: *ch.of(&[None, Some(12)]), ..BulletTextFormat::new() };
    s = s.add_bullet("a").add_bullet("b").add_bullet("c");
    s.bullets[1].format = Some(f);
    s.layout = *ch.of(&[SlideLayout::TitleAndContent, SlideLayout::CenteredTitle]);
    judge(ch, &[s])
}
fn decks(ch: &mut Ch) -> Res {
    let n = *ch.of(&[0usize, 1, 2, 3, 9, 10, 11, 40, 120]);
    let kind = ch.pick(4);
    let slides: Vec<SlideContent> = (0..n)
        .map(|k| {
            let s = SlideContent::new(&format!("title {k}"));
            match (kind + k) % 4 {
                0 => s,
                1 => s.add_bullet("x"),
                2 => s.add_bullet("x").add_sub_bullet("y"),
                _ => {
                    let mut s = s;
                    s.code_blocks.push(CodeBlock::new("x\n  y", "z"));
                    s
                }
            }
        })
        .collect();
    judge(ch, &slides)
}
const SIZES: [u32; 6] = [0, 1, 400, 4000, 1 << 24, u32::MAX];
/// Sizes no page has room for leave the file well formed.
fn sizes(ch: &mut Ch) -> Res {
    let mut s = SlideContent::new("title").add_bullet("a").add_bullet("b");
    s.title_size = Some(SIZES[ch.pick(6)]);
    s.content_size = Some(SIZES[ch.pick(6)]);
    s.bullets[1].level = *ch.of(&[0, 9, 1 << 31, u32::MAX]);
    s.bullets[1].format = Some(BulletTextFormat { font_size: Some(SIZES[ch.pick(6)]), ..BulletTextFormat::new() });
    s.code_blocks.push(CodeBlock::new("x\n\ny\n", ""));
    s.layout = *ch.of(&[SlideLayout::TitleAndContent, SlideLayout::SectionHeader]);
    let p = Presentation::with_title("deck").add_slide(s);
    let b = match guarded(|| render_to_pdf_bytes(&p)) {
        Err(e) => return Err(panic_fail(e)),
        Ok(r) => r.map_err(|e| Fail { sig: "refused".into(), msg: e.to_string() })?,
    };
    ch.step();
    let r = Pdf::read(&b).and_then(|p| p.pages()).and_then(|p| if p.len() == 1 { draw(&p[0]).map(|_| ()) } else { Err("not one page".into()) });
    ch.check(r.is_ok(), "structure", || format!("{r:?}"));
    ch.nontrivial(hash_bytes(&b));
    ch.outcome(hash_bytes(&b));
    Ok(())
}
/// The document export: any deck's texts give a well-formed file.
fn documents(ch: &mut Ch, n: usize) -> Res {
    let place = ch.pick(super::x01::PLACES);
    let t: String = (0..n).map(|_| super::x01::TOKENS[ch.pick(super::x01::TOKENS.len())]).collect();
    let (deck, s) = super::x01::placed(place, &t);
    let p = Presentation::with_title(&deck).add_slide(s);
    let b = match guarded(|| export_to_pdf_bytes(&p, &PdfExportOptions::default())) {
        Err(e) => return Err(panic_fail(e)),
        Ok(r) => r.map_err(|e| Fail { sig: "refused".into(), msg: e.to_string() })?,
    };
    ch.step();
    let r = Pdf::read(&b).and_then(|p| p.pages()).map(|p| p.len());
    ch.check(r.as_ref().is_ok_and(|n| *n > 0), "document", || format!("{t:?}: {r:?}"));
    ch.nontrivial(hash_bytes(&b));
    ch.outcome(hash_bytes(&b));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "X03",
        level: "exploration",
        rule: "every deck of the stated sets through the real PDF export: the file, read by a strict reader, has a correct xref table, lengths and page tree with one page per slide in order; each page uses only its own fonts and well-formed operators, keeps its texts on the page and shows the title, then the bullets with their marks and the code in order and form, leaving out only what has no room, then its number",
        assumptions: &["the oracle's own PDF reader is correct", "characters outside of the standard fonts' encoding show as a question mark; lines longer than the page are not judged", "tables, pictures, shapes and notes are not part of this export"],
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 2 } else { 4 };
            let i = if q { 3 } else { 4 };
            let d = if q { 1 } else { 2 };
            vec![
                Scenario::new("texts", format!("all texts of up to {n} of {} tokens x 5 places", TOKENS.len()), 0, move |ch| {
                    let k = 1 + ch.pick(n);
                    texts(ch, k)
                }),
                Scenario::new("lists", format!("all lists of up to {i} items x 3 levels x 8 kinds of sign"), 0, move |ch| lists(ch, i)),
                Scenario::new("room", "0 to 60 lines x kinds x sizes", 0, room),
                Scenario::new("form", "all emphasis x colours x sizes x layouts", 0, form),
                Scenario::new("decks", "0 to 120 slides", 0, decks),
                Scenario::new("sizes", "extreme sizes and levels", 0, sizes),
                Scenario::new("documents", format!("the document export of all texts of up to {d} of {} tokens x {} places", super::x01::TOKENS.len(), super::x01::PLACES), 0, move |ch| {
                    let k = 1 + ch.pick(d);
                    documents(ch, k)
                }),
            ]
        },
        must_cover: || vec![],
    }
}
