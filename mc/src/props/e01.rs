//! E01/E02: histories of edits against a list of slides; everything else stays as it was.
use super::*;
use crate::decks::*;
use crate::pkg::{self, Pkg};
use crate::xml::{Elem, Node, NS_R};
use ppt_rs::generator::*;
use ppt_rs::oxml::{PresentationEditor, PresentationReader};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Cursor;
use std::rc::Rc;
use std::sync::{Mutex, OnceLock};

// ---- starting decks ----

type Mk = fn() -> Vec<u8>;
fn gen(s: Vec<SlideContent>, st: PresentationSettings) -> Vec<u8> {
    create_pptx_with_settings("Start", &s, Some(st)).unwrap()
}
fn t(n: usize) -> SlideContent {
    SlideContent::new(&format!("S{n}")).add_bullet(&format!("body {n}"))
}
fn rich(n: usize) -> SlideContent {
    t(n).add_image(Image::from_bytes(png(1), 9, 9, "PNG")).add_chart(chart(ChartType::Bar, &format!("c{n}"))).notes(&format!("note {n}"))
}
fn link(n: usize, to: u32) -> Shape {
    Shape::new(ShapeType::Rectangle, 1000, 2000, 300000, 400000).with_text(&format!("jump {n}")).with_hyperlink(Hyperlink::slide(to))
}
fn edit_text(b: Vec<u8>, part: &str, f: impl Fn(&str) -> String) -> Vec<u8> {
    let mut p = Pkg::from_bytes(&b).unwrap();
    let s = f(&p.text(part));
    p.set(part, s);
    p.to_zip()
}
/// The deck as other programs store it: other part names, ids, order, an extension list with sections, a custom show.
fn foreign() -> Vec<u8> {
    let b = gen(vec![t(0), rich(1).add_shape(link(1, 3)), t(2).add_shape(link(2, 1))], PresentationSettings::new());
    let p = Pkg::from_bytes(&b).unwrap();
    let mut q = Pkg::default();
    let nm = |s: &str| s.replace("slides/slide1.xml", "slides/slide30.xml").replace("slides/slide2.xml", "slides/slide4.xml").replace("slides/slide3.xml", "slides/slide1.xml").replace("slides/_rels/slide1.xml", "slides/_rels/slide30.xml").replace("slides/_rels/slide2.xml", "slides/_rels/slide4.xml").replace("slides/_rels/slide3.xml", "slides/_rels/slide1.xml");
    let tx = |s: &str| {
        s.replace("slides/slide1.xml", "slides/slide@30.xml").replace("slides/slide2.xml", "slides/slide@4.xml").replace("slides/slide3.xml", "slides/slide@1.xml")
            .replace("Target=\"slide1.xml", "Target=\"slide@30.xml").replace("Target=\"slide2.xml", "Target=\"slide@4.xml").replace("Target=\"slide3.xml", "Target=\"slide@1.xml").replace('@', "")
    };
    for (n, v) in &p.parts {
        let v2 = if n.ends_with(".rels") || n == "[Content_Types].xml" { tx(&String::from_utf8_lossy(v)).into_bytes() } else { v.clone() };
        let n2 = if n.starts_with("ppt/slides/") { let k = n.matches(char::is_numeric).collect::<String>(); match k.as_str() { "1" => n.replace('1', "30"), "2" => n.replace('2', "4"), "3" => n.replace('3', "1"), _ => nm(n) } } else { n.clone() };
        q.set(&n2, v2);
    }
    // presentation with sections and a custom show; single quotes, comments, other spacing
    let s = q.text("ppt/presentation.xml");
    let rels = q.rels("ppt/presentation.xml");
    let rid = |part: &str| rels.iter().find(|r| r.part == part).map(|r| r.id.clone()).unwrap();
    let (a, b2, c) = (rid("ppt/slides/slide30.xml"), rid("ppt/slides/slide4.xml"), rid("ppt/slides/slide1.xml"));
    let i = s.find("<p:sldIdLst>").unwrap();
    let j = s.find("</p:sldIdLst>").unwrap();
    let list = format!("<p:sldIdLst><!-- <p:sldId id=\"1\"/> -->\n  <p:sldId r:id='{a}' id='300'/>\n  <p:sldId id=\"256\" r:id=\"{b2}\"></p:sldId><p:sldId id=\"2147483647\" r:id=\"{c}\"/>");
    let mut s = format!("{}{list}{}", &s[..i], &s[j..]);
    let cust = format!("<p:custShowLst><p:custShow name=\"Show\" id=\"0\"><p:sldLst><p:sld r:id=\"{c}\"/><p:sld r:id=\"{a}\"/></p:sldLst></p:custShow></p:custShowLst>");
    let n = s.find("<p:notesSz").unwrap();
    let n = n + s[n..].find("/>").unwrap() + 2;
    s.insert_str(n, &cust);
    let e = s.rfind("</p:presentation>").unwrap();
    s.insert_str(e, "<p:extLst><p:ext uri=\"{521415D9-36F7-43E2-AB2F-B90AF26B5E84}\"><p14:sectionLst xmlns:p14=\"http://schemas.microsoft.com/office/powerpoint/2010/main\"><p14:section name=\"One &amp; two\" id=\"{00000000-0000-0000-0000-000000000001}\"><p14:sldIdLst><p14:sldId id=\"300\"/><p14:sldId id=\"256\"/></p14:sldIdLst></p14:section><p14:section name=\"Rest\" id=\"{00000000-0000-0000-0000-000000000002}\"><p14:sldIdLst><p14:sldId id=\"2147483647\"/></p14:sldIdLst></p14:section></p14:sectionLst></p:ext></p:extLst>");
    q.set("ppt/presentation.xml", s);
    q.to_zip()
}
const STARTS: &[(&str, Mk)] = &[
    ("one", || gen(vec![t(0)], PresentationSettings::new())),
    ("two", || gen(vec![t(0), t(1)], PresentationSettings::new())),
    ("three", || gen(vec![t(0), t(1).layout(SlideLayout::TwoColumn).add_bullet("r"), t(2)], PresentationSettings::new())),
    ("rich", || gen(vec![rich(0), rich(1).table(table("x")), t(2).layout(SlideLayout::SectionHeader).add_image(Image::from_bytes(png(2), 9, 9, "PNG"))], PresentationSettings::new())),
    ("links", || gen(vec![t(0).add_shape(link(0, 2)).add_shape(link(0, 1)), t(1).add_shape(link(1, 1)).notes("n1"), t(2).add_shape(link(2, 2)).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_text("web").with_hyperlink(Hyperlink::url("http://x/?a=1&b=2")))], PresentationSettings::new())),
    ("settings", || {
        let mut st = PresentationSettings::new();
        for (n, f) in SETTINGS {
            if matches!(*n, "theme" | "show-range" | "handouts" | "fonts2" | "signature") {
                st = f(st);
            }
        }
        gen(vec![t(0).with_ink(ink()), rich(1).with_transition(TransitionType::Fade)], st)
    }),
    ("foreign", foreign),
    ("notes-pictures", || gen((0..3).map(|i| t(i).notes(&format!("n{i}")).add_image(Image::from_bytes(jpeg(i as u8), 9, 9, "JPG"))).collect(), PresentationSettings::new())),
    ("charts", || gen((0..2).map(|i| t(i).add_chart(chart(ChartType::Pie, &format!("a{i}"))).add_chart(chart(ChartType::Line, &format!("b{i}")))).collect(), PresentationSettings::new())),
    ("other-names", || edit_text(gen(vec![t(0), t(1)], PresentationSettings::new()), "ppt/presentation.xml", |s| s.replace("<p:", "<x:").replace("</p:", "</x:").replace("xmlns:p=", "xmlns:x=").replace("r:id=", "q:id=").replace("xmlns:r=", "xmlns:q="))),
];
fn start_file(k: usize) -> &'static (String, Pkg) {
    static F: OnceLock<Mutex<HashMap<usize, &'static (String, Pkg)>>> = OnceLock::new();
    let mut m = F.get_or_init(Default::default).lock().unwrap();
    m.entry(k).or_insert_with(|| {
        let b = STARTS[k].1();
        let path = picture_file(&format!("start{k}.pptx"), &b);
        Box::leak(Box::new((path, Pkg::from_bytes(&b).unwrap())))
    })
}
pub fn start_count() -> usize {
    STARTS.len()
}
pub fn start(k: usize) -> (&'static str, &'static Pkg) {
    (STARTS[k].0, &start_file(k).1)
}
/// Contents for new slides.
type Mc = fn(usize) -> SlideContent;
const CONTENTS: &[(&str, Mc)] = &[
    ("text", |n| SlideContent::new(&format!("N{n}")).add_bullet(&format!("new {n}"))),
    ("picture+notes", |n| SlideContent::new(&format!("N{n}")).add_image(Image::from_bytes(png(1), 9, 9, "PNG")).add_image(Image::from_bytes(gif(n as u8), 9, 9, "GIF")).notes(&format!("nn {n}"))),
    ("charts", |n| SlideContent::new(&format!("N{n}")).layout(SlideLayout::TitleOnly).add_chart(chart(ChartType::Bar, &format!("d{n}"))).add_chart(chart(ChartType::Scatter, &format!("e{n}")))),
    ("link+table", |n| SlideContent::new(&format!("N{n}")).add_shape(link(n, 1)).table(table(&n.to_string())).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::email("a@b.c")))),
    ("ink+code+blank", |n| { let mut s = SlideContent::new("").layout(SlideLayout::Blank).with_ink(ink()).add_shape(Shape::new(ShapeType::Ellipse, 1, 2, 3, 4).with_text(&format!("new shape {n}"))); s.code_blocks.push(CodeBlock::new("let x;", "rust")); s }),
];

// ---- fingerprints ----

struct Tok<'a> {
    /// what a link to a slide part means; None = dead
    slide: &'a dyn Fn(&str) -> Option<String>,
    own: &'a str,
    own_token: &'a str,
}
fn is_hlink(e: &Elem) -> bool {
    matches!(&*e.local, "hlinkClick" | "hlinkHover" | "hlinkMouseOver")
}
fn canon(e: &Elem, rels: &HashMap<String, Option<String>>, out: &mut String) {
    if is_hlink(e) {
        if let Some(r) = e.attr_ns(NS_R, "id") {
            if matches!(rels.get(r), Some(None)) {
                return;
            }
        }
    }
    out.push_str(&format!("<{{{}}}{}", e.ns, e.local));
    let mut a: Vec<String> = e
        .attrs
        .iter()
        .map(|a| if &*a.ns == NS_R { format!(" r:{}={}", a.local, rels.get(&a.value).cloned().flatten().unwrap_or_else(|| format!("?{}", a.value))) } else { format!(" {{{}}}{}={:?}", a.ns, a.local, a.value) })
        .collect();
    a.sort();
    out.push_str(&a.concat());
    out.push('>');
    for k in &e.kids {
        match k {
            Node::E(c) => canon(c, rels, out),
            Node::T(t) if e.kids.iter().any(|k| matches!(k, Node::E(_))) && t.trim().is_empty() => {}
            Node::T(t) => out.push_str(&format!("{t:?}")),
        }
    }
    out.push_str("</>");
}
/// Structure of a part and everything that belongs to it, without names and ids.
fn fp(p: &Pkg, part: &str, tok: &Tok, depth: usize) -> String {
    if depth > 6 {
        return "deep".into();
    }
    let mut map: HashMap<String, Option<String>> = HashMap::new();
    let mut list = vec![];
    for r in p.rels(part) {
        let k = pkg::short(&r.ty);
        let tk = if r.external {
            Some(format!("ext:{}", r.target))
        } else if !p.parts.contains_key(&r.part) {
            Some(format!("missing:{}", r.part))
        } else {
            match &*k {
                "slide" if r.part == tok.own && part != tok.own => Some(tok.own_token.to_string()),
                "slide" => (tok.slide)(&r.part),
                "slideLayout" => Some(p.with_doc(&r.part, |d| format!("layout:{}:{}", d.attr("type").unwrap_or(""), d.path(&["cSld"]).and_then(|c| c.attr("name")).unwrap_or(""))).unwrap_or_default()),
                "notesMaster" => Some("notesMaster".into()),
                _ => Some(format!("{:x}", hash_str(&fp(p, &r.part, tok, depth + 1)))),
            }
        };
        if let Some(t) = &tk {
            list.push(format!("{k}={t}"));
        }
        map.insert(r.id, tk);
    }
    list.sort();
    list.dedup();
    let mut out = format!("{:?} {list:?} ", p.content_type(part));
    if part.ends_with(".xml") {
        match p.with_doc(part, |d| { let mut s = String::new(); canon(d, &map, &mut s); s }) {
            Ok(s) => out += &s,
            Err(e) => out += &e,
        }
    } else {
        out += &format!("{:x}", hash_bytes(p.get(part).unwrap_or(b"")));
    }
    out
}

// ---- the model ----

struct Src {
    pkg: Rc<Pkg>,
    part: String,
    /// identities of the slides of that package
    ids: HashMap<String, usize>,
}
/// Where a slide comes from: the starting deck, or new content at a place in a deck.
#[derive(Clone)]
enum Origin {
    Start(Rc<Src>),
    Made { at: usize, order: Vec<usize>, content: SlideContent },
}
impl Origin {
    fn src(&self) -> Result<Rc<Src>, Fail> {
        thread_local! {
            static CACHE: std::cell::RefCell<HashMap<u64, Rc<Pkg>>> = Default::default();
        }
        match self {
            Origin::Start(s) => Ok(s.clone()),
            Origin::Made { at, order, content } => {
                let key = hash_str(&format!("{at} {} {content:?}", order.len()));
                let p = match CACHE.with(|c| c.borrow().get(&key).cloned()) {
                    Some(p) => p,
                    None => {
                        let mut v = vec![SlideContent::new("").layout(SlideLayout::Blank); order.len()];
                        v[*at] = content.clone();
                        let p = Rc::new(pkg_of(&bytes_of(create_pptx_with_content("x", v), "reference deck")?)?);
                        CACHE.with(|c| c.borrow_mut().insert(key, p.clone()));
                        p
                    }
                };
                let s = p.slides();
                let ids = s.iter().cloned().zip(order.iter().copied()).collect();
                Ok(Rc::new(Src { part: s[*at].clone(), pkg: p, ids }))
            }
        }
    }
}
#[derive(Clone)]
struct Slide {
    id: usize,
    title: String,
    body: Vec<String>,
    src: Origin,
    updated_without_notes: bool,
    copy: bool,
}
struct Run {
    ed: PresentationEditor,
    list: Vec<Slide>,
    next: usize,
    log: Vec<String>,
    start: Option<usize>,
    file: String,
    new_notes: bool,
}
fn err<E: std::fmt::Display>(what: &str, log: &[String]) -> impl FnOnce(E) -> Fail {
    let (w, l) = (what.to_string(), log.join(", "));
    move |e| Fail { sig: format!("error:{w}"), msg: format!("{l}: {e}") }
}
fn text_of(s: &SlideContent) -> (String, Vec<String>) {
    let body = matches!(s.layout, SlideLayout::TitleAndContent | SlideLayout::TitleAndBigContent | SlideLayout::TwoColumn) && s.table.is_none();
    (if s.layout == SlideLayout::Blank { String::new() } else { s.title.clone() }, if body { s.bullets.iter().map(|b| b.text.clone()).collect() } else { vec![] })
}
impl Run {
    fn new(start: Option<usize>, worker: usize) -> Result<Run, Fail> {
        let file = scratch().join(format!("e-{worker}.pptx")).to_str().unwrap().to_string();
        let mut r = match start {
            None => Run { ed: PresentationEditor::new(), list: vec![], next: 0, log: vec!["new".into()], start, file, new_notes: false },
            Some(k) => {
                let (path, p) = start_file(k);
                let ed = PresentationEditor::open(path).map_err(err("open", &[STARTS[k].0.to_string()]))?;
                let slides = p.slides();
                let ids: HashMap<String, usize> = slides.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect();
                let pk = Rc::new(p.clone());
                let list = slides
                    .iter()
                    .enumerate()
                    .map(|(i, s)| {
                        let (title, body) = p.with_doc(s, |d| texts(d)).unwrap_or_default();
                        Slide { id: i, title, body, src: Origin::Start(Rc::new(Src { pkg: pk.clone(), part: s.clone(), ids: ids.clone() })), updated_without_notes: false, copy: false }
                    })
                    .collect();
                Run { ed, list, next: slides.len(), log: vec![format!("open {}", STARTS[k].0)], start, file, new_notes: false }
            }
        };
        r.log.truncate(1);
        Ok(r)
    }
    fn made(&self, at: usize, c: &SlideContent, order: Vec<usize>, id: usize, updated: bool) -> Slide {
        let (title, body) = text_of(c);
        Slide { id, title, body, src: Origin::Made { at, order, content: c.clone() }, updated_without_notes: updated && c.notes.is_none(), copy: false }
    }
    fn op(&mut self, ch: &mut Ch, contents: &[usize], boundary: bool) -> Result<(), Fail> {
        let n = self.list.len();
        // one past the end and far beyond are tried as invalid indices
        let ix = |ch: &mut Ch, valid: usize| if boundary { [0, 1, 2, 3, 4, 5, 6, 7, 8, 9][ch.pick(valid + 1)] } else if valid == 0 { usize::MAX } else { ch.pick(valid) };
        macro_rules! invalid {
            ($r:expr, $what:expr) => {{
                self.log.push(format!("invalid {}", $what));
                let r = $r;
                ch.check(r.is_err(), "invalid-accepted", || format!("{}: accepted", self.log.join(", ")));
                return Ok(());
            }};
        }
        match ch.pick(7) {
            0 => {
                let c = CONTENTS[contents[ch.pick(contents.len())]];
                let s = (c.1)(self.next);
                self.log.push(format!("add {}", c.0));
                let r = self.ed.add_slide(s.clone()).map_err(err("add", &self.log))?;
                ch.check(r == n, "index", || format!("{}: index {r}", self.log.join(", ")));
                let id = self.next;
                let m = self.made(n, &s, self.list.iter().map(|s| s.id).chain([id]).collect(), id, false);
                self.new_notes |= s.notes.is_some();
                self.list.push(m);
                self.next += 1;
            }
            1 => {
                let c = CONTENTS[contents[ch.pick(contents.len())]];
                let i = ix(ch, n + 1);
                let s = (c.1)(self.next);
                if i > n {
                    invalid!(self.ed.insert_slide(i, s), format!("insert {i}"));
                }
                self.log.push(format!("insert {i} {}", c.0));
                let r = self.ed.insert_slide(i, s.clone()).map_err(err("insert", &self.log))?;
                ch.check(r == i, "index", || format!("{}: index {r}", self.log.join(", ")));
                let id = self.next;
                let mut order: Vec<usize> = self.list.iter().map(|s| s.id).collect();
                order.insert(i, id);
                let m = self.made(i, &s, order, id, false);
                self.new_notes |= s.notes.is_some();
                self.list.insert(i, m);
                self.next += 1;
            }
            2 => {
                let c = CONTENTS[contents[ch.pick(contents.len())]];
                let i = ix(ch, n);
                let s = (c.1)(self.next);
                if i >= n {
                    invalid!(self.ed.update_slide(i, s), format!("update {i}"));
                }
                self.log.push(format!("update {i} {}", c.0));
                self.ed.update_slide(i, s.clone()).map_err(err("update", &self.log))?;
                let order = self.list.iter().map(|s| s.id).collect();
                self.new_notes |= s.notes.is_some();
                self.list[i] = self.made(i, &s, order, self.list[i].id, true);
                self.next += 1;
            }
            3 => {
                let i = ix(ch, n);
                if i >= n {
                    invalid!(self.ed.duplicate_slide(i), format!("duplicate {i}"));
                }
                self.log.push(format!("duplicate {i}"));
                let r = self.ed.duplicate_slide(i).map_err(err("duplicate", &self.log))?;
                ch.check(r == i + 1, "index", || format!("{}: index {r}", self.log.join(", ")));
                let mut m = self.list[i].clone();
                m.id = self.next;
                m.copy = true;
                self.next += 1;
                self.list.insert(i + 1, m);
            }
            4 => {
                let i = ix(ch, n);
                if i >= n {
                    invalid!(self.ed.remove_slide(i), format!("remove {i}"));
                }
                self.log.push(format!("remove {i}"));
                self.ed.remove_slide(i).map_err(err("remove", &self.log))?;
                self.list.remove(i);
            }
            5 => {
                let (i, j) = (ix(ch, n), ix(ch, n));
                if i >= n || j >= n {
                    invalid!(self.ed.reorder_slide(i, j), format!("reorder {i} {j}"));
                }
                self.log.push(format!("reorder {i} {j}"));
                self.ed.reorder_slide(i, j).map_err(err("reorder", &self.log))?;
                let s = self.list.remove(i);
                self.list.insert(j, s);
            }
            _ => {
                self.log.push("save+open".into());
                self.ed.save(&self.file).map_err(err("save", &self.log))?;
                self.ed = PresentationEditor::open(&self.file).map_err(err("reopen", &self.log))?;
            }
        }
        Ok(())
    }
    /// E01: the list of slides with their texts, as the editor and the reader see it.
    fn check_list(&self, ch: &mut Ch) -> Res {
        let log = || self.log.join(", ");
        let n = self.list.len();
        ch.check(self.ed.slide_count() == n, "count", || format!("{}: {} slides, wanted {n}", log(), self.ed.slide_count()));
        let want: Vec<(String, Vec<String>)> = self.list.iter().map(|s| (s.title.clone(), s.body.clone())).collect();
        let got: Vec<_> = (0..self.ed.slide_count()).map(|i| self.ed.get_slide(i).map(|s| (s.title.unwrap_or_default(), s.body_text)).unwrap_or_else(|e| (format!("error {e}"), vec![]))).collect();
        ch.check(got == want, "editor-slides", || format!("{}: editor shows {got:?}, wanted {want:?}", log()));
        ch.check(self.ed.get_slide(n).is_err(), "beyond", || format!("{}: slide {n} of {n} exists", log()));
        self.ed.save(&self.file).map_err(err("save", &self.log))?;
        let r = PresentationReader::open(&self.file).map_err(err("read", &self.log))?;
        let got: Vec<_> = (0..r.slide_count()).map(|i| r.get_slide(i).map(|s| (s.title.unwrap_or_default(), s.body_text)).unwrap_or_else(|e| (format!("error {e}"), vec![]))).collect();
        ch.check(got == want, "saved-slides", || format!("{}: saved file holds {got:?}, wanted {want:?}", log()));
        // and as an independent reader sees it
        let p = pkg_of(&std::fs::read(&self.file).unwrap_or_default())?;
        let got: Vec<_> = p.slides().iter().map(|s| p.with_doc(s, |d| texts(d)).unwrap_or_else(|e| (e, vec![]))).collect();
        ch.check(got == want, "stored-slides", || format!("{}: stored slides are {got:?}, wanted {want:?}", log()));
        ch.state(hash_str(&format!("{want:?}")));
        ch.outcome(hash_str(&format!("{want:?}")));
        Ok(())
    }
    /// E02: a closed package in which the other slides and parts are as before.
    fn check_package(&self, ch: &mut Ch) -> Res {
        let log = || self.log.join(", ");
        let mut c = Cursor::new(vec![]);
        self.ed.package().save_writer(&mut c).map_err(err("save", &self.log))?;
        let b = c.into_inner();
        let p = pkg_of(&b)?;
        let (_, fs) = pkg::check(&p);
        ch.report_all(fs.into_iter().map(|f| Fail { sig: f.sig, msg: format!("{}: {}", log(), f.msg) }).collect());
        let v = ppt_rs::core::validate_package_bytes(&b);
        ch.check(v.is_valid(), "own-validation", || format!("{}: {:?}", log(), v.issues));
        let slides = p.slides();
        if slides.len() != self.list.len() {
            return fail("count", format!("{}: {} slides, wanted {}", log(), slides.len(), self.list.len()));
        }
        let now: HashMap<&str, usize> = slides.iter().map(|s| s.as_str()).zip(self.list.iter().map(|s| s.id)).collect();
        let alive: HashSet<usize> = self.list.iter().map(|s| s.id).collect();
        for (s, part) in self.list.iter().zip(&slides) {
            let own = format!("s{}", s.id);
            let src = s.src.src()?;
            let got = fp(&p, part, &Tok { slide: &|q| Some(format!("s{}", now.get(q).map_or(usize::MAX, |i| *i))), own: part, own_token: &own }, 0);
            // links of a copy to the slide it was copied from may lead to either
            let mut variants = vec![];
            for self_is_own in [false, true] {
                let tok = |q: &str| {
                    let id = src.ids.get(q).copied().unwrap_or(usize::MAX);
                    if self_is_own && q == src.part { Some(own.clone()) } else { alive.contains(&id).then(|| format!("s{id}")) }
                };
                variants.push(fp(&src.pkg, &src.part, &Tok { slide: &tok, own: &src.part, own_token: &own }, 0));
            }
            if !s.copy {
                variants.truncate(1);
            }
            let notes_kept = s.updated_without_notes && !p.rel_of_type(part, "notesSlide").is_empty();
            ch.check(variants.contains(&got) || notes_kept, if s.copy { "copy-changed" } else { "slide-changed" }, || format!("{}: slide {} ({}, {part}) is\n{got}\nwanted\n{}", log(), s.id, s.title, variants[0]));
        }
        // presentation-wide parts
        if let Some(k) = self.start {
            let old = &start_file(k).1;
            let mut of_slides: HashSet<String> = old.slides().into_iter().collect();
            let mut q: Vec<String> = of_slides.iter().cloned().collect();
            while let Some(x) = q.pop() {
                for r in old.rels(&x) {
                    if !r.external && !matches!(&*pkg::short(&r.ty), "slideLayout" | "notesMaster" | "slide") && of_slides.insert(r.part.clone()) {
                        q.push(r.part);
                    }
                }
            }
            for (n, v) in &old.parts {
                let src = pkg::source_of_rels(n).unwrap_or_else(|| n.clone());
                if of_slides.contains(&src) || matches!(n.as_str(), "[Content_Types].xml" | "ppt/presentation.xml" | "ppt/_rels/presentation.xml.rels" | "docProps/app.xml" | "docProps/core.xml") {
                    continue;
                }
                ch.check(p.get(n) == Some(v.as_slice()), format!("part-changed:{}", pkg::generic(n)), || format!("{}: {n} is {}", log(), if p.get(n).is_some() { "changed" } else { "gone" }));
                ch.check(n.ends_with(".rels") || p.content_type(n) == old.content_type(n), format!("type-changed:{}", pkg::generic(n)), || format!("{}: {n} is now {:?}", log(), p.content_type(n)));
            }
            let props = |p: &Pkg| p.with_doc("docProps/core.xml", |d| d.elems().filter(|e| !matches!(&*e.local, "modified" | "revision" | "lastModifiedBy")).map(|e| e.canon()).collect::<Vec<_>>());
            ch.check(props(&p) == props(old), "properties-changed", || format!("{}: {:?}", log(), props(&p)));
            let (a, b) = (presentation(old, &old.slides(), &(0..).take(old.slides().len()).collect::<Vec<_>>(), &alive, self.new_notes), presentation(&p, &slides, &self.list.iter().map(|s| s.id).collect::<Vec<_>>(), &alive, self.new_notes));
            ch.check(a == b, "presentation-changed", || format!("{}: presentation is\n{b:?}\nwanted\n{a:?}", log()));
        }
        ch.state(hash_str(&format!("{:?}", self.list.iter().map(|s| (s.id, &s.title)).collect::<Vec<_>>())));
        ch.outcome(hash_str(&format!("{:?}", p.parts.keys().collect::<Vec<_>>())));
        Ok(())
    }
}
/// The presentation part apart from its slide list: references to slides by identity, others by part.
fn presentation(p: &Pkg, slides: &[String], ids: &[usize], alive: &HashSet<usize>, new_notes: bool) -> BTreeMap<String, String> {
    let main = p.rel_of_type("", "officeDocument").first().map(|r| r.part.clone()).unwrap_or_default();
    let who: HashMap<&str, usize> = slides.iter().map(|s| s.as_str()).zip(ids.iter().copied()).collect();
    let mut out: BTreeMap<String, String> = BTreeMap::new();
    let mut by_num: HashMap<String, String> = HashMap::new();
    let mut map: HashMap<String, Option<String>> = HashMap::new();
    for r in p.rels(&main) {
        let k = pkg::short(&r.ty);
        match who.get(r.part.as_str()) {
            Some(i) => {
                map.insert(r.id.clone(), alive.contains(i).then(|| format!("s{i}")));
            }
            None => {
                map.insert(r.id.clone(), Some(r.part.clone()));
                if !(new_notes && k == "notesMaster") {
                    out.entry(format!("rel {k}")).or_default().push_str(&format!("{} ", r.part));
                }
            }
        }
    }
    let r = p.with_doc(&main, |d| {
        if let Some(l) = d.child("sldIdLst") {
            for e in l.elems() {
                if let (Some(id), Some(r)) = (e.attrs.iter().find(|a| a.ns.is_empty() && &*a.local == "id"), e.attr_ns(NS_R, "id")) {
                    by_num.insert(id.value.clone(), map.get(r).cloned().flatten().unwrap_or_else(|| "dead".into()));
                }
            }
        }
        let mut v = vec![];
        for e in d.elems().filter(|e| &*e.local != "sldIdLst" && !(new_notes && &*e.local == "notesMasterIdLst")) {
            let mut s = String::new();
            pres_canon(e, &map, &by_num, &mut s);
            v.push(s);
        }
        v
    });
    out.insert("presentation".into(), format!("{r:?}"));
    out
}
fn pres_canon(e: &Elem, rels: &HashMap<String, Option<String>>, num: &HashMap<String, String>, out: &mut String) {
    let rid = e.attr_ns(NS_R, "id");
    if &*e.local == "sld" && rid.is_some_and(|r| rels.get(r).cloned().flatten().is_none()) {
        return;
    }
    let section_entry = &*e.local == "sldId";
    if section_entry && e.attr("id").is_some_and(|i| num.get(i).is_none_or(|v| v == "dead")) {
        return;
    }
    out.push_str(&format!("<{}", e.local));
    let mut a: Vec<String> = e
        .attrs
        .iter()
        .map(|a| {
            if &*a.ns == NS_R {
                format!(" r:{}={:?}", a.local, rels.get(&a.value))
            } else if section_entry && &*a.local == "id" {
                format!(" slide={}", num[&a.value])
            } else {
                format!(" {}={:?}", a.local, a.value)
            }
        })
        .collect();
    a.sort();
    out.push_str(&a.concat());
    out.push('>');
    for c in e.elems() {
        pres_canon(c, rels, num, out);
    }
    out.push_str("</>");
}
/// Title and body texts of a slide as generated by this library (by shape name).
fn texts(d: &Elem) -> (String, Vec<String>) {
    let mut title = String::new();
    let mut body = vec![];
    for sp in d.all("sp") {
        let n = sp.path(&["nvSpPr", "cNvPr"]).and_then(|c| c.attr("name")).unwrap_or("");
        let paras = || sp.child("txBody").map(|t| t.children("p").map(super::g02::para_text).collect::<Vec<_>>()).unwrap_or_default();
        if n == "Title" {
            title = paras().join("\n");
        } else if n.contains("Content") {
            body.extend(paras().into_iter().filter(|t| !t.is_empty()));
        }
    }
    (title, body)
}

fn history(ch: &mut Ch, starts: &[Option<usize>], depth: usize, contents: &[usize], boundary: bool, package: bool) -> Res {
    let st = starts[ch.pick(starts.len())];
    let mut r = Run::new(st, ch.worker)?;
    let mut res = Ok(());
    for k in 0..depth {
        // every prefix is a history of its own
        if k > 0 && ch.flag() {
            break;
        }
        ch.step();
        res = r.op(ch, contents, boundary);
        if res.is_err() {
            break;
        }
    }
    let l = r.log.join(", ");
    ch.note(|| l.clone());
    ch.nontrivial(hash_str(&l));
    res?;
    if package {
        r.check_package(ch)
    } else {
        r.check_list(ch)
    }
}
fn names(s: &[Option<usize>]) -> String {
    s.iter().map(|k| k.map_or("new", |k| STARTS[k].0)).collect::<Vec<_>>().join(", ")
}
fn sc(name: &'static str, starts: &'static [Option<usize>], depth: usize, contents: &'static [usize], boundary: bool, package: bool) -> Scenario<'static> {
    Scenario::new(
        name,
        format!("all edit histories up to {depth} operations{} from: {}; new contents: {}", if boundary { ", with indices one past the end" } else { "" }, names(starts), contents.iter().map(|c| CONTENTS[*c].0).collect::<Vec<_>>().join(", ")),
        0,
        move |ch| history(ch, starts, depth, contents, boundary, package),
    )
}
const N: Option<usize> = None;
pub fn prop() -> Prop {
    Prop {
        id: "E01",
        level: "model_checking",
        rule: "every history of add, insert, update, duplicate, remove, reorder and save+reopen on the real editor, up to the depth, against a list of slides; every prefix is checked as a history of its own",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            vec![
                sc("histories", if q { &[N, Some(1)] } else { &[N, Some(0), Some(1), Some(2)] }, if q { 3 } else { 4 }, &[0], false, false),
                sc("boundaries", &[N, Some(0), Some(2)], if q { 2 } else { 3 }, &[0], true, false),
                sc("contents", if q { &[Some(3), Some(6), Some(9)] } else { &[N, Some(1), Some(3), Some(4), Some(6), Some(9)] }, if q { 2 } else { 3 }, if q { &[1, 3, 4] } else { &[0, 1, 3, 4] }, false, false),
                Scenario::new("long", format!("up to {} slides added, then one removed, moved or duplicated at each place", if q { 14 } else { 40 }), 0, move |ch| {
                    let mut r = Run::new([N, Some(1), Some(6)][ch.pick(3)], ch.worker)?;
                    let n = 8 + ch.pick(if q { 7 } else { 33 });
                    while r.list.len() < n {
                        let s = (CONTENTS[0].1)(r.next);
                        let at = r.list.len();
                        r.ed.add_slide(s.clone()).map_err(err("add", &r.log))?;
                        let id = r.next;
                        let m = r.made(0, &s, vec![id], id, false);
                        r.list.insert(at, m);
                        r.next += 1;
                    }
                    r.log.push(format!("add up to {n}"));
                    let i = ch.pick(n);
                    match ch.pick(3) {
                        0 => {
                            r.log.push(format!("remove {i}"));
                            r.ed.remove_slide(i).map_err(err("remove", &r.log))?;
                            r.list.remove(i);
                        }
                        1 => {
                            r.log.push(format!("duplicate {i}"));
                            r.ed.duplicate_slide(i).map_err(err("duplicate", &r.log))?;
                            let m = r.list[i].clone();
                            r.list.insert(i + 1, m);
                        }
                        _ => {
                            let j = *ch.of(&[0, n / 2, n - 1]);
                            r.log.push(format!("reorder {i} {j}"));
                            r.ed.reorder_slide(i, j).map_err(err("reorder", &r.log))?;
                            let m = r.list.remove(i);
                            r.list.insert(j, m);
                        }
                    }
                    let l = r.log.join(", ");
                    ch.note(|| l.clone());
                    ch.nontrivial(hash_str(&l));
                    ch.step();
                    r.check_list(ch)
                }),
            ]
        },
        must_cover: || vec![],
    }
}
pub fn prop2() -> Prop {
    Prop {
        id: "E02",
        level: "model_checking",
        rule: "every history of edits on the real editor, up to the depth, from decks with pictures, charts, notes, links and settings; the stored package is then checked completely and every slide and presentation-wide part compared with its origin by content",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let mut v = vec![
                sc("features", if q { &[Some(3), Some(4), Some(5), Some(6), Some(7), Some(8)] } else { &[N, Some(3), Some(4), Some(5), Some(6), Some(7), Some(8)] }, 2, if q { &[1, 2, 3] } else { &[0, 1, 2, 3, 4] }, false, true),
                sc("plain", if q { &[N, Some(9)] } else { &[N, Some(0), Some(1), Some(9)] }, 3, if q { &[0] } else { &[0, 4] }, false, true),
                sc("boundaries", &[Some(3), Some(6)], 2, &[1], true, true),
            ];
            if !q {
                v.push(sc("deep", &[Some(4), Some(6), Some(8)], 3, &[1], false, true));
                v.push(sc("deeper", &[Some(3), Some(5), Some(7)], 3, &[1, 2], false, true));
                v.push(sc("four", &[N, Some(1)], 4, &[0], false, true));
            }
            v
        },
    must_cover: || vec![],
    }
}
