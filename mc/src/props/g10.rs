//! G10: every link leads where it was asked to.
use super::*;
use crate::decks::{self, *};
use crate::pkg::{self, Pkg, Rel};
use crate::xml::{representable, Elem, NS_R};
use ppt_rs::generator::hyperlinks::*;
use ppt_rs::generator::*;

type Mk = fn() -> HyperlinkAction;
const ACTIONS: &[(&str, Mk)] = &[
    ("url", || HyperlinkAction::url("https://x.example/a?b=1&c=<d>\"e'#f")),
    ("url2", || HyperlinkAction::url("http://second.example/")),
    ("first", || HyperlinkAction::FirstSlide),
    ("last", || HyperlinkAction::LastSlide),
    ("next", || HyperlinkAction::NextSlide),
    ("previous", || HyperlinkAction::PreviousSlide),
    ("end", || HyperlinkAction::EndShow),
    ("mail", || HyperlinkAction::email("a.b@c.example")),
    ("mail-subject", || HyperlinkAction::email_with_subject("a@b.example", "Hello")),
    ("file", || HyperlinkAction::file("C:\\docs\\a.txt")),
    ("file2", || HyperlinkAction::file("docs/b.pdf")),
    ("slide1", || HyperlinkAction::slide(1)),
    ("slide2", || HyperlinkAction::slide(2)),
    ("slide3", || HyperlinkAction::slide(3)),
    ("slide0", || HyperlinkAction::slide(0)),
    ("slide-none", || HyperlinkAction::slide(u32::MAX)),
];
const SUBJECTS: &[&str] = &["Hello", "two words", "Q&A", "a=b", "50%", "100%25", "what? #1", "é漢", "a+b", "", "<x> \"y\"", "a;b,c:d/e@f", "line\nbreak"];
fn unpercent(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok());
            out.push(h?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}
/// What a link in the package means.
fn meaning(p: &Pkg, slides: &[String], rels: &[Rel], e: &Elem) -> Result<String, String> {
    let action = e.attr("action").unwrap_or("");
    let id = e.attr_ns(NS_R, "id").unwrap_or("");
    if id.is_empty() {
        return Ok(match action.strip_prefix("ppaction://hlinkshowjump?jump=") {
            Some(j) => format!("jump {j}"),
            None => format!("action {action:?} without a target"),
        });
    }
    let r: Vec<&Rel> = rels.iter().filter(|r| r.id == id).collect();
    let [r] = r[..] else { return Err(format!("{} relationships have the id {id}", r.len())) };
    match (pkg::short(&r.ty), r.external) {
        ("hyperlink", true) if action.is_empty() => Ok(format!("external {}", r.target)),
        ("slide", false) if action == "ppaction://hlinksldjump" => match slides.iter().position(|s| *s == r.part) {
            Some(k) => Ok(format!("slide {}", k + 1)),
            None => Err(format!("{} is no slide of the deck ({})", r.part, p.parts.contains_key(&r.part))),
        },
        (k, x) => Err(format!("relationship of type {k}, external {x}, with action {action:?}")),
    }
}
/// What the link asked for should mean; None: it leads nowhere and is left out.
fn wanted(a: &HyperlinkAction, n: usize) -> Option<String> {
    Some(match a {
        HyperlinkAction::Url(u) => format!("external {}", representable(u)),
        HyperlinkAction::Slide(k) if *k >= 1 && *k as usize <= n => format!("slide {k}"),
        HyperlinkAction::Slide(_) => return None,
        HyperlinkAction::FirstSlide => "jump firstslide".into(),
        HyperlinkAction::LastSlide => "jump lastslide".into(),
        HyperlinkAction::NextSlide => "jump nextslide".into(),
        HyperlinkAction::PreviousSlide => "jump previousslide".into(),
        HyperlinkAction::EndShow => "jump endshow".into(),
        HyperlinkAction::Email { address, subject: None } => format!("external mailto:{address}"),
        HyperlinkAction::Email { address, subject: Some(s) } => format!("external mailto:{address}?subject={s}"),
        HyperlinkAction::File(f) => format!("external file:///{}", f.replace('\\', "/")),
    })
}
fn read(m: &str) -> String {
    // the subject of a mail is written for a URL
    match m.split_once("?subject=") {
        Some((a, s)) if a.starts_with("external mailto:") && !s.contains(['&', '#', ' ', '?', '\n']) => match unpercent(s) {
            Some(s) => format!("{a}?subject={s}"),
            None => format!("{m} (not an escaped subject)"),
        },
        Some(_) if m.starts_with("external mailto:") => format!("{m} (not an escaped subject)"),
        _ => m.to_string(),
    }
}
fn check(ch: &mut Ch, p: &Pkg, v: &[SlideContent], how: &str) {
    let slides = p.slides();
    ch.check(slides.len() == v.len(), "slide-count", || format!("{how}: {slides:?}"));
    for (part, c) in slides.iter().zip(v) {
        let rels = p.rels(part);
        let Ok(x) = p.doc(part) else {
            ch.check(false, "unreadable", || format!("{how}: {part}"));
            continue;
        };
        let mut ids: Vec<&str> = rels.iter().map(|r| r.id.as_str()).collect();
        ids.sort();
        let n = ids.len();
        ids.dedup();
        ch.check(ids.len() == n, "relationship-ids", || format!("{how}: {part} has {n} relationships with {} ids", ids.len()));
        for s in &c.shapes {
            let label = s.text.as_deref().unwrap_or("");
            let sp: Vec<&Elem> = x.all("sp").into_iter().filter(|e| e.child("txBody").is_some_and(|t| super::g02::body_text(t) == label)).collect();
            let [sp] = sp[..] else {
                ch.check(false, "shape", || format!("{how}: {} shapes {label} on {part}", sp.len()));
                continue;
            };
            let links = sp.all("hlinkClick");
            let want = s.hyperlink.as_ref().and_then(|h| wanted(&h.action, v.len()));
            let got: Vec<String> = links.iter().map(|e| meaning(p, &slides, &rels, e).map_or_else(|e| format!("broken: {e}"), |m| read(&m))).collect();
            ch.check(got == want.iter().cloned().collect::<Vec<_>>(), "target", || format!("{how}: shape {label} on {part} links to {got:?}, asked for {want:?}"));
            if let (Some(h), Some(_), [e]) = (&s.hyperlink, &want, &links[..]) {
                ch.check(e.attr("tooltip").map(|t| t.to_string()) == h.tooltip.as_deref().map(representable), "tooltip", || format!("{how}: tooltip of {label}: {:?}, asked for {:?}", e.attr("tooltip"), h.tooltip));
                let hl = matches!(e.attr("highlightClick"), Some("1") | Some("true"));
                ch.check(hl == h.highlight_click, "highlight", || format!("{how}: highlight of {label}: {hl}"));
            }
            ch.step();
        }
    }
}
fn mk(ch: &mut Ch, label: &str, a: HyperlinkAction, full: bool) -> Shape {
    let mut h = Hyperlink::new(a);
    if full {
        h = match ch.pick(3) {
            0 => h,
            1 => h.with_tooltip("tip <&> \"q\""),
            _ => h.with_highlight_click(false),
        };
    }
    if let Some(id) = ch.of(&[None, Some("rId1"), Some("rId2"), Some("rId3"), Some("mine"), Some("1x"), Some("")]) {
        h = h.with_r_id(id);
    }
    Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text(label).with_hyperlink(h)
}
/// What else the slide holds and needs relationships for.
const BESIDE: &[(&str, fn(SlideContent) -> SlideContent)] = &[
    ("nothing", |s| s),
    ("notes", |s| s.notes("n")),
    ("picture", |s| s.add_image(Image::from_bytes(png(1), 9, 9, "PNG"))),
    ("charts", |s| s.add_chart(chart(ChartType::Bar, "a")).add_chart(chart(ChartType::Pie, "b"))),
    ("ink", |s| s.with_ink(ink())),
    ("missing picture", |s| s.add_image(Image::new("/nonexistent/x.png", 9, 9, "PNG"))),
    ("all", |s| s.notes("n").add_image(Image::from_bytes(png(1), 9, 9, "PNG")).add_image(Image::from_bytes(png(2), 9, 9, "PNG")).add_chart(chart(ChartType::Bar, "a")).with_ink(ink())),
];
fn build(v: &[SlideContent], path: usize) -> Result<Vec<u8>, Fail> {
    match path {
        0 => bytes_of(create_pptx_with_content("D", v.to_vec()), "deck"),
        1 => {
            bytes_of(create_pptx_lazy_to_writer(std::io::Cursor::new(vec![]), "D", Box::new(super::g05::Plain(v.to_vec())), None).map(|c| c.into_inner()), "lazy deck")
        }
        _ => {
            let mut pr = ppt_rs::api::Presentation::with_title("D");
            for s in v {
                pr = pr.add_slide(s.clone());
            }
            bytes_of(pr.build(), "presentation")
        }
    }
}
fn run(ch: &mut Ch, v: Vec<SlideContent>, path: usize, how: String) -> Res {
    let b = build(&v, path)?;
    let p = pkg_of(&b)?;
    check(ch, &p, &v, &how);
    let h = hash_str(&format!("{v:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "G10",
        level: "exploration",
        rule: "every arrangement of links on the slides of a deck, generated and followed by an independent reader: through the relationship of the slide to the address, or to the slide of the requested number in presentation order, or the requested jump, with its tooltip",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            vec![
                Scenario::new("one", "16 links x 4 ways of the link x 7 ids asked for x 7 contents beside it x each slide of decks of 1 and 3 slides x 3 ways to build", 0, |ch| {
                    let n = *ch.of(&[1usize, 3]);
                    let at = ch.pick(n);
                    let (l, a) = *ch.of(ACTIONS);
                    let (b, beside) = *ch.of(BESIDE);
                    let path = ch.pick(3);
                    let s = mk(ch, "link", a(), true);
                    let mut v: Vec<SlideContent> = (0..n).map(|i| SlideContent::new(&format!("S{i}"))).collect();
                    v[at] = beside(v[at].clone()).add_shape(Shape::new(ShapeType::Ellipse, 9, 9, 9, 9).with_text("plain")).add_shape(s);
                    run(ch, v, path, format!("{l} on slide {} of {n} beside {b}, path {path}", at + 1))
                }),
                Scenario::new("many", if q { "all pairs of 16 links with all pairs of ids asked for, on the same slide beside 7 contents or on different ones of 3 slides" } else { "all pairs and triples of links with all ids asked for, on the same slide or on different ones" }, 0, move |ch| {
                    let k = if q { 2 } else { 2 + ch.pick(2) };
                    let split = ch.flag();
                    let mut v: Vec<SlideContent> = (0..3).map(|i| SlideContent::new(&format!("S{i}"))).collect();
                    let mut how = String::new();
                    for j in 0..k {
                        // triples use fewer kinds
                        let (l, a) = if k == 3 { ACTIONS[*ch.of(&[0usize, 2, 11, 13, 14])] } else { *ch.of(ACTIONS) };
                        let s = mk(ch, &format!("link{j}"), a(), false);
                        how += &format!("{l} ");
                        let at = if split { 2 - j } else { 1 };
                        v[at] = v[at].clone().add_shape(s);
                    }
                    let (b, beside) = if k == 3 { BESIDE[0] } else if q { *ch.of(&BESIDE[..if split { 1 } else { 2 }]) } else { *ch.of(BESIDE) };
                    v[1] = beside(v[1].clone());
                    run(ch, v, 0, format!("{how} beside {b}, split {split}"))
                }),
                Scenario::new("every slide", "decks of 1..12 slides in which every slide links to slide k, or to its neighbour, or to all slides", 0, |ch| {
                    let n = 1 + ch.pick(12);
                    let kind = ch.pick(3);
                    let k = if kind == 0 { 1 + ch.pick(n) } else { 0 };
                    let path = ch.pick(3);
                    let v: Vec<SlideContent> = (1..=n)
                        .map(|i| {
                            let to: Vec<usize> = match kind {
                                0 => vec![k],
                                1 => vec![i % n + 1],
                                _ => (1..=n).rev().collect(),
                            };
                            let mut s = SlideContent::new(&format!("S{i}"));
                            if i % 2 == 0 {
                                s = s.notes("n");
                            }
                            for t in to {
                                s = s.add_shape(Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text(&format!("to {t}.")).with_hyperlink(Hyperlink::slide(t as u32)));
                            }
                            s
                        })
                        .collect();
                    run(ch, v, path, format!("{n} slides, kind {kind}"))
                }),
                Scenario::new("subjects", "mail links with each of 13 subjects and all pairs of parts of them", 0, |ch| {
                    let a = *ch.of(SUBJECTS);
                    let b = if ch.flag() { *ch.of(SUBJECTS) } else { "" };
                    let v = vec![SlideContent::new("S").add_shape(Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text("link").with_hyperlink(Hyperlink::new(HyperlinkAction::email_with_subject("a@b.example", &format!("{a}{b}")))))];
                    run(ch, v, 0, format!("subject {:?}", format!("{a}{b}")))
                }),
            ]
        },
        must_cover: || vec![],
    }
}
