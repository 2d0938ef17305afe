//! R01: reading (and importing) a generated deck returns what was generated.
use super::*;
use crate::decks::*;
use crate::props::g02::{CHARS, SPECIALS};
use crate::props::g03::ALL_SHAPES;
use crate::xml::representable;
use ppt_rs::generator::slide_content::{BulletPoint, CodeBlock};
use ppt_rs::generator::*;
use ppt_rs::import::import_pptx;
use ppt_rs::oxml::{ParsedSlide, PresentationReader};

fn norm(s: &str) -> String {
    representable(s).chars().filter(|c| *c != '\u{fffd}').collect()
}
/// Lines of code with text on them.
fn lines(s: &str) -> Vec<String> {
    norm(s).split('\n').map(|l| l.trim_end_matches('\r').to_string()).filter(|l| !l.trim().is_empty()).collect()
}
struct Want {
    title: String,
    bullets: Vec<String>,
    levels: Vec<u32>,
    maybe_no_bullets: bool,
    table: Option<Vec<Vec<(String, u32, u32)>>>,
    shapes: Vec<(String, i64, i64, i64, i64, String)>,
    code: Vec<Vec<String>>,
}
fn want(s: &SlideContent) -> Want {
    let body = !matches!(s.layout, SlideLayout::Blank | SlideLayout::TitleOnly);
    let all: Vec<(String, u32)> = if s.bullets.is_empty() { s.content.iter().map(|t| (norm(t), 0)).collect() } else { s.bullets.iter().map(|b| (norm(&b.text), b.level.min(8))).collect() };
    let kept: Vec<(String, u32)> = if body { all.into_iter().filter(|b| !b.0.is_empty()).collect() } else { vec![] };
    Want {
        title: if s.layout == SlideLayout::Blank { String::new() } else { norm(&s.title) },
        levels: kept.iter().map(|b| b.1).collect(),
        bullets: kept.into_iter().map(|b| b.0).collect(),
        maybe_no_bullets: s.table.is_some(),
        table: s.table.as_ref().map(|t| {
            t.rows.iter().map(|r| r.cells.iter().map(|c| (norm(&c.text), c.row_span.unwrap_or(1).max(1), c.grid_span.unwrap_or(1).max(1))).collect()).collect()
        }),
        shapes: s.shapes.iter().map(|h| (h.shape_type.preset_name().to_string(), h.x as i64, h.y as i64, h.width as i64, h.height as i64, norm(h.text.as_deref().unwrap_or("")))).collect(),
        code: s.code_blocks.iter().map(|c| lines(&c.code)).collect(),
    }
}
fn compare(ch: &mut Ch, i: usize, w: &Want, got: &ParsedSlide) {
    let t = norm(got.title.as_deref().unwrap_or(""));
    ch.check(t == w.title, "read:title", || format!("slide {i}: title {:?}, read {:?}", w.title, got.title));
    let b: Vec<String> = got.body_text.iter().map(|t| norm(t)).collect();
    ch.check(b == w.bullets || (b.is_empty() && w.maybe_no_bullets), "read:bullets", || format!("slide {i}: bullets {:?}, read {b:?}", w.bullets));
    let tab: Vec<Vec<Vec<(String, u32, u32)>>> = got.tables.iter().map(|t| t.rows.iter().map(|r| r.iter().map(|c| (norm(&c.text), c.row_span, c.col_span)).collect()).collect()).collect();
    let wt: Vec<_> = w.table.iter().cloned().collect();
    ch.check(tab == wt, "read:table", || format!("slide {i}: tables {wt:?}, read {tab:?}"));
    let others: Vec<_> = got.shapes.iter().filter(|s| !s.is_title && !s.is_body).collect();
    let n = w.shapes.len() + w.code.len();
    ch.check(others.len() == n, "read:shape-count", || format!("slide {i}: {n} shapes, read {:?}", others.iter().map(|s| (&s.name, s.text())).collect::<Vec<_>>()));
    if others.len() != n {
        return;
    }
    for (k, h) in w.shapes.iter().enumerate() {
        let g = others[k];
        let g = (g.shape_type.clone().unwrap_or_default(), g.x, g.y, g.width, g.height, norm(&g.text()));
        let same = &g == h || (h.5.starts_with('[') && lines(&g.5) == lines(&h.5) && (&g.0, g.1, g.2, g.3, g.4) == (&h.0, h.1, h.2, h.3, h.4));
        ch.check(same, "read:shape", || format!("slide {i}: shape {k} {h:?}, read {g:?}"));
    }
    for (k, c) in w.code.iter().enumerate() {
        let g = lines(&others[w.shapes.len() + k].text());
        ch.check(&g == c, "read:code", || format!("slide {i}: code {c:?}, read {g:?}"));
    }
}
fn check(ch: &mut Ch, d: &Deck, import: bool) -> Res {
    let b = bytes_of(d.build(), "deck")?;
    let path = scratch().join(format!("r01-{}.pptx", ch.worker));
    std::fs::write(&path, &b).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let path = path.to_str().unwrap();
    let r = match PresentationReader::open(path) {
        Ok(r) => r,
        Err(e) => return fail("read:open", format!("generated deck is not readable: {e}")),
    };
    ch.step();
    let n = d.slides.len();
    ch.check(r.slide_count() == n && r.info().slide_count == n, "read:count", || format!("{n} slides, read {} ({})", r.slide_count(), r.info().slide_count));
    ch.check(norm(r.info().title.as_deref().unwrap_or("")) == norm(&d.title), "read:deck-title", || format!("deck title {:?}, read {:?}", d.title, r.info().title));
    ch.check(r.info().created.as_deref().is_some_and(|s| s.len() >= 10), "read:created", || format!("creation date read as {:?}", r.info().created));
    let all = match r.get_all_slides() {
        Ok(v) => v,
        Err(e) => return fail("read:slides", format!("slides are not readable: {e}")),
    };
    ch.check(all.len() == n, "read:count", || format!("{n} slides, {} returned", all.len()));
    ch.check(r.get_slide(n).is_err(), "read:beyond", || format!("slide {n} of {n} is returned"));
    let ws: Vec<Want> = d.slides.iter().map(want).collect();
    for (i, (w, g)) in ws.iter().zip(&all).enumerate() {
        ch.step();
        compare(ch, i, w, g);
        match r.get_slide(i) {
            Ok(one) => ch.check(format!("{one:?}") == format!("{g:?}"), "read:one-slide", || format!("slide {i} read alone differs from slide {i} of all")),
            Err(e) => ch.check(false, "read:one-slide", || format!("slide {i}: {e}")),
        }
    }
    let text = match r.extract_all_text() {
        Ok(t) => t,
        Err(e) => return fail("read:all-text", format!("{e}")),
    };
    let flat: String = text.iter().map(|t| norm(t)).collect::<Vec<_>>().join("\n");
    for (i, w) in ws.iter().enumerate() {
        let tables = w.table.iter().flatten().flatten().map(|c| &c.0);
        let bullets = w.bullets.iter().filter(|_| !w.maybe_no_bullets);
        for t in std::iter::once(&w.title).chain(bullets).chain(w.shapes.iter().map(|s| &s.5)).chain(w.code.iter().flatten()).chain(tables) {
            ch.check(t.split(['\n', '\r']).all(|l| flat.contains(l)), "read:all-text", || format!("slide {i}: {t:?} is not in the extracted text {text:?}"));
        }
    }
    ch.outcome(hash_str(&flat));
    if import {
        let p = match import_pptx(path) {
            Ok(p) => p,
            Err(e) => return fail("import:open", format!("generated deck is not importable: {e}")),
        };
        ch.step();
        ch.check(p.slides().len() == n, "import:count", || format!("{n} slides, imported {}", p.slides().len()));
        ch.check(norm(p.get_title()) == norm(&d.title), "import:deck-title", || format!("deck title {:?}, imported {:?}", d.title, p.get_title()));
        for (i, (w, s)) in ws.iter().zip(p.slides()).enumerate() {
            ch.check(norm(&s.title) == w.title, "import:title", || format!("slide {i}: title {:?}, imported {:?}", w.title, s.title));
            let b: Vec<String> = s.bullets.iter().map(|b| norm(&b.text)).collect();
            ch.check(b == w.bullets || (b.is_empty() && w.maybe_no_bullets), "import:bullets", || format!("slide {i}: bullets {:?}, imported {b:?}", w.bullets));
            let l: Vec<u32> = s.bullets.iter().map(|b| b.level).collect();
            ch.check(b != w.bullets || l == w.levels, "import:levels", || format!("slide {i}: bullet levels {:?}, imported {l:?}", w.levels));
            let t: Option<Vec<Vec<String>>> = s.table.as_ref().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| norm(&c.text)).collect()).collect());
            let wt: Option<Vec<Vec<String>>> = w.table.as_ref().map(|t| t.iter().map(|r| r.iter().map(|c| c.0.clone()).collect()).collect());
            ch.check(t == wt, "import:table", || format!("slide {i}: table {wt:?}, imported {t:?}"));
            let g: Vec<String> = s.shapes.iter().map(|h| norm(h.text.as_deref().unwrap_or(""))).collect();
            let ok = g.len() == w.shapes.len() + w.code.len()
                && g.iter().zip(&w.shapes).all(|(g, w)| *g == w.5 || (w.5.starts_with('[') && lines(g) == lines(&w.5)))
                && g.iter().skip(w.shapes.len()).zip(&w.code).all(|(g, w)| &lines(g) == w);
            ch.check(ok, "import:shapes", || format!("slide {i}: shapes {:?}, imported {g:?}", w.shapes.iter().map(|s| &s.5).collect::<Vec<_>>()));
            let pos: Vec<(u32, u32, u32, u32)> = s.shapes.iter().map(|h| (h.x, h.y, h.width, h.height)).collect();
            let wp: Vec<(u32, u32, u32, u32)> = w.shapes.iter().map(|h| (h.1 as u32, h.2 as u32, h.3 as u32, h.4 as u32)).collect();
            ch.check(pos.len() < wp.len() || pos[..wp.len()] == wp[..], "import:places", || format!("slide {i}: shapes at {wp:?}, imported at {pos:?}"));
        }
        // what was imported can be written and read again, with the same text
        if if ch.tier == Tier::Quick { ch.dev(2) == 1 } else { ch.flag() } {
            let again = Deck { title: p.get_title().to_string(), slides: p.slides().to_vec(), settings: PresentationSettings::new(), spec: vec![] };
            let texts = |v: &[ParsedSlide]| v.iter().map(|s| (norm(s.title.as_deref().unwrap_or("")), s.body_text.iter().map(|t| norm(t)).collect::<Vec<_>>(), s.tables.iter().flat_map(|t| t.rows.iter().flatten().map(|c| norm(&c.text)).collect::<Vec<_>>()).collect::<Vec<_>>())).collect::<Vec<_>>();
            let b = bytes_of(again.build(), "imported deck")?;
            std::fs::write(path, &b).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
            let r2 = PresentationReader::open(path).and_then(|r| r.get_all_slides());
            match r2 {
                Ok(v) => ch.check(texts(&v) == texts(&all) || ws.iter().any(|w| w.maybe_no_bullets), "import:again", || format!("read {:?}, after import and writing {:?}", texts(&all), texts(&v))),
                Err(e) => return fail("import:again", format!("{e}")),
            }
        }
    }
    Ok(())
}
fn upd(d: &mut Deck, f: impl FnOnce(SlideContent) -> SlideContent) {
    let s = d.slides[0].clone();
    d.slides[0] = f(s);
}
fn rect(t: &str) -> Shape {
    Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text(t)
}
type Place = (&'static str, fn(&mut Deck, &str));
const PLACES: &[Place] = &[
    ("title", |d, t| upd(d, |_| SlideContent::new(t))),
    ("title-only", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::TitleOnly))),
    ("title-centered", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::CenteredTitle))),
    ("title-section", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::SectionHeader))),
    ("title-blank", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::Blank))),
    ("bullets", |d, t| upd(d, |s| s.add_bullet("first").add_bullet(t).add_bullet("last"))),
    ("content", |d, t| upd(d, |mut s| { s.content = vec![t.into(), "x".into()]; s })),
    ("big", |d, t| upd(d, |s| s.layout(SlideLayout::TitleAndBigContent).add_numbered(t).add_sub_bullet(t))),
    ("two-column", |d, t| upd(d, |s| s.layout(SlideLayout::TwoColumn).add_bullet(t).add_bullet("m").add_bullet(t))),
    ("bullet-formatted", |d, t| upd(d, |mut s| { s.bullets.push(BulletPoint::new(t).with_level(3).bold().color("FF0000")); s })),
    ("cells", |d, t| upd(d, |s| s.table(TableBuilder::new(vec![9, 9]).add_simple_row(vec![t, "z"]).add_simple_row(vec!["", t]).build()))),
    ("shape", |d, t| upd(d, |s| s.add_shape(rect("before")).add_shape(rect(t)).add_shape(rect("after")))),
    ("shape-code", |d, t| upd(d, |s| s.add_shape(rect(&format!("[rs]\n{t}"))))),
    ("link", |d, t| upd(d, |s| s.add_shape(rect(t).with_hyperlink(Hyperlink::url("http://x").with_tooltip("tip"))))),
    ("code", |d, t| upd(d, |mut s| { s.code_blocks.push(CodeBlock::new(t, "text")); s })),
    ("code-rust", |d, t| upd(d, |mut s| { s.code_blocks.push(CodeBlock::new(&format!("fn x() {{\n\n  {t}\n}}"), "rust")); s })),
    ("deck-title", |d, t| d.title = t.into()),
    ("notes", |d, t| upd(d, |s| s.notes(t))),
];
const WORDS: &[&str] = &["", " ", "Title", "title", "Content", "Slide 1", "Body", "\u{a0}", "a\nb", "a\n\nb", "\n"];
const LAYOUTS: [SlideLayout; 7] = [SlideLayout::CenteredTitle, SlideLayout::TitleAndContent, SlideLayout::TwoColumn, SlideLayout::SectionHeader, SlideLayout::Blank, SlideLayout::TitleOnly, SlideLayout::TitleAndBigContent];
fn text(ch: &mut Ch, n: usize) -> String {
    let k = ch.pick(1 + SPECIALS.len() + WORDS.len());
    if k > SPECIALS.len() {
        return WORDS[k - 1 - SPECIALS.len()].to_string();
    }
    if k > 0 {
        return SPECIALS[k - 1].to_string();
    }
    let len = 1 + ch.pick(n);
    (0..len).map(|_| *ch.of(CHARS)).collect()
}
fn plain() -> Deck {
    Deck { title: "Deck".into(), slides: vec![SlideContent::new("T")], settings: PresentationSettings::new(), spec: vec![] }
}

pub fn prop() -> Prop {
    Prop {
        id: "R01",
        level: "exploration",
        rule: "every deck of each lattice is generated, written to a file, and opened with the reader and the importer; slide count and order, titles, bullets, tables, shapes, code and properties compared with the values put in",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 2 } else { 3 };
            let m = if q { 2 } else { 3 };
            vec![
                Scenario::new("texts", format!("{} places x (strings of 1..{n} over {} characters + {} fixed)", PLACES.len(), CHARS.len(), SPECIALS.len() + WORDS.len()), 1, move |ch| {
                    let (name, put) = PLACES[ch.pick(PLACES.len())];
                    let t = text(ch, n);
                    let mut d = plain();
                    put(&mut d, &t);
                    ch.note(|| format!("{name} = {t:?}"));
                    ch.nontrivial(hash_str(&format!("{name}{t}")));
                    check(ch, &d, true)
                }),
                Scenario::new("decks", format!("decks of 1..3 slides with up to {m} features or settings away from the plain deck"), m, |ch| {
                    let d = deck(ch, 1, 3, true, false);
                    ch.note(|| d.describe());
                    ch.nontrivial(hash_str(&d.describe()));
                    check(ch, &d, true)
                }),
                Scenario::new("order", format!("decks of 1..{} slides, numbered titles, equal titles, and layouts in turn", if q { 25 } else { 120 }), 1, move |ch| {
                    let n = 1 + ch.pick(if q { 25 } else { 120 });
                    let k = ch.pick(4);
                    let mut d = plain();
                    d.slides = (0..n)
                        .map(|i| match k {
                            0 => SlideContent::new(&format!("{i}")).add_bullet(&format!("b{i}")),
                            1 => SlideContent::new("same").add_bullet(&format!("b{i}")),
                            2 => SlideContent::new(&format!("{}", n - i)).layout(LAYOUTS[i % 7]).add_bullet(&format!("b{i}")),
                            _ => SlideContent::new(&format!("{i}")).notes(&format!("n{i}")).add_image(Image::from_bytes(png(i as u8), 9, 9, "PNG")).add_chart(chart(ChartType::Bar, "c")),
                        })
                        .collect();
                    ch.note(|| format!("{n} slides, kind {k}"));
                    ch.nontrivial(hash_str(&format!("{n} {k}")));
                    check(ch, &d, true)
                }),
                Scenario::new("bullets", "3 content layouts x all sequences of up to 3 bullets over 2 texts x 3 levels x 2 formats, as points or as plain text", 1, move |ch| {
                    let mut s = SlideContent::new("T").layout(*ch.of(&[SlideLayout::TitleAndContent, SlideLayout::TwoColumn, SlideLayout::TitleAndBigContent]));
                    let len = 1 + ch.pick(3);
                    let mut desc = format!("{:?}", s.layout);
                    let plain_list = ch.flag();
                    for _ in 0..len {
                        let t = *ch.of(&["a", "b", ""]);
                        if plain_list {
                            s.content.push(t.into());
                            desc += &format!(" {t:?}");
                            continue;
                        }
                        let l = *ch.of(&[0u32, 1, 8]);
                        let mut b = BulletPoint::new(t).with_level(l);
                        if !q && ch.flag() {
                            b = b.bold();
                        }
                        desc += &format!(" {t:?}/{l}");
                        s.bullets.push(b);
                    }
                    let mut d = plain();
                    d.slides = vec![s];
                    ch.note(|| desc.clone());
                    ch.nontrivial(hash_str(&desc));
                    check(ch, &d, true)
                }),
                Scenario::new("tables", format!("grids 1x1..3x3 x all fillings with 3 texts of the first {} cells x one merged range at each place x layout", if q { 3 } else { 5 }), 0, move |ch| {
                    let (r, c) = (1 + ch.pick(3), 1 + ch.pick(3));
                    let fill: Vec<&str> = (0..(if q { 3 } else { 5 }).min(r * c)).map(|_| *ch.of(&["a", "", "b c\nd"])).collect();
                    let at = ch.pick(r * c + 1);
                    let mut cells: Vec<TableCell> = (0..r * c).map(|k| TableCell::new(fill.get(k).copied().unwrap_or("z"))).collect();
                    let mut desc = format!("{r}x{c} {fill:?}");
                    if at > 0 {
                        let (y, x) = ((at - 1) / c, (at - 1) % c);
                        let (rs, cs) = (1 + ch.pick(r - y), 1 + ch.pick(c - x));
                        desc += &format!(" merged {rs}x{cs} at {y},{x}");
                        for yy in y..y + rs {
                            for xx in x..x + cs {
                                let k = yy * c + xx;
                                if (yy, xx) == (y, x) {
                                    if cs > 1 {
                                        cells[k] = cells[k].clone().grid_span(cs as u32);
                                    }
                                    if rs > 1 {
                                        cells[k] = cells[k].clone().row_span(rs as u32);
                                    }
                                } else {
                                    cells[k] = TableCell::new("");
                                    if xx > x {
                                        cells[k] = cells[k].clone().h_merge();
                                    }
                                    if yy > y {
                                        cells[k] = cells[k].clone().v_merge();
                                    }
                                }
                            }
                        }
                    }
                    let lay = *ch.of(&[SlideLayout::TitleAndContent, SlideLayout::Blank]);
                    let mut b = TableBuilder::new(vec![900000; c]);
                    for row in cells.chunks(c) {
                        b = b.add_row(TableRow::new(row.to_vec()));
                    }
                    let mut d = plain();
                    d.slides = vec![SlideContent::new("T").layout(lay).table(b.build())];
                    ch.note(|| desc.clone());
                    ch.nontrivial(hash_str(&desc));
                    check(ch, &d, true)
                }),
                Scenario::new("shapes", format!("{} shape kinds x 4 places x 3 texts beside a second shape, 7 layouts", ALL_SHAPES.len()), 0, |ch| {
                    let k = ch.of(ALL_SHAPES).clone();
                    let (x, y, w, h) = *ch.of(&[(0, 0, 0, 0), (1, 2, 3, 4), (9144000, 1, 2147483647, 5), (7, 7, 100000, 100000)]);
                    let t = *ch.of(&[None, Some("text"), Some("a\nb")]);
                    let lay = *ch.of(&LAYOUTS);
                    let mut s = Shape::new(k, x, y, w, h);
                    if let Some(t) = t {
                        s = s.with_text(t);
                    }
                    let mut d = plain();
                    let desc = format!("{s:?} {lay:?}");
                    d.slides = vec![SlideContent::new("T").layout(lay).add_bullet("b").add_shape(s).add_shape(Shape::new(ShapeType::Ellipse, 5, 6, 7, 8).with_text("second"))];
                    ch.note(|| desc.clone());
                    ch.nontrivial(hash_str(&desc));
                    check(ch, &d, true)
                }),
            ]
        },
        must_cover: || vec![],
    }
}
