//! X01: the HTML export shows every deck as it is: its texts literally, its lists, tables, code,
//! notes and pictures complete and in order, read as a browser reads the page.
use super::*;
use crate::decks::*;
use ppt_rs::api::Presentation;
use ppt_rs::export::html::{export_to_html, export_to_html_with_options, HtmlExportOptions};
use ppt_rs::generator::*;
use scraper::{ElementRef, Html};

/// What a reader of an export sees of one slide.
#[derive(Default, Clone, Debug, PartialEq)]
pub struct View {
    pub title: String,
    /// depth, number shown (None without one), text
    pub items: Vec<(usize, Option<String>, String)>,
    /// text, columns, rows
    pub tables: Vec<Vec<Vec<(String, usize, usize)>>>,
    pub codes: Vec<(String, String)>,
    pub notes: Option<String>,
    pub shapes: Vec<String>,
    /// alternative text, where it comes from
    pub images: Vec<(String, String)>,
}
/// A text as it is read: lines, with blanks between words only.
pub fn plain(s: &str) -> String {
    s.split(['\n', '\r']).map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n")
}
pub fn roman(n: usize) -> String {
    let mut n = n;
    let mut r = String::new();
    for (v, t) in [(100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] {
        while n >= v {
            r += t;
            n -= v;
        }
    }
    r
}
pub fn number(style: BulletStyle, n: usize) -> Option<String> {
    match style {
        BulletStyle::Number => Some(n.to_string()),
        BulletStyle::LetterLower => Some(((b'a' + (n as u8 - 1) % 26) as char).to_string()),
        BulletStyle::LetterUpper => Some(((b'A' + (n as u8 - 1) % 26) as char).to_string()),
        BulletStyle::RomanLower => Some(roman(n)),
        BulletStyle::RomanUpper => Some(roman(n).to_uppercase()),
        _ => None,
    }
}
/// The items of a list of bullets. Under `close` a level without an item of its own is left out.
pub fn items(bullets: &[BulletPoint], close: bool) -> Vec<(usize, Option<String>, String)> {
    let mut at: Vec<(Option<BulletStyle>, usize)> = vec![];
    bullets
        .iter()
        .map(|b| {
            let d = if close { (b.level as usize).min(at.len()) } else { b.level as usize };
            at.truncate(d + 1);
            while at.len() <= d {
                at.push((None, 0));
            }
            // bullets of any sign are one kind of list
            let kind = if number(b.style, 1).is_some() { b.style } else { BulletStyle::Bullet };
            if at[d].0 != Some(kind) {
                at[d] = (Some(kind), 0);
            }
            at[d].1 += 1;
            (d, number(b.style, at[d].1), plain(&b.text))
        })
        .collect()
}
pub fn want(s: &SlideContent, close: bool) -> View {
    let bullets = if s.bullets.is_empty() { s.content.iter().map(|c| BulletPoint::new(c).with_style(s.bullet_style)).collect() } else { s.bullets.clone() };
    View {
        title: plain(&s.title),
        items: items(&bullets, close),
        tables: s
            .table
            .iter()
            .map(|t| {
                t.rows
                    .iter()
                    .map(|r| r.cells.iter().filter(|c| !c.h_merge && !c.v_merge).map(|c| (plain(&c.text), c.grid_span.unwrap_or(1).max(1) as usize, c.row_span.unwrap_or(1).max(1) as usize)).collect())
                    .collect()
            })
            .collect(),
        codes: s.code_blocks.iter().map(|c| (c.language.clone(), c.code.clone())).collect(),
        notes: s.notes.as_deref().map(plain).filter(|n| !n.is_empty()),
        shapes: s.shapes.iter().filter_map(|x| x.text.as_deref().map(plain)).filter(|t| !t.is_empty()).collect(),
        images: s.images.iter().map(|i| (plain(i.alt_text.as_deref().unwrap_or("")), String::new())).collect(),
    }
}

fn bad<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg })
}
/// The text of an element without markup of its own, its nested lists left out.
fn text(e: ElementRef, lists: bool) -> Result<String, Fail> {
    let mut out = String::new();
    for n in e.children() {
        if let Some(t) = n.value().as_text() {
            out += &t.replace('\n', " ");
        } else if let Some(k) = ElementRef::wrap(n) {
            match k.value().name() {
                "br" => out.push('\n'),
                "ul" | "ol" if lists => (),
                x => return bad("markup", format!("<{x}> within the text of <{}>: {}", e.value().name(), e.html())),
            }
        } else {
            return bad("markup", format!("a comment within <{}>: {}", e.value().name(), e.html()));
        }
    }
    Ok(plain(&out))
}
fn kids(e: ElementRef) -> impl Iterator<Item = ElementRef> {
    e.children().filter_map(ElementRef::wrap)
}
/// Text directly within an element that only has parts.
fn stray(e: ElementRef) -> Result<(), Fail> {
    for n in e.children() {
        if n.value().as_text().is_some_and(|t| !t.trim().is_empty()) || n.value().as_comment().is_some() {
            return bad("stray", format!("text outside of the parts of <{}>: {:.300}", e.value().name(), e.html()));
        }
    }
    Ok(())
}
fn list(e: ElementRef, depth: usize, out: &mut Vec<(usize, Option<String>, String)>) -> Result<(), Fail> {
    stray(e)?;
    let style = match (e.value().name(), e.value().attr("type")) {
        ("ul", _) => BulletStyle::Bullet,
        (_, None | Some("1")) => BulletStyle::Number,
        (_, Some("a")) => BulletStyle::LetterLower,
        (_, Some("A")) => BulletStyle::LetterUpper,
        (_, Some("i")) => BulletStyle::RomanLower,
        (_, Some("I")) => BulletStyle::RomanUpper,
        (_, x) => return bad("list", format!("a list numbered {x:?}")),
    };
    let mut n = e.value().attr("start").and_then(|s| s.parse().ok()).unwrap_or(1);
    for li in kids(e) {
        if li.value().name() != "li" {
            return bad("list", format!("<{}> in a list", li.value().name()));
        }
        let t = text(li, true)?;
        let nested: Vec<ElementRef> = kids(li).filter(|k| ["ul", "ol"].contains(&k.value().name())).collect();
        // an item without a text that only holds a deeper level
        if !(t.is_empty() && !nested.is_empty() && li.value().attr("style").is_some_and(|s| s.contains("none"))) {
            out.push((depth, number(style, n), t));
            n += 1;
        }
        for k in nested {
            list(k, depth + 1, out)?;
        }
    }
    Ok(())
}
fn table(e: ElementRef) -> Result<Vec<Vec<(String, usize, usize)>>, Fail> {
    stray(e)?;
    let mut rows = vec![];
    for part in kids(e) {
        stray(part)?;
        for tr in kids(part) {
            stray(tr)?;
            let mut row = vec![];
            for c in kids(tr) {
                let span = |a| c.value().attr(a).and_then(|s| s.parse().ok()).unwrap_or(1);
                row.push((text(c, false)?, span("colspan"), span("rowspan")));
            }
            rows.push(row);
        }
    }
    Ok(rows)
}
fn part(e: ElementRef, v: &mut View) -> Res {
    let name = e.value().name();
    let class = e.value().attr("class").unwrap_or("");
    match (name, class) {
        ("h2", _) => v.title = text(e, false)?,
        ("ul" | "ol", _) => list(e, 0, &mut v.items)?,
        ("table", _) => v.tables.push(table(e)?),
        ("img", _) => v.images.push((plain(e.value().attr("alt").unwrap_or("")), e.value().attr("src").unwrap_or("").into())),
        ("pre", _) => {
            stray(e)?;
            for c in kids(e) {
                if kids(c).next().is_some() {
                    return bad("markup", format!("markup in code: {}", e.html()));
                }
                let lang = c.value().attr("class").unwrap_or("");
                v.codes.push((lang.strip_prefix("language-").unwrap_or(lang).into(), c.text().collect()));
            }
        }
        ("div", "speaker-notes") => {
            let mut t = String::new();
            for n in e.children() {
                if let Some(x) = n.value().as_text() {
                    t += &x.replace('\n', " ");
                } else {
                    match ElementRef::wrap(n).map(|k| k.value().name()) {
                        Some("br") => t.push('\n'),
                        Some("strong") if t.is_empty() => (),
                        x => return bad("markup", format!("{x:?} within the notes: {}", e.html())),
                    }
                }
            }
            v.notes = Some(plain(&t));
        }
        ("div", "shape") => v.shapes.push(text(e, false)?),
        ("div", "slide-number") => (),
        ("div", "content" | "image-container") => {
            stray(e)?;
            for k in kids(e) {
                part(k, v)?;
            }
        }
        _ => return bad("markup", format!("<{name} class={class:?}> on a slide")),
    }
    Ok(())
}
/// The slides of a page, its title, and whether it can be navigated.
fn read(page: &str) -> Result<(String, Vec<View>, bool), Fail> {
    let doc = Html::parse_document(page);
    let root = doc.root_element();
    let (mut title, mut views, mut nav) = (None, vec![], false);
    for half in kids(root) {
        stray(half)?;
        for e in kids(half) {
            match (e.value().name(), e.value().attr("class").unwrap_or("")) {
                ("title", _) => title = Some(plain(&e.text().collect::<String>())),
                ("meta" | "style", _) => (),
                ("script", _) => nav = true,
                ("div", "slide title-slide") => {
                    stray(e)?;
                    for k in kids(e) {
                        let t = text(k, false)?;
                        if k.value().name() != "h1" || title.as_deref().map(|x| x.replace('\n', " ")) != Some(t.replace('\n', " ")) {
                            return bad("heading", format!("the page is called {title:?} and headed {t:?}"));
                        }
                        title = Some(t);
                    }
                }
                ("div", "slide") => {
                    stray(e)?;
                    if e.value().attr("data-slide") != Some(&(views.len() + 1).to_string()) {
                        return bad("number", format!("slide {:?} in place {}", e.value().attr("data-slide"), views.len() + 1));
                    }
                    let mut v = View::default();
                    for k in kids(e) {
                        part(k, &mut v)?;
                    }
                    views.push(v);
                }
                ("div", "navigation-controls") => nav = true,
                (n, c) => return bad("markup", format!("<{n} class={c:?}> on the page")),
            }
        }
    }
    Ok((title.unwrap_or_default(), views, nav))
}
pub fn base64(s: &str) -> Option<Vec<u8>> {
    let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
    if s.len() % 4 != 0 {
        return None;
    }
    for c in s.trim_end_matches('=').bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = (acc << 6) | v as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}
pub fn differ(w: &View, g: &View) -> Option<(&'static str, String)> {
    macro_rules! cmp {
        ($($f:ident)*) => { $( if w.$f != g.$f { return Some((stringify!($f), format!("{} {:?} instead of {:?}", stringify!($f), g.$f, w.$f))); } )* };
    }
    cmp!(title items tables codes notes shapes images);
    None
}
fn judge(ch: &mut Ch, deck: &str, slides: &[SlideContent], o: &HtmlExportOptions, default: bool) -> Res {
    let mut p = Presentation::with_title(deck);
    for s in slides {
        p = p.add_slide(s.clone());
    }
    let page = match guarded(|| if default { export_to_html(&p) } else { export_to_html_with_options(&p, o) }) {
        Err(e) => return Err(panic_fail(e)),
        Ok(Err(e)) => return bad("refused", format!("no page: {e}")),
        Ok(Ok(x)) => x,
    };
    ch.step();
    ch.outcome(hash_str(&page));
    let (title, views, nav) = match read(&page) {
        Ok(x) => x,
        Err(f) => {
            ch.check(false, &f.sig, || f.msg.clone());
            return Ok(());
        }
    };
    ch.check(title == plain(deck), "deck title", || format!("titled {title:?} instead of {:?}", plain(deck)));
    ch.check(nav == o.enable_navigation, "navigation", || format!("navigation: {nav}, asked for: {}", o.enable_navigation));
    ch.check(views.len() == slides.len(), "slides", || format!("{} slides instead of {}", views.len(), slides.len()));
    for (k, (s, mut g)) in slides.iter().zip(views).enumerate() {
        let mut w = want(s, false);
        ch.state(hash_str(&format!("{w:?}")));
        if !o.include_notes {
            w.notes = None;
        }
        g.notes = g.notes.filter(|n| !n.is_empty());
        g.shapes.retain(|t| !t.is_empty());
        if !o.syntax_highlight {
            w.codes.iter_mut().for_each(|c| c.0.clear());
        }
        // pictures: their bytes, inside the page or in the file it names
        ch.check(g.images.len() == s.images.len(), "images", || format!("slide {}: {} pictures instead of {}", k + 1, g.images.len(), s.images.len()));
        for (i, x) in s.images.iter().zip(&mut g.images) {
            let bytes = i.get_bytes().unwrap();
            let src = std::mem::take(&mut x.1);
            let got = if o.export_images_as_files {
                ch.check(o.image_output_dir.as_ref().is_some_and(|d| src.starts_with(d.as_str())), "image file", || format!("the picture is in {src:?}"));
                std::fs::read(&src).ok()
            } else {
                let kind = format!("data:image/{};base64,", match &i.format.to_lowercase()[..] {
                    "jpg" => "jpeg",
                    "svg" => "svg+xml",
                    x => x,
                });
                src.strip_prefix(&kind).and_then(base64)
            };
            ch.check(got.as_deref() == Some(&bytes[..]), "image bytes", || format!("slide {}: {:.80}: {:?} instead of {:?}", k + 1, src, got, bytes));
            if i.alt_text.is_none() {
                x.0.clear();
            }
        }
        if let Some((sig, m)) = differ(&w, &g) {
            ch.check(false, sig, || format!("slide {}: {m}", k + 1));
        }
    }
    ch.nontrivial(hash_str(&page));
    Ok(())
}
fn files() -> (HtmlExportOptions, std::path::PathBuf) {
    let d = scratch().join(format!("x01-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&d);
    (HtmlExportOptions::new().with_image_files(true, d.to_str()), d)
}

pub const TOKENS: &[&str] = &[
    "a", " ", "\n", "<", ">", "&", "\"", "'", "amp;", "<b>", "</li>", "<!--", "</script>", "*", "_", "`", "```", "#", "-", "+", "1.", "=", "|", "~~", "[x]", "](y)", "!", "\\", "---", "é", "    ", ":", "<br>", "2) ", "&#65;", "{y}", "http://x.y", "😀", ">>",
];
/// A slide with a text in one place, and other content around it.
pub const PLACES: usize = 10;
pub fn placed(place: usize, t: &str) -> (String, SlideContent) {
    let mut deck = "deck".to_string();
    let mut s = SlideContent::new("title").add_bullet("before");
    match place {
        0 => deck = t.into(),
        1 => s.title = t.into(),
        2 => s = s.add_bullet(t).add_bullet("after"),
        3 => s = s.table(TableBuilder::new(vec![100, 100]).add_simple_row(vec!["h", t]).add_simple_row(vec![t, "z"]).build()),
        4 => s = s.notes(t),
        5 => s = s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_text(t)).notes("n"),
        6 => s.code_blocks = vec![CodeBlock::new(t, "rust"), CodeBlock::new("z", "x")],
        7 => s = s.add_image(Image::from_bytes(png(1), 9, 9, "PNG").with_alt_text(t)).notes("n"),
        8 => s = s.add_styled_bullet(t, BulletStyle::Number).add_sub_bullet(t).add_bullet("after"),
        _ => {
            s.bullets.clear();
            s.content = vec![t.into(), "after".into()];
        }
    }
    (deck, s)
}
fn texts(ch: &mut Ch, n: usize) -> Res {
    let place = ch.pick(PLACES);
    let t: String = (0..n).map(|_| TOKENS[ch.pick(TOKENS.len())]).collect();
    let (deck, s) = placed(place, &t);
    judge(ch, &deck, &[s], &HtmlExportOptions::default(), true)
}
pub const STYLES: &[BulletStyle] = &[
    BulletStyle::Bullet,
    BulletStyle::Number,
    BulletStyle::None,
    BulletStyle::LetterLower,
    BulletStyle::Custom('→'),
    BulletStyle::RomanUpper,
    BulletStyle::LetterUpper,
    BulletStyle::RomanLower,
];
pub fn outline(ch: &mut Ch, n: usize, levels: usize, styles: usize) -> SlideContent {
    let mut s = SlideContent::new("title");
    for k in 0..n {
        let t = format!("b{k}");
        let b = BulletPoint::new(&t).with_level(ch.pick(levels) as u32).with_style(STYLES[ch.pick(styles)]);
        s.content.push(t);
        s.bullets.push(b);
    }
    s
}
fn lists(ch: &mut Ch, n: usize, levels: usize, styles: usize) -> Res {
    let n = ch.pick(n + 1);
    let s = outline(ch, n, levels, styles).notes("n");
    judge(ch, "deck", &[s], &HtmlExportOptions::default(), true)
}
pub fn grid(ch: &mut Ch, max: usize) -> SlideContent {
    let mut t = TableBuilder::new(vec![100, 100]);
    let mut kinds = vec![];
    for r in 0..ch.pick(max + 1) {
        let mut row = vec![];
        for c in 0..ch.pick(max + 1) {
            let mut cell = TableCell::new(&format!("r{r}c{c}"));
            let k = ch.pick(5);
            match k {
                1 => cell.text.clear(),
                2 => cell = cell.grid_span(2),
                3 => cell = cell.row_span(2),
                4 => cell = if c > 0 { cell.h_merge() } else { cell.v_merge() },
                _ => (),
            }
            kinds.push(k);
            row.push(cell);
        }
        kinds.push(9);
        t = t.add_row(TableRow::new(row));
    }
    ch.note(|| format!("{kinds:?}"));
    SlideContent::new("title").table(t.build()).add_bullet("b")
}
fn tables(ch: &mut Ch, max: usize) -> Res {
    let s = grid(ch, max);
    judge(ch, "deck", &[s], &HtmlExportOptions::default(), true)
}
/// A slide with any of the kinds of content, its texts told apart by w.
pub fn full(ch: &mut Ch, w: &str) -> SlideContent {
    let mut s = SlideContent::new(&format!("{w} <t>"));
    if ch.flag() {
        s = s.add_bullet(&format!("{w}a & *b*")).add_sub_bullet(&format!("{w}b"));
    }
    if ch.flag() {
        s = s.table(TableBuilder::new(vec![100, 100]).add_simple_row(vec![&format!("{w}h"), "|"]).add_simple_row(vec!["", &format!("{w}z\ny")]).build());
    }
    match ch.pick(3) {
        0 => (),
        k => {
            for i in 0..k {
                s = s.add_image(Image::from_bytes(png((w.len() + i) as u8), 9, 9, "PNG").with_alt_text(&format!("{w} \"p{i}\"")));
            }
        }
    }
    if ch.flag() {
        s = s.add_shape(Shape::new(ShapeType::Ellipse, 0, 0, 9, 9)).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_text(&format!("{w}s")));
    }
    match ch.pick(3) {
        0 => (),
        k => {
            for i in 0..k {
                s.code_blocks.push(CodeBlock::new(&format!("{w}\n\n  <{i}> ```"), ["rust", "c++"][i]));
            }
        }
    }
    if ch.flag() {
        s = s.notes(&format!("{w}n <br>\n- x"));
    }
    s
}
fn decks(ch: &mut Ch, n: usize) -> Res {
    let slides: Vec<SlideContent> = (0..n).map(|k| full(ch, ["x", "yy"][k])).collect();
    let (o, dir) = if ch.flag() { files() } else { (HtmlExportOptions::new(), scratch().join("x01-none")) };
    let o = o.with_notes(ch.flag()).with_navigation(ch.flag()).with_syntax_highlight(ch.flag());
    let r = judge(ch, "deck", &slides, &o, false);
    let _ = std::fs::remove_dir_all(dir);
    r
}
fn pairs(ch: &mut Ch, q: bool) -> Res {
    if !q {
        return decks(ch, 2);
    }
    let slides = [full(ch, "x"), full(ch, "yy")];
    judge(ch, "deck", &slides, &HtmlExportOptions::default(), true)
}
/// Pictures of every length up to a bound and every format, in the page and beside it.
fn pictures(ch: &mut Ch) -> Res {
    let len = ch.pick(25);
    let first = (ch.pick(8) as u8).wrapping_mul(37);
    let format = ["PNG", "JPEG", "JPG", "GIF", "BMP", "TIFF", "SVG", "WEBP"][ch.pick(8)];
    let (o, dir) = if ch.flag() { files() } else { (HtmlExportOptions::new(), scratch().join("x01-none")) };
    let bytes = |k: u8| (0..len as u8).map(|i| first.wrapping_add(i.wrapping_mul(83)) ^ k).collect::<Vec<u8>>();
    let slides: Vec<SlideContent> = (0..2)
        .map(|k| SlideContent::new("t").add_image(Image::from_bytes(bytes(k), 9, 9, format)).add_image(Image::from_bytes(bytes(k + 7), 9, 9, format)))
        .collect();
    let r = judge(ch, "deck", &slides, &o, false);
    let _ = std::fs::remove_dir_all(dir);
    r
}

pub fn prop() -> Prop {
    Prop {
        id: "X01",
        level: "exploration",
        rule: "every deck of the stated sets through the real export: the page, read by an HTML5 parser, is titled and headed by the deck's title and has one block per slide in order with exactly its title, list items (depth, number, text), table grid with spans, pictures (bytes in the page or in the file it names), shape texts, code and notes; no text becomes markup; options switch off exactly what they name",
        assumptions: &["html5ever (the scraper crate) reads a page as browsers do", "charts, connectors and media are not part of the HTML export and are not judged; blanks are compared as a browser shows them"],
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 2 } else { 3 };
            let i = if q { 4 } else { 5 };
            vec![
                Scenario::new("texts", format!("all texts of up to {n} of {} tokens that mean something in HTML, Markdown or YAML x {PLACES} places", TOKENS.len()), 0, move |ch| {
                    let k = 1 + ch.pick(n);
                    texts(ch, k)
                }),
                Scenario::new("lists", format!("all lists of up to {i} items x 3 levels x 3 kinds of sign"), 0, move |ch| lists(ch, i, 3, 3)),
                Scenario::new("signs", "all lists of up to 3 items x 4 levels x 8 kinds of sign", 0, |ch| lists(ch, 3, 4, 8)),
                Scenario::new("tables", format!("all tables of up to {n} rows and cells, ragged, each cell plain, empty, spanning or covered"), 0, move |ch| tables(ch, n)),
                Scenario::new("decks", "all slides with any of six kinds of content x every option", 0, |ch| decks(ch, 1)),
                Scenario::new("pairs", "all pairs of such slides with default options (thorough: every option)", 0, move |ch| pairs(ch, q)),
                Scenario::new("pictures", "pictures of 0..24 bytes x 8 first bytes x 8 formats x in the page or beside it", 0, pictures),
            ]
        },
        must_cover: || vec![],
    }
}
