use super::*;
use crate::decks::*;
use crate::pkg::{self, Pkg};
use crate::xml::{self, representable, Elem};
use ppt_rs::generator::slide_content::{BulletPoint, CodeBlock};
use ppt_rs::generator::*;
use ppt_rs::parts::{AppPropertiesPart, ContentTypesPart, CorePropertiesPart, NotesSlidePart, Part, RelationshipType, Relationships, ThemePart};

/// Text of a text body: paragraphs and breaks separated by newlines.
pub fn body_text(tx: &Elem) -> String {
    tx.elems().filter(|e| &*e.local == "p").map(para_text).collect::<Vec<_>>().join("\n")
}
pub fn para_text(p: &Elem) -> String {
    let mut s = String::new();
    p.walk(&mut |e| match &*e.local {
        "t" => s.push_str(&e.text()),
        "br" => s.push('\n'),
        _ => {}
    });
    s
}
/// Texts of all text bodies under an element, in document order; empty ones left out.
pub fn bodies(e: &Elem) -> Vec<String> {
    e.all("txBody").into_iter().map(body_text).filter(|t| !t.is_empty()).collect()
}
fn slide1(p: &Pkg, f: impl FnOnce(&Elem) -> Vec<String>) -> Vec<String> {
    let s = p.slides();
    s.first().and_then(|n| p.with_doc(n, f).ok()).unwrap_or_else(|| vec!["<unreadable slide>".into()])
}
fn part(p: &Pkg, n: &str, f: impl FnOnce(&Elem) -> Vec<String>) -> Vec<String> {
    p.with_doc(n, f).unwrap_or_else(|e| vec![format!("<{e}>")])
}
fn attrs(e: &Elem, elem: &str, attr: &str) -> Vec<String> {
    e.all(elem).into_iter().filter_map(|x| x.attr(attr).map(|s| s.to_string())).collect()
}
fn texts(e: &Elem, elem: &str) -> Vec<String> {
    e.all(elem).into_iter().map(|x| x.text()).collect()
}
fn frag(x: &str) -> Elem {
    let x = x.trim_start_matches(|c| c == '\u{feff}');
    let body = if let Some(i) = x.find("?>").filter(|_| x.starts_with("<?xml")) { &x[i + 2..] } else { x };
    let s = format!(
        "<root xmlns:a=\"urn:a\" xmlns:p=\"urn:p\" xmlns:r=\"urn:r\" xmlns:p14=\"urn:p14\" xmlns:c=\"urn:c\">{body}</root>"
    );
    match xml::parse_str(&s) {
        Ok(e) => e,
        Err(e) => xml::parse_str(&format!("<malformed>{}</malformed>", e.replace(['<', '&', '>'], "?").chars().filter(|c| xml::is_xml_char(*c)).collect::<String>())).unwrap(),
    }
}

type Obs = fn(&Pkg) -> Vec<String>;
/// Applies the text to a deck and says which texts must then be observed.
type Place = (&'static str, fn(&mut Deck, &str), fn(&str) -> Vec<String>, Obs);
fn one(s: &str) -> Vec<String> {
    vec![s.to_string()]
}
fn withtitle(s: &str) -> Vec<String> {
    vec!["T".to_string(), s.to_string()]
}
macro_rules! s1 {
    ($f:expr) => {
        |p: &Pkg| slide1(p, $f)
    };
}
fn upd(d: &mut Deck, f: impl FnOnce(SlideContent) -> SlideContent) {
    let s = d.slides[0].clone();
    d.slides[0] = f(s);
}
fn lines(s: &str) -> Vec<String> {
    // representation of lines is free; compared with trailing blanks of lines ignored
    vec![s.to_string()]
}
const PLACES: &[Place] = &[
    ("title", |d, t| upd(d, |_| SlideContent::new(t)), one, s1!(bodies)),
    ("title-only", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::TitleOnly)), one, s1!(bodies)),
    ("title-centered", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::CenteredTitle)), one, s1!(bodies)),
    ("title-section", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::SectionHeader)), one, s1!(bodies)),
    ("title-big", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::TitleAndBigContent)), one, s1!(bodies)),
    ("title-two", |d, t| upd(d, |_| SlideContent::new(t).layout(SlideLayout::TwoColumn)), one, s1!(bodies)),
    ("bullet", |d, t| upd(d, |s| s.add_bullet(t)), withtitle, s1!(bodies)),
    ("bullet-content", |d, t| upd(d, |mut s| { s.content.push(t.into()); s }), withtitle, s1!(bodies)),
    ("bullet-sub", |d, t| upd(d, |s| s.add_sub_bullet(t)), withtitle, s1!(bodies)),
    ("bullet-big", |d, t| upd(d, |s| s.layout(SlideLayout::TitleAndBigContent).add_numbered(t)), withtitle, s1!(bodies)),
    ("bullet-left", |d, t| upd(d, |s| s.layout(SlideLayout::TwoColumn).add_bullet(t)), withtitle, s1!(bodies)),
    ("bullet-right", |d, t| upd(d, |s| s.layout(SlideLayout::TwoColumn).add_bullet("L").add_bullet(t)), |t| vec!["T".into(), "L".into(), t.into()], s1!(bodies)),
    ("bullet-font", |d, t| upd(d, |mut s| { s.bullets.push(BulletPoint::new("b").with_format(BulletTextFormat::new().font_family(t))); s }), one, |p| {
        let mut v = slide1(p, |e| attrs(e, "latin", "typeface"));
        v.dedup();
        v
    }),
    ("bullet-char", |d, t| upd(d, |s| s.add_styled_bullet("b", BulletStyle::Custom(t.chars().next().unwrap_or('x')))), |t| one(&t.chars().next().unwrap_or('x').to_string()), s1!(|e| attrs(e, "buChar", "char"))),
    ("cell", |d, t| upd(d, |s| s.table(TableBuilder::new(vec![9, 9]).add_simple_row(vec![t, "z"]).build())), |t| vec!["T".into(), t.into(), "z".into()], s1!(bodies)),
    ("cell-styled", |d, t| upd(d, |s| s.table(TableBuilder::new(vec![9]).add_row(TableRow::new(vec![TableCell::new(t).bold().text_color("FF0000").background_color("00FF00")])).build())), withtitle, s1!(bodies)),
    ("cell-font", |d, t| upd(d, |s| s.table(TableBuilder::new(vec![9]).add_row(TableRow::new(vec![TableCell::new("x").font_family(t)])).build())), one, s1!(|e| attrs(e, "latin", "typeface"))),
    ("shape", |d, t| upd(d, |s| s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 900000, 900000).with_text(t))), withtitle, s1!(bodies)),
    ("shape-code", |d, t| upd(d, |s| s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 900000, 900000).with_text(&format!("[rs]\n{t}")))), |t| vec!["T".into(), format!("[rs]\n{t}")], s1!(bodies)),
    ("tooltip", |d, t| upd(d, |s| s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::url("http://x").with_tooltip(t)))), one, s1!(|e| attrs(e, "hlinkClick", "tooltip"))),
    ("link-url", |d, t| upd(d, |s| s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::url(&format!("http://x/{t}"))))), |t| one(&format!("http://x/{t}")), |p| links(p)),
    ("link-file", |d, t| upd(d, |s| s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::new(HyperlinkAction::file(t))))), |t| one(&format!("file:///{}", t.replace('\\', "/"))), |p| links(p)),
    ("link-mail", |d, t| upd(d, |s| s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::email(t)))), |t| one(&format!("mailto:{t}")), |p| links(p)),
    ("connector-label", |d, t| upd(d, |s| s.add_connector(Connector::straight(0, 0, 9, 9).with_label(t))), withtitle, s1!(bodies)),
    ("alt", |d, t| upd(d, |s| s.add_image(Image::from_bytes(png(1), 9, 9, "PNG").with_alt_text(t))), one, s1!(|e| e.all("pic").iter().flat_map(|p| attrs(p, "cNvPr", "descr")).collect())),
    ("code", |d, t| upd(d, |mut s| { s.code_blocks.push(CodeBlock::new(t, "text")); s }), |t| vec!["T".into()].into_iter().chain(lines(t)).collect(), s1!(bodies)),
    ("code-rust", |d, t| upd(d, |mut s| { s.code_blocks.push(CodeBlock::new(t, "rust")); s }), |t| vec!["T".into()].into_iter().chain(lines(t)).collect(), s1!(bodies)),
    ("notes", |d, t| upd(d, |s| s.notes(t)), one, |p| {
        let s = p.slides();
        let n = s.first().and_then(|s| p.rel_of_type(s, "notesSlide").first().map(|r| r.part.clone())).unwrap_or_default();
        part(p, &n, |e| e.all("sp").into_iter().filter(|s| s.all("ph").iter().any(|h| h.attr("type") == Some("body"))).flat_map(bodies).collect())
    }),
    ("deck-title", |d, t| d.title = t.into(), one, |p| part(p, "docProps/core.xml", |e| texts(e, "title"))),
    ("header", |d, t| d.settings = d.settings.clone().print(PrintSettings::new().print_what(PrintWhat::Handouts).header(t)), one, |p| part(p, "ppt/handoutMasters/handoutMaster1.xml", |e| e.all("sp").into_iter().filter(|s| s.all("ph").iter().any(|h| h.attr("type") == Some("hdr"))).flat_map(bodies).collect())),
    ("footer", |d, t| d.settings = d.settings.clone().print(PrintSettings::new().print_what(PrintWhat::Handouts).footer(t)), one, |p| part(p, "ppt/handoutMasters/handoutMaster1.xml", |e| e.all("sp").into_iter().filter(|s| s.all("ph").iter().any(|h| h.attr("type") == Some("ftr"))).flat_map(bodies).collect())),
    ("theme-name", |d, t| d.settings = d.settings.clone().theme({ let mut x = PresentationTheme::modern(); x.name = t.into(); x }), one, |p| part(p, "ppt/theme/theme1.xml", |e| e.attr("name").map(|s| s.to_string()).into_iter().collect())),
    ("theme-scheme", |d, t| d.settings = d.settings.clone().theme({ let mut x = PresentationTheme::modern(); x.name = t.into(); x }), one, |p| part(p, "ppt/theme/theme1.xml", |e| attrs(e, "clrScheme", "name"))),
    ("theme-font", |d, t| d.settings = d.settings.clone().theme(PresentationTheme::modern().major_font(t)), one, |p| part(p, "ppt/theme/theme1.xml", |e| e.all("majorFont").into_iter().flat_map(|f| attrs(f, "latin", "typeface")).collect())),
    ("theme-font2", |d, t| d.settings = d.settings.clone().theme(PresentationTheme::modern().minor_font(t)), one, |p| part(p, "ppt/theme/theme1.xml", |e| e.all("minorFont").into_iter().flat_map(|f| attrs(f, "latin", "typeface")).collect())),
    ("signer", |d, t| d.settings = d.settings.clone().digital_signature(DigitalSignature::new(SignerInfo::new(t))), |t| vec![t.into(), t.into()], |p| part(p, "_xmlsignatures/sig1.xml", |e| texts(e, "KeyName").into_iter().chain(texts(e, "SignatureText")).collect())),
    ("sign-date", |d, t| d.settings = d.settings.clone().digital_signature(DigitalSignature::new(SignerInfo::new("A")).sign_date(t)), one, |p| part(p, "_xmlsignatures/sig1.xml", |e| texts(e, "SigningTime"))),
    ("sign-comment", |d, t| d.settings = d.settings.clone().digital_signature(DigitalSignature::new(SignerInfo::new("A")).comments(t)), one, |p| part(p, "_xmlsignatures/sig1.xml", |e| texts(e, "SignatureComments"))),
    ("font-name", |d, t| d.settings = d.settings.clone().embedded_fonts({ let mut l = EmbeddedFontList::new(); l.add(font(t, FontStyle::Regular, "")); l }), one, |p| part(p, "ppt/presentation.xml", |e| attrs(e, "font", "typeface"))),
    ("font-panose", |d, t| d.settings = d.settings.clone().embedded_fonts({ let mut l = EmbeddedFontList::new(); l.add(font("F", FontStyle::Regular, "").panose(t)); l }), one, |p| part(p, "ppt/presentation.xml", |e| attrs(e, "font", "panose"))),
    ("chart-title", |d, t| upd(d, |s| s.add_chart(ChartBuilder::new(t, ChartType::Bar).categories(vec!["a"]).add_series(ChartSeries::new("s", vec![1.0])).build())), one, |p| charts(p, "title", |e| bodies_rich(e))),
    ("chart-cat", |d, t| upd(d, |s| s.add_chart(ChartBuilder::new("C", ChartType::Line).categories(vec![t, "b"]).add_series(ChartSeries::new("s", vec![1.0, 2.0])).build())), |t| vec![t.into(), "b".into()], |p| charts(p, "cat", |e| texts(e, "v"))),
    ("chart-cat-pie", |d, t| upd(d, |s| s.add_chart(ChartBuilder::new("C", ChartType::Pie).categories(vec!["b", t]).add_series(ChartSeries::new("s", vec![1.0, 2.0])).build())), |t| vec!["b".into(), t.into()], |p| charts(p, "cat", |e| texts(e, "v"))),
];
const SERIES_KINDS: &[ChartType] = &[
    ChartType::Bar, ChartType::BarHorizontal, ChartType::BarStacked, ChartType::Line, ChartType::LineMarkers, ChartType::Pie, ChartType::Doughnut, ChartType::Area, ChartType::Scatter,
    ChartType::Bubble, ChartType::Radar, ChartType::StockHLC, ChartType::Combo,
];

fn links(p: &Pkg) -> Vec<String> {
    let s = p.slides();
    s.first().map(|s| p.rel_of_type(s, "hyperlink").into_iter().map(|r| r.target).collect()).unwrap_or_default()
}
fn bodies_rich(e: &Elem) -> Vec<String> {
    e.all("rich").into_iter().map(body_text).collect()
}
fn charts(p: &Pkg, el: &str, f: impl Fn(&Elem) -> Vec<String>) -> Vec<String> {
    let s = p.slides();
    let c = s.first().and_then(|s| p.rel_of_type(s, "chart").first().map(|r| r.part.clone())).unwrap_or_default();
    part(p, &c, |e| {
        if el == "title" {
            // the chart's own title, not the axis titles
            e.path(&["chart", "title"]).map(|x| f(x)).unwrap_or_default()
        } else {
            e.all(el).first().map(|x| f(x)).unwrap_or_default()
        }
    })
}

/// The supplied text modulo what XML cannot carry.
fn norm(place: &str, s: &str) -> String {
    let r: String = representable(s).chars().filter(|c| *c != '\u{fffd}').collect();
    if place.starts_with("code") || place == "shape-code" || place == "notes-part" {
        // text split into lines: line ends and a placeholder blank on empty lines are not text
        let mut v: Vec<String> = r.replace("\r\n", "\n").split('\n').map(|l| if l == " " { String::new() } else { l.to_string() }).collect();
        while v.last().is_some_and(|l| l.is_empty()) {
            v.pop();
        }
        return v.join("\n");
    }
    r
}
fn same(place: &str, want: &[String], got: &[String]) -> bool {
    let w: Vec<String> = want.iter().map(|s| norm(place, s)).filter(|s| !s.is_empty()).collect();
    let g: Vec<String> = got.iter().map(|s| norm(place, s)).filter(|s| !s.is_empty()).collect();
    w == g
}

pub const CHARS: &[char] = &['a', ' ', '&', '<', '>', '"', '\'', ';', ']', '{', '\\', '\t', '\n', '\r', '\u{1}', '\u{b}', '\u{fffe}', '\u{85}', 'é', '😀'];
pub const SPECIALS: &[&str] = &[
    "&amp;", "&lt;b&gt;", "<b>", "</a:t>", "]]>", "<![CDATA[", "<!--", "-->", "<?xml?>", "&#10;", "&#x1;", "&nope;", "{0}", "{title}", "{{title}}", "${x}", "$1", "%s", "a\u{0}b", "\u{feff}x",
    "\"/><x", "'\"&<>", "a  b   c", "  lead", "trail  ", "\u{2028}", "\u{10ffff}", "_x0041_", "\\n", "a&b<c>d\"e'f", "A&A", "name=\"", "[x]", "**b**", "http://a/?x=1&y=2#z",
];
fn text(ch: &mut Ch, n: usize) -> String {
    let k = ch.pick(1 + SPECIALS.len());
    if k > 0 {
        return SPECIALS[k - 1].to_string();
    }
    let len = 1 + ch.pick(n);
    (0..len).map(|_| *ch.of(CHARS)).collect()
}

type FragPlace = (&'static str, fn(&str) -> Elem, fn(&Elem) -> Vec<String>);
const FRAGS: &[FragPlace] = &[
    ("create_pptx", |t| match create_pptx(t, 2) {
        Ok(b) => match Pkg::from_bytes(&b) {
            Ok(p) => p.doc(p.slides().first().map(|s| s.as_str()).unwrap_or("")).unwrap_or_else(|_| frag("")),
            Err(_) => frag(""),
        },
        Err(_) => frag(""),
    }, |e| bodies(e)),
    ("comment", |t| { let mut c = SlideComments::new(); c.add_comment(0, t, 1, 2); frag(&c.to_xml()) }, |e| texts(e, "text")),
    ("comment-date", |t| frag(&Comment::new(0, "x").date(t).to_xml()), |e| attrs(e, "cm", "dt")),
    ("author", |t| { let mut c = CommentAuthorList::new(); c.get_or_add(t, "i"); frag(&c.to_xml()) }, |e| attrs(e, "cmAuthor", "name")),
    ("initials", |t| { let mut c = CommentAuthorList::new(); c.get_or_add("n", t); frag(&c.to_xml()) }, |e| attrs(e, "cmAuthor", "initials")),
    ("section", |t| { let mut m = SectionManager::new(); let _ = m.add_section(t, 0, 1); frag(&m.to_xml(1)) }, |e| attrs(e, "section", "name")),
    ("core-title", |t| { let mut c = CorePropertiesPart::new(); c.set_title(t); frag(&c.to_xml().unwrap_or_default()) }, |e| texts(e, "title")),
    ("core-subject", |t| { let mut c = CorePropertiesPart::new(); c.set_subject(t); frag(&c.to_xml().unwrap_or_default()) }, |e| texts(e, "subject")),
    ("core-creator", |t| { let mut c = CorePropertiesPart::new(); c.set_creator(t); frag(&c.to_xml().unwrap_or_default()) }, |e| texts(e, "creator")),
    ("core-keywords", |t| { let mut c = CorePropertiesPart::new(); c.set_keywords(t); frag(&c.to_xml().unwrap_or_default()) }, |e| texts(e, "keywords")),
    ("core-description", |t| { let mut c = CorePropertiesPart::new(); c.set_description(t); frag(&c.to_xml().unwrap_or_default()) }, |e| texts(e, "description")),
    ("app-company", |t| { let mut c = AppPropertiesPart::new(); c.company = Some(t.into()); frag(&c.to_xml().unwrap_or_default()) }, |e| texts(e, "Company")),
    ("app-application", |t| { let mut c = AppPropertiesPart::new(); c.application = t.into(); frag(&c.to_xml().unwrap_or_default()) }, |e| texts(e, "Application")),
    ("rel-target", |t| { let mut r = Relationships::new(); r.add(RelationshipType::Image, t); frag(&r.to_xml()) }, |e| attrs(e, "Relationship", "Target")),
    ("ct-part", |t| { let mut r = ContentTypesPart::new(); r.add_override(t, "x/y"); frag(&r.to_xml().unwrap_or_default()) }, |e| e.all("Override").into_iter().filter(|o| o.attr("ContentType") == Some("x/y")).filter_map(|o| o.attr("PartName").map(|s| s.to_string())).collect()),
    ("theme-part", |t| { let mut r = ThemePart::new(1); r.set_name(t); r.set_major_font(t); r.set_minor_font(t); frag(&r.to_xml().unwrap_or_default()) }, |e| attrs(e, "theme", "name")),
    ("theme-part-font", |t| { let mut r = ThemePart::new(1); r.set_major_font(t); frag(&r.to_xml().unwrap_or_default()) }, |e| e.all("majorFont").into_iter().flat_map(|f| attrs(f, "latin", "typeface")).collect()),
    ("notes-part", |t| frag(&NotesSlidePart::with_text(1, t).to_xml().unwrap_or_default()), |e| bodies(e)),
    ("hyperlink-tooltip", |t| frag(&generate_text_hyperlink_xml(&Hyperlink::url("u").with_tooltip(t), "rId1")), |e| attrs(e, "hlinkClick", "tooltip")),
    ("image-name", |t| frag(&generate_image_xml(&Image::new(t, 1, 1, "PNG"), 1, 1)), |e| attrs(e, "cNvPr", "name")),
    ("video-alt", |t| frag(&generate_video_xml(&Video::new("v", VideoFormat::Mp4, 0, 0, 1, 1).with_alt_text(t), 1, "rId1", "rId2")), |e| attrs(e, "cNvPr", "descr")),
    ("run", |t| frag(&Run::new(t).to_xml()), |e| texts(e, "t")),
];

pub fn prop() -> Prop {
    Prop {
        id: "G02",
        level: "exploration",
        rule: "every string up to the stated length over an alphabet of markup-significant, control, blank and multibyte characters, plus fixed hostile strings, in every place that carries caller text; a case is one (place, text); the observed text is read back by the oracle's own XML parser",
        assumptions: STD,
        scenarios: |t| {
            let n = if t == Tier::Quick { 2 } else { 3 };
            let bound = format!("all strings of length 1..{n} over {} characters + {} fixed strings", CHARS.len(), SPECIALS.len());
            vec![
                Scenario::new("places", format!("{} places x {bound}", PLACES.len()), 0, |ch| {
                    let n = if ch.tier == Tier::Quick { 2 } else { 3 };
                    let (name, put, want, obs) = PLACES[ch.pick(PLACES.len())];
                    let t = text(ch, n);
                    let mut d = Deck { title: "Deck".into(), slides: vec![SlideContent::new("T")], settings: PresentationSettings::new(), spec: vec![] };
                    put(&mut d, &t);
                    ch.note(|| format!("{name} = {t:?}"));
                    let b = bytes_of(d.build(), name)?;
                    let p = pkg_of(&b)?;
                    let (_, fs) = pkg::check(&p);
                    ch.report_all(fs.into_iter().map(|f| Fail { sig: format!("{name}:{}", f.sig), msg: format!("{name} = {t:?}: {}", f.msg) }).collect());
                    let (w, g) = (want(&t), obs(&p));
                    ch.check(same(name, &w, &g), format!("{name}:text"), || format!("{name} = {t:?}: expected {w:?}, read back {g:?}"));
                    ch.nontrivial(hash_str(&format!("{name}{t}")));
                    ch.outcome(hash_str(&g.join("\u{1}")));
                    Ok(())
                }),
                Scenario::new("chart-series", format!("{} chart kinds x {bound}", SERIES_KINDS.len()), 0, |ch| {
                    let kind = ch.of(SERIES_KINDS).clone();
                    let n = if ch.tier == Tier::Quick { 1 } else { 2 };
                    let t = text(ch, n);
                    let name = format!("series:{kind:?}");
                    ch.note(|| format!("{name} = {t:?}"));
                    let mk = |s: &str| ChartSeries::new(s, vec![1.0, 2.0]);
                    let c = ChartBuilder::new(&t, kind).categories(vec!["x", &t]).add_series(mk(&t)).add_series(mk("s2")).add_series(mk("s3")).add_series(mk("s4")).build();
                    let d = Deck { title: "Deck".into(), slides: vec![SlideContent::new("T").add_chart(c)], settings: PresentationSettings::new(), spec: vec![] };
                    let b = bytes_of(d.build(), &name)?;
                    let p = pkg_of(&b)?;
                    let (_, fs) = pkg::check(&p);
                    ch.report_all(fs.into_iter().map(|f| Fail { sig: format!("{name}:{}", f.sig), msg: format!("{name} = {t:?}: {}", f.msg) }).collect());
                    let g = charts(&p, "ser", |e| e.all("tx").first().map(|x| { let mut v = texts(x, "v"); if v.is_empty() { v = bodies_rich(x) } v }).unwrap_or_default());
                    ch.check(same(&name, &one(&t), &g), format!("{name}:text"), || format!("{name} = {t:?}: read back {g:?}"));
                    ch.nontrivial(hash_str(&format!("{name}{t}")));
                    Ok(())
                }),
                Scenario::new("fragments", format!("{} stand-alone markup producers x {bound}", FRAGS.len()), 0, |ch| {
                    let n = if ch.tier == Tier::Quick { 2 } else { 3 };
                    let (name, mk, obs) = FRAGS[ch.pick(FRAGS.len())];
                    let t = text(ch, n);
                    ch.note(|| format!("{name} = {t:?}"));
                    let e = mk(&t);
                    ch.check(&*e.local != "malformed", format!("{name}:malformed"), || format!("{name} = {t:?}: {}", e.text()));
                    if &*e.local != "malformed" {
                        let g = obs(&e);
                        ch.check(same(name, &one(&t), &g), format!("{name}:text"), || format!("{name} = {t:?}: read back {g:?}"));
                        ch.outcome(hash_str(&g.join("\u{1}")));
                    }
                    ch.nontrivial(hash_str(&format!("{name}{t}")));
                    Ok(())
                }),
                Scenario::new("everywhere", "every pair of places on one deck x fixed strings", 0, |ch| {
                    let i = ch.pick(PLACES.len());
                    let j = ch.pick(PLACES.len());
                    let t = ch.of(SPECIALS).to_string();
                    let u = "x&<\"'>\u{2}y";
                    let mut d = Deck { title: "Deck".into(), slides: vec![SlideContent::new("T")], settings: PresentationSettings::new(), spec: vec![] };
                    (PLACES[i].1)(&mut d, &t);
                    (PLACES[j].1)(&mut d, u);
                    ch.note(|| format!("{} = {t:?}, {} = {u:?}", PLACES[i].0, PLACES[j].0));
                    let b = bytes_of(d.build(), "pair")?;
                    let p = pkg_of(&b)?;
                    let (_, fs) = pkg::check(&p);
                    ch.report_all(fs.into_iter().map(|f| Fail { sig: format!("pair:{}", f.sig), msg: format!("{} = {t:?}, {} = {u:?}: {}", PLACES[i].0, PLACES[j].0, f.msg) }).collect());
                    ch.nontrivial(hash_str(&format!("{i} {j} {t}")));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
