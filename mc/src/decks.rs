//! Deck lattice shared by the properties: a deck is a list of slides, each the plain slide plus a
//! set of features, and presentation settings. Every feature is one unit of the deviation budget.
use crate::engine::*;
use ppt_rs::generator::slide_content::{BulletPoint, CodeBlock, TransitionType};
use ppt_rs::generator::*;
use std::path::PathBuf;
use std::sync::OnceLock;

#[derive(Clone)]
pub struct Deck {
    pub title: String,
    pub slides: Vec<SlideContent>,
    pub settings: PresentationSettings,
    pub spec: Vec<String>,
}

/// Distinct, decodable 1x1 PNG-like payload number n.
pub fn png(n: u8) -> Vec<u8> {
    let mut v = vec![0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a, 0, 0, 0, 13, b'I', b'H', b'D', b'R', 0, 0, 0, 1, 0, 0, 0, 1, 8, 2, 0, 0, 0];
    v.extend([n, 0xff, 0xfe, n ^ 0x5a]);
    v
}
pub fn jpeg(n: u8) -> Vec<u8> {
    vec![0xff, 0xd8, 0xff, 0xe0, 0, 16, b'J', b'F', b'I', b'F', 0, n, 0xff, 0xd9]
}
pub fn gif(n: u8) -> Vec<u8> {
    let mut v = b"GIF89a".to_vec();
    v.extend([1, 0, 1, 0, n, 0, 0, 0x3b]);
    v
}
pub fn bmp(n: u8) -> Vec<u8> {
    let mut v = b"BM".to_vec();
    v.extend([30, 0, 0, 0, n, 0, 0, 0, 26, 0, 0, 0, 1, 0, 1, 0]);
    v
}
pub fn tiff(n: u8) -> Vec<u8> {
    vec![b'I', b'I', 42, 0, 8, 0, 0, 0, n, 0]
}
pub fn webp(n: u8) -> Vec<u8> {
    let mut v = b"RIFF".to_vec();
    v.extend([12, 0, 0, 0]);
    v.extend(b"WEBPVP8 ");
    v.push(n);
    v
}
pub fn svg(n: u8) -> Vec<u8> {
    format!("<svg xmlns=\"http://www.w3.org/2000/svg\"><!--{n}--></svg>").into_bytes()
}

pub fn scratch() -> &'static PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    })
}
pub fn cleanup() {
    let d = std::env::temp_dir().join(format!("mc-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(d);
}

/// A file with picture bytes, written once.
pub fn picture_file(name: &str, data: &[u8]) -> String {
    let p = scratch().join(name);
    if !p.exists() {
        let t = scratch().join(format!("{name}.{:?}", std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::write(&t, data).unwrap();
        std::fs::rename(&t, &p).unwrap();
    }
    p.to_string_lossy().into_owned()
}

pub fn chart(kind: ChartType, tag: &str) -> Chart {
    ChartBuilder::new(&format!("Chart {tag}"), kind)
        .categories(vec!["Q1", "Q2", "Q3"])
        .add_series(ChartSeries::new(&format!("S1 {tag}"), vec![1.0, 2.5, -3.0]))
        .add_series(ChartSeries::new(&format!("S2 {tag}"), vec![4.0, 5.0, 6.0]))
        .position(500000, 1600000)
        .size(4000000, 3000000)
        .build()
}
pub fn ink() -> InkAnnotations {
    let mut i = InkAnnotations::new();
    i.add_stroke(InkStroke::new(InkPen::red()).add_point(1.0, 2.0).add_point(3.0, 4.0));
    i
}
pub fn table(tag: &str) -> Table {
    TableBuilder::new(vec![1000000, 2000000])
        .add_simple_row(vec![&format!("H1 {tag}"), "H2"])
        .add_row(TableRow::new(vec![TableCell::new(&format!("a {tag}")).bold(), TableCell::new("b")]))
        .position(500000, 1500000)
        .build()
}

type F = fn(SlideContent, usize) -> SlideContent;
/// Per-slide features. `n` is the slide index, used to make texts unique.
pub const FEATURES: &[(&str, F)] = &[
    ("bullet", |s, n| s.add_bullet(&format!("point {n}"))),
    ("numbered+sub", |s, n| s.add_numbered(&format!("num {n}")).add_sub_bullet(&format!("sub {n}"))),
    ("two-bullets", |s, n| s.add_bullet(&format!("first {n}")).add_styled_bullet(&format!("second {n}"), BulletStyle::Custom('-'))),
    ("table", |s, n| s.table(table(&n.to_string()))),
    ("shape", |s, n| s.add_shape(Shape::new(ShapeType::Ellipse, 1000, 2000, 300000, 400000).with_text(&format!("shape {n}")).with_fill(ShapeFill::new("FF0000")))),
    ("link-shape", |s, n| s.add_shape(Shape::new(ShapeType::Rectangle, 1000, 2000, 300000, 400000).with_text(&format!("link {n}")).with_hyperlink(Hyperlink::url("https://example.com/?a=1&b=2").with_tooltip("go")))),
    ("link-slide", |s, n| s.add_shape(Shape::new(ShapeType::Rectangle, 1000, 2000, 300000, 400000).with_text(&format!("jump {n}")).with_hyperlink(Hyperlink::slide(1)))),
    ("link-first", |s, n| s.add_shape(Shape::new(ShapeType::Rectangle, 1000, 2000, 300000, 400000).with_text(&format!("jump1 {n}")).with_hyperlink(Hyperlink::new(HyperlinkAction::FirstSlide)))),
    ("link-mail", |s, n| s.add_shape(Shape::new(ShapeType::Rectangle, 1000, 2000, 300000, 400000).with_text(&format!("mail {n}")).with_hyperlink(Hyperlink::email("a@b.c")))),
    ("gradient-shape", |s, _| s.add_shape(Shape::new(ShapeType::Diamond, 10, 20, 30, 40).with_gradient(shapes::GradientFill::linear("FF0000", "00FF00", shapes::GradientDirection::Horizontal)).with_line(ShapeLine::new("000000", 12700)))),
    ("twelve-shapes", |mut s, n| {
        for k in 0..12 {
            s = s.add_shape(Shape::new(ShapeType::Rectangle, 100 * k, 0, 100, 100).with_text(&format!("sh{k} {n}")));
        }
        s
    }),
    ("fixed-id-shapes", |s, _| s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_text("A").with_id(12)).add_shape(Shape::new(ShapeType::Rectangle, 9, 9, 9, 9).with_text("B"))),
    ("png", |s, _| s.add_image(Image::from_bytes(png(1), 100, 200, "PNG").position(5, 6))),
    ("jpg", |s, _| s.add_image(Image::from_bytes(jpeg(1), 100, 200, "JPG").with_alt_text("photo"))),
    ("jpeg", |s, _| s.add_image(Image::from_bytes(jpeg(2), 100, 200, "JPEG"))),
    ("gif", |s, _| s.add_image(Image::from_bytes(gif(1), 100, 200, "GIF"))),
    ("bmp", |s, _| s.add_image(Image::from_bytes(bmp(1), 100, 200, "BMP"))),
    ("tiff", |s, _| s.add_image(Image::from_bytes(tiff(1), 100, 200, "TIFF"))),
    ("webp", |s, _| s.add_image(Image::from_bytes(webp(1), 100, 200, "WEBP"))),
    ("svg", |s, _| s.add_image(Image::from_bytes(svg(1), 100, 200, "SVG"))),
    ("png-again", |s, _| s.add_image(Image::from_bytes(png(1), 100, 200, "PNG")).add_image(Image::from_bytes(png(2), 100, 200, "PNG"))),
    ("png-missing", |s, _| s.add_image(Image::new("/nonexistent/x.png", 10, 10, "PNG")).add_image(Image::from_bytes(png(3), 10, 10, "PNG"))),
    ("png-file", |s, _| s.add_image(Image::new(&picture_file("pic.png", &png(9)), 10, 10, "PNG"))),
    ("cropped", |s, _| s.add_image(Image::from_bytes(png(4), 100, 200, "PNG").with_crop(0.1, 0.2, 0.3, 0.4).with_effect(images::ImageEffect::Shadow))),
    ("bar-chart", |s, n| s.add_chart(chart(ChartType::Bar, &n.to_string()))),
    ("two-charts", |s, n| s.add_chart(chart(ChartType::Pie, &n.to_string())).add_chart(chart(ChartType::Scatter, &n.to_string()))),
    ("connector", |s, _| s.add_connector(Connector::straight(0, 0, 100, 100).with_label("lab"))),
    ("shapes+connector", |s, _| {
        s.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_id(31)).add_shape(Shape::new(ShapeType::Rectangle, 90, 0, 9, 9).with_id(32)).add_connector(
            Connector::elbow(9, 4, 90, 4).connect_start(31, ConnectionSite::Right).connect_end(32, ConnectionSite::Left).with_end_arrow(ArrowType::Triangle),
        )
    }),
    ("code", |mut s, n| {
        s.code_blocks.push(CodeBlock::new(&format!("let x = {n};\n  y(\"s\");"), "rust"));
        s
    }),
    ("notes", |s, n| s.notes(&format!("note {n}"))),
    ("ink", |s, _| s.with_ink(ink())),
    ("fade", |s, _| s.with_transition(TransitionType::Fade)),
    ("zoom", |s, _| s.with_transition(TransitionType::Zoom)),
    ("formatted", |mut s, n| {
        s = s.title_size(20).title_italic(true).title_color("FF0000").content_bold(true).content_size(12).content_color("#00ff00").add_bullet(&format!("fmt {n}"));
        s.bullets.push(BulletPoint::new("lvl2").with_level(2).bold().color("0000FF"));
        s
    }),
    ("video", |s, _| s.add_video(Video::new("v.mp4", VideoFormat::Mp4, 0, 0, 10, 10))),
    ("audio", |s, _| s.add_audio(Audio::new("a.mp3", AudioFormat::Mp3, 0, 0, 10, 10))),
    ("centered-title", |s, _| s.layout(SlideLayout::CenteredTitle)),
    ("two-column", |s, n| s.layout(SlideLayout::TwoColumn).add_bullet(&format!("l {n}")).add_bullet(&format!("m {n}")).add_bullet(&format!("r {n}"))),
    ("blank", |s, _| s.layout(SlideLayout::Blank)),
    ("title-only", |s, _| s.layout(SlideLayout::TitleOnly)),
    ("big-content", |s, n| s.layout(SlideLayout::TitleAndBigContent).add_bullet(&format!("big {n}"))),
];

type S = fn(PresentationSettings) -> PresentationSettings;
pub fn font(face: &str, style: FontStyle, rid: &str) -> EmbeddedFont {
    EmbeddedFont::new(face, style, vec![0, 1, 0, 0, 9, face.len() as u8], rid)
}
pub const SETTINGS: &[(&str, S)] = &[
    ("theme", |s| s.theme(PresentationTheme::modern())),
    ("kiosk", |s| s.slide_show(SlideShowSettings::kiosk())),
    ("show-range", |s| s.slide_show(SlideShowSettings::new().slide_range(SlideRange::Range { start: 1, end: 1 }).pen_color(PenColor::red()))),
    ("print", |s| s.print(PrintSettings::new().color_mode(PrintColorMode::Grayscale).header("H").footer("F"))),
    ("handouts", |s| s.print(PrintSettings::new().print_what(PrintWhat::Handouts).header("H & H").footer("F"))),
    ("font", |s| {
        let mut l = EmbeddedFontList::new();
        l.add(font("My Font", FontStyle::Regular, ""));
        s.embedded_fonts(l)
    }),
    ("fonts2", |s| {
        let mut l = EmbeddedFontList::new();
        l.add(font("My Font", FontStyle::Regular, ""));
        l.add(font("My Font", FontStyle::Bold, ""));
        l.add(font("Other", FontStyle::Italic, ""));
        s.embedded_fonts(l)
    }),
    ("signature", |s| s.digital_signature(DigitalSignature::new(SignerInfo::new("Ann").email("a@b.c")).sign_date("2024-01-01").comments("ok"))),
];
pub fn template_file() -> String {
    let b = OnceLock::new();
    let d: &Vec<u8> = b.get_or_init(|| create_pptx_with_settings("Tpl", &[SlideContent::new("T")], Some(PresentationSettings::new().theme(PresentationTheme::nature()))).unwrap());
    picture_file("template.pptx", d)
}

pub fn slide(n: usize) -> SlideContent {
    SlideContent::new(&format!("Slide {n}"))
}
/// Choose a deck of `min..=max` slides; features deviate from the plain deck.
pub fn deck(ch: &mut Ch, min: usize, max: usize, with_settings: bool, with_template: bool) -> Deck {
    let n = min + ch.pick(max - min + 1);
    let mut d = Deck { title: "Deck".into(), slides: vec![], settings: PresentationSettings::new(), spec: vec![] };
    for i in 0..n {
        let mut s = slide(i);
        // ascending feature order: sets of features, not sequences
        let mut from = 0;
        loop {
            let k = ch.dev(FEATURES.len() - from + 1);
            if k == 0 {
                break;
            }
            let (name, f) = FEATURES[from + k - 1];
            s = f(s, i);
            d.spec.push(format!("{i}:{name}"));
            from += k;
            if from >= FEATURES.len() {
                break;
            }
        }
        d.slides.push(s);
    }
    if with_settings {
        let mut from = 0;
        loop {
            let k = ch.dev(SETTINGS.len() - from + 1);
            if k == 0 {
                break;
            }
            let (name, f) = SETTINGS[from + k - 1];
            d.settings = f(d.settings);
            d.spec.push(name.into());
            from += k;
            if from >= SETTINGS.len() {
                break;
            }
        }
        if with_template && ch.dev(2) == 1 {
            d.settings = d.settings.template(template_file());
            d.spec.push("template".into());
        }
    }
    let sp = d.spec.join(" ");
    ch.note(|| format!("{n} slides [{sp}]"));
    d
}
impl Deck {
    pub fn build(&self) -> Result<Vec<u8>, ppt_rs::PptxError> {
        create_pptx_with_settings(&self.title, &self.slides, Some(self.settings.clone()))
    }
    pub fn describe(&self) -> String {
        format!("{} slides [{}]", self.slides.len(), self.spec.join(" "))
    }
}
