//! T07: a call on a builder sets what it names and nothing else, in every order of calls.
use super::g03::{run_of, Run as Seen};
use super::*;
use crate::decks::{self, *};
use crate::xml::{parse_str, Elem};
use ppt_rs::core::Dimension;
use ppt_rs::generator::slide_content::{BulletPoint, BulletTextFormat, CodeBlock, TransitionType};
use ppt_rs::generator::table::{CellAlign, CellVAlign};
use ppt_rs::generator::*;
use ppt_rs::helpers::{self, QuickTable, ShapeExt};
use ppt_rs::prelude::{self, QuickPptx};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub type Attrs = BTreeMap<&'static str, String>;
pub type Op<T> = (&'static str, fn(T) -> T, fn(&mut Attrs));
pub type Start<T> = (&'static str, fn() -> T, fn(&mut Attrs));

pub fn put(m: &mut Attrs, k: &'static str, v: impl Debug) {
    m.insert(k, format!("{v:?}"));
}
pub fn add(m: &mut Attrs, k: &'static str, v: &str) {
    let e = m.entry(k).or_default();
    e.push_str(v);
    e.push('|');
}
fn num(m: &Attrs, k: &str) -> u64 {
    m[k].parse().unwrap_or(0)
}
macro_rules! see {
    ($t:expr; $($f:ident)*) => {{ let mut m = Attrs::new(); $(put(&mut m, stringify!($f), &$t.$f);)* m }};
}
/// All sequences of up to `depth` calls from each start, seen at the end.
pub fn machine<T>(ch: &mut Ch, what: &str, starts: &[Start<T>], ops: &[Op<T>], fin: fn(T) -> Attrs, depth: usize) -> Res {
    let (sn, s, sm) = *ch.of(starts);
    let mut m = fin(s());
    let base = m.clone();
    sm(&mut m);
    ch.check(base == m, format!("{what}-{sn}"), || diff(&format!("{sn}()"), &base, &m));
    let mut t = s();
    let mut calls = sn.to_string();
    let mut last = sn;
    for _ in 0..depth {
        let k = ch.pick(ops.len() + 1);
        if k == 0 {
            break;
        }
        let (n, f, om) = ops[k - 1];
        t = f(t);
        om(&mut m);
        calls += ".";
        calls += n;
        last = n;
        ch.step();
    }
    let got = fin(t);
    ch.check(got == m, format!("{what}-{last}"), || diff(&calls, &got, &m));
    let h = hash_str(&format!("{m:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}
pub fn diff(calls: &str, got: &Attrs, want: &Attrs) -> String {
    let d: Vec<String> = want.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| format!("{k} is {}, expected {v}", got.get(k).map_or("absent", |s| s.as_str()))).collect();
    format!("{calls}: {}", d.join("; "))
}

// ---- shapes ----
fn place(m: &mut Attrs, p: [u32; 4]) {
    for (k, v) in ["x", "y", "width", "height"].into_iter().zip(p) {
        put(m, k, v);
    }
}
fn shape_attrs(s: Shape) -> Attrs {
    let mut m = see!(s; x y width height text id rotation);
    put(&mut m, "shape_type", s.shape_type.preset_name());
    put(&mut m, "fill", s.fill.as_ref().map(|f| (f.color.clone(), f.transparency)));
    put(&mut m, "gradient", s.gradient.as_ref().map(|g| g.stops.iter().map(|s| (s.color.clone(), s.position)).collect::<Vec<_>>()));
    put(&mut m, "line", s.line.as_ref().map(|l| (l.color.clone(), l.width)));
    put(&mut m, "link", s.hyperlink.as_ref().map(|l| l.action.relationship_target()));
    m
}
const NOFILL: Option<(String, Option<u32>)> = None;
const NOGRAD: Option<Vec<(String, u32)>> = None;
fn shapes(ch: &mut Ch, depth: usize) -> Res {
    use prelude::shapes as q;
    use ShapeType::*;
    const I: u32 = 914400;
    macro_rules! start {
        ($n:expr, $e:expr, $k:expr, $p:expr) => {
            ($n, || $e, |m| { put(m, "shape_type", $k.preset_name()); place(m, $p); for k in ["id", "rotation", "line", "link"] { m.insert(k, "None".into()); } put(m, "gradient", NOGRAD); put(m, "fill", NOFILL); m.insert("text", "None".into()); })
        };
        ($n:expr, $e:expr, $k:expr, $p:expr, $t:expr) => {
            ($n, || $e, |m| { put(m, "shape_type", $k.preset_name()); place(m, $p); for k in ["id", "rotation", "line", "link"] { m.insert(k, "None".into()); } put(m, "gradient", NOGRAD); put(m, "fill", NOFILL); put(m, "text", Some($t)); })
        };
    }
    let starts: &[Start<Shape>] = &[
        start!("new", Shape::new(Heart, 1, 2, 3, 4), Heart, [1, 2, 3, 4]),
        start!("from_dimensions", Shape::from_dimensions(Star5, Dimension::ratio(0.5), Dimension::ratio(0.5), Dimension::inches(2.0), Dimension::percent(25.0)), Star5, [5 * I, 15 * I / 4, 2 * I, 15 * I / 8]),
        start!("helpers::rect", helpers::rect(1.0, 2.0, 3.0, 4.0), Rectangle, [I, 2 * I, 3 * I, 4 * I]),
        start!("helpers::circle", helpers::circle(1.0, 2.0, 3.0), Circle, [I, 2 * I, 3 * I, 3 * I]),
        start!("helpers::ellipse", helpers::ellipse(1.0, 2.0, 3.0, 4.0), Ellipse, [I, 2 * I, 3 * I, 4 * I]),
        start!("helpers::rounded_rect", helpers::rounded_rect(1.0, 2.0, 3.0, 4.0), RoundedRectangle, [I, 2 * I, 3 * I, 4 * I]),
        start!("helpers::triangle", helpers::triangle(1.0, 2.0, 3.0, 4.0), Triangle, [I, 2 * I, 3 * I, 4 * I]),
        start!("helpers::diamond", helpers::diamond(1.0, 2.0, 3.0, 4.0), Diamond, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::rect", q::rect(1.0, 2.0, 3.0, 4.0), Rectangle, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::rect_emu", q::rect_emu(1, 2, 3, 4), Rectangle, [1, 2, 3, 4]),
        start!("shapes::circle", q::circle(1.0, 2.0, 3.0), Circle, [I, 2 * I, 3 * I, 3 * I]),
        start!("shapes::circle_emu", q::circle_emu(1, 2, 3), Circle, [1, 2, 3, 3]),
        start!("shapes::rounded_rect", q::rounded_rect(1.0, 2.0, 3.0, 4.0), RoundedRectangle, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::text_box", q::text_box(1.0, 2.0, 3.0, 4.0, "w"), Rectangle, [I, 2 * I, 3 * I, 4 * I], "w"),
        start!("shapes::arrow_right", q::arrow_right(1.0, 2.0, 3.0, 4.0), RightArrow, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::arrow_left", q::arrow_left(1.0, 2.0, 3.0, 4.0), LeftArrow, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::arrow_up", q::arrow_up(1.0, 2.0, 3.0, 4.0), UpArrow, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::arrow_down", q::arrow_down(1.0, 2.0, 3.0, 4.0), DownArrow, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::diamond", q::diamond(1.0, 2.0, 3.0), Diamond, [I, 2 * I, 3 * I, 3 * I]),
        start!("shapes::triangle", q::triangle(1.0, 2.0, 3.0, 4.0), Triangle, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::star", q::star(1.0, 2.0, 3.0), Star5, [I, 2 * I, 3 * I, 3 * I]),
        start!("shapes::heart", q::heart(1.0, 2.0, 3.0), Heart, [I, 2 * I, 3 * I, 3 * I]),
        start!("shapes::cloud", q::cloud(1.0, 2.0, 3.0, 4.0), Cloud, [I, 2 * I, 3 * I, 4 * I]),
        start!("shapes::callout", q::callout(1.0, 2.0, 3.0, 4.0, "w"), WedgeRectCallout, [I, 2 * I, 3 * I, 4 * I], "w"),
        start!("shapes::process", q::process(1.0, 2.0, 3.0, 4.0, "w"), FlowChartProcess, [I, 2 * I, 3 * I, 4 * I], "w"),
        start!("shapes::decision", q::decision(1.0, 2.0, 3.0, "w"), FlowChartDecision, [I, 2 * I, 3 * I, 3 * I], "w"),
        start!("shapes::document", q::document(1.0, 2.0, 3.0, 4.0, "w"), FlowChartDocument, [I, 2 * I, 3 * I, 4 * I], "w"),
        start!("shapes::data", q::data(1.0, 2.0, 3.0, 4.0, "w"), FlowChartData, [I, 2 * I, 3 * I, 4 * I], "w"),
        start!("shapes::terminator", q::terminator(1.0, 2.0, 3.0, 4.0, "w"), FlowChartTerminator, [I, 2 * I, 3 * I, 4 * I], "w"),
        start!("shapes::dim", q::dim(Sun, Dimension::ratio(0.5), Dimension::ratio(0.5), Dimension::inches(2.0), Dimension::percent(25.0)), Sun, [5 * I, 15 * I / 4, 2 * I, 15 * I / 8]),
        start!("shapes::rect_ratio", q::rect_ratio(0.5, 0.25, 0.75, 0.125), Rectangle, [5 * I, 15 * I / 8, 15 * I / 2, 15 * I / 16]),
        start!("shapes::text_box_ratio", q::text_box_ratio(0.5, 0.25, 0.75, 0.125, "w"), Rectangle, [5 * I, 15 * I / 8, 15 * I / 2, 15 * I / 16], "w"),
        ("shapes::badge", || q::badge(1.0, 2.0, "w", "#AABBCC"), |m| {
            put(m, "shape_type", RoundedRectangle.preset_name());
            put(m, "x", I);
            put(m, "y", 2 * I);
            put(m, "fill", Some(("AABBCC", None::<u32>)));
            put(m, "text", Some("w"));
        }),
    ];
    fn fill(m: &mut Attrs, c: &str, t: Option<u32>) {
        put(m, "fill", Some((c, t)));
        put(m, "gradient", NOGRAD);
    }
    fn grad(m: &mut Attrs, c: &[(&str, u32)]) {
        put(m, "gradient", Some(c));
        put(m, "fill", NOFILL);
    }
    let ops: &[Op<Shape>] = &[
        ("with_id", |s| s.with_id(7), |m| put(m, "id", Some(7))),
        ("with_rotation", |s| s.with_rotation(45), |m| put(m, "rotation", Some(45))),
        ("with_rotation2", |s| s.with_rotation(-90), |m| put(m, "rotation", Some(-90))),
        ("with_hyperlink", |s| s.with_hyperlink(Hyperlink::url("u")), |m| put(m, "link", Some("u"))),
        ("with_fill", |s| s.with_fill(ShapeFill::new("#112233").with_transparency(20)), |m| fill(m, "112233", Some(80000))),
        ("with_fill2", |s| s.with_fill(ShapeFill::new("445566")), |m| fill(m, "445566", None)),
        ("with_gradient", |s| s.with_gradient(shapes::GradientFill::linear("AA0000", "00AA00", shapes::GradientDirection::Vertical)), |m| grad(m, &[("AA0000", 0), ("00AA00", 100000)])),
        ("with_gradient3", |s| s.with_gradient(shapes::GradientFill::three_color("AA0000", "00AA00", "0000AA", shapes::GradientDirection::Vertical)), |m| grad(m, &[("AA0000", 0), ("00AA00", 50000), ("0000AA", 100000)])),
        ("with_line", |s| s.with_line(ShapeLine::new("#778899", 12)), |m| put(m, "line", Some(("778899", 12)))),
        ("with_text", |s| s.with_text("t1"), |m| put(m, "text", Some("t1"))),
        ("at", |s| s.at(Dimension::ratio(0.25), Dimension::ratio(0.5)), |m| { put(m, "x", 5 * I / 2); put(m, "y", 15 * I / 4) }),
        ("with_dimensions", |s| s.with_dimensions(Dimension::ratio(0.5), Dimension::ratio(0.25)), |m| { put(m, "width", 5 * I); put(m, "height", 15 * I / 8) }),
        ("fill", |s| s.fill(helpers::rgb(1, 2, 255)), |m| fill(m, "0102FF", None)),
        ("stroke", |s| s.stroke(helpers::rgb(16, 0, 9), 2.0), |m| put(m, "line", Some(("100009", 25400)))),
        ("text", |s| s.text("t2"), |m| put(m, "text", Some("t2"))),
        ("shapes::colored", |s| q::colored(s, "#ABCDEF", None), |m| fill(m, "ABCDEF", None)),
        ("shapes::colored-line", |s| q::colored(s, "FEDCBA", Some("#010203")), |m| { fill(m, "FEDCBA", None); let w = 12700; put(m, "line", Some(("010203", w))) }),
        ("shapes::gradient", |s| q::gradient(s, "#AA0000", "00BB00", shapes::GradientDirection::Vertical), |m| grad(m, &[("AA0000", 0), ("00BB00", 100000)])),
    ];
    machine(ch, "shape", starts, ops, shape_attrs, depth)
}

// ---- connectors ----
fn connectors(ch: &mut Ch, depth: usize) -> Res {
    macro_rules! start {
        ($n:expr, $e:expr, $k:expr) => {
            ($n, || $e, |m| {
                put(m, "connector_type", $k);
                for (k, v) in ["start_x", "start_y", "end_x", "end_y"].into_iter().zip([1, 2, 3, 4]) {
                    put(m, k, v);
                }
                for k in ["start_shape_id", "start_site", "end_shape_id", "end_site", "label", "start_arrow", "end_arrow"] {
                    m.insert(k, "None".into());
                }
            })
        };
    }
    let starts: &[Start<Connector>] = &[
        start!("new", Connector::new(ConnectorType::Curved, 1, 2, 3, 4), ConnectorType::Curved),
        start!("straight", Connector::straight(1, 2, 3, 4), ConnectorType::Straight),
        start!("elbow", Connector::elbow(1, 2, 3, 4), ConnectorType::Elbow),
        start!("curved", Connector::curved(1, 2, 3, 4), ConnectorType::Curved),
    ];
    let ops: &[Op<Connector>] = &[
        ("with_line", |c| c.with_line(ConnectorLine::new("#AA00BB", 5).with_dash(LineDash::Dot)), |m| { put(m, "color", "AA00BB"); put(m, "line_width", 5); put(m, "dash", LineDash::Dot) }),
        ("with_color", |c| c.with_color("#CC0000"), |m| put(m, "color", "CC0000")),
        ("with_width", |c| c.with_width(77), |m| put(m, "line_width", 77)),
        ("with_start_arrow", |c| c.with_start_arrow(ArrowType::Oval), |m| put(m, "start_arrow", ArrowType::Oval)),
        ("with_end_arrow", |c| c.with_end_arrow(ArrowType::Diamond), |m| put(m, "end_arrow", ArrowType::Diamond)),
        ("with_arrows", |c| c.with_arrows(ArrowType::Stealth, ArrowType::Triangle), |m| { put(m, "start_arrow", ArrowType::Stealth); put(m, "end_arrow", ArrowType::Triangle) }),
        ("with_arrow_size", |c| c.with_arrow_size(ArrowSize::Large), |m| put(m, "arrow_size", ArrowSize::Large)),
        ("connect_start", |c| c.connect_start(11, ConnectionSite::Left), |m| { put(m, "start_shape_id", Some(11)); put(m, "start_site", Some(ConnectionSite::Left)) }),
        ("connect_end", |c| c.connect_end(12, ConnectionSite::Bottom), |m| { put(m, "end_shape_id", Some(12)); put(m, "end_site", Some(ConnectionSite::Bottom)) }),
        ("with_label", |c| c.with_label("l"), |m| put(m, "label", Some("l"))),
    ];
    machine(ch, "connector", starts, ops, |c| {
        let mut m = see!(c; connector_type start_x start_y end_x end_y start_arrow end_arrow arrow_size start_shape_id start_site end_shape_id end_site label);
        put(&mut m, "color", &c.line.color);
        put(&mut m, "line_width", c.line.width);
        put(&mut m, "dash", c.line.dash);
        m
    }, depth)
}

// ---- pictures ----
fn effect_name(e: &images::ImageEffect) -> String {
    format!("{e:?}")
}
fn image_attrs(i: Image) -> Attrs {
    let mut m = see!(i; x y width height format alt_text);
    put(&mut m, "crop", i.crop.as_ref().map(|c| (c.left, c.top, c.right, c.bottom)));
    let mut e: Vec<String> = i.effects.iter().map(effect_name).collect();
    e.sort();
    e.dedup();
    m.insert("effects", e.concat());
    put(&mut m, "bytes", i.get_bytes().map(|b| hash_bytes(&b)));
    m
}
fn effect(m: &mut Attrs, e: &str) {
    // kept sorted, once each
    let have = m["effects"].clone();
    let mut v: Vec<&str> = ["Blur", "Glow", "InnerShadow", "Reflection", "Shadow", "SoftEdges"].into_iter().filter(|n| *n == e || names(&have).contains(n)).collect();
    v.sort();
    m.insert("effects", v.concat());
}
fn names(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut r = s;
    while !r.is_empty() {
        let n = ["Blur", "Glow", "InnerShadow", "Reflection", "Shadow", "SoftEdges"].into_iter().find(|n| r.starts_with(n)).unwrap_or(r);
        v.push(n);
        r = &r[n.len()..];
    }
    v
}
fn size(m: &mut Attrs, w: u64, h: u64) {
    put(m, "width", w);
    put(m, "height", h);
}
fn to_width(m: &mut Attrs, w: u64) {
    let h = num(m, "height") * w / num(m, "width");
    size(m, w, h);
}
fn to_height(m: &mut Attrs, h: u64) {
    let w = num(m, "width") * h / num(m, "height");
    size(m, w, h);
}
fn fresh(m: &mut Attrs, w: u64, h: u64, f: &str, b: Vec<u8>) {
    size(m, w, h);
    put(m, "x", 0);
    put(m, "y", 0);
    put(m, "format", f);
    put(m, "alt_text", None::<String>);
    m.insert("crop", "None".into());
    m.insert("effects", String::new());
    put(m, "bytes", Some(hash_bytes(&b)));
}
const B64: &str = "aGVsbG8gd29ybGQ=";
fn file() -> String {
    picture_file("t07.png", &png(3))
}
const DEF: u64 = 1_828_800;
fn pictures(ch: &mut Ch, depth: usize) -> Res {
    use images::ImageEffect as E;
    let starts: &[Start<Image>] = &[
        ("from_bytes", || Image::from_bytes(png(1), 400, 200, "png"), |m| fresh(m, 400, 200, "PNG", png(1))),
        ("from_base64", || Image::from_base64(B64, 400, 200, "GIF"), |m| fresh(m, 400, 200, "GIF", b"hello world".to_vec())),
        ("new", || Image::new(&file(), 400, 200, "png"), |m| fresh(m, 400, 200, "PNG", png(3))),
    ];
    let ops: &[Op<Image>] = &[
        ("position", |i| i.position(5, 6), |m| { put(m, "x", 5); put(m, "y", 6) }),
        ("at", |i| i.at(Dimension::ratio(0.25), Dimension::ratio(0.5)), |m| { put(m, "x", 2286000); put(m, "y", 3429000) }),
        ("with_dimensions", |i| i.with_dimensions(Dimension::ratio(0.5), Dimension::inches(1.25)), |m| size(m, 4572000, 1143000)),
        ("scale_to_width", |i| i.scale_to_width(800), |m| to_width(m, 800)),
        ("scale_to_height", |i| i.scale_to_height(1000), |m| to_height(m, 1000)),
        ("with_alt_text", |i| i.with_alt_text("a"), |m| put(m, "alt_text", Some("a"))),
        ("with_crop", |i| i.with_crop(0.1, 0.2, 0.3, 0.4), |m| put(m, "crop", Some((0.1, 0.2, 0.3, 0.4)))),
        ("with_effect-glow", |i| i.with_effect(E::Glow), |m| effect(m, "Glow")),
        ("with_effect-blur", |i| i.with_effect(E::Blur), |m| effect(m, "Blur")),
    ];
    // all ratios are powers of two: scaling is exact
    machine(ch, "image", starts, ops, image_attrs, depth)
}
type Build = (&'static str, fn(ImageBuilder) -> Image, fn(&mut Attrs));
const BUILDS: &[Build] = &[
    ("build", |b| b.build(), |_| {}),
    ("build_with_crop", |b| b.build_with_crop(0.5, 0.25, 0.125, 0.0), |m| put(m, "crop", Some((0.5, 0.25, 0.125, 0.0)))),
    ("build_with_shadow", |b| b.build_with_shadow(), |m| effect(m, "Shadow")),
    ("build_with_reflection", |b| b.build_with_reflection(), |m| effect(m, "Reflection")),
    ("build_with_effects", |b| b.build_with_effects(), |m| { effect(m, "Shadow"); effect(m, "Reflection") }),
    ("build_with_glow", |b| b.build_with_glow(), |m| effect(m, "Glow")),
    ("build_with_soft_edges", |b| b.build_with_soft_edges(), |m| effect(m, "SoftEdges")),
    ("build_with_inner_shadow", |b| b.build_with_inner_shadow(), |m| effect(m, "InnerShadow")),
    ("build_with_blur", |b| b.build_with_blur(), |m| effect(m, "Blur")),
];
fn picture_builder(ch: &mut Ch, depth: usize) -> Res {
    type S = Start<ImageBuilder>;
    let starts: &[S] = &[
        ("new", || ImageBuilder::new(&file(), 400, 200), |m| fresh(m, 400, 200, "PNG", png(3))),
        ("from_file", || ImageBuilder::from_file(&file()), |m| fresh(m, DEF, DEF, "PNG", png(3))),
        ("from_base64", || ImageBuilder::from_base64(B64, 400, 200, "gif"), |m| fresh(m, 400, 200, "GIF", b"hello world".to_vec())),
        ("base64", || ImageBuilder::base64(B64, "jpeg"), |m| fresh(m, DEF, DEF, "JPEG", b"hello world".to_vec())),
        ("from_bytes", || ImageBuilder::from_bytes(gif(2), 400, 200, "gif"), |m| fresh(m, 400, 200, "GIF", gif(2))),
        ("bytes", || ImageBuilder::bytes(gif(2), "gif"), |m| fresh(m, DEF, DEF, "GIF", gif(2))),
        ("auto-png", || ImageBuilder::auto(png(2)), |m| fresh(m, DEF, DEF, "PNG", png(2))),
        ("auto-gif", || ImageBuilder::auto(gif(2)), |m| fresh(m, DEF, DEF, "GIF", gif(2))),
        ("auto-jpeg", || ImageBuilder::auto(jpeg(2)), |m| fresh(m, DEF, DEF, "JPEG", jpeg(2))),
        ("helpers::image", || helpers::image(gif(3)), |m| fresh(m, DEF, DEF, "GIF", gif(3))),
        ("helpers::image_file", || helpers::image_file(&file()).unwrap(), |m| fresh(m, DEF, DEF, "PNG", png(3))),
    ];
    let ops: &[Op<ImageBuilder>] = &[
        ("position", |i| i.position(5, 6), |m| { put(m, "x", 5); put(m, "y", 6) }),
        ("at", |i| i.at(7, 8), |m| { put(m, "x", 7); put(m, "y", 8) }),
        ("size", |i| i.size(300, 600), |m| size(m, 300, 600)),
        ("scale_to_width", |i| i.scale_to_width(800), |m| to_width(m, 800)),
        ("scale_to_height", |i| i.scale_to_height(1000), |m| to_height(m, 1000)),
        ("format", |i| i.format("bmp"), |m| put(m, "format", "BMP")),
        ("crop", |i| i.crop(0.1, 0.2, 0.3, 0.4), |m| put(m, "crop", Some((0.1, 0.2, 0.3, 0.4)))),
        ("shadow", |i| i.shadow(), |m| effect(m, "Shadow")),
        ("reflection", |i| i.reflection(), |m| effect(m, "Reflection")),
        ("glow", |i| i.glow(), |m| effect(m, "Glow")),
        ("soft_edges", |i| i.soft_edges(), |m| effect(m, "SoftEdges")),
        ("inner_shadow", |i| i.inner_shadow(), |m| effect(m, "InnerShadow")),
        ("blur", |i| i.blur(), |m| effect(m, "Blur")),
    ];
    let (sn, s, sm) = *ch.of(starts);
    let (bn, b, bm) = *ch.of(BUILDS);
    let mut m = Attrs::new();
    sm(&mut m);
    let mut t = s();
    let mut calls = sn.to_string();
    for _ in 0..depth {
        let k = ch.pick(ops.len() + 1);
        if k == 0 {
            break;
        }
        let (n, f, om) = ops[k - 1];
        t = f(t);
        om(&mut m);
        calls += ".";
        calls += n;
        ch.step();
    }
    bm(&mut m);
    let got = image_attrs(b(t));
    ch.check(got == m, format!("picture-{bn}"), || diff(&format!("{calls}.{bn}"), &got, &m));
    let h = hash_str(&format!("{m:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}

// ---- text ----
/// Formats as a reader of the markup sees them.
fn text_attrs(bold: bool, italic: bool, underline: bool, strike: bool, sub: bool, sup: bool, color: &Option<String>, hl: &Option<String>, size: Option<u32>) -> Attrs {
    let mut m = Attrs::new();
    put(&mut m, "bold", bold);
    put(&mut m, "italic", italic);
    put(&mut m, "underline", underline);
    put(&mut m, "strike", strike);
    put(&mut m, "base", sup as i32 - sub as i32);
    put(&mut m, "color", color);
    put(&mut m, "highlight", hl);
    put(&mut m, "size", size);
    m
}
macro_rules! text_ops {
    ($($n:ident)*) => { &[$(text_ops!(@ $n)),*] };
    (@ bold) => { ("bold", |f| f.bold(), |m| put(m, "bold", true)) };
    (@ italic) => { ("italic", |f| f.italic(), |m| put(m, "italic", true)) };
    (@ underline) => { ("underline", |f| f.underline(), |m| put(m, "underline", true)) };
    (@ strikethrough) => { ("strikethrough", |f| f.strikethrough(), |m| put(m, "strike", true)) };
    (@ subscript) => { ("subscript", |f| f.subscript(), |m| put(m, "base", -1)) };
    (@ superscript) => { ("superscript", |f| f.superscript(), |m| put(m, "base", 1)) };
    (@ color) => { ("color", |f| f.color("#AA1122"), |m| put(m, "color", Some("AA1122"))) };
    (@ highlight) => { ("highlight", |f| f.highlight("33BB44"), |m| put(m, "highlight", Some("33BB44"))) };
    (@ font_size) => { ("font_size", |f| f.font_size(33), |m| put(m, "size", Some(33))) };
    (@ font_size2) => { ("font_size", |f| f.font_size(12), |m| put(m, "size", Some(12))) };
    (@ font_family) => { ("font_family", |f| f.font_family("Fnt"), |m| put(m, "font", Some("Fnt"))) };
    (@ size) => { ("size", |f| f.size(33), |m| put(m, "size", Some(33))) };
    (@ font) => { ("font", |f| f.font("Fnt"), |m| put(m, "font", Some("Fnt"))) };
}
fn plain(m: &mut Attrs) {
    for k in ["bold", "italic", "underline", "strike"] {
        put(m, k, false);
    }
    put(m, "base", 0);
    for k in ["color", "highlight", "size"] {
        m.insert(k, "None".into());
    }
    if m.contains_key("font") {
        m.insert("font", "None".into());
    }
}
fn all_format() -> TextFormat {
    TextFormat { bold: true, italic: true, underline: true, strikethrough: true, color: Some("010101".into()), highlight: Some("020202".into()), font_size: Some(7), font_family: Some("All".into()), subscript: true, superscript: false }
}
fn all_bullet() -> BulletTextFormat {
    let f = all_format();
    BulletTextFormat { bold: true, italic: true, underline: true, strikethrough: true, subscript: true, superscript: false, color: f.color, highlight: f.highlight, font_size: f.font_size, font_family: f.font_family }
}
fn everything(m: &mut Attrs) {
    for k in ["bold", "italic", "underline", "strike"] {
        put(m, k, true);
    }
    put(m, "base", -1);
    put(m, "color", Some("010101"));
    put(m, "highlight", Some("020202"));
    put(m, "size", Some(7));
    if m.contains_key("font") {
        put(m, "font", Some("All"));
    }
}
fn of_text_format(f: &TextFormat) -> Attrs {
    let mut m = text_attrs(f.bold, f.italic, f.underline, f.strikethrough, f.subscript, f.superscript, &f.color, &f.highlight, f.font_size);
    put(&mut m, "font", &f.font_family);
    m
}
fn of_bullet_format(f: &BulletTextFormat) -> Attrs {
    let mut m = text_attrs(f.bold, f.italic, f.underline, f.strikethrough, f.subscript, f.superscript, &f.color, &f.highlight, f.font_size);
    put(&mut m, "font", &f.font_family);
    m
}
fn of_seen(r: &Seen) -> Attrs {
    let mut m = text_attrs(r.b, r.i, r.u, r.strike, r.base < 0, r.base > 0, &r.color, &r.hl, r.sz.map(|s| s as u32 / 100));
    put(&mut m, "font", &r.font);
    m
}
pub fn frag(x: &str) -> Option<Elem> {
    parse_str(&format!("<r xmlns:a=\"a\" xmlns:p=\"p\" xmlns:r=\"r\">{x}</r>")).ok()
}
fn texts(ch: &mut Ch, depth: usize) -> Res {
    match ch.pick(5) {
        0 => machine::<TextFormat>(ch, "TextFormat", &[("new", TextFormat::new, plain)], text_ops!(bold italic underline strikethrough subscript superscript color highlight font_size font_size2 font_family), |f| {
            let m = of_text_format(&f);
            // and as written, where it has a form of its own
            let w = frag(&format!("<a:rPr{}>{}</a:rPr>", f.to_xml_attrs(), f.to_highlight_xml()));
            let Some(w) = w else { return Attrs::new() };
            let mut x = of_seen(&run_of(&w));
            for k in ["color", "font"] {
                x.insert(k, m[k].clone());
            }
            if x == m { m } else { x }
        }, depth),
        1 => {
            let mut ops: Vec<Op<FormattedText>> = vec![("with_format", |t| t.with_format(all_format()), everything)];
            let more: &[Op<FormattedText>] = text_ops!(bold italic underline strikethrough subscript superscript color highlight font_size font_size2);
            ops.extend(more);
            machine(ch, "FormattedText", &[("new", || FormattedText::new("w"), |m| { plain(m); put(m, "text", "w") })], &ops, |t| {
                let mut m = of_text_format(&t.format);
                put(&mut m, "text", &t.text);
                m
            }, depth)
        }
        2 => machine::<BulletTextFormat>(ch, "BulletTextFormat", &[("new", BulletTextFormat::new, plain)], text_ops!(bold italic underline strikethrough subscript superscript color highlight font_size font_size2 font_family), |f| of_bullet_format(&f), depth),
        3 => {
            let mut ops: Vec<Op<BulletPoint>> = vec![
                ("with_format", |t| t.with_format(all_bullet()), everything),
                ("with_level", |t| t.with_level(3), |m| put(m, "level", 3)),
                ("with_style", |t| t.with_style(BulletStyle::RomanUpper), |m| put(m, "style", BulletStyle::RomanUpper)),
            ];
            let more: &[Op<BulletPoint>] = text_ops!(bold italic strikethrough subscript superscript color highlight font_size font_size2);
            ops.extend(more);
            machine(ch, "BulletPoint", &[("new", || BulletPoint::new("w"), |m| { plain(m); put(m, "text", "w"); put(m, "level", 0); put(m, "style", BulletStyle::Bullet) })], &ops, |t| {
                let mut m = of_bullet_format(&t.format.clone().unwrap_or_default());
                put(&mut m, "text", &t.text);
                put(&mut m, "level", t.level);
                put(&mut m, "style", t.style);
                m
            }, depth)
        }
        _ => {
            let mut ops: Vec<Op<Run>> = vec![("with_format", |t| t.with_format(all_format()), everything)];
            let more: &[Op<Run>] = text_ops!(bold italic underline color size font);
            ops.extend(more);
            machine(ch, "Run", &[("new", || Run::new("w <&>"), |m| { plain(m); put(m, "text", "w <&>") })], &ops, |t| {
                let mut m = of_text_format(&t.format);
                put(&mut m, "text", &t.text);
                let Some(x) = frag(&t.to_xml()) else { return Attrs::new() };
                let Some(r) = x.child("r") else { return Attrs::new() };
                let mut seen = of_seen(&run_of(r));
                put(&mut seen, "text", r.child("t").map(|t| t.text()).unwrap_or_default());
                if t.format.font_size.is_none() {
                    seen.insert("size", "None".into());
                }
                if seen == m { m } else { seen }
            }, depth)
        }
    }
}
fn paragraphs(ch: &mut Ch, depth: usize) -> Res {
    if ch.pick(2) == 0 {
        let starts: &[Start<Paragraph>] = &[
            ("new", Paragraph::new, |m| { m.insert("runs", String::new()); put(m, "align", TextAlign::Left.to_xml()); put(m, "level", 0); put(m, "bullet", false); put(m, "before", None::<u32>); put(m, "after", None::<u32>) }),
            ("with_text", || Paragraph::with_text("s"), |m| { m.insert("runs", "s|".into()); put(m, "align", TextAlign::Left.to_xml()); put(m, "level", 0); put(m, "bullet", false); put(m, "before", None::<u32>); put(m, "after", None::<u32>) }),
        ];
        let ops: &[Op<Paragraph>] = &[
            ("add_run", |p| p.add_run(Run::new("r").bold()), |m| add(m, "runs", "R")),
            ("add_text", |p| p.add_text("t"), |m| add(m, "runs", "t")),
            ("align-center", |p| p.align(TextAlign::Center), |m| put(m, "align", "ctr")),
            ("align-right", |p| p.align(TextAlign::Right), |m| put(m, "align", "r")),
            ("align-justify", |p| p.align(TextAlign::Justify), |m| put(m, "align", "just")),
            ("bullet", |p| p.bullet(), |m| put(m, "bullet", true)),
            ("level", |p| p.level(3), |m| put(m, "level", 3)),
            ("level-deep", |p| p.level(99), |m| put(m, "level", 8)),
            ("spacing_before", |p| p.spacing_before(12), |m| put(m, "before", Some(1200))),
            ("spacing_after", |p| p.spacing_after(7), |m| put(m, "after", Some(700))),
            ("spacing_after-huge", |p| p.spacing_after(u32::MAX), |m| put(m, "after", Some(u32::MAX))),
        ];
        machine(ch, "Paragraph", starts, ops, |p| paragraph_seen(frag(&p.to_xml()).as_ref().and_then(|x| x.child("p"))), depth)
    } else {
        let ops: &[Op<TextFrame>] = &[
            ("add_paragraph", |f| f.add_paragraph(Paragraph::with_text("p").bullet()), |m| add(m, "paragraphs", "p*")),
            ("add_text", |f| f.add_text("t"), |m| add(m, "paragraphs", "t")),
            ("anchor-middle", |f| f.anchor(TextAnchor::Middle), |m| put(m, "anchor", "ctr")),
            ("anchor-bottom", |f| f.anchor(TextAnchor::Bottom), |m| put(m, "anchor", "b")),
            ("margins", |f| f.margins(1, 2, 3, 4), |m| put(m, "margins", [Some("1"), Some("2"), Some("3"), Some("4")])),
            ("margins2", |f| f.margins(0, 9, 0, 8), |m| put(m, "margins", [Some("0"), Some("9"), Some("0"), Some("8")])),
        ];
        let starts: &[Start<TextFrame>] = &[
            ("new", TextFrame::new, |m| { m.insert("paragraphs", String::new()); put(m, "anchor", "t") }),
            ("with_text", || TextFrame::with_text("s"), |m| { m.insert("paragraphs", "s|".into()); put(m, "anchor", "t") }),
        ];
        machine(ch, "TextFrame", starts, ops, |f| {
            let mut m = Attrs::new();
            let Some(x) = frag(&f.to_xml()) else { return m };
            let Some(b) = x.child("txBody") else { return m };
            let bp = b.child("bodyPr");
            let a = |n: &str| bp.and_then(|b| b.attr(n));
            put(&mut m, "anchor", a("anchor").unwrap_or("t"));
            put(&mut m, "margins", ["lIns", "rIns", "tIns", "bIns"].map(a));
            let mut t = String::new();
            let n = b.children("p").count();
            for p in b.children("p") {
                let s = paragraph_seen(Some(p));
                if n == 1 && s["runs"].is_empty() {
                    continue;
                }
                t += &s["runs"].replace('|', "");
                if s["bullet"] == "true" {
                    t.push('*');
                }
                t.push('|');
            }
            if n == 0 {
                // a text body needs a paragraph
                t += "none";
            }
            m.insert("paragraphs", t);
            m
        }, depth)
    }
}
fn paragraph_seen(p: Option<&Elem>) -> Attrs {
    let mut m = Attrs::new();
    let Some(p) = p else { return m };
    let pr = p.child("pPr");
    put(&mut m, "align", pr.and_then(|p| p.attr("algn")).unwrap_or("l"));
    put(&mut m, "level", pr.and_then(|p| p.attr("lvl")).and_then(|l| l.parse::<u32>().ok()).unwrap_or(0));
    put(&mut m, "bullet", pr.is_some_and(|p| p.child("buChar").is_some() || p.child("buAutoNum").is_some()));
    let sp = |n: &str| pr.and_then(|p| p.path(&[n, "spcPts"])).and_then(|s| s.attr("val")).and_then(|v| v.parse::<u32>().ok());
    put(&mut m, "before", sp("spcBef"));
    put(&mut m, "after", sp("spcAft"));
    let mut r = String::new();
    for e in p.children("r") {
        let t = e.child("t").map(|t| t.text()).unwrap_or_default();
        r += &if run_of(e).b { t.to_uppercase() } else { t };
        r.push('|');
    }
    m.insert("runs", r);
    m
}

// ---- tables ----
fn cell_attrs(c: &TableCell) -> Attrs {
    see!(c; text bold italic underline text_color background_color font_size font_family align valign wrap_text grid_span row_span h_merge v_merge)
}
fn cells(ch: &mut Ch, depth: usize) -> Res {
    fn base(m: &mut Attrs) {
        put(m, "text", "w");
        for k in ["bold", "italic", "underline", "h_merge", "v_merge"] {
            put(m, k, false);
        }
        for k in ["text_color", "background_color", "font_size", "font_family", "grid_span", "row_span"] {
            m.insert(k, "None".into());
        }
    }
    let starts: &[Start<TableCell>] = &[
        ("new", || TableCell::new("w"), base),
        ("helpers::cell", || helpers::cell("w"), base),
        ("helpers::header_cell", || helpers::header_cell("w"), |m| { let keep = [m["text_color"].clone(), m["background_color"].clone()]; base(m); put(m, "bold", true); put(m, "align", CellAlign::Center); let [a, b] = keep; m.insert("text_color", a); m.insert("background_color", b); }),
        ("helpers::highlight_cell", || helpers::highlight_cell("w", "#ABCDEF"), |m| { base(m); put(m, "background_color", Some("ABCDEF")); put(m, "bold", true) }),
    ];
    let ops: &[Op<TableCell>] = &[
        ("bold", |c| c.bold(), |m| put(m, "bold", true)),
        ("italic", |c| c.italic(), |m| put(m, "italic", true)),
        ("underline", |c| c.underline(), |m| put(m, "underline", true)),
        ("text_color", |c| c.text_color("#112233"), |m| put(m, "text_color", Some("112233"))),
        ("background_color", |c| c.background_color("445566"), |m| put(m, "background_color", Some("445566"))),
        ("font_size", |c| c.font_size(9), |m| put(m, "font_size", Some(9))),
        ("font_family", |c| c.font_family("F"), |m| put(m, "font_family", Some("F"))),
        ("align", |c| c.align(CellAlign::Justify), |m| put(m, "align", CellAlign::Justify)),
        ("align_left", |c| c.align_left(), |m| put(m, "align", CellAlign::Left)),
        ("align_right", |c| c.align_right(), |m| put(m, "align", CellAlign::Right)),
        ("align_center", |c| c.align_center(), |m| put(m, "align", CellAlign::Center)),
        ("valign", |c| c.valign(CellVAlign::Middle), |m| put(m, "valign", CellVAlign::Middle)),
        ("valign_top", |c| c.valign_top(), |m| put(m, "valign", CellVAlign::Top)),
        ("valign_bottom", |c| c.valign_bottom(), |m| put(m, "valign", CellVAlign::Bottom)),
        ("wrap", |c| c.wrap(false), |m| put(m, "wrap_text", false)),
        ("wrap2", |c| c.wrap(true), |m| put(m, "wrap_text", true)),
        ("grid_span", |c| c.grid_span(2), |m| put(m, "grid_span", Some(2))),
        ("row_span", |c| c.row_span(3), |m| put(m, "row_span", Some(3))),
        ("h_merge", |c| c.h_merge(), |m| put(m, "h_merge", true)),
        ("v_merge", |c| c.v_merge(), |m| put(m, "v_merge", true)),
        ("with_col_span", |c| c.with_col_span(4), |m| put(m, "grid_span", Some(4))),
        ("with_row_span", |c| c.with_row_span(5), |m| put(m, "row_span", Some(5))),
        ("with_h_merge", |c| c.with_h_merge(), |m| put(m, "h_merge", true)),
        ("with_v_merge", |c| c.with_v_merge(), |m| put(m, "v_merge", true)),
    ];
    machine(ch, "TableCell", starts, ops, |c| cell_attrs(&c), depth)
}
fn table_attrs(t: Table) -> Attrs {
    let mut m = see!(t; x y column_widths);
    let mut r = String::new();
    for row in &t.rows {
        for c in &row.cells {
            r += &c.text;
            if c.bold {
                r.push('*');
            }
            if c.background_color.is_some() {
                r.push('#');
            }
            r.push(',');
        }
        if let Some(h) = row.height {
            r += &format!("@{h}");
        }
        r.push('|');
    }
    m.insert("rows", r);
    put(&mut m, "width", t.width());
    put(&mut m, "counts", (t.row_count(), t.column_count(), t.rows.iter().map(|r| r.cell_count()).collect::<Vec<_>>()));
    m
}
fn derived(mut m: Attrs) -> Attrs {
    m.remove("counts");
    m
}
fn tables(ch: &mut Ch, depth: usize) -> Res {
    if ch.pick(2) == 0 {
        let starts: &[Start<TableBuilder>] = &[
            ("new", || TableBuilder::new(vec![10, 20]), |m| { put(m, "x", 0); put(m, "y", 0); put(m, "column_widths", [10, 20]); put(m, "width", 30); m.insert("rows", String::new()); }),
            ("helpers::table", || helpers::table(vec![10, 20]), |m| { put(m, "x", 0); put(m, "y", 0); put(m, "column_widths", [10, 20]); put(m, "width", 30); m.insert("rows", String::new()); }),
            ("helpers::table_with_widths", || helpers::table_with_widths(&[1.0, 2.0]), |m| { put(m, "column_widths", [914400, 1828800]); put(m, "width", 2743200); m.insert("rows", String::new()); }),
            ("helpers::table_from_data", || helpers::table_from_data(&[vec!["a", "b"], vec!["c", "d"]], Some(vec![1.0, 2.0])), |m| { put(m, "column_widths", [914400, 1828800]); m.insert("rows", "a,b,|c,d,|".into()); }),
            ("helpers::table_with_header", || helpers::table_with_header(&["a", "b"], 2), |m| { m.insert("rows", "a*#,b*#,|,,|,,|".into()); }),
            ("helpers::simple_table", || helpers::simple_table(2, 2), |m| { m.insert("rows", ",,|,,|".into()); }),
        ];
        let ops: &[Op<TableBuilder>] = &[
            ("add_row", |t| t.add_row(TableRow::new(vec![TableCell::new("r").bold(), TableCell::new("s")]).with_height(99)), |m| add(m, "rows", "r*,s,@99")),
            ("add_simple_row", |t| t.add_simple_row(vec!["e", "f"]), |m| add(m, "rows", "e,f,")),
            ("add_simple_row-one", |t| t.add_simple_row(vec!["g"]), |m| add(m, "rows", "g,")),
            ("position", |t| t.position(5, 6), |m| { put(m, "x", 5); put(m, "y", 6) }),
            ("position2", |t| t.position(7, 0), |m| { put(m, "x", 7); put(m, "y", 0) }),
        ];
        machine(ch, "TableBuilder", starts, ops, |t| derived(table_attrs(t.build())), depth + 1)
    } else {
        let starts: &[Start<QuickTable>] = &[
            ("new", || QuickTable::new(2), |m| { put(m, "column_widths", [4572000, 4572000]); m.insert("rows", String::new()); }),
            ("with_widths", || QuickTable::with_widths(&[1.0, 2.0]), |m| { put(m, "column_widths", [914400, 1828800]); m.insert("rows", String::new()); }),
        ];
        let ops: &[Op<QuickTable>] = &[
            ("header", |t| t.header(&["a", "b"]), |m| add(m, "rows", "a*#,b*#,")),
            ("row", |t| t.row(&["c", "d"]), |m| add(m, "rows", "c,d,")),
            ("styled_row", |t| t.styled_row(vec![TableCell::new("e").bold(), TableCell::new("f").background_color("AA")]), |m| add(m, "rows", "e*,f#,")),
            ("rows", |t| t.rows(&[vec!["g", "h"], vec!["i", "j"]]), |m| { add(m, "rows", "g,h,"); add(m, "rows", "i,j,") }),
            ("at", |t| t.at(1.0, 2.0), |m| { put(m, "x", 914400); put(m, "y", 1828800) }),
        ];
        machine(ch, "QuickTable", starts, ops, |t| derived(table_attrs(t.build())), depth + 1)
    }
}

// ---- charts and code ----
fn charts(ch: &mut Ch, depth: usize) -> Res {
    macro_rules! start {
        ($n:expr, $e:expr, $k:expr) => {
            ($n, || $e, |m| { put(m, "title", "c"); put(m, "chart_type", $k); m.insert("series", String::new()); put(m, "categories", [""; 0]); })
        };
    }
    let starts: &[Start<ChartBuilder>] = &[
        start!("new", ChartBuilder::new("c", ChartType::Radar), ChartType::Radar),
        start!("helpers::bar_chart", helpers::bar_chart("c"), ChartType::Bar),
        start!("helpers::line_chart", helpers::line_chart("c"), ChartType::Line),
        start!("helpers::pie_chart", helpers::pie_chart("c"), ChartType::Pie),
        start!("helpers::area_chart", helpers::area_chart("c"), ChartType::Area),
    ];
    let ops: &[Op<ChartBuilder>] = &[
        ("position", |c| c.position(5, 6), |m| { put(m, "x", 5); put(m, "y", 6) }),
        ("position2", |c| c.position(0, 9), |m| { put(m, "x", 0); put(m, "y", 9) }),
        ("size", |c| c.size(7, 8), |m| { put(m, "width", 7); put(m, "height", 8) }),
        ("categories", |c| c.categories(vec!["p", "q"]), |m| put(m, "categories", ["p", "q"])),
        ("categories2", |c| c.categories(vec!["z"]), |m| put(m, "categories", ["z"])),
        ("add_series", |c| c.add_series(ChartSeries::new("s", vec![1.0, 2.5])), |m| add(m, "series", "s[1.0, 2.5]")),
        ("add_series2", |c| c.add_series(ChartSeries::new("t", vec![])), |m| add(m, "series", "t[]")),
    ];
    machine(ch, "ChartBuilder", starts, ops, |c| {
        let c = c.build();
        let mut m = see!(c; title chart_type categories x y width height);
        m.insert("series", c.series.iter().map(|s| format!("{}{:?}|", s.name, s.values)).collect());
        m
    }, depth)
}

// ---- slides ----
fn slide_attrs(s: SlideContent) -> Attrs {
    let mut m = see!(s; title bullet_style title_size content_size title_bold content_bold title_italic content_italic title_underline content_underline title_color content_color layout transition notes);
    let mut l = |k, v: Vec<String>| {
        m.insert(k, v.iter().map(|v| format!("{v}|")).collect());
    };
    l("bullets", s.bullets.iter().map(|b| format!("{}/{}/{:?}", b.text, b.level, b.style)).collect());
    l("shapes", s.shapes.iter().map(|x| x.text.clone().unwrap_or_default()).collect());
    l("images", s.images.iter().map(|x| x.alt_text.clone().unwrap_or_default()).collect());
    l("connectors", s.connectors.iter().map(|x| x.label.clone().unwrap_or_default()).collect());
    l("charts", s.charts.iter().map(|x| x.title.clone()).collect());
    l("videos", s.videos.iter().map(|x| x.source.clone()).collect());
    l("audios", s.audios.iter().map(|x| x.source.clone()).collect());
    put(&mut m, "table", s.table.as_ref().map(|t| t.rows[0].cells[0].text.clone()));
    put(&mut m, "ink", s.ink_annotations.as_ref().map(|i| i.len()));
    put(&mut m, "has", (s.has_notes(), s.has_connectors(), s.has_media()));
    m
}
fn bullet(m: &mut Attrs, t: &str, level: u32, style: Option<BulletStyle>) {
    let style = style.map_or(m["bullet_style"].clone(), |s| format!("{s:?}"));
    add(m, "bullets", &format!("{t}/{level}/{style}"));
}
fn has(m: &mut Attrs) {
    let v = (m["notes"] != "None", !m["connectors"].is_empty(), !(m["videos"].is_empty() && m["audios"].is_empty()));
    put(m, "has", v);
}
fn slides(ch: &mut Ch, depth: usize) -> Res {
    fn sh(t: &str) -> Shape {
        Shape::new(ShapeType::Ellipse, 0, 0, 1, 1).with_text(t)
    }
    fn im(t: &str) -> Image {
        Image::from_bytes(png(1), 1, 1, "PNG").with_alt_text(t)
    }
    fn cn(t: &str) -> Connector {
        Connector::straight(0, 0, 1, 1).with_label(t)
    }
    fn tb(t: &str) -> Table {
        TableBuilder::new(vec![1]).add_simple_row(vec![t]).build()
    }
    let starts: &[Start<SlideContent>] = &[("new", || SlideContent::new("T"), |m| {
        put(m, "title", "T");
        for k in ["bullets", "shapes", "images", "connectors", "charts", "videos", "audios"] {
            m.insert(k, String::new());
        }
        for k in ["notes", "table", "ink", "title_color", "content_color"] {
            m.insert(k, "None".into());
        }
        put(m, "layout", SlideLayout::TitleAndContent);
        put(m, "transition", TransitionType::None);
        for k in ["title_italic", "content_italic", "title_underline", "content_underline"] {
            put(m, k, false);
        }
        has(m);
    })];
    let ops: &[Op<SlideContent>] = &[
        ("with_transition", |s| s.with_transition(TransitionType::Push), |m| put(m, "transition", TransitionType::Push)),
        ("add_bullet", |s| s.add_bullet("a"), |m| bullet(m, "a", 0, None)),
        ("add_styled_bullet", |s| s.add_styled_bullet("b", BulletStyle::RomanLower), |m| bullet(m, "b", 0, Some(BulletStyle::RomanLower))),
        ("add_numbered", |s| s.add_numbered("c"), |m| bullet(m, "c", 0, Some(BulletStyle::Number))),
        ("add_lettered", |s| s.add_lettered("d"), |m| bullet(m, "d", 0, Some(BulletStyle::LetterLower))),
        ("add_sub_bullet", |s| s.add_sub_bullet("e"), |m| bullet(m, "e", 1, None)),
        ("with_bullet_style", |s| s.with_bullet_style(BulletStyle::LetterUpper), |m| put(m, "bullet_style", BulletStyle::LetterUpper)),
        ("title_size", |s| s.title_size(11), |m| put(m, "title_size", Some(11))),
        ("content_size", |s| s.content_size(12), |m| put(m, "content_size", Some(12))),
        ("title_bold", |s| s.title_bold(false), |m| put(m, "title_bold", false)),
        ("title_bold2", |s| s.title_bold(true), |m| put(m, "title_bold", true)),
        ("content_bold", |s| s.content_bold(true), |m| put(m, "content_bold", true)),
        ("content_bold2", |s| s.content_bold(false), |m| put(m, "content_bold", false)),
        ("title_italic", |s| s.title_italic(true), |m| put(m, "title_italic", true)),
        ("content_italic", |s| s.content_italic(true), |m| put(m, "content_italic", true)),
        ("title_underline", |s| s.title_underline(true), |m| put(m, "title_underline", true)),
        ("content_underline", |s| s.content_underline(true), |m| put(m, "content_underline", true)),
        ("title_color", |s| s.title_color("#AA0000"), |m| put(m, "title_color", Some("AA0000"))),
        ("content_color", |s| s.content_color("00BB00"), |m| put(m, "content_color", Some("00BB00"))),
        ("layout", |s| s.layout(SlideLayout::TwoColumn), |m| put(m, "layout", SlideLayout::TwoColumn)),
        ("with_layout", |s| s.with_layout(SlideLayout::Blank), |m| put(m, "layout", SlideLayout::Blank)),
        ("table", |s| s.table(tb("x")), |m| put(m, "table", Some("x"))),
        ("table2", |s| s.table(tb("y")), |m| put(m, "table", Some("y"))),
        ("add_shape", |s| s.add_shape(sh("s1")), |m| add(m, "shapes", "s1")),
        ("with_shapes", |s| s.with_shapes(vec![sh("s2"), sh("s3")]), |m| add(m, "shapes", "s2|s3")),
        ("add_image", |s| s.add_image(im("i1")), |m| add(m, "images", "i1")),
        ("with_images", |s| s.with_images(vec![im("i2"), im("i3")]), |m| add(m, "images", "i2|i3")),
        ("notes", |s| s.notes("n1"), |m| { put(m, "notes", Some("n1")); has(m) }),
        ("notes2", |s| s.notes("n2"), |m| { put(m, "notes", Some("n2")); has(m) }),
        ("add_connector", |s| s.add_connector(cn("c1")), |m| { add(m, "connectors", "c1"); has(m) }),
        ("with_connectors", |s| s.with_connectors(vec![cn("c2"), cn("c3")]), |m| { add(m, "connectors", "c2|c3"); has(m) }),
        ("add_video", |s| s.add_video(Video::new("v1", VideoFormat::Mp4, 1, 2, 3, 4)), |m| { add(m, "videos", "v1"); has(m) }),
        ("with_videos", |s| s.with_videos(vec![Video::new("v2", VideoFormat::Mp4, 1, 2, 3, 4)]), |m| { add(m, "videos", "v2"); has(m) }),
        ("add_audio", |s| s.add_audio(Audio::new("a1", AudioFormat::Mp3, 1, 2, 3, 4)), |m| { add(m, "audios", "a1"); has(m) }),
        ("with_audios", |s| s.with_audios(vec![Audio::new("a2", AudioFormat::Mp3, 1, 2, 3, 4)]), |m| { add(m, "audios", "a2"); has(m) }),
        ("add_chart", |s| s.add_chart(ChartBuilder::new("h1", ChartType::Bar).build()), |m| add(m, "charts", "h1")),
        ("with_charts", |s| s.with_charts(vec![ChartBuilder::new("h2", ChartType::Bar).build(), ChartBuilder::new("h3", ChartType::Pie).build()]), |m| add(m, "charts", "h2|h3")),
        ("with_ink", |s| s.with_ink(decks::ink()), |m| put(m, "ink", Some(decks::ink().len()))),
    ];
    machine(ch, "SlideContent", starts, ops, slide_attrs, depth)
}
fn code(ch: &mut Ch, depth: usize) -> Res {
    let ops: &[Op<CodeBlock>] = &[
        ("position", |c| c.position(-5, 6), |m| { put(m, "x", -5); put(m, "y", 6) }),
        ("position2", |c| c.position(7, 0), |m| { put(m, "x", 7); put(m, "y", 0) }),
        ("size", |c| c.size(7, 8), |m| { put(m, "width", 7); put(m, "height", 8) }),
        ("size2", |c| c.size(9, 1), |m| { put(m, "width", 9); put(m, "height", 1) }),
    ];
    machine(ch, "CodeBlock", &[("new", || CodeBlock::new("let x;\n", "rust"), |m| { put(m, "code", "let x;\n"); put(m, "language", "rust") })], ops, |c| see!(c; code language x y width height), depth)
}
/// A quick presentation is the slides it was given, and one at least.
fn quick(ch: &mut Ch, depth: usize) -> Res {
    let mut q = QuickPptx::new("Q");
    let mut want: Vec<SlideContent> = vec![];
    for i in 0..depth {
        let t = format!("t{i}");
        match ch.pick(6) {
            0 => break,
            1 => {
                q = q.slide(&t, &["a", "b <&>"]);
                want.push(SlideContent::new(&t).add_bullet("a").add_bullet("b <&>"));
            }
            2 => {
                q = q.slide(&t, &[]);
                want.push(SlideContent::new(&t));
            }
            3 => {
                q = q.title_slide(&t);
                want.push(SlideContent::new(&t));
            }
            4 => {
                let s = SlideContent::new(&t).layout(SlideLayout::TwoColumn).add_bullet("l").add_bullet("r").notes("n");
                q = q.content_slide(s.clone());
                want.push(s);
            }
            _ => {
                let v = vec![helpers::rect(1.0, 1.0, 1.0, 1.0).text("one"), helpers::circle(2.0, 2.0, 2.0).text("two")];
                q = q.shapes_slide(&t, v.clone());
                want.push(SlideContent::new(&t).with_shapes(v));
            }
        }
        ch.step();
    }
    let p = pkg_of(&bytes_of(q.build(), "QuickPptx")?)?;
    let s = p.slides();
    ch.check(s.len() == want.len().max(1), "quick-count", || format!("{} slides for {}", s.len(), want.len()));
    for (part, c) in s.iter().zip(&want) {
        ch.report_all(super::g03::check_slide(&p, part, c));
    }
    let h = hash_str(&format!("{want:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "T07",
        level: "model_checking",
        rule: "every sequence of builder calls up to the depth, from every way to start, on the real builders and on a model in which each call sets the attributes it names (last call wins, lists grow at the end); all attributes are compared after every sequence, where the builder writes markup of its own also as an independent reader sees them",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let d = move |a, b| if q { a } else { b };
            let s = |n: &'static str, starts: usize, calls: usize, depth: usize, f: fn(&mut Ch, usize) -> Res| Scenario::new(n, format!("all sequences of up to {depth} of {calls} calls from {starts} starts"), 0, move |ch: &mut Ch| f(ch, depth));
            vec![
                s("shapes", 33, 18, d(3, 4), shapes),
                s("connectors", 4, 10, d(5, 6), connectors),
                s("pictures", 3, 9, d(4, 5), pictures),
                s("picture builder", 11 * 9, 13, d(3, 4), picture_builder),
                s("text formats", 5, 12, d(5, 6), texts),
                s("paragraphs and frames", 4, 11, d(5, 6), paragraphs),
                s("table cells", 4, 24, d(3, 4), cells),
                s("tables", 8, 5, d(5, 6), tables),
                s("charts", 5, 7, d(5, 6), charts),
                s("slides", 1, 38, d(3, 4), slides),
                s("code", 1, 4, 5, code),
                s("quick presentations", 1, 5, d(4, 5), quick),
            ]
        },
        must_cover: || vec![],
    }
}
