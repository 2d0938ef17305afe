use super::g02::{body_text, para_text};
use super::*;
use crate::decks;
use crate::pkg::Pkg;
use crate::xml::{representable, Elem, NS_R};
use ppt_rs::generator::slide_content::{BulletPoint, BulletTextFormat, CodeBlock, TransitionType};
use ppt_rs::generator::table::{CellAlign, CellVAlign};
use ppt_rs::generator::*;

fn on(e: Option<&str>) -> bool {
    matches!(e, Some("1") | Some("true") | Some("on"))
}
fn hexn(s: &str) -> String {
    s.trim_start_matches('#').to_uppercase()
}
/// Run properties as a reader sees them.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Run {
    pub sz: Option<u64>,
    pub b: bool,
    pub i: bool,
    pub u: bool,
    pub strike: bool,
    pub base: i32,
    pub color: Option<String>,
    pub hl: Option<String>,
    pub font: Option<String>,
}
pub fn run_of(r: &Elem) -> Run {
    let Some(p) = r.child("rPr") else { return Run::default() };
    Run {
        sz: p.attr("sz").and_then(|v| v.parse().ok()),
        b: on(p.attr("b")),
        i: on(p.attr("i")),
        u: p.attr("u").is_some_and(|u| u != "none"),
        strike: p.attr("strike").is_some_and(|u| u != "noStrike"),
        base: p.attr("baseline").and_then(|v| v.parse().ok()).map_or(0, |x: i32| x.signum()),
        color: p.child("solidFill").and_then(|s| s.child("srgbClr")).and_then(|c| c.attr("val")).map(hexn),
        hl: p.child("highlight").and_then(|s| s.child("srgbClr")).and_then(|c| c.attr("val")).map(hexn),
        font: p.child("latin").and_then(|c| c.attr("typeface")).map(|s| s.to_string()),
    }
}
fn num(e: Option<&Elem>, a: &str) -> Option<i64> {
    e.and_then(|x| x.attr(a)).and_then(|v| v.parse().ok())
}
fn xfrm(e: &Elem) -> [Option<i64>; 4] {
    let x = e.child("spPr").and_then(|s| s.child("xfrm")).or_else(|| e.child("xfrm"));
    let (o, t) = (x.and_then(|x| x.child("off")), x.and_then(|x| x.child("ext")));
    [num(o, "x"), num(o, "y"), num(t, "cx"), num(t, "cy")]
}
fn at(x: u32, y: u32, w: u32, h: u32) -> [Option<i64>; 4] {
    [Some(x as i64), Some(y as i64), Some(w as i64), Some(h as i64)]
}
fn bullet_mark(s: BulletStyle) -> (&'static str, String) {
    match s {
        BulletStyle::Bullet => ("buChar", "•".into()),
        BulletStyle::Number => ("buAutoNum", "arabicPeriod".into()),
        BulletStyle::LetterLower => ("buAutoNum", "alphaLcPeriod".into()),
        BulletStyle::LetterUpper => ("buAutoNum", "alphaUcPeriod".into()),
        BulletStyle::RomanLower => ("buAutoNum", "romanLcPeriod".into()),
        BulletStyle::RomanUpper => ("buAutoNum", "romanUcPeriod".into()),
        BulletStyle::Custom(c) => ("buChar", representable(&c.to_string())),
        BulletStyle::None => ("buNone", String::new()),
    }
}
fn lower_first(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|f| f.to_lowercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
/// Preset geometry for a shape kind: the schema's own name, which is the kind's name except where listed.
fn presets(t: ShapeType) -> Vec<String> {
    let d = format!("{t:?}");
    let v: &[&str] = match &*d {
        "Rectangle" => &["rect"],
        "RoundedRectangle" => &["roundRect"],
        "Circle" => &["ellipse"],
        "RightTriangle" => &["rtTriangle"],
        "UTurnArrow" => &["uturnArrow"],
        "Ribbon" => &["ribbon2", "ribbon"],
        "PentagonArrow" => &["homePlate", "pentArrow"],
        "ChevronArrow" => &["chevron"],
        "PictureFrame" => &["frame"],
        "Lightning" => &["lightningBolt"],
        "Brace" => &["leftBrace"],
        "Bracket" => &["leftBracket"],
        "Plus" => &["mathPlus"],
        "Minus" => &["mathMinus"],
        _ => &[],
    };
    if v.is_empty() { vec![lower_first(&d)] } else { v.iter().map(|s| s.to_string()).collect() }
}
/// Kinds whose own name is not a preset of the schema; any preset is accepted for them here.
const NO_PRESET: &[&str] = &[
    "FlowChartData", "FlowChartInputOutput", "FlowChartOffPageConnector", "IsoscelesTrapezoid", "NonIsoscelesTrapezoid", "Cone", "Cylinder", "MusicNote", "Seal", "Seal4", "Seal8", "Seal16", "Seal32", "CurvedLeftRightArrow", "CurvedUpDownArrow",
];
fn want_layout(l: SlideLayout) -> &'static [&'static str] {
    match l {
        SlideLayout::CenteredTitle => &["title"],
        SlideLayout::TitleAndContent => &["obj", "body", "tx"],
        SlideLayout::TwoColumn => &["twoObj", "twoColTx"],
        SlideLayout::SectionHeader => &["secHead"],
        SlideLayout::Blank => &["blank"],
        SlideLayout::TitleOnly => &["titleOnly"],
        SlideLayout::TitleAndBigContent => &["obj", "body", "tx", "cust", "vertTx"],
    }
}

pub fn check_slide(p: &Pkg, part: &str, c: &SlideContent) -> Vec<Fail> {
    match p.with_doc(part, |root| slide(p, part, root, c)) {
        Ok(v) => v,
        Err(e) => vec![Fail { sig: "unreadable-slide".into(), msg: e }],
    }
}
fn slide(p: &Pkg, part: &str, root: &Elem, c: &SlideContent) -> Vec<Fail> {
    let mut out: Vec<Fail> = vec![];
    macro_rules! want {
        ($sig:expr, $got:expr, $exp:expr) => {
            let (g, w) = ($got, $exp);
            if g != w {
                let sig: String = $sig.into();
                if !out.iter().any(|f: &Fail| f.sig == sig) {
                    out.push(Fail { sig, msg: format!("{part} ({:?}): {} is {g:?}, wanted {w:?}", c.layout, stringify!($got)) });
                }
            }
        };
    }
    // layout
    let lr = p.rel_of_type(part, "slideLayout");
    let lt = lr.first().and_then(|r| p.with_doc(&crate::pkg::resolve(part, &r.target), |d| d.attr("type").map(|s| s.to_string())).ok()).flatten();
    if !lt.as_deref().is_some_and(|t| want_layout(c.layout).contains(&t)) || lr.len() != 1 {
        out.push(Fail { sig: "layout".into(), msg: format!("{:?} is connected to a layout of type {lt:?}", c.layout) });
    }
    let Some(tree) = root.path(&["cSld", "spTree"]) else {
        out.push(Fail { sig: "no-tree".into(), msg: part.into() });
        return out;
    };
    let kids: Vec<&Elem> = tree.elems().filter(|e| !matches!(&*e.local, "nvGrpSpPr" | "grpSpPr")).collect();
    let of = |k: &str| kids.iter().copied().filter(|e| &*e.local == k).collect::<Vec<&Elem>>();
    let sps = of("sp");
    let bullets: Vec<BulletPoint> = if c.bullets.is_empty() { c.content.iter().map(|t| BulletPoint::new(t).with_style(c.bullet_style)).collect() } else { c.bullets.clone() };
    let has_body = !matches!(c.layout, SlideLayout::Blank | SlideLayout::TitleOnly);
    let mut beside_table = false;
    let mut nbody = match (has_body && !bullets.is_empty(), c.layout) {
        (false, _) => 0,
        (true, SlideLayout::TwoColumn) => bullets.len().min(2),
        _ => 1,
    };
    let ntitle = usize::from(c.layout != SlideLayout::Blank);
    if nbody > 0 && c.table.is_some() && sps.len() == ntitle + c.shapes.len() + c.code_blocks.len() {
        out.push(Fail { sig: "bullets-beside-table".into(), msg: format!("{} bullets of a {:?} slide with a table are not on the slide", bullets.len(), c.layout) });
        beside_table = true;
        nbody = 0;
    }
    want!("sp-count", sps.len(), ntitle + nbody + c.shapes.len() + c.code_blocks.len());
    if sps.len() != ntitle + nbody + c.shapes.len() + c.code_blocks.len() {
        return out;
    }
    // title
    if ntitle == 1 {
        let t = sps[0];
        want!("title-text", t.child("txBody").map(body_text).unwrap_or_default(), representable(&c.title));
        let runs = t.all("r");
        let r = runs.first().map(|r| run_of(r)).unwrap_or_default();
        let w = Run {
            sz: c.title_size.map(|s| s as u64 * 100).or(r.sz),
            b: c.title_bold || c.layout == SlideLayout::SectionHeader,
            i: c.title_italic,
            u: c.title_underline,
            color: c.title_color.as_deref().map(hexn),
            ..Run::default()
        };
        want!("title-format", r, w);
    }
    // bullets
    if !beside_table && nbody > 0 {
        let bodies = &sps[ntitle..ntitle + nbody];
        let mut paras: Vec<&Elem> = vec![];
        let mut sizes = vec![];
        for b in bodies {
            let ps: Vec<&Elem> = b.child("txBody").into_iter().flat_map(|t| t.children("p")).collect();
            sizes.push(ps.len());
            paras.extend(ps);
        }
        if let [l, r] = sizes[..] {
            want!("columns-balanced", l.abs_diff(r) <= 1, true);
            want!("columns-left-to-right", xfrm(bodies[0])[0] < xfrm(bodies[1])[0], true);
        }
        want!("bullet-count", paras.len(), bullets.len());
        for (e, b) in paras.iter().zip(&bullets) {
            want!("bullet-text", para_text(e), representable(&b.text));
            let pp = e.child("pPr");
            want!("bullet-level", num(pp, "lvl").unwrap_or(0), b.level.min(8) as i64);
            let marks: Vec<&Elem> = pp.into_iter().flat_map(|p| p.elems()).filter(|e| e.local.starts_with("bu")).collect();
            let got = marks.iter().map(|m| (m.local.to_string(), m.attr("char").or(m.attr("type")).unwrap_or("").to_string())).collect::<Vec<_>>();
            let (k, v) = bullet_mark(b.style);
            want!("bullet-style", got, vec![(k.to_string(), v)]);
            let r = e.child("r").map(run_of).unwrap_or_default();
            let d = BulletTextFormat::default();
            let f = b.format.as_ref().unwrap_or(&d);
            let w = Run {
                sz: f.font_size.or(c.content_size).map(|s| s as u64 * 100).or(r.sz),
                b: f.bold || c.content_bold,
                i: f.italic || c.content_italic,
                u: f.underline || c.content_underline,
                strike: f.strikethrough,
                base: if f.subscript { -1 } else if f.superscript { 1 } else { 0 },
                color: f.color.as_deref().or(c.content_color.as_deref()).map(hexn),
                hl: f.highlight.as_deref().map(hexn),
                font: f.font_family.clone(),
            };
            want!("bullet-format", r, w);
        }
        // deeper levels are indented further
        let ind: Vec<(u32, i64)> = paras.iter().zip(&bullets).filter_map(|(e, b)| num(e.child("pPr"), "marL").map(|m| (b.level.min(8), m))).collect();
        for (l1, m1) in &ind {
            for (l2, m2) in &ind {
                if l1 < l2 && m1 >= m2 {
                    want!("bullet-indent", (l1, m1, l2, m2), (l1, &-1, l2, &-1));
                }
            }
        }
    }
    // shapes
    for (e, s) in sps[ntitle + nbody..].iter().zip(&c.shapes) {
        want!("shape-place", xfrm(e), at(s.x, s.y, s.width, s.height));
        let sp = e.child("spPr");
        let prst = sp.and_then(|s| s.child("prstGeom")).and_then(|g| g.attr("prst")).unwrap_or("").to_string();
        if !NO_PRESET.contains(&&*format!("{:?}", s.shape_type)) {
            want!("shape-kind", (presets(s.shape_type).contains(&prst), &prst), (true, &prst));
        }
        let rot = num(sp.and_then(|s| s.child("xfrm")), "rot").unwrap_or(0).rem_euclid(21_600_000);
        want!("shape-rotation", rot, (s.rotation.unwrap_or(0) as i64 * 60000).rem_euclid(21_600_000));
        let fill = sp.and_then(|s| s.child("solidFill")).and_then(|f| f.child("srgbClr")).map(|c| (c.attr("val").map(hexn).unwrap_or_default(), num(c.child("alpha"), "val").unwrap_or(100_000)));
        let grad = sp.and_then(|s| s.child("gradFill"));
        if let Some(g) = &s.gradient {
            want!("shape-fill-kind", fill, None);
            let got: Vec<(i64, String, i64)> = grad.into_iter().flat_map(|g| g.all("gs")).map(|g| {
                let c = g.child("srgbClr");
                (num(Some(g), "pos").unwrap_or(-1), c.and_then(|c| c.attr("val")).map(hexn).unwrap_or_default(), num(c.and_then(|c| c.child("alpha")), "val").unwrap_or(100_000))
            }).collect();
            let w: Vec<(i64, String, i64)> = g.stops.iter().map(|s| (s.position as i64, hexn(&s.color), s.transparency.map_or(100_000, |a| a as i64))).collect();
            want!("gradient-stops", got, w);
            use shapes::GradientDirection::*;
            let a = match g.direction {
                Horizontal => 0,
                Vertical => 90,
                DiagonalDown => 45,
                DiagonalUp => 315,
                Angle(d) => d as i64 % 360,
            } * 60000;
            want!("gradient-angle", num(grad.and_then(|g| g.child("lin")), "ang"), Some(a));
        } else {
            want!("shape-gradient", grad.is_some(), false);
            want!("shape-fill", fill, s.fill.as_ref().map(|f| (hexn(&f.color), f.transparency.map_or(100_000, |a| a as i64))));
        }
        let ln = sp.and_then(|s| s.child("ln"));
        let got = ln.map(|l| (num(Some(l), "w").unwrap_or(-1), l.child("solidFill").and_then(|f| f.child("srgbClr")).and_then(|c| c.attr("val")).map(hexn).unwrap_or_default()));
        want!("shape-line", got, s.line.as_ref().map(|l| (l.width as i64, hexn(&l.color))));
        let t = e.child("txBody").map(body_text).unwrap_or_default();
        let w = representable(s.text.as_deref().unwrap_or(""));
        want!("shape-text", t.trim_end_matches('\n'), w.trim_end_matches('\n'));
        want!("shape-link", e.all("hlinkClick").len(), usize::from(s.hyperlink.is_some()));
        if let Some(i) = s.id {
            want!("shape-id", num(e.path(&["nvSpPr", "cNvPr"]), "id"), Some(i as i64));
        }
    }
    // code
    for (e, b) in sps[ntitle + nbody + c.shapes.len()..].iter().zip(&c.code_blocks) {
        want!("code-place", xfrm(e), [Some(b.x), Some(b.y), Some(b.width), Some(b.height)]);
        let got: Vec<String> = e.child("txBody").into_iter().flat_map(|t| t.children("p")).map(|p| para_text(p)).collect();
        let got: Vec<&str> = got.iter().map(|l| l.trim_end()).collect();
        let w = representable(&b.code);
        let w: Vec<&str> = w.lines().map(|l| l.trim_end()).collect();
        want!("code-lines", got, w);
    }
    // pictures
    let imgs: Vec<&Image> = c.images.iter().filter(|i| i.get_bytes().is_some()).collect();
    let pics = of("pic");
    want!("picture-count", pics.len(), imgs.len());
    for (e, i) in pics.iter().zip(&imgs) {
        want!("picture-place", xfrm(e), at(i.x, i.y, i.width, i.height));
        want!("picture-alt", e.path(&["nvPicPr", "cNvPr"]).and_then(|x| x.attr("descr")).map(|s| s.to_string()), i.alt_text.as_deref().map(representable));
        let sr = e.path(&["blipFill", "srcRect"]);
        let got = ["l", "t", "r", "b"].map(|k| num(sr, k).unwrap_or(0));
        let f = |v: f64| (v * 100_000.0).round() as i64;
        want!("picture-crop", got, i.crop.as_ref().map_or([0; 4], |c| [f(c.left), f(c.top), f(c.right), f(c.bottom)]));
        let mut got: Vec<String> = e.child("spPr").and_then(|s| s.child("effectLst")).into_iter().flat_map(|l| l.elems()).map(|x| x.local.to_string()).collect();
        let mut w: Vec<String> = i.effects.iter().map(|x| match x {
            images::ImageEffect::Shadow => "outerShdw",
            images::ImageEffect::Reflection => "reflection",
            images::ImageEffect::Glow => "glow",
            images::ImageEffect::SoftEdges => "softEdge",
            images::ImageEffect::InnerShadow => "innerShdw",
            images::ImageEffect::Blur => "blur",
        }.to_string()).collect();
        got.sort();
        w.sort();
        w.dedup();
        got.dedup();
        want!("picture-effects", got, w);
    }
    // connectors
    let cx = of("cxnSp");
    want!("connector-count", cx.len(), c.connectors.len());
    for (e, k) in cx.iter().zip(&c.connectors) {
        let sp = e.child("spPr");
        let xf = sp.and_then(|s| s.child("xfrm"));
        let [x, y, w, h] = xfrm(e).map(|v| v.unwrap_or(-1));
        let (fh, fv) = (on(xf.and_then(|x| x.attr("flipH"))), on(xf.and_then(|x| x.attr("flipV"))));
        let (sx, ex) = if fh { (x + w, x) } else { (x, x + w) };
        let (sy, ey) = if fv { (y + h, y) } else { (y, y + h) };
        want!("connector-ends", [sx, sy, ex, ey], [k.start_x as i64, k.start_y as i64, k.end_x as i64, k.end_y as i64]);
        let pr = sp.and_then(|s| s.child("prstGeom")).and_then(|g| g.attr("prst")).unwrap_or("").to_string();
        let kind = match k.connector_type {
            ConnectorType::Straight => "straightConnector1",
            ConnectorType::Elbow => "bentConnector3",
            ConnectorType::Curved => "curvedConnector3",
        };
        want!("connector-kind", pr.as_str(), kind);
        let nv = e.path(&["nvCxnSpPr", "cNvCxnSpPr"]);
        let conn = |n: &str| nv.and_then(|v| v.child(n)).map(|x| (num(Some(x), "id"), num(Some(x), "idx")));
        let exp = |id: Option<u32>, s: Option<ConnectionSite>| id.zip(s).map(|(i, s)| (Some(i as i64), Some(s.index() as i64)));
        want!("connector-start", conn("stCxn"), exp(k.start_shape_id, k.start_site));
        want!("connector-end", conn("endCxn"), exp(k.end_shape_id, k.end_site));
        let ln = sp.and_then(|s| s.child("ln"));
        let col = ln.and_then(|l| l.child("solidFill")).and_then(|f| f.child("srgbClr")).and_then(|c| c.attr("val")).map(hexn);
        want!("connector-line", (num(ln, "w"), col), (Some(k.line.width as i64), Some(hexn(&k.line.color))));
        let dash = ln.and_then(|l| l.child("prstDash")).and_then(|d| d.attr("val")).unwrap_or("solid").to_string();
        let wd = match k.line.dash {
            LineDash::Solid => "solid",
            LineDash::Dash => "dash",
            LineDash::Dot => "dot",
            LineDash::DashDot => "dashDot",
            LineDash::DashDotDot => "lgDashDotDot",
            LineDash::LongDash => "lgDash",
            LineDash::LongDashDot => "lgDashDot",
        };
        want!("connector-dash", dash.as_str(), wd);
        let arrow = |n: &str| ln.and_then(|l| l.child(n)).map(|a| (a.attr("type").unwrap_or("none").to_string(), a.attr("w").unwrap_or("med").to_string(), a.attr("len").unwrap_or("med").to_string())).filter(|a| a.0 != "none");
        let wa = |t: ArrowType| {
            let n = match t {
                ArrowType::None => return None,
                ArrowType::Triangle => "triangle",
                ArrowType::Stealth => "stealth",
                ArrowType::Diamond => "diamond",
                ArrowType::Oval => "oval",
                ArrowType::Open => "arrow",
            };
            let z = match k.arrow_size {
                ArrowSize::Small => "sm",
                ArrowSize::Medium => "med",
                ArrowSize::Large => "lg",
            };
            Some((n.to_string(), z.to_string(), z.to_string()))
        };
        want!("connector-start-arrow", arrow("headEnd"), wa(k.start_arrow));
        want!("connector-end-arrow", arrow("tailEnd"), wa(k.end_arrow));
        if let Some(l) = &k.label {
            let t: Vec<String> = tree.all("txBody").into_iter().map(body_text).collect();
            want!("connector-label", t.contains(&representable(l)), true);
        }
    }
    // tables and charts
    let gf = of("graphicFrame");
    let tabs: Vec<&Elem> = gf.iter().copied().filter(|g| !g.all("tbl").is_empty()).collect();
    let charts: Vec<&Elem> = gf.iter().copied().filter(|g| !g.all("chart").is_empty()).collect();
    want!("frame-count", (tabs.len(), charts.len(), gf.len()), (usize::from(c.table.is_some()), c.charts.len(), usize::from(c.table.is_some()) + c.charts.len()));
    for (e, k) in charts.iter().zip(&c.charts) {
        want!("chart-place", xfrm(e), at(k.x, k.y, k.width, k.height));
        let id = e.all("chart").first().and_then(|x| x.attr_ns(NS_R, "id")).unwrap_or("").to_string();
        let tgt = p.rels(part).into_iter().find(|r| r.id == id).map(|r| crate::pkg::resolve(part, &r.target));
        let ti = tgt.and_then(|t| p.with_doc(&t, |d| d.path(&["chart", "title"]).map(|t| t.all("t").into_iter().map(|x| x.text()).collect::<String>())).ok()).flatten();
        want!("chart-title", ti, Some(representable(&k.title)));
    }
    if let (Some(e), Some(t)) = (tabs.first(), &c.table) {
        let [x, y, w, _] = xfrm(e);
        want!("table-place", (x, y), (Some(t.x as i64), Some(t.y as i64)));
        want!("table-width", w, Some(t.column_widths.iter().map(|w| *w as i64).sum::<i64>().min(u32::MAX as i64)));
        let cols: Vec<i64> = e.all("gridCol").into_iter().map(|g| num(Some(g), "w").unwrap_or(-1)).collect();
        want!("table-columns", cols, t.column_widths.iter().map(|w| *w as i64).collect::<Vec<_>>());
        let rows = e.all("tr");
        want!("table-rows", rows.len(), t.rows.len());
        for (tr, r) in rows.iter().zip(&t.rows) {
            if let Some(h) = r.height {
                want!("row-height", num(Some(tr), "h"), Some(h as i64));
            }
            let tcs: Vec<&Elem> = tr.children("tc").collect();
            want!("row-cells", tcs.len(), r.cells.len());
            for (tc, l) in tcs.iter().zip(&r.cells) {
                let span = |k: &str| num(Some(tc), k).unwrap_or(1);
                want!("cell-span", (span("gridSpan"), span("rowSpan")), (l.grid_span.unwrap_or(1) as i64, l.row_span.unwrap_or(1) as i64));
                want!("cell-merge", (on(tc.attr("hMerge")), on(tc.attr("vMerge"))), (l.h_merge, l.v_merge));
                if l.h_merge || l.v_merge {
                    continue;
                }
                want!("cell-text", tc.child("txBody").map(body_text).unwrap_or_default(), representable(&l.text));
                if !l.text.is_empty() {
                    let r = tc.all("r").first().map(|r| run_of(r)).unwrap_or_default();
                    let w = Run { sz: l.font_size.map(|s| s as u64 * 100).or(r.sz), b: l.bold, i: l.italic, u: l.underline, color: l.text_color.as_deref().map(hexn), font: l.font_family.clone(), ..Run::default() };
                    want!("cell-format", r, w);
                    // centred is the cell default of the builder, but absence of algn means left in the file format
                    let al = tc.all("pPr").first().and_then(|p| p.attr("algn")).unwrap_or("l").to_string();
                    let wa = match l.align {
                        CellAlign::Left => "l",
                        CellAlign::Center => "ctr",
                        CellAlign::Right => "r",
                        CellAlign::Justify => "just",
                    };
                    want!("cell-align", al.as_str(), wa);
                }
                let pr = tc.child("tcPr");
                let an = pr.and_then(|p| p.attr("anchor")).unwrap_or("t").to_string();
                let wv = match l.valign {
                    CellVAlign::Top => "t",
                    CellVAlign::Middle => "ctr",
                    CellVAlign::Bottom => "b",
                };
                want!("cell-anchor", an.as_str(), wv);
                let bg = pr.and_then(|p| p.child("solidFill")).and_then(|f| f.child("srgbClr")).and_then(|c| c.attr("val")).map(hexn);
                want!("cell-fill", bg, l.background_color.as_deref().map(hexn));
            }
        }
    }
    // ink, notes, transition
    want!("ink", tree.all("contentPart").len(), usize::from(c.ink_annotations.is_some()));
    let nr = p.rel_of_type(part, "notesSlide");
    want!("notes-parts", nr.len(), usize::from(c.notes.is_some()));
    if let (Some(n), Some(r)) = (&c.notes, nr.first()) {
        let t = p.with_doc(&crate::pkg::resolve(part, &r.target), super::g02::bodies).unwrap_or_default();
        want!("notes-text", n.is_empty() || t.contains(&representable(n)), true);
    }
    let tr: Vec<String> = root.all("transition").into_iter().map(|t| t.elems().next().map(|e| e.local.to_string()).unwrap_or_default()).collect();
    let wt = match c.transition {
        TransitionType::None | TransitionType::Cut => None,
        TransitionType::Fade => Some("fade"),
        TransitionType::Push => Some("push"),
        TransitionType::Wipe => Some("wipe"),
        TransitionType::Split => Some("split"),
        TransitionType::Reveal => Some("reveal"),
        TransitionType::Cover => Some("cover"),
        TransitionType::Zoom => Some("zoom"),
    };
    match wt {
        None => {
            want!("transition", tr.iter().filter(|t| !t.is_empty() && *t != "cut").count(), 0usize);
        }
        Some(w) => {
            want!("transition", tr.iter().any(|t| t == w), true);
        }
    }
    let known = ["sp", "pic", "cxnSp", "graphicFrame", "AlternateContent", "contentPart"];
    want!("other-items", kids.iter().map(|k| k.local.to_string()).filter(|k| !known.contains(&k.as_str())).collect::<Vec<_>>(), Vec::<String>::new());
    out
}

const LAYOUTS: &[SlideLayout] = &[SlideLayout::TitleAndContent, SlideLayout::CenteredTitle, SlideLayout::TwoColumn, SlideLayout::SectionHeader, SlideLayout::Blank, SlideLayout::TitleOnly, SlideLayout::TitleAndBigContent];
const BODY: &[SlideLayout] = &[SlideLayout::TitleAndContent, SlideLayout::TwoColumn, SlideLayout::TitleAndBigContent, SlideLayout::CenteredTitle, SlideLayout::SectionHeader];
const STYLES: &[BulletStyle] = &[BulletStyle::Bullet, BulletStyle::Number, BulletStyle::LetterLower, BulletStyle::LetterUpper, BulletStyle::RomanLower, BulletStyle::RomanUpper, BulletStyle::Custom('→'), BulletStyle::Custom('&'), BulletStyle::None];
const LEVELS: &[u32] = &[0, 1, 2, 8, 9, u32::MAX];
pub const ALL_SHAPES: &[ShapeType] = {
    use ShapeType::*;
    &[
        Rectangle, RoundedRectangle, Ellipse, Circle, Triangle, RightTriangle, Diamond, Pentagon, Hexagon, Octagon, RightArrow, LeftArrow, UpArrow, DownArrow, LeftRightArrow, UpDownArrow, BentArrow, UTurnArrow, Star4, Star5, Star6, Star8, Ribbon, Wave,
        WedgeRectCallout, WedgeEllipseCallout, CloudCallout, FlowChartProcess, FlowChartDecision, FlowChartTerminator, FlowChartDocument, FlowChartPredefinedProcess, FlowChartInternalStorage, FlowChartData, FlowChartInputOutput, FlowChartManualInput,
        FlowChartManualOperation, FlowChartConnector, FlowChartOffPageConnector, FlowChartPunchedCard, FlowChartPunchedTape, FlowChartSummingJunction, FlowChartOr, FlowChartCollate, FlowChartSort, FlowChartExtract, FlowChartMerge, FlowChartOnlineStorage,
        FlowChartDelay, FlowChartMagneticTape, FlowChartMagneticDisk, FlowChartMagneticDrum, FlowChartDisplay, FlowChartPreparation, CurvedRightArrow, CurvedLeftArrow, CurvedUpArrow, CurvedDownArrow, CurvedLeftRightArrow, CurvedUpDownArrow,
        StripedRightArrow, NotchedRightArrow, PentagonArrow, ChevronArrow, RightArrowCallout, LeftArrowCallout, UpArrowCallout, DownArrowCallout, LeftRightArrowCallout, UpDownArrowCallout, QuadArrow, LeftRightUpArrow, CircularArrow, Parallelogram,
        Trapezoid, NonIsoscelesTrapezoid, IsoscelesTrapezoid, Cube, Can, Cone, Cylinder, Bevel, Donut, NoSmoking, BlockArc, FoldedCorner, SmileyFace, Arc, Chord, Pie, Teardrop, Plaque, MusicNote, PictureFrame, Star10, Star12, Star16, Star24, Star32, Seal,
        Seal4, Seal8, Seal16, Seal32, ActionButtonBlank, ActionButtonHome, ActionButtonHelp, ActionButtonInformation, ActionButtonForwardNext, ActionButtonBackPrevious, ActionButtonBeginning, ActionButtonEnd, ActionButtonReturn, ActionButtonDocument,
        ActionButtonSound, ActionButtonMovie, Heart, Lightning, Sun, Moon, Cloud, Brace, Bracket, Plus, Minus,
    ]
};

fn one(ch: &mut Ch, c: SlideContent) -> Res {
    let p = pkg_of(&bytes_of(create_pptx_with_content("D", vec![c.clone()]), "one slide")?)?;
    let s = p.slides();
    ch.check(s.len() == 1, "slide-count", || format!("{s:?}"));
    if let Some(s) = s.first() {
        ch.report_all(check_slide(&p, s, &c));
    }
    ch.nontrivial(hash_str(&format!("{c:?}")));
    Ok(())
}
/// One bullet of the alphabet, added through the public builder.
fn bullet(ch: &mut Ch, mut c: SlideContent, n: usize) -> SlideContent {
    let t = format!("b{n}");
    match ch.pick(12) {
        0 => c.add_bullet(&t),
        1 => c.add_numbered(&t),
        2 => c.add_lettered(&t),
        3 => c.add_sub_bullet(&t),
        4 => c.add_styled_bullet(&t, BulletStyle::RomanUpper),
        5 => c.with_bullet_style(BulletStyle::Custom('x')).add_bullet(&t),
        k => {
            let b = BulletPoint::new(&t);
            c.bullets.push(match k {
                6 => b.with_level(2).bold(),
                7 => b.italic().color("#aabbcc").with_style(BulletStyle::None),
                8 => b.strikethrough().highlight("FFFF00").font_size(9),
                9 => b.subscript().with_level(1),
                10 => b.superscript().superscript(),
                _ => {
                    let mut f = BulletTextFormat::new().underline().font_family("Foo & Bar");
                    f.bold = true;
                    b.with_format(f).with_level(3)
                }
            });
            c
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "G03",
        level: "exploration",
        rule: "every slide of each attribute lattice, generated in a deck and read back by an independent parser: layout, title, bullets, shapes, code, pictures, connectors, tables, charts, ink, notes and transition compared with the requested values, once each and in order",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let nb = if q { 3 } else { 4 };
            vec![
                Scenario::new("titles", "7 layouts x all settings of title and content size, bold, italic, underline and colour, with one bullet", 0, |ch| {
                    let mut c = SlideContent::new("Title").layout(*ch.of(LAYOUTS)).add_bullet("point");
                    c.title_size = *ch.of(&[Some(44), Some(1), Some(400), None]);
                    c = c.title_bold(ch.pick(2) == 1).title_italic(ch.pick(2) == 1).title_underline(ch.pick(2) == 1);
                    if ch.pick(2) == 1 {
                        c = c.title_color("#ff0a0B");
                    }
                    c.content_size = *ch.of(&[Some(28), Some(9), None]);
                    c = c.content_bold(ch.pick(2) == 1).content_italic(ch.pick(2) == 1).content_underline(ch.pick(2) == 1);
                    if ch.pick(2) == 1 {
                        c = c.content_color("00ff00");
                    }
                    one(ch, c)
                }),
                Scenario::new("bullets", format!("5 content layouts x all sequences of up to {nb} of 12 kinds of bullets, through the builder"), 0, move |ch| {
                    let mut c = SlideContent::new("T").layout(*ch.of(BODY));
                    let n = ch.pick(nb + 1);
                    for i in 0..n {
                        c = bullet(ch, c, i);
                    }
                    one(ch, c)
                }),
                Scenario::new("bullet-attributes", "3 content layouts x 9 styles x 6 levels x all format flags of one bullet beside a plain one; plain text lists in every style", 0, |ch| {
                    let mut c = SlideContent::new("T").layout(*ch.of(&BODY[..3]));
                    let st = *ch.of(STYLES);
                    let l = ch.pick(LEVELS.len() + 1);
                    if l == LEVELS.len() {
                        c.bullet_style = st;
                        c.content = vec!["a".into(), "b".into(), "a".into()];
                        return one(ch, c);
                    }
                    let mut f = BulletTextFormat::default();
                    for x in [&mut f.bold, &mut f.italic, &mut f.underline, &mut f.strikethrough] {
                        *x = ch.pick(2) == 1;
                    }
                    match ch.pick(3) {
                        1 => f.subscript = true,
                        2 => f.superscript = true,
                        _ => {}
                    }
                    match ch.pick(4) {
                        1 => f.color = Some("#0a0b0c".into()),
                        2 => f.highlight = Some("ffff00".into()),
                        3 => f.font_size = Some(7),
                        _ => {}
                    }
                    c.bullets.push(BulletPoint::new("x").with_style(st).with_level(LEVELS[l]).with_format(f));
                    c.bullets.push(BulletPoint::new("plain"));
                    one(ch, c)
                }),
                Scenario::new("shapes", "every shape kind; fill x gradient x line x rotation x text x place of one shape beside another", 0, |ch| {
                    let mut c = SlideContent::new("T").layout(*ch.of(&[SlideLayout::TitleAndContent, SlideLayout::Blank]));
                    let mut s;
                    if ch.pick(2) == 0 {
                        s = Shape::new(*ch.of(ALL_SHAPES), 1, 2, 3, 4).with_text("x");
                    } else {
                        use shapes::{GradientDirection::*, GradientFill, GradientStop};
                        let pl = *ch.of(&[(0, 0, 0, 0), (u32::MAX, 5, u32::MAX, 7), (914400, 1828800, 2743200, 457200)]);
                        s = Shape::new(ShapeType::Diamond, pl.0, pl.1, pl.2, pl.3);
                        match ch.pick(12) {
                            0 => {}
                            1 => s = s.with_fill(ShapeFill::new("#abcdef")),
                            2 => s = s.with_fill(ShapeFill::new("123456").with_transparency(0)),
                            3 => s = s.with_fill(ShapeFill::new("000000").with_transparency(30)),
                            4 => s = s.with_fill(ShapeFill::new("000000").with_transparency(250)),
                            5 => s = s.with_gradient(GradientFill::linear("ff0000", "#00ff00", Horizontal)),
                            6 => s = s.with_gradient(GradientFill::three_color("1", "2", "3", Vertical)),
                            7 => s = s.with_gradient(GradientFill::linear("ff0000", "00ff00", DiagonalUp).with_stop(GradientStop::new("0000ff", 30).with_transparency(40))),
                            8 => s = s.with_gradient(GradientFill::linear("ff0000", "00ff00", Angle(30))),
                            9 => s = s.with_gradient(GradientFill::linear("ff0000", "00ff00", Angle(u32::MAX))),
                            10 => s = s.with_gradient(GradientFill::linear("ff0000", "00ff00", DiagonalDown)).with_fill(ShapeFill::new("111111")),
                            _ => s = s.with_fill(ShapeFill::new("111111")).with_gradient(GradientFill::linear("ff0000", "00ff00", DiagonalDown)),
                        }
                        if ch.pick(2) == 1 {
                            s = s.with_line(ShapeLine::new("#00aa00", 12345));
                        }
                        s.rotation = *ch.of(&[None, Some(0), Some(45), Some(-90), Some(360), Some(725), Some(i32::MAX), Some(i32::MIN)]);
                        s.text = ch.of(&[None, Some("plain"), Some("two\nlines"), Some("[rust]\nfn x() {}\n\n  y"), Some("")]).map(|x| x.to_string());
                        s.id = *ch.of(&[None, Some(77)]);
                    }
                    let other = Shape::new(ShapeType::Heart, 9, 9, 9, 9).with_text("other");
                    c = if ch.pick(2) == 0 { c.add_shape(s).add_shape(other) } else { c.add_shape(other).add_shape(s) };
                    one(ch, c)
                }),
                Scenario::new("connectors", "3 kinds x 9 directions x 9 sites at each end or none x arrows x sizes x 7 dashes x colours x label", if q { 2 } else { 3 }, |ch| {
                    let k = *ch.of(&[ConnectorType::Straight, ConnectorType::Elbow, ConnectorType::Curved]);
                    let v = |ch: &mut Ch| *ch.of(&[(5u32, 5u32), (5, 90), (90, 5)]);
                    let ((sx, ex), (sy, ey)) = (v(ch), v(ch));
                    let mut x = Connector::new(k, sx, sy, ex, ey);
                    use ConnectionSite::*;
                    const SITES: &[ConnectionSite] = &[Top, Bottom, Left, Right, TopLeft, TopRight, BottomLeft, BottomRight, Center];
                    let (a, b) = (ch.dev(10), ch.dev(10));
                    if a > 0 {
                        x = x.connect_start(20, SITES[a - 1]);
                    }
                    if b > 0 {
                        x = x.connect_end(21, SITES[b - 1]);
                    }
                    const AR: &[ArrowType] = &[ArrowType::None, ArrowType::Triangle, ArrowType::Stealth, ArrowType::Diamond, ArrowType::Oval, ArrowType::Open];
                    x = x.with_start_arrow(*ch.dev_of(AR)).with_end_arrow(*ch.dev_of(AR)).with_arrow_size(*ch.dev_of(&[ArrowSize::Medium, ArrowSize::Small, ArrowSize::Large]));
                    use LineDash::*;
                    let d = *ch.dev_of(&[Solid, Dash, Dot, DashDot, DashDotDot, LongDash, LongDashDot]);
                    match ch.dev(4) {
                        1 => x = x.with_color("#ff00aa"),
                        2 => x = x.with_width(3),
                        3 => x = x.with_color("abcdef").with_width(99),
                        _ => {}
                    }
                    x.line = x.line.clone().with_dash(d);
                    if ch.dev(2) == 1 {
                        x = x.with_label("lab & el");
                    }
                    let c = SlideContent::new("T")
                        .add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 1, 1).with_id(20))
                        .add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 1, 1).with_id(21))
                        .add_connector(Connector::straight(1, 1, 2, 2))
                        .add_connector(x);
                    one(ch, c)
                }),
                Scenario::new("tables", "7 layouts x grids 1x1..3x3 with one formatted cell at each position x cell attributes x widths, heights and places", if q { 2 } else { 3 }, |ch| {
                    let lay = *ch.of(LAYOUTS);
                    let (r, k) = (1 + ch.pick(3), 1 + ch.pick(3));
                    let (fr, fc) = (ch.pick(r), ch.pick(k));
                    let mut b = TableBuilder::new((0..k).map(|i| 100_000 * (i as u32 + 1)).collect());
                    for i in 0..r {
                        let mut cells = vec![];
                        for j in 0..k {
                            let mut c = TableCell::new(&format!("r{i}c{j}"));
                            if (i, j) == (fr, fc) {
                                match ch.dev(4) {
                                    1 => c = c.bold(),
                                    2 => c = c.italic(),
                                    3 => c = c.bold().italic().underline(),
                                    _ => {}
                                }
                                match ch.dev(5) {
                                    1 => c = c.text_color("#00ff00"),
                                    2 => c = c.background_color("aabbcc"),
                                    3 => c = c.font_size(7).font_family("A & B"),
                                    4 => c.text = String::new(),
                                    _ => {}
                                }
                                c = c.align(ch.dev_of(&[CellAlign::Center, CellAlign::Left, CellAlign::Right, CellAlign::Justify]).clone());
                                c = c.valign(ch.dev_of(&[CellVAlign::Middle, CellVAlign::Top, CellVAlign::Bottom]).clone());
                                match ch.dev(3) {
                                    1 => c = c.grid_span(2).row_span(3),
                                    2 => c = c.h_merge(),
                                    _ => {}
                                }
                            }
                            cells.push(c);
                        }
                        let mut row = TableRow::new(cells);
                        if ch.dev(2) == 1 {
                            row = row.with_height(5000 + i as u32);
                        }
                        b = b.add_row(row);
                    }
                    let c = SlideContent::new("T").layout(lay).table(b.position(if ch.dev(2) == 1 { 77 } else { 0 }, 88).build());
                    one(ch, c)
                }),
                Scenario::new("pictures", "all sequences of 1..2 pictures over place x crop x effects x alt text", 0, |ch| {
                    use images::ImageEffect::*;
                    let mut c = SlideContent::new("T");
                    for k in 0..1 + ch.pick(2) {
                        let mut i = Image::from_bytes(decks::png(k as u8), 10 + k as u32, 20, "PNG").position(*ch.of(&[0, 7]), u32::MAX);
                        match ch.pick(5) {
                            1 => i = i.with_crop(0.0, 0.0, 0.0, 0.25),
                            2 => i = i.with_crop(0.29, 0.58, 0.1, 0.57),
                            3 => i = i.with_crop(0.07, 0.0, 1.0, 0.0),
                            4 => i = i.with_crop(0.0, 0.14, 0.0, 0.0),
                            _ => {}
                        }
                        for e in ch.of(&[vec![], vec![Shadow], vec![Reflection], vec![Glow], vec![SoftEdges], vec![InnerShadow], vec![Blur], vec![Shadow, Glow]]) {
                            i = i.with_effect(e.clone());
                        }
                        if ch.pick(2) == 1 {
                            i = i.with_alt_text("alt <1>");
                        }
                        c = c.add_image(i);
                    }
                    one(ch, c)
                }),
                Scenario::new("code", "all code texts of up to 3 lines over 5 line kinds x 4 languages x place", 0, |ch| {
                    let n = ch.pick(4);
                    let mut t: Vec<&str> = vec![];
                    for _ in 0..n {
                        t.push(*ch.of(&["let x = 1;", "", "  if (a < b && \"q\") { }", "\t# é漢", "/* open"]));
                    }
                    let tail = ch.pick(2) == 1;
                    let mut b = CodeBlock::new(&(t.join("\n") + if tail { "\n" } else { "" }), ch.of(&["rust", "python", "", "nonsense"]));
                    if ch.pick(2) == 1 {
                        b = b.position(-5, 6).size(7, 8);
                    }
                    let mut c = SlideContent::new("T");
                    c.code_blocks.push(b);
                    c.code_blocks.push(CodeBlock::new("second", "rust"));
                    one(ch, c)
                }),
                Scenario::new("transitions", "9 transitions x 7 layouts on each of 1..2 slides", 0, |ch| {
                    use TransitionType::*;
                    let mut v = vec![];
                    for i in 0..1 + ch.pick(2) {
                        v.push(SlideContent::new(&format!("S{i}")).with_transition(*ch.of(&[None, Fade, Cut, Push, Wipe, Split, Reveal, Cover, Zoom])).layout(*ch.of(LAYOUTS)));
                    }
                    deck(ch, v)
                }),
                Scenario::new("decks", if q { "decks of 1..2 slides, every set of <= 2 features" } else { "decks of 1..2 slides, every set of <= 3 features" }, if q { 2 } else { 3 }, |ch| {
                    let d = decks::deck(ch, 1, 2, false, false);
                    deck(ch, d.slides)
                }),
            ]
        },
        must_cover: || vec![],
    }
}
fn deck(ch: &mut Ch, v: Vec<SlideContent>) -> Res {
    let p = pkg_of(&bytes_of(create_pptx_with_content("D", v.clone()), "deck")?)?;
    let s = p.slides();
    ch.check(s.len() == v.len(), "slide-count", || format!("{s:?}"));
    for (part, c) in s.iter().zip(&v) {
        ch.report_all(check_slide(&p, part, c));
    }
    ch.steps(v.len() as u64);
    ch.nontrivial(hash_str(&format!("{v:?}")));
    Ok(())
}
