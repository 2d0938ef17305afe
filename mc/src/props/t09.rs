//! T09: part objects write what was set on them, and read back what they wrote.
use super::g03::run_of;
use super::t07::{add, frag, machine, put, Attrs, Op, Start};
use super::*;
use crate::xml::{parse_str, Elem};
use ppt_rs::generator::{ChartBuilder, ChartSeries, ChartType, SlideContent};
use ppt_rs::parts::*;
use std::collections::BTreeSet;

fn doc(x: Result<String, ppt_rs::exc::PptxError>) -> Option<Elem> {
    parse_str(&x.ok()?).ok()
}
fn kind(m: &mut Attrs, p: &impl Part, id: &str) {
    put(m, "path", p.path());
    let ct = p.content_type().mime_type();
    let rt = p.part_type().relationship_type();
    put(m, "kind", (ct.rsplit('.').next().unwrap_or(ct), rt.rsplit('/').next().unwrap_or(rt)));
    put(m, "id", id);
}
fn kinds(m: &mut Attrs, path: &str, ct: &str, rt: &str, id: &str) {
    put(m, "path", path);
    put(m, "kind", (ct, rt));
    put(m, "id", id);
}
fn set<T>(mut t: T, f: impl FnOnce(&mut T)) -> T {
    f(&mut t);
    t
}

// ---- cells ----
type Line = Option<(i64, String, String)>;
fn line(c: Option<&Elem>, n: &str) -> Line {
    let l = c?.child(n)?;
    if l.child("noFill").is_some() {
        return Some((0, "none".into(), String::new()));
    }
    let color = l.path(&["solidFill", "srgbClr"]).and_then(|c| c.attr("val")).unwrap_or("?");
    let dash = match (l.path(&["prstDash"]).and_then(|d| d.attr("val")).unwrap_or("solid"), l.attr("cmpd").unwrap_or("sng")) {
        (d, "sng") => d.to_string(),
        (d, c) => format!("{d}/{c}"),
    };
    Some((l.attr("w").and_then(|w| w.parse().ok()).unwrap_or(-1), color.to_string(), dash))
}
fn cell_seen(c: &Elem) -> Attrs {
    let mut m = Attrs::new();
    let r = c.path(&["txBody", "p", "r"]);
    let f = r.map(run_of).unwrap_or_default();
    put(&mut m, "text", r.and_then(|r| r.child("t")).map(|t| t.text()).unwrap_or_default());
    put(&mut m, "format", (f.b, f.i, f.u, f.strike));
    put(&mut m, "bold", f.b);
    put(&mut m, "italic", f.i);
    put(&mut m, "underline", f.u);
    put(&mut m, "strike", f.strike);
    put(&mut m, "color", f.color);
    put(&mut m, "font", f.font);
    put(&mut m, "size", f.sz);
    m.remove("format");
    put(&mut m, "align", c.path(&["txBody", "p", "pPr"]).and_then(|p| p.attr("algn")).unwrap_or("l"));
    let pr = c.child("tcPr");
    put(&mut m, "valign", pr.and_then(|p| p.attr("anchor")).unwrap_or("t"));
    put(&mut m, "margins", ["marL", "marR", "marT", "marB"].map(|a| pr.and_then(|p| p.attr(a)).and_then(|v| v.parse::<i64>().ok())));
    put(&mut m, "fill", pr.and_then(|p| p.path(&["solidFill", "srgbClr"])).and_then(|c| c.attr("val")));
    for (k, n) in [("left", "lnL"), ("right", "lnR"), ("top", "lnT"), ("bottom", "lnB")] {
        put(&mut m, k, line(pr, n));
    }
    put(&mut m, "spans", (c.attr("rowSpan").unwrap_or("1"), c.attr("gridSpan").unwrap_or("1"), c.attr("hMerge").is_some(), c.attr("vMerge").is_some()));
    let s = m.remove("spans").unwrap();
    let v: Vec<&str> = s.trim_matches(['(', ')']).split(", ").collect();
    for (k, v) in ["row_span", "col_span", "h_merge", "v_merge"].into_iter().zip(v) {
        m.insert(k, v.to_string());
    }
    m
}
fn lines(m: &mut Attrs, l: [Line; 4]) {
    for (k, l) in ["left", "right", "top", "bottom"].into_iter().zip(l) {
        put(m, k, l);
    }
}
fn ln(w: i64, c: &str, d: &str) -> Line {
    Some((w, c.into(), d.into()))
}
const ALL: fn(Line) -> [Line; 4] = |l| [l.clone(), l.clone(), l.clone(), l];
fn base_cell(m: &mut Attrs) {
    put(m, "text", "w <&> \"");
    for k in ["bold", "italic", "underline", "strike", "h_merge", "v_merge"] {
        put(m, k, false);
    }
    for k in ["color", "font", "size", "fill", "left", "right", "top", "bottom"] {
        m.insert(k, "None".into());
    }
    put(m, "align", "l");
    put(m, "valign", "ctr");
    put(m, "row_span", "1");
    put(m, "col_span", "1");
    put(m, "margins", [None::<i64>; 4]);
}
fn cells(ch: &mut Ch, depth: usize) -> Res {
    use BorderStyle as B;
    use HorizontalAlign as H;
    use VerticalAlign as V;
    fn sides() -> CellBorders {
        CellBorders { left: Some(CellBorder::new(1.5, "#010203")), right: None, top: Some(CellBorder::new(2.0, "AA0000").style(B::Dashed)), bottom: Some(CellBorder::new(0.25, "00BB00").style(B::Dotted)) }
    }
    let ops: &[Op<TableCellPart>] = &[
        ("bold", |c| c.bold(), |m| put(m, "bold", true)),
        ("italic", |c| c.italic(), |m| put(m, "italic", true)),
        ("underline", |c| c.underline(), |m| put(m, "underline", true)),
        ("strikethrough", |c| c.strikethrough(), |m| put(m, "strike", true)),
        ("background", |c| c.background("#112233"), |m| put(m, "fill", Some("112233"))),
        ("background2", |c| c.background("445566"), |m| put(m, "fill", Some("445566"))),
        ("color", |c| c.color("#778899"), |m| put(m, "color", Some("778899"))),
        ("font_size", |c| c.font_size(9), |m| put(m, "size", Some(900))),
        ("font", |c| c.font("F <&> \""), |m| put(m, "font", Some("F <&> \""))),
        ("align-left", |c| c.align(H::Left), |m| put(m, "align", "l")),
        ("align-center", |c| c.align(H::Center), |m| put(m, "align", "ctr")),
        ("align-right", |c| c.align(H::Right), |m| put(m, "align", "r")),
        ("align-justify", |c| c.align(H::Justify), |m| put(m, "align", "just")),
        ("valign-top", |c| c.valign(V::Top), |m| put(m, "valign", "t")),
        ("valign-middle", |c| c.valign(V::Middle), |m| put(m, "valign", "ctr")),
        ("valign-bottom", |c| c.valign(V::Bottom), |m| put(m, "valign", "b")),
        ("center", |c| c.center(), |m| { put(m, "align", "ctr"); put(m, "valign", "ctr") }),
        ("row_span", |c| c.row_span(2), |m| put(m, "row_span", "2")),
        ("col_span", |c| c.col_span(3), |m| put(m, "col_span", "3")),
        ("margins", |c| c.margins(CellMargins { left: 1, right: 2, top: 3, bottom: 4 }), |m| put(m, "margins", [Some(1i64), Some(2), Some(3), Some(4)])),
        ("margins-uniform", |c| c.margins(CellMargins::uniform(5)), |m| put(m, "margins", [Some(5i64); 4])),
        ("margins-default", |c| c.margins(CellMargins::default()), |m| put(m, "margins", [Some(91440i64), Some(91440), Some(45720), Some(45720)])),
        ("border", |c| c.border(2.5, "#ABCDEF"), |m| lines(m, ALL(ln(31750, "ABCDEF", "solid")))),
        ("borders-sides", |c| c.borders(sides()), |m| lines(m, [ln(19050, "010203", "solid"), None, ln(25400, "AA0000", "dash"), ln(3175, "00BB00", "dot")])),
        ("borders-double", |c| c.borders(CellBorders::all(CellBorder::new(1.0, "00CC00").style(B::Double))), |m| lines(m, ALL(ln(12700, "00CC00", "solid/dbl")))),
        ("borders-none", |c| c.borders(CellBorders::none()), |m| lines(m, ALL(ln(0, "none", "")))),
        ("borders-unset", |c| c.borders(CellBorders::default()), |m| lines(m, ALL(None))),
    ];
    machine(ch, "TableCellPart", &[("new", || TableCellPart::new("w <&> \""), base_cell)], ops, |c| frag(&c.to_xml()).and_then(|x| x.child("tc").map(cell_seen)).unwrap_or_default(), depth)
}

// ---- tables ----
fn row(n: usize, t: &str, h: Option<i64>) -> TableRowPart {
    let r = TableRowPart::new((0..n).map(|i| TableCellPart::new(format!("{t}{i}"))).collect());
    match h {
        Some(h) => r.height(h),
        None => r,
    }
}
fn first_row(m: &mut Attrs, n: i64) {
    if m["widths"] == "[]" {
        let w = m["width"].parse::<i64>().unwrap_or(0);
        put(m, "widths", vec![(w / n).to_string(); n as usize]);
    }
}
fn table_seen(t: TablePart) -> Attrs {
    let mut m = Attrs::new();
    let Some(x) = frag(&t.to_slide_xml(7)) else { return m };
    let Some(g) = x.child("graphicFrame") else { return m };
    put(&mut m, "id", g.path(&["nvGraphicFramePr", "cNvPr"]).and_then(|c| c.attr("id")));
    for (k, e, a) in [("x", "off", "x"), ("y", "off", "y"), ("width", "ext", "cx"), ("height", "ext", "cy")] {
        m.insert(k, g.path(&["xfrm", e]).and_then(|o| o.attr(a)).unwrap_or("?").to_string());
    }
    let Some(t) = g.path(&["graphic", "graphicData", "tbl"]) else { return m };
    put(&mut m, "widths", t.child("tblGrid").map(|g| g.children("gridCol").filter_map(|c| c.attr("w").map(str::to_string)).collect::<Vec<_>>()).unwrap_or_default());
    let mut s = String::new();
    for r in t.children("tr") {
        s += &format!("{}:{}|", r.attr("h").unwrap_or("-"), r.children("tc").map(|c| c.deep_text().trim().to_string()).collect::<Vec<_>>().join(","));
    }
    m.insert("rows", s);
    m
}
fn tables(ch: &mut Ch, depth: usize) -> Res {
    fn start(m: &mut Attrs) {
        put(m, "id", Some("7"));
        put(m, "x", 914400);
        put(m, "y", 1828800);
        put(m, "width", 7315200);
        put(m, "height", 1828800);
        put(m, "widths", vec![""; 0]);
        m.insert("rows", String::new());
    }
    let ops: &[Op<TablePart>] = &[
        ("add_row-2", |t| t.add_row(row(2, "a", None)), |m| { first_row(m, 2); add(m, "rows", "-:a0,a1") }),
        ("add_row-3", |t| t.add_row(row(3, "b", Some(5))), |m| { first_row(m, 3); add(m, "rows", "5:b0,b1,b2") }),
        ("position", |t| t.position(3, -4), |m| { put(m, "x", 3); put(m, "y", -4) }),
        ("size", |t| t.size(600, 70), |m| { put(m, "width", 600); put(m, "height", 70) }),
        ("col_widths", |t| t.col_widths(vec![8, 9]), |m| put(m, "widths", ["8", "9"])),
        ("col_widths3", |t| t.col_widths(vec![1, 2, 3]), |m| put(m, "widths", ["1", "2", "3"])),
    ];
    machine(ch, "TablePart", &[("new", TablePart::new, start), ("default", TablePart::default, start)], ops, table_seen, depth)
}
/// Every way to lay out one or two spanning cells with placeholders on a grid.
fn spans(ch: &mut Ch, rows: usize, cols: usize) -> Res {
    let mut owner = vec![vec![None; cols]; rows];
    let mut regs: Vec<[usize; 4]> = vec![];
    for k in 0..2 {
        let r = ch.pick(rows);
        let c = ch.pick(cols);
        let h = 1 + ch.pick(rows - r);
        let w = 1 + ch.pick(cols - c);
        if (r..r + h).any(|i| (c..c + w).any(|j| owner[i][j].is_some())) {
            continue;
        }
        for o in &mut owner[r..r + h] {
            o[c..c + w].fill(Some(k));
        }
        while regs.len() < k {
            regs.push([0; 4]);
        }
        regs.push([r, c, h, w]);
    }
    let mut t = TablePart::new();
    for (i, o) in owner.iter().enumerate() {
        let v = o.iter().enumerate().map(|(j, k)| match k {
            Some(k) if regs[*k][..2] == [i, j] => TableCellPart::new(format!("r{k}")).row_span(regs[*k][2] as u32).col_span(regs[*k][3] as u32),
            Some(_) => TableCellPart::merged(),
            None => TableCellPart::new(format!("{i}{j}")),
        });
        t = t.add_row(TableRowPart::new(v.collect()));
    }
    ch.step();
    let Some(x) = frag(&t.to_slide_xml(2)) else { return Err(Fail { sig: "spans-markup".into(), msg: "not well-formed".into() }) };
    let got: Vec<Vec<String>> = x.all("tr").iter().map(|r| r.children("tc").map(|c| {
        let m = cell_seen(c);
        format!("{} {}x{} {} {}", m["text"], m["row_span"], m["col_span"], m["h_merge"], m["v_merge"])
    }).collect()).collect();
    let want: Vec<Vec<String>> = owner.iter().enumerate().map(|(i, o)| o.iter().enumerate().map(|(j, k)| match k {
        Some(k) => {
            let [r, c, h, w] = regs[*k];
            if (r, c) == (i, j) {
                format!("{:?} \"{h}\"x\"{w}\" false false", format!("r{k}"))
            } else {
                format!("\"\" \"{}\"x\"{}\" {} {}", if i == r { h } else { 1 }, if j == c { w } else { 1 }, j > c, i > r)
            }
        }
        None => format!("{:?} \"1\"x\"1\" false false", format!("{i}{j}")),
    }).collect()).collect();
    let strip = |v: &[Vec<String>]| -> Vec<Vec<String>> {
        // the spans repeated on covered cells are optional
        v.iter().map(|r| r.iter().map(|c| if c.starts_with("\"\"") { c.split(' ').skip(2).collect::<Vec<_>>().join(" ") } else { c.clone() }).collect()).collect()
    };
    ch.check(strip(&got) == strip(&want), "spans", || format!("cells are {got:?}, expected {want:?}"));
    let h = hash_str(&format!("{want:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}

// ---- the presentation part ----
fn presentation(ch: &mut Ch, depth: usize) -> Res {
    // what was there before: as read from a file
    let olds: [&[u32]; 6] = [&[], &[256], &[258], &[300, 257], &[2147483647], &[259, 258, 2147483647]];
    let old = *ch.of(&olds);
    let mut p = if old.is_empty() {
        PresentationPart::new()
    } else {
        let ids: String = old.iter().enumerate().map(|(i, d)| format!("<p:sldId id=\"{d}\" r:id=\"old{i}\"/>")).collect();
        let x = format!("<p:presentation xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\"><p:sldMasterIdLst><p:sldMasterId id=\"2147483648\" r:id=\"m0\"/></p:sldMasterIdLst><p:sldIdLst>{ids}</p:sldIdLst><p:sldSz cx=\"55\" cy=\"66\"/></p:presentation>");
        match PresentationPart::from_xml(&x) {
            Ok(p) => p,
            Err(e) => return Err(Fail { sig: "presentation-read".into(), msg: e.to_string() }),
        }
    };
    let mut want: Vec<String> = (0..old.len()).map(|i| format!("old{i}")).collect();
    let mut ids: Vec<u32> = old.to_vec();
    let (mut size, mut master, mut theme) = if old.is_empty() { ((9144000, 6858000), None, None) } else { ((55, 66), Some("m0"), None) };
    let mut calls = format!("{old:?}");
    for i in 0..depth {
        match ch.pick(6) {
            0 => break,
            1 => {
                let r = format!("s{i}");
                ids.push(p.add_slide(&r));
                want.push(r);
                calls += ".add_slide";
            }
            2 => {
                p.set_slide_master("mA");
                master = Some("mA");
                calls += ".set_slide_master";
            }
            3 => {
                p.set_theme("tA");
                theme = Some("tA");
                calls += ".set_theme";
            }
            4 => {
                p.set_dimensions(100 + i as u32, 200);
                size = (100 + i as u32, 200);
                calls += ".set_dimensions";
            }
            _ => {
                let x = p.to_xml().unwrap_or_default();
                p = match PresentationPart::from_xml(&x) {
                    Ok(p) => p,
                    Err(e) => return Err(Fail { sig: "presentation-reread".into(), msg: e.to_string() }),
                };
                theme = None;
                calls += ".reread";
                if master.is_none() {
                    master = Some("rId1");
                }
            }
        }
        ch.step();
    }
    let Some(x) = doc(p.to_xml()) else { return Err(Fail { sig: "presentation-markup".into(), msg: calls }) };
    let list: Vec<(u32, String)> = x.all("sldId").iter().map(|e| (e.attr("id").and_then(|i| i.parse().ok()).unwrap_or(0), e.attr_ns("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "id").unwrap_or("?").to_string())).collect();
    let names: Vec<String> = list.iter().map(|l| l.1.clone()).collect();
    ch.check(names == want, "presentation-slides", || format!("{calls}: {names:?}, expected {want:?}"));
    ch.check(list.iter().map(|l| l.0).eq(ids.iter().copied()), "presentation-returned-ids", || format!("{calls}: ids {list:?}, returned {ids:?}"));
    ch.check(ids.iter().collect::<BTreeSet<_>>().len() == ids.len() && ids.iter().all(|i| (256..2147483648).contains(i)), "presentation-unique-ids", || format!("{calls}: slide ids {ids:?}"));
    ch.check(p.slide_count() == want.len() && p.slides().iter().map(|s| (s.id, s.r_id.clone())).eq(list.iter().cloned()), "presentation-list", || format!("{calls}: {:?}", p.slides()));
    let got = x.path(&["sldSz"]).map(|s| (s.attr("cx").and_then(|v| v.parse().ok()).unwrap_or(0), s.attr("cy").and_then(|v| v.parse().ok()).unwrap_or(0)));
    ch.check(got == Some(size), "presentation-size", || format!("{calls}: {got:?}, expected {size:?}"));
    let m = x.all("sldMasterId").first().and_then(|m| m.attr_ns("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "id").map(str::to_string));
    ch.check(m.as_deref() == Some(master.unwrap_or("rId1")), "presentation-master", || format!("{calls}: {m:?}, expected {master:?}"));
    // relationships
    let Some(r) = parse_str(&p.create_relationships().to_xml()).ok() else { return Err(Fail { sig: "presentation-relationships".into(), msg: calls }) };
    let rels: Vec<(String, String, String)> = r.children("Relationship").map(|e| (e.attr("Id").unwrap_or("").to_string(), e.attr("Type").unwrap_or("").rsplit('/').next().unwrap().to_string(), e.attr("Target").unwrap_or("").to_string())).collect();
    ch.check(rels.iter().map(|r| &r.0).collect::<BTreeSet<_>>().len() == rels.len(), "presentation-relationship-ids", || format!("{calls}: {rels:?}"));
    for (i, w) in want.iter().enumerate() {
        let t = format!("slides/slide{}.xml", i + 1);
        ch.check(rels.iter().any(|r| r.0 == *w && r.1 == "slide" && r.2 == t), "presentation-slide-target", || format!("{calls}: {w} not to {t} in {rels:?}"));
    }
    ch.check(rels.iter().any(|r| r.1 == "slideMaster" && m.as_deref() == Some(&r.0[..])), "presentation-master-target", || format!("{calls}: {rels:?}"));
    ch.check(rels.iter().any(|r| r.1 == "theme" && theme.is_none_or(|t| r.0 == t)), "presentation-theme-target", || format!("{calls}: {rels:?}"));
    ch.check(rels.len() == want.len() + 2, "presentation-relationship-count", || format!("{calls}: {rels:?}"));
    let h = hash_str(&format!("{list:?}{size:?}{master:?}{theme:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}

// ---- other parts ----
const TXT: &str = "N <&> \" '\u{e9}";
fn elem_text(x: &Option<Elem>, n: &str) -> Option<String> {
    x.as_ref()?.child(n).map(|e| e.text())
}
fn others(ch: &mut Ch, depth: usize) -> Res {
    match ch.pick(7) {
        0 => {
            use LayoutType as L;
            macro_rules! start {
                ($n:expr, $t:expr, $v:expr, $name:expr) => { ($n, || SlideLayoutPart::new(4, $t), |m| { kinds(m, "ppt/slideLayouts/slideLayout4.xml", "slideLayout+xml", "slideLayout", "4 slideLayouts/slideLayout4.xml"); put(m, "type", Some($v)); put(m, "name", Some($name)) }) };
            }
            let starts: &[Start<SlideLayoutPart>] = &[
                start!("Title", L::Title, "title", "Title Slide"),
                start!("TitleAndContent", L::TitleAndContent, "obj", "Title and Content"),
                start!("SectionHeader", L::SectionHeader, "secHead", "Section Header"),
                start!("TwoContent", L::TwoContent, "twoObj", "Two Content"),
                start!("Comparison", L::Comparison, "twoTxTwoObj", "Comparison"),
                start!("TitleOnly", L::TitleOnly, "titleOnly", "Title Only"),
                start!("Blank", L::Blank, "blank", "Blank"),
                start!("ContentWithCaption", L::ContentWithCaption, "objTx", "Content with Caption"),
                start!("PictureWithCaption", L::PictureWithCaption, "picTx", "Picture with Caption"),
                start!("TitleAndVerticalText", L::TitleAndVerticalText, "vertTx", "Title and Vertical Text"),
                start!("VerticalTitleAndText", L::VerticalTitleAndText, "vertTitleAndTx", "Vertical Title and Text"),
                start!("Custom", L::Custom, "cust", "Custom"),
            ];
            let ops: &[Op<SlideLayoutPart>] = &[
                ("set_name", |p| set(p, |p| p.set_name(TXT)), |m| put(m, "name", Some(TXT))),
                ("set_name2", |p| set(p, |p| p.set_name("z")), |m| put(m, "name", Some("z"))),
                ("set_master_rel_id", |p| set(p, |p| p.set_master_rel_id("rId9")), |_| {}),
                ("reread", |p| set(p, |p| { let _ = SlideLayoutPart::from_xml(&p.to_xml().unwrap()).map(|q| assert_eq!(q.to_xml().unwrap(), p.to_xml().unwrap())); }), |_| {}),
            ];
            machine(ch, "SlideLayoutPart", starts, ops, |p| {
                let mut m = Attrs::new();
                kind(&mut m, &p, &format!("{} {}", p.layout_number(), p.rel_target()));
                let x = doc(p.to_xml());
                put(&mut m, "type", x.as_ref().and_then(|x| x.attr("type")));
                let n = x.as_ref().and_then(|x| x.child("cSld")).and_then(|c| c.attr("name")).map(str::to_string);
                put(&mut m, "name", if n.as_deref() == Some(p.name()) { n } else { None });
                m
            }, depth.min(3))
        }
        1 => {
            let ops: &[Op<SlideMasterPart>] = &[
                ("set_name", |p| set(p, |p| p.set_name(TXT)), |m| put(m, "name", TXT)),
                ("set_theme_rel_id", |p| set(p, |p| p.set_theme_rel_id("rId9")), |_| {}),
                ("add_layout_rel_id", |p| set(p, |p| { let n = p.layout_rel_ids().len() + 1; p.add_layout_rel_id(format!("rId{n}")) }), |m| { let n = m["layouts"].matches('|').count() + 1; add(m, "layouts", &format!("rId{n}")) }),
            ];
            machine(ch, "SlideMasterPart", &[("new", || SlideMasterPart::new(2), |m| { kinds(m, "ppt/slideMasters/slideMaster2.xml", "slideMaster+xml", "slideMaster", "2 slideMasters/slideMaster2.xml"); put(m, "name", "Office Theme"); m.insert("layouts", String::new()); put(m, "distinct", true) })], ops, |p| {
                let mut m = Attrs::new();
                kind(&mut m, &p, &format!("{} {}", p.master_number(), p.rel_target()));
                put(&mut m, "name", p.name());
                let Some(x) = doc(p.to_xml()) else { return m };
                let l = x.all("sldLayoutId");
                m.insert("layouts", l.iter().map(|l| format!("{}|", l.attr_ns("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "id").unwrap_or("?"))).collect());
                let ids: BTreeSet<u64> = l.iter().filter_map(|l| l.attr("id").and_then(|i| i.parse().ok())).filter(|i| (2147483648..4294967296u64).contains(i)).collect();
                put(&mut m, "distinct", ids.len() == l.len());
                m
            }, depth)
        }
        2 => {
            fn base(m: &mut Attrs) {
                kinds(m, "ppt/notesSlides/notesSlide3.xml", "notesSlide+xml", "notesSlide", "3 ../notesSlides/notesSlide3.xml");
            }
            let starts: &[Start<NotesSlidePart>] = &[
                ("new", || NotesSlidePart::new(3), |m| { base(m); put(m, "text", "") }),
                ("with_text", || NotesSlidePart::with_text(3, TXT), |m| { base(m); put(m, "text", TXT) }),
            ];
            let ops: &[Op<NotesSlidePart>] = &[
                ("set_notes_text", |p| set(p, |p| p.set_notes_text("l1\nl2 <x>\n\nl4")), |m| put(m, "text", "l1\nl2 <x>\n\nl4")),
                ("set_notes_text-empty", |p| set(p, |p| p.set_notes_text("")), |m| put(m, "text", "")),
                ("set_slide_rel_id", |p| set(p, |p| p.set_slide_rel_id("rId9")), |_| {}),
                ("reread", |p| { let x = p.to_xml().unwrap(); let t = p.notes_text().to_string(); let mut q = NotesSlidePart::from_xml(&x).unwrap(); assert_eq!(q.to_xml().unwrap(), x); q.set_notes_text(t.clone()); assert_eq!(q.to_xml().unwrap(), x); p }, |_| {}),
            ];
            machine(ch, "NotesSlidePart", starts, ops, |p| {
                let mut m = Attrs::new();
                kind(&mut m, &p, &format!("{} {}", p.notes_number(), p.rel_target()));
                let Some(x) = doc(p.to_xml()) else { return m };
                let t = x.all("sp").into_iter().find(|s| s.all("ph").iter().any(|p| p.attr("type") == Some("body"))).and_then(|s| s.child("txBody")).map(super::g02::body_text);
                put(&mut m, "text", if t.as_deref() == Some(p.notes_text()) { t.unwrap() } else { format!("{t:?} / {}", p.notes_text()) });
                m
            }, depth)
        }
        3 => {
            let ops: &[Op<ThemePart>] = &[
                ("set_name", |p| set(p, |p| p.set_name(TXT)), |m| put(m, "name", Some(TXT))),
                ("set_major_font", |p| set(p, |p| p.set_major_font(TXT)), |m| put(m, "major", Some(TXT))),
                ("set_minor_font", |p| set(p, |p| p.set_minor_font("mf")), |m| put(m, "minor", Some("mf"))),
                ("set_color-dk1", |p| set(p, |p| p.set_color("dk1", "010203")), |m| m.insert("colors", m["colors"].replacen(&m["colors"].split('|').next().unwrap().to_string(), "dk1=010203", 1)).map(|_| ()).unwrap_or(())),
                ("set_color-folHlink", |p| set(p, |p| p.set_color("folHlink", "0A0B0C")), |m| { let c = m["colors"].clone(); let i = c.rfind("folHlink").unwrap(); m.insert("colors", format!("{}folHlink=0A0B0C|", &c[..i])); }),
            ];
            machine(ch, "ThemePart", &[("new", || ThemePart::new(2), |m| {
                kinds(m, "ppt/theme/theme2.xml", "theme+xml", "theme", "2 ../theme/theme2.xml");
                put(m, "name", Some("Office Theme"));
                put(m, "major", Some("Calibri Light"));
                put(m, "minor", Some("Calibri"));
                m.insert("colors", "dk1=000000|lt1=FFFFFF|dk2=44546A|lt2=E7E6E6|accent1=4472C4|accent2=ED7D31|accent3=A5A5A5|accent4=FFC000|accent5=5B9BD5|accent6=70AD47|hlink=0563C1|folHlink=954F72|".into());
            })], ops, |p| {
                let mut m = Attrs::new();
                kind(&mut m, &p, &format!("{} {}", p.theme_number(), p.rel_target()));
                let Some(x) = doc(p.to_xml()) else { return m };
                put(&mut m, "name", x.attr("name").filter(|n| *n == p.name()));
                for (k, e) in [("major", "majorFont"), ("minor", "minorFont")] {
                    put(&mut m, k, x.path(&["themeElements", "fontScheme", e, "latin"]).and_then(|l| l.attr("typeface")));
                }
                let c = x.path(&["themeElements", "clrScheme"]);
                // a colour slot has no attributes of its own
                m.insert("colors", c.map(|c| c.elems().map(|e| format!("{}{}={}|", e.local, if e.attr("val").is_some() { " val" } else { "" }, e.child("srgbClr").and_then(|s| s.attr("val")).unwrap_or("?"))).collect()).unwrap_or_default());
                m
            }, depth)
        }
        4 => {
            let ops: &[Op<AppPropertiesPart>] = &[
                ("set_application", |p| set(p, |p| p.set_application(TXT)), |m| put(m, "Application", Some(TXT))),
                ("set_company", |p| set(p, |p| p.set_company(TXT)), |m| put(m, "Company", Some(TXT))),
                ("set_slides", |p| set(p, |p| p.set_slides(41)), |m| put(m, "Slides", Some("41"))),
                ("set_presentation_format", |p| set(p, |p| p.set_presentation_format(TXT)), |m| put(m, "PresentationFormat", Some(TXT))),
                ("fields", |p| set(p, |p| { p.paragraphs = 3; p.words = 4; p.notes = 5; p.hidden_slides = 6; p.mm_clips = 7; p.scale_crop = true; p.links_up_to_date = true; p.shared_doc = true; p.hyperlinks_changed = true; p.app_version = "1.0".into() }), |m| {
                    for (k, v) in [("Paragraphs", "3"), ("Words", "4"), ("Notes", "5"), ("HiddenSlides", "6"), ("MMClips", "7"), ("ScaleCrop", "true"), ("LinksUpToDate", "true"), ("SharedDoc", "true"), ("HyperlinksChanged", "true"), ("AppVersion", "1.0")] {
                        put(m, k, Some(v));
                    }
                }),
            ];
            machine(ch, "AppPropertiesPart", &[("new", AppPropertiesPart::new, |m| {
                kinds(m, "docProps/app.xml", "extended-properties+xml", "extended-properties", "");
                for (k, v) in [("Application", "Microsoft Office PowerPoint"), ("AppVersion", "16.0000"), ("PresentationFormat", "On-screen Show (4:3)"), ("Slides", "0"), ("Paragraphs", "0"), ("Words", "0"), ("Notes", "0"), ("HiddenSlides", "0"), ("MMClips", "0"), ("ScaleCrop", "false"), ("LinksUpToDate", "false"), ("SharedDoc", "false"), ("HyperlinksChanged", "false")] {
                    put(m, k, Some(v));
                }
                m.insert("Company", "None".into());
            })], ops, |p| {
                let mut m = Attrs::new();
                kind(&mut m, &p, "");
                let x = doc(p.to_xml());
                for k in ["Application", "AppVersion", "Company", "PresentationFormat", "Slides", "Paragraphs", "Words", "Notes", "HiddenSlides", "MMClips", "ScaleCrop", "LinksUpToDate", "SharedDoc", "HyperlinksChanged"] {
                    put(&mut m, k, elem_text(&x, k));
                }
                m
            }, depth)
        }
        5 => {
            macro_rules! ops {
                ($($f:ident $k:expr),*) => { vec![$((stringify!($f), |p: CorePropertiesPart| set(p, |p| { p.$f(TXT); }), |m: &mut Attrs| put(m, $k, Some(TXT)))),*] };
            }
            let mut o: Vec<Op<CorePropertiesPart>> = ops!(set_title "title", set_subject "subject", set_creator "creator", set_keywords "keywords", set_description "description");
            o.push(("touch", |p| set(p, |p| p.touch()), |m| { let r = m["revision"].trim_start_matches("Some(\"").trim_end_matches("\")").parse::<u32>().map_or(0, |r| r + 1); if r > 0 { put(m, "revision", Some(r.to_string())) } }));
            o.push(("fields", |p| set(p, |p| { p.last_modified_by = Some("me <&>".into()); p.revision = None; p.created = Some("2001-02-03T04:05:06Z".into()) }), |m| { put(m, "lastModifiedBy", Some("me <&>")); m.insert("revision", "None".into()); put(m, "created", Some("2001-02-03T04:05:06Z")) }));
            o.push(("reread", |p| CorePropertiesPart::from_xml(&p.to_xml().unwrap()).unwrap(), |_| {}));
            machine(ch, "CorePropertiesPart", &[("new", || set(CorePropertiesPart::new(), |p| p.created = Some("2000-01-01T00:00:00Z".into())), |m| {
                kinds(m, "docProps/core.xml", "core-properties+xml", "core-properties", "");
                for k in ["title", "subject", "keywords", "description"] {
                    m.insert(k, "None".into());
                }
                put(m, "creator", Some("pptx-rs"));
                put(m, "lastModifiedBy", Some("pptx-rs"));
                put(m, "revision", Some("1"));
                put(m, "created", Some("2000-01-01T00:00:00Z"));
            })], &o, |p| {
                let mut m = Attrs::new();
                kind(&mut m, &p, "");
                let x = doc(p.to_xml());
                for k in ["title", "subject", "creator", "keywords", "description", "lastModifiedBy", "revision", "created"] {
                    put(&mut m, k, elem_text(&x, k));
                }
                m
            }, depth)
        }
        _ => holders(ch, depth),
    }
}
/// Parts that hold content: the last content given is written.
fn holders(ch: &mut Ch, depth: usize) -> Res {
    fn chart(n: usize) -> ppt_rs::generator::Chart {
        ChartBuilder::new(&format!("chart {n} <&>"), ChartType::Line).categories(vec!["c"]).add_series(ChartSeries::new("s", vec![n as f64])).build()
    }
    fn slide(n: usize) -> SlideContent {
        SlideContent::new(&format!("slide {n} <&>")).add_bullet("b")
    }
    let charts = ch.flag();
    let mut now: Option<String> = None;
    let mut c = ChartPart::new(5);
    let mut s = SlidePart::new(5);
    for i in 0..depth {
        match ch.pick(4) {
            0 => break,
            1 => {
                c.set_chart(chart(i));
                s.set_content(slide(i));
                now = Some(format!("{i} <&>"));
            }
            2 => {
                c = ChartPart::from_chart(5, chart(i));
                s = SlidePart::from_content(5, slide(i));
                now = Some(format!("{i} <&>"));
            }
            _ => {
                // read what it writes, under the same number where that can be told
                if let Ok(x) = c.to_xml() {
                    let q = ChartPart::from_xml(&x).map_err(|e| Fail { sig: "chart-reread".into(), msg: e.to_string() })?;
                    ch.check(q.to_xml().is_ok_and(|y| y == x), "chart-rewrite", || "a chart part read does not write the same markup".into());
                }
                if let Ok(x) = s.to_xml() {
                    let q = ppt_rs::parts::slide::parse_slide(&x, 5).map_err(|e| Fail { sig: "slide-reread".into(), msg: e.to_string() })?;
                    ch.check(q.to_xml().is_ok_and(|y| y == x), "slide-rewrite", || "a slide part read does not write the same markup".into());
                    let t = now.as_ref().map(|n| format!("slide {n}"));
                    ch.check(q.title() == t.as_deref(), "slide-title", || format!("{:?}, expected {t:?}", q.title()));
                    if now.is_some() {
                        ch.check(q.body_text() == ["b"], "slide-body", || format!("{:?}", q.body_text()));
                    }
                    s = q;
                }
            }
        }
        ch.step();
    }
    if charts {
        let x = c.to_xml();
        let t = x.as_ref().ok().and_then(|x| parse_str(x).ok()).map(|x| x.path(&["chart", "title"]).map(|t| t.deep_text().trim().to_string()));
        ch.check(t == now.as_ref().map(|n| Some(format!("chart {n}"))), "chart-content", || format!("{t:?}, expected {now:?}"));
        ch.check((c.path(), &c.rel_target()[..], c.chart_number()) == ("ppt/charts/chart5.xml", "../charts/chart5.xml", 5), "chart-place", || c.rel_target());
        ch.check(c.content_type() == ContentType::Chart && c.part_type() == PartType::Chart, "chart-kind", String::new);
    } else {
        let x = doc(s.to_xml());
        let t = x.as_ref().map(|x| x.all("sp").iter().filter_map(|s| s.child("txBody").map(super::g02::body_text)).collect::<Vec<_>>());
        let want = now.as_ref().map_or(vec![], |n| vec![format!("slide {n}"), "b".into()]);
        ch.check(t.as_ref() == Some(&want), "slide-content", || format!("{t:?}, expected {want:?}"));
        ch.check((s.path(), &s.rels_path()[..], s.slide_number()) == ("ppt/slides/slide5.xml", "ppt/slides/_rels/slide5.xml.rels", 5), "slide-place", || s.rels_path());
        ch.check(s.content_type() == ContentType::Slide && s.part_type() == PartType::Slide, "slide-kind", String::new);
        let r = parse_str(&s.rels_xml()).ok();
        let n = r.as_ref().map(|r| r.children("Relationship").filter(|e| e.attr("Type").is_some_and(|t| t.ends_with("/slideLayout")) && e.attr("Target").is_some_and(|t| t.starts_with("../slideLayouts/"))).count());
        ch.check(n == Some(1), "slide-layout", || s.rels_xml());
    }
    let h = hash_str(&format!("{charts}{now:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}

// ---- media ----
const MEDIA: [(&str, &str, bool); 10] = [("mp4", "video/mp4", true), ("webm", "video/webm", true), ("avi", "video/x-msvideo", true), ("wmv", "video/x-ms-wmv", true), ("mov", "video/quicktime", true), ("mp3", "audio/mpeg", false), ("wav", "audio/wav", false), ("wma", "audio/x-ms-wma", false), ("m4a", "audio/mp4", false), ("ogg", "audio/ogg", false)];
const IMAGES: [(&str, &str, &str); 8] = [("png", "png", "image/png"), ("PNG", "png", "image/png"), ("jpg", "jpg", "image/jpeg"), ("jpeg", "jpg", "image/jpeg"), ("JPEG", "jpg", "image/jpeg"), ("gif", "gif", "image/gif"), ("Bmp", "bmp", "image/bmp"), ("tiff", "tiff", "image/tiff")];
fn cased(ch: &mut Ch, s: &str) -> String {
    match ch.pick(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s[..1].to_uppercase() + &s[1..],
    }
}
fn media(ch: &mut Ch) -> Res {
    let n = *ch.of(&[1usize, 12]);
    let data: Vec<u8> = (0..*ch.of(&[0usize, 1, 300])).map(|i| i as u8).collect();
    let from_file = ch.flag();
    let dir = crate::decks::scratch().join(format!("t09-{}", ch.worker));
    std::fs::create_dir_all(&dir).ok();
    let bad = |sig: &str, msg: String| Fail { sig: sig.into(), msg };
    if ch.flag() {
        let (ext, mime, video) = *ch.of(&MEDIA);
        let given = cased(ch, ext);
        let f = MediaFormat::from_extension(&given);
        let Some(f) = f else { return Err(bad("media-extension", format!("{given} is not known"))) };
        let p = if from_file {
            let path = dir.join(format!("a.b.{given}"));
            std::fs::write(&path, &data).map_err(|e| bad("machinery", e.to_string()))?;
            MediaPart::from_file(n, path.to_str().unwrap()).map_err(|e| bad("media-file", e.to_string()))?
        } else {
            MediaPart::new(n, f, data.clone())
        };
        let got = (f.extension(), f.mime_type(), f.is_video(), f.is_audio(), p.is_video(), p.is_audio(), p.format() == f);
        ch.check(got == (ext, mime, video, !video, video, !video, true), "media-format", || format!("{given}: {got:?}"));
        let want = format!("media{n}.{ext}");
        ch.check(p.path() == format!("ppt/media/{want}") && p.rel_target() == format!("../media/{want}") && p.media_number() == n, "media-place", || format!("{} {}", p.path(), p.rel_target()));
        ch.check(p.data() == data, "media-data", || format!("{} bytes of {}", p.data().len(), data.len()));
        ch.check(p.content_type().mime_type() == mime, "media-content-type", || format!("{given}: {}", p.content_type().mime_type()));
        ch.check(p.part_type() == PartType::Media, "media-part-type", || format!("{:?}", p.part_type()));
        ch.nontrivial(hash_str(&format!("{given}{n}{}", data.len())));
    } else {
        let (given, ext, mime) = *ch.of(&IMAGES);
        let p = if from_file {
            let path = dir.join(format!("a.b.{given}"));
            std::fs::write(&path, &data).map_err(|e| bad("machinery", e.to_string()))?;
            ImagePart::from_file(n, path.to_str().unwrap()).map_err(|e| bad("image-file", e.to_string()))?
        } else {
            ImagePart::new(n, given, data.clone())
        };
        let mut p = p;
        p.set_dimensions(3, 4);
        let want = format!("image{n}.{ext}");
        ch.check(p.path() == format!("ppt/media/{want}") && p.rel_target() == format!("../media/{want}") && p.image_number() == n && p.extension() == ext, "image-place", || format!("{} {}", p.path(), p.rel_target()));
        ch.check(p.data() == data && (p.width(), p.height()) == (3, 4), "image-data", || format!("{} bytes of {}", p.data().len(), data.len()));
        ch.check(p.mime_type() == mime && p.content_type().mime_type() == mime, "image-content-type", || format!("{given}: {} {}", p.mime_type(), p.content_type().mime_type()));
        ch.check(p.part_type() == PartType::Image, "image-part-type", || format!("{:?}", p.part_type()));
        ch.nontrivial(hash_str(&format!("{given}{n}{}", data.len())));
    }
    ch.step();
    std::fs::remove_dir_all(&dir).ok();
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "T09",
        level: "model_checking",
        rule: "every sequence of calls up to the depth on the part objects, on the real code and on a model in which a call sets what it names; the markup they write is compared through an independent reader; all layouts of two spanning cells on a grid; all media and picture formats",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let d = move |a: usize, b: usize| if q { a } else { b };
            let s = |n: &'static str, bound: String, depth: usize, f: fn(&mut Ch, usize) -> Res| Scenario::new(n, bound, 0, move |ch: &mut Ch| f(ch, depth));
            let (r, c) = (d(3, 4), d(3, 4));
            vec![
                s("cells", format!("all sequences of up to {} of 27 calls", d(3, 4)), d(3, 4), cells),
                s("tables", format!("all sequences of up to {} of 6 calls from 2 starts", d(5, 6)), d(5, 6), tables),
                Scenario::new("spans", format!("all layouts of two spanning cells on a {r} x {c} table"), 0, move |ch: &mut Ch| spans(ch, r, c)),
                s("presentation", format!("all sequences of up to {} of 5 calls from 6 starts", d(5, 7)), d(5, 7), presentation),
                s("other parts", format!("all sequences of up to {} calls on layout, master, notes, theme, property, chart and slide parts", d(4, 5)), d(4, 5), others),
                Scenario::new("media", "10 media formats in 3 spellings and 8 of pictures x 2 numbers x 3 sizes x built or read from a file".to_string(), 0, media),
            ]
        },
        must_cover: || vec![],
    }
}
