//! R04: all text of a slide is read, whatever its run structure and place.
use super::*;
use crate::decks::*;
use crate::pkg::Pkg;
use ppt_rs::generator::*;
use ppt_rs::oxml::{PresentationReader, SlideParser};
use std::sync::OnceLock;

struct Ns {
    a: &'static str,
    p: &'static str,
    decl: &'static str,
    nl: &'static str,
}
const A: &str = "http://schemas.openxmlformats.org/drawingml/2006/main";
const P: &str = "http://schemas.openxmlformats.org/presentationml/2006/main";
const NS: [Ns; 4] = [
    Ns { a: "a:", p: "p:", decl: "xmlns:a='A' xmlns:p='P'", nl: "" },
    Ns { a: "a:", p: "p:", decl: "xmlns:a='A' xmlns:p='P'", nl: "\n    " },
    Ns { a: "d:", p: "", decl: "xmlns:d='A' xmlns='P'", nl: "" },
    Ns { a: "ns0:", p: "ns1:", decl: "xmlns:ns0='A' xmlns:ns1='P'", nl: "\r\n\t" },
];
/// Pieces of a paragraph: markup ({a} = DrawingML prefix) and the text they show.
const PIECES: &[(&str, &str)] = &[
    ("<{a}r><{a}t>one</{a}t></{a}r>", "one"),
    ("<{a}r><{a}t> </{a}t></{a}r>", " "),
    ("<{a}br/>", "\n"),
    ("<{a}fld id=\"{X}\" type=\"slidenum\"><{a}rPr lang=\"en\"/><{a}t>7</{a}t></{a}fld>", "7"),
    ("<{a}r><{a}rPr b=\"1\" sz=\"1200\"><{a}solidFill><{a}srgbClr val=\"FF0000\"/></{a}solidFill></{a}rPr><{a}t>two </{a}t></{a}r>", "two "),
    ("<{a}r><{a}rPr/><{a}t/></{a}r>", ""),
    ("<{a}r><{a}t>a&amp;b&#x263A;&lt;</{a}t></{a}r>", "a&b\u{263a}<"),
    ("<{a}r><{a}t><![CDATA[<c>&]]>d</{a}t></{a}r>", "<c>&d"),
    ("<{a}r><{a}t>x<!-- no -->y<?pi no?>z</{a}t></{a}r>", "xyz"),
    ("<{a}r><{a}t>\t</{a}t></{a}r>", "\t"),
    ("<{a}r><{a}t>  lead</{a}t></{a}r>", "  lead"),
    ("<{a}br><{a}rPr lang=\"en\"/></{a}br>", "\n"),
    ("<{a}r>{nl}<{a}rPr>{nl}<{a}hlinkClick xmlns:r=\"urn:r\" r:id=\"rId9\"/>{nl}</{a}rPr>{nl}<{a}t>link</{a}t>{nl}</{a}r>", "link"),
    ("<{a}r><{a}t>&#160;</{a}t></{a}r>", "\u{a0}"),
    ("<{a}r><{a}t>\u{feff}é😀</{a}t></{a}r>", "\u{feff}é😀"),
];
const PPR: &[(&str, u32)] = &[("", 0), ("<{a}pPr lvl=\"2\"><{a}buNone/></{a}pPr>", 2), ("<{a}pPr marL=\"0\" indent=\"0\"><{a}buChar char=\"x\"/></{a}pPr>", 0)];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Title,
    Body,
    Other,
    Cell,
}
/// Containers: markup around the text body ({b}) or its paragraphs ({c}), and what it is.
const BOXES: &[(&str, &str, Kind)] = &[
    ("title", "<{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"X\"/><{p}cNvSpPr/><{p}nvPr><{p}ph type=\"title\"/></{p}nvPr></{p}nvSpPr><{p}spPr/>{b}</{p}sp>", Kind::Title),
    ("ctrTitle", "<{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"Rubrik\"/><{p}cNvSpPr/><{p}nvPr><{p}ph type=\"ctrTitle\"/></{p}nvPr></{p}nvSpPr><{p}spPr/>{b}</{p}sp>", Kind::Title),
    ("subTitle", "<{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"Subtitle 3\"/><{p}cNvSpPr/><{p}nvPr><{p}ph type=\"subTitle\" idx=\"1\"/></{p}nvPr></{p}nvSpPr><{p}spPr/>{b}</{p}sp>", Kind::Other),
    ("body", "<{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"X\"/><{p}cNvSpPr/><{p}nvPr><{p}ph type=\"body\" idx=\"1\"/></{p}nvPr></{p}nvSpPr><{p}spPr/>{b}</{p}sp>", Kind::Body),
    ("placeholder", "<{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"X\"/><{p}cNvSpPr/><{p}nvPr><{p}ph idx=\"1\"/></{p}nvPr></{p}nvSpPr><{p}spPr/>{b}</{p}sp>", Kind::Body),
    ("text box", "<{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"Box 1\"/><{p}cNvSpPr txBox=\"1\"/><{p}nvPr/></{p}nvSpPr><{p}spPr><{a}xfrm><{a}off x=\"1\" y=\"2\"/><{a}ext cx=\"3\" cy=\"4\"/></{a}xfrm><{a}prstGeom prst=\"rect\"><{a}avLst/></{a}prstGeom></{p}spPr>{b}</{p}sp>", Kind::Other),
    ("group", "<{p}grpSp><{p}nvGrpSpPr><{p}cNvPr id=\"3\" name=\"G\"/><{p}cNvGrpSpPr/><{p}nvPr/></{p}nvGrpSpPr><{p}grpSpPr/><{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"Box 1\"/><{p}cNvSpPr/><{p}nvPr/></{p}nvSpPr><{p}spPr/>{b}</{p}sp></{p}grpSp>", Kind::Other),
    ("nested group", "<{p}grpSp><{p}nvGrpSpPr><{p}cNvPr id=\"3\" name=\"G\"/><{p}cNvGrpSpPr/><{p}nvPr/></{p}nvGrpSpPr><{p}grpSpPr/><{p}grpSp><{p}nvGrpSpPr><{p}cNvPr id=\"4\" name=\"H\"/><{p}cNvGrpSpPr/><{p}nvPr/></{p}nvGrpSpPr><{p}grpSpPr/><{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"Box 1\"/><{p}cNvSpPr/><{p}nvPr/></{p}nvSpPr><{p}spPr/>{b}</{p}sp></{p}grpSp></{p}grpSp>", Kind::Other),
    ("cell", "<{p}graphicFrame><{p}nvGraphicFramePr><{p}cNvPr id=\"9\" name=\"T\"/><{p}cNvGraphicFramePr/><{p}nvPr/></{p}nvGraphicFramePr><{p}xfrm/><{a}graphic><{a}graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/table\"><{a}tbl><{a}tblPr/><{a}tblGrid><{a}gridCol w=\"9\"/></{a}tblGrid><{a}tr h=\"9\"><{a}tc>{c}<{a}tcPr/></{a}tc></{a}tr></{a}tbl></{a}graphicData></{a}graphic></{p}graphicFrame>", Kind::Cell),
    ("grouped cell", "<{p}grpSp><{p}nvGrpSpPr><{p}cNvPr id=\"3\" name=\"G\"/><{p}cNvGrpSpPr/><{p}nvPr/></{p}nvGrpSpPr><{p}grpSpPr/><{p}graphicFrame><{p}nvGraphicFramePr><{p}cNvPr id=\"9\" name=\"T\"/><{p}cNvGraphicFramePr/><{p}nvPr/></{p}nvGraphicFramePr><{p}xfrm/><{a}graphic><{a}graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/table\"><{a}tbl><{a}tblPr/><{a}tblGrid><{a}gridCol w=\"9\"/><{a}gridCol w=\"9\"/></{a}tblGrid><{a}tr h=\"9\"><{a}tc>{c}<{a}tcPr/></{a}tc><{a}tc>{c}<{a}tcPr/></{a}tc></{a}tr></{a}tbl></{a}graphicData></{a}graphic></{p}graphicFrame></{p}grpSp>", Kind::Cell),
    ("named box", "<{p}sp><{p}nvSpPr><{p}cNvPr id=\"9\" name=\"Box &amp; &quot;1&quot;\" descr=\"d\"/><{p}cNvSpPr/><{p}nvPr userDrawn=\"1\"/></{p}nvSpPr><{p}spPr/><{p}style><{a}lnRef idx=\"1\"/></{p}style>{b}</{p}sp>", Kind::Other),
];
fn fill(s: &str, ns: &Ns) -> String {
    s.replace("{a}", ns.a).replace("{p}", ns.p).replace("{nl}", ns.nl)
}
struct Para {
    xml: String,
    text: String,
    level: u32,
}
fn para(ns: &Ns, ppr: usize, pieces: &[usize], end: bool) -> Para {
    let mut xml = format!("<{}p>{}", ns.a, fill(PPR[ppr].0, ns));
    let mut text = String::new();
    for k in pieces {
        xml += ns.nl;
        xml += &fill(PIECES[*k].0, ns);
        text += PIECES[*k].1;
    }
    if end {
        xml += &format!("<{}endParaRPr lang=\"en\"/>", ns.a);
    }
    xml += &format!("{}</{}p>", ns.nl, ns.a);
    Para { xml, text, level: PPR[ppr].1 }
}
fn slide(ns: &Ns, boxes: &[(usize, Vec<Para>)]) -> String {
    let mut s = String::new();
    for (b, ps) in boxes {
        let paras: String = ps.iter().map(|p| p.xml.clone()).collect::<Vec<_>>().join(ns.nl);
        let inner = |pre: &str| format!("<{pre}txBody><{a}bodyPr wrap=\"square\"><{a}normAutofit/></{a}bodyPr><{a}lstStyle/>{}{paras}{}</{pre}txBody>", ns.nl, ns.nl, a = ns.a);
        s += ns.nl;
        s += &fill(BOXES[*b].1, ns).replace("{b}", &inner(ns.p)).replace("{c}", &inner(ns.a));
    }
    format!(
        "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<{p}sld {}><{p}cSld name=\"n\">{nl}<{p}spTree><{p}nvGrpSpPr><{p}cNvPr id=\"1\" name=\"\"/><{p}cNvGrpSpPr/><{p}nvPr/></{p}nvGrpSpPr><{p}grpSpPr/>{s}</{p}spTree></{p}cSld></{p}sld>",
        ns.decl.replace("'A'", &format!("\"{A}\"")).replace("'P'", &format!("\"{P}\"")),
        p = ns.p,
        nl = ns.nl
    )
}
fn base() -> &'static Pkg {
    static B: OnceLock<Pkg> = OnceLock::new();
    B.get_or_init(|| Pkg::from_bytes(&create_pptx_with_content("D", vec![SlideContent::new("T")]).unwrap()).unwrap())
}
fn check(ch: &mut Ch, ns: &Ns, boxes: &[(usize, Vec<Para>)], file: bool) -> Res {
    let xml = slide(ns, boxes);
    ch.note(|| xml.clone());
    ch.nontrivial(hash_str(&xml));
    ch.step();
    let (got, all) = if file {
        let mut p = base().clone();
        p.set("ppt/slides/slide1.xml", xml.clone());
        let path = scratch().join(format!("r04-{}.pptx", ch.worker));
        std::fs::write(&path, p.to_zip()).unwrap();
        let r = PresentationReader::open(path.to_str().unwrap()).map_err(|e| Fail { sig: "open".into(), msg: e.to_string() })?;
        (r.get_slide(0), r.extract_all_text().map_err(|e| Fail { sig: "extract".into(), msg: e.to_string() })?)
    } else {
        let s = SlideParser::parse(&xml);
        let t = s.as_ref().map(|s| s.all_text()).unwrap_or_default();
        (s, t)
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => return fail("parse", format!("{xml}: {e}")),
    };
    // paragraphs without text need not be reported
    let texts = |ps: &[Para]| ps.iter().map(|p| p.text.clone()).filter(|t| !t.is_empty()).collect::<Vec<_>>();
    let sps: Vec<&(usize, Vec<Para>)> = boxes.iter().filter(|b| BOXES[b.0].2 != Kind::Cell).collect();
    ch.check(got.shapes.len() == sps.len(), "shape-count", || format!("{} shapes read of {}", got.shapes.len(), sps.len()));
    for ((b, ps), g) in sps.iter().zip(&got.shapes) {
        let t: Vec<String> = g.paragraphs.iter().map(|p| p.text()).filter(|t| !t.is_empty()).collect();
        ch.check(t == texts(ps), "shape-text", || format!("{}: {:?} read as {t:?}", BOXES[*b].0, texts(ps)));
        let l: Vec<u32> = g.paragraphs.iter().filter(|p| !p.text().is_empty()).map(|p| p.level).collect();
        ch.check(t != texts(ps) || l == ps.iter().filter(|p| !p.text.is_empty()).map(|p| p.level).collect::<Vec<_>>(), "level", || format!("{}: levels read as {l:?}", BOXES[*b].0));
        let k = BOXES[*b].2;
        ch.check((g.is_title, g.is_body) == (k == Kind::Title, k == Kind::Body), "role", || format!("{}: title {} body {}", BOXES[*b].0, g.is_title, g.is_body));
    }
    let title: Option<String> = boxes.iter().find(|b| BOXES[b.0].2 == Kind::Title).map(|b| texts(&b.1).join("\n"));
    ch.check(got.title.clone().unwrap_or_default() == title.clone().unwrap_or_default(), "title", || format!("title {title:?} read as {:?}", got.title));
    let body: Vec<String> = boxes.iter().filter(|b| BOXES[b.0].2 == Kind::Body).flat_map(|b| texts(&b.1)).collect();
    ch.check(got.body_text == body, "body", || format!("body {body:?} read as {:?}", got.body_text));
    let cells: Vec<String> = boxes
        .iter()
        .filter(|b| BOXES[b.0].2 == Kind::Cell)
        .flat_map(|b| vec![texts(&b.1).join("\n"); if BOXES[b.0].0 == "grouped cell" { 2 } else { 1 }])
        .collect();
    // empty paragraphs inside a cell may be kept as empty lines
    let squeeze = |s: &str| s.split('\n').filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n");
    let tabs: Vec<String> = got.tables.iter().flat_map(|t| t.rows.iter().flatten()).map(|c| c.text.clone()).collect();
    ch.check(tabs.iter().map(|t| squeeze(t)).collect::<Vec<_>>() == cells.iter().map(|t| squeeze(t)).collect::<Vec<_>>(), "cells", || format!("cells {cells:?} read as {tabs:?}"));
    let flat = all.join("\n");
    for (_, ps) in boxes {
        for t in texts(ps) {
            ch.check(flat.contains(&t), "extract", || format!("{t:?} is not in the extracted text {all:?}"));
        }
    }
    ch.outcome(hash_str(&flat));
    Ok(())
}
fn pieces(ch: &mut Ch, max: usize) -> Vec<usize> {
    let n = ch.pick(max + 1);
    (0..n).map(|_| ch.pick(PIECES.len())).collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "R04",
        level: "exploration",
        rule: "slide parts assembled from every sequence of the stated run, break and field markup in every kind of text container are read; texts compared with the ones assembled",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 3 } else { 4 };
            vec![
                Scenario::new("runs", format!("{} containers x 4 namespace styles x all paragraphs of up to {n} of {} pieces x 3 paragraph formats", BOXES.len(), PIECES.len()), 0, move |ch| {
                    let b = ch.pick(BOXES.len());
                    let ns = ch.of(&NS);
                    let ps = pieces(ch, n);
                    let p = para(ns, ch.pick(3), &ps, ch.flag());
                    let boxes = vec![(b, vec![p])];
                    check(ch, ns, &boxes, false)
                }),
                Scenario::new("paragraphs", format!("{} containers x all texts of up to 3 paragraphs of up to 1 piece", BOXES.len()), 0, move |ch| {
                    let b = ch.pick(BOXES.len());
                    let k = 1 + ch.pick(if q { 2 } else { 3 });
                    let mut v = vec![];
                    for _ in 0..k {
                        let ps = pieces(ch, 1);
                        v.push(para(&NS[1], ch.pick(2), &ps, false));
                    }
                    check(ch, &NS[1], &vec![(b, v)], false)
                }),
                Scenario::new("containers", format!("all sequences of up to {} containers, read from a file", if q { 3 } else { 4 }), 0, move |ch| {
                    let k = 1 + ch.pick(if q { 3 } else { 4 });
                    let mut boxes = vec![];
                    for i in 0..k {
                        let b = ch.pick(BOXES.len());
                        boxes.push((b, vec![Para { xml: format!("<a:p><a:r><a:t>text {i}</a:t></a:r></a:p>"), text: format!("text {i}"), level: 0 }]));
                    }
                    check(ch, &NS[0], &boxes, true)
                }),
                Scenario::new("title", "a title placeholder among up to 3 text boxes with names like a title, in every order", 0, |ch| {
                    let names = ["Title", "title 1", "Subtitle", "Untitled", "Content Title"];
                    let k = 1 + ch.pick(3);
                    let at = ch.pick(k + 1);
                    let mut s = String::new();
                    for i in 0..=k {
                        let (name, ph) = if i == at {
                            ("Rubrik", *ch.of(&["<p:ph type=\"title\"/>", "<p:ph type=\"ctrTitle\"/>"]))
                        } else {
                            (*ch.of(&names), "")
                        };
                        s += &format!("<p:sp><p:nvSpPr><p:cNvPr id=\"{}\" name=\"{name}\"/><p:cNvSpPr/><p:nvPr>{ph}</p:nvPr></p:nvSpPr><p:spPr/><p:txBody><a:bodyPr/><a:p><a:r><a:t>{}</a:t></a:r></a:p></p:txBody></p:sp>", i + 2, if i == at { "the title".to_string() } else { format!("box {i}") });
                    }
                    let xml = format!("<p:sld xmlns:a=\"{A}\" xmlns:p=\"{P}\"><p:cSld><p:spTree>{s}</p:spTree></p:cSld></p:sld>");
                    ch.note(|| xml.clone());
                    ch.nontrivial(hash_str(&xml));
                    match SlideParser::parse(&xml) {
                        Ok(g) => ch.check(g.title.as_deref() == Some("the title"), "title-placeholder", || format!("title read as {:?}", g.title)),
                        Err(e) => return fail("parse", e.to_string()),
                    }
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
