use super::*;
use ppt_rs::parts::{ContentTypesPart, Part, RelationshipType, Relationships};
use std::collections::BTreeMap;

const TYPES: &[&str] = &[
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideLayout",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/chart",
    "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/notesSlide",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/notesMaster",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideUpdateInfo",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/themeOverride",
    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/chartUserShapes",
    "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail",
    "urn:x?a=1&b=<2>\"'",
    "http://example.com/slide",
    "http://example.com/image/theme",
];
fn table(e: &crate::xml::Elem) -> Vec<(String, String, String, bool)> {
    e.children("Relationship")
        .map(|r| (r.attr("Id").unwrap_or("").into(), r.attr("Type").unwrap_or("").into(), r.attr("Target").unwrap_or("").into(), r.attr("TargetMode") == Some("External")))
        .collect()
}
type RefT = Vec<(String, String, String)>;
fn check_rels(r: &Relationships, want: &RefT, ctx: &str) -> Vec<Fail> {
    let mut out = vec![];
    let mut bad = |s: &str, t: String| out.push(Fail { sig: s.into(), msg: format!("{ctx}: {t}") });
    let got: RefT = r.all().iter().map(|x| (x.id.clone(), x.rel_type.uri().to_string(), x.target.clone())).collect();
    if &got != want || r.len() != want.len() || r.is_empty() != want.is_empty() {
        bad("entries", format!("table {got:?}, wanted {want:?}"));
    }
    for (id, ty, ta) in want {
        let g = r.get(id).map(|x| (x.rel_type.uri().to_string(), x.target.clone()));
        if g != Some((ty.clone(), ta.clone())) {
            bad("get", format!("{id} finds {g:?}"));
        }
        let n = r.get_by_type(&RelationshipType::from_uri(ty)).len();
        let w = want.iter().filter(|x| &x.1 == ty).count();
        if n != w {
            bad("get-by-type", format!("{n} of type {ty}, wanted {w}"));
        }
    }
    if r.get("nope").is_some() {
        bad("get-absent", "finds an absent id".into());
    }
    let exp: Vec<(String, String, String, bool)> = want.iter().map(|x| (x.0.clone(), x.1.clone(), x.2.clone(), false)).collect();
    let x = r.to_xml();
    match crate::xml::parse(x.as_bytes()) {
        Err(e) => bad("malformed", e),
        Ok(e) => {
            if table(&e) != exp {
                bad("xml", format!("markup {:?}, wanted {exp:?}", table(&e)));
            }
        }
    }
    match Relationships::from_xml(&x) {
        Err(e) => bad("reread", e.to_string()),
        Ok(b) => {
            let g: RefT = b.all().iter().map(|x| (x.id.clone(), x.rel_type.uri().to_string(), x.target.clone())).collect();
            if &g != want {
                bad("reread", format!("read back {g:?}, wanted {want:?}"));
            }
        }
    }
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "T06",
        level: "model_checking",
        rule: "every operation history on the relationship and content-type tables compared step by step with a reference table, with writing and reading back as an operation; all relationship type URIs of the alphabet; states are reference tables",
        assumptions: STD,
        scenarios: |t| {
            let depth = if t == Tier::Quick { 4 } else { 5 };
            vec![
                Scenario::new("relationships", format!("all histories of {depth} operations over add (2 types x 2 targets), add_with_id (6 ids), reread; from new or default"), 0, move |ch| {
                    let mut r = if ch.pick(2) == 0 { Relationships::new() } else { Relationships::default() };
                    let mut want: RefT = vec![];
                    for k in 0..depth {
                        match ch.pick(3) {
                            0 => {
                                let ty = TYPES[1 + 8 * ch.pick(2)];
                                let ta = format!("t&{k}");
                                let id = r.add(RelationshipType::from_uri(ty), &ta);
                                ch.check(!id.is_empty() && !want.iter().any(|w| w.0 == id), "id-reused", || format!("{want:?}: add returned {id:?}"));
                                want.push((id, ty.into(), ta));
                            }
                            1 => {
                                let id = *ch.of(&["rId1", "rId2", "rId7", "other", "rId4294967295", "rId00"]);
                                let ty = TYPES[5];
                                let ta = format!("x{k}");
                                r.add_with_id(id, RelationshipType::from_uri(ty), &ta);
                                match want.iter_mut().find(|w| w.0 == id) {
                                    Some(w) => *w = (id.into(), ty.into(), ta),
                                    None => want.push((id.into(), ty.into(), ta)),
                                }
                            }
                            _ => {
                                r = Relationships::from_xml(&r.to_xml()).map_err(|e| Fail { sig: "reread".into(), msg: e.to_string() })?;
                            }
                        }
                        ch.step();
                        ch.state(hash_str(&format!("{want:?}")));
                        ch.report_all(check_rels(&r, &want, "history"));
                    }
                    ch.note(|| format!("{want:?}"));
                    ch.nontrivial(hash_str(&format!("{want:?}")));
                    Ok(())
                }),
                Scenario::new("types", format!("all pairs of {} relationship types, internal and external, read from markup and written again", TYPES.len()), 0, |ch| {
                    let (a, b) = (*ch.of(TYPES), *ch.of(TYPES));
                    let ext = [ch.pick(2) == 1, ch.pick(2) == 1];
                    let esc = |s: &str| s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;");
                    let row = |i: usize, t: &str| format!("<Relationship Target=\"t{i}\" Type=\"{}\" Id=\"rId{i}\"{}/>", esc(t), if ext[i] { " TargetMode=\"External\"" } else { "" });
                    let x = format!("<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">{}{}</Relationships>", row(0, a), row(1, b));
                    let r = Relationships::from_xml(&x).map_err(|e| Fail { sig: "read".into(), msg: e.to_string() })?;
                    let e = crate::xml::parse(r.to_xml().as_bytes()).map_err(|e| Fail { sig: "malformed".into(), msg: e })?;
                    let want = vec![("rId0".to_string(), a.to_string(), "t0".to_string(), ext[0]), ("rId1".to_string(), b.to_string(), "t1".to_string(), ext[1])];
                    ch.check(table(&e) == want, "types", || format!("{:?}, wanted {want:?}", table(&e)));
                    for t in [a, b] {
                        let n = r.get_by_type(&RelationshipType::from_uri(t)).len();
                        let w = [a, b].iter().filter(|x| **x == t).count();
                        ch.check(n == w, "get-by-type", || format!("{n} relationships of type {t} among {a} and {b}"));
                    }
                    ch.step();
                    ch.nontrivial(hash_str(&format!("{a}{b}{ext:?}")));
                    Ok(())
                }),
                Scenario::new("content-types", format!("all histories of {depth} operations over add_default, add_override, add_slide/layout/chart/notes, reread"), 0, move |ch| {
                    let mut c = ContentTypesPart::new();
                    let mut d: BTreeMap<String, String> = BTreeMap::new();
                    let mut o: BTreeMap<String, String> = BTreeMap::new();
                    let read = |c: &ContentTypesPart| -> Result<(Vec<(String, String)>, Vec<(String, String)>), Fail> {
                        let x = c.to_xml().map_err(|e| Fail { sig: "ct-write".into(), msg: e.to_string() })?;
                        let e = crate::xml::parse(x.as_bytes()).map_err(|e| Fail { sig: "ct-malformed".into(), msg: e })?;
                        let at = |e: &crate::xml::Elem, k: &str| e.attr(k).unwrap_or("").to_string();
                        Ok((e.children("Default").map(|x| (at(x, "Extension").to_lowercase(), at(x, "ContentType"))).collect(), e.children("Override").map(|x| (at(x, "PartName"), at(x, "ContentType"))).collect()))
                    };
                    for (k, v) in read(&c)?.0 {
                        d.insert(k, v);
                    }
                    for _ in 0..depth {
                        match ch.pick(5) {
                            0 => {
                                let e = *ch.of(&["png", "PNG", "wdp"]);
                                let t = *ch.of(&["image/x", "a/b"]);
                                c.add_default(e, t);
                                d.insert(e.to_lowercase(), t.into());
                            }
                            1 => {
                                let n = *ch.of(&["/a.xml", "/b & c.xml"]);
                                let t = *ch.of(&["a/b", "c/d"]);
                                c.add_override(n, t);
                                o.insert(n.into(), t.into());
                            }
                            2 => {
                                let n = 1 + ch.pick(2);
                                c.add_slide(n);
                                o.insert(format!("/ppt/slides/slide{n}.xml"), "application/vnd.openxmlformats-officedocument.presentationml.slide+xml".into());
                            }
                            3 => match ch.pick(5) {
                                0 => {
                                    c.add_chart(3);
                                    o.insert("/ppt/charts/chart3.xml".into(), "application/vnd.openxmlformats-officedocument.drawingml.chart+xml".into());
                                }
                                1 => {
                                    c.add_notes_slide(2);
                                    o.insert("/ppt/notesSlides/notesSlide2.xml".into(), "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml".into());
                                }
                                2 => {
                                    c.add_slide_layout(4);
                                    c.add_slide_master(1);
                                    o.insert("/ppt/slideLayouts/slideLayout4.xml".into(), "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml".into());
                                    o.insert("/ppt/slideMasters/slideMaster1.xml".into(), "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml".into());
                                }
                                3 => {
                                    c.add_theme(2);
                                    c.add_presentation();
                                    o.insert("/ppt/theme/theme2.xml".into(), "application/vnd.openxmlformats-officedocument.theme+xml".into());
                                    o.insert("/ppt/presentation.xml".into(), "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml".into());
                                }
                                _ => {
                                    c.add_core_properties();
                                    c.add_app_properties();
                                    o.insert("/docProps/core.xml".into(), "application/vnd.openxmlformats-package.core-properties+xml".into());
                                    o.insert("/docProps/app.xml".into(), "application/vnd.openxmlformats-officedocument.extended-properties+xml".into());
                                }
                            },
                            _ => {
                                let x = c.to_xml().map_err(|e| Fail { sig: "ct-write".into(), msg: e.to_string() })?;
                                c = ContentTypesPart::from_xml(&x).map_err(|e| Fail { sig: "ct-reread".into(), msg: e.to_string() })?;
                            }
                        }
                        ch.step();
                        ch.state(hash_str(&format!("{d:?}{o:?}")));
                    }
                    let (mut gd, mut go) = read(&c)?;
                    gd.sort();
                    go.sort();
                    let wd: Vec<_> = d.clone().into_iter().collect();
                    let wo: Vec<_> = o.clone().into_iter().collect();
                    ch.check(gd == wd, "ct-defaults", || format!("{gd:?}, wanted {wd:?}"));
                    ch.check(go == wo, "ct-overrides", || format!("{go:?}, wanted {wo:?}"));
                    ch.nontrivial(hash_str(&format!("{d:?}{o:?}")));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
