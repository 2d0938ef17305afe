//! R03: every reader ends with a result or an error on damaged input.
use super::v01::{bases, BREAK};
use super::*;
use crate::decks::scratch;
use crate::pkg::{self, Pkg};
use ppt_rs::core::validate_package_bytes;
use ppt_rs::generator::*;
use ppt_rs::opc::compress::{analyze_pptx, compress_pptx_in_memory, CompressionOptions};
use ppt_rs::opc::Package;
use ppt_rs::oxml::{PptxRepair, PresentationEditor, PresentationReader, SlideParser, XmlParser};
use ppt_rs::parts::{AppPropertiesPart, ContentTypesPart, CorePropertiesPart, NotesSlidePart, Part, PresentationPart, Relationships, SlideLayoutPart, SlideMasterPart, SlidePart, ThemePart};
use std::io::Cursor;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

fn path_for(worker: usize, n: &str) -> String {
    scratch().join(format!("r03-{worker}-{n}.pptx")).to_string_lossy().into_owned()
}
/// The uses of a file, each ending with a digest of its result or an error.
type Use = (&'static str, fn(&[u8], &str, &str) -> Result<u64, String>);
fn e<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
fn new_slide() -> SlideContent {
    SlideContent::new("New").add_bullet("b").notes("n").add_image(Image::from_bytes(crate::decks::png(7), 9, 9, "PNG"))
}
const USES: &[Use] = &[
    ("open", |b, _, _| {
        let p = Package::open_reader(Cursor::new(b)).map_err(e)?;
        let mut out = Cursor::new(vec![]);
        p.save_writer(&mut out).map_err(e)?;
        Ok(p.part_count() as u64)
    }),
    ("validate", |b, _, _| {
        let r = validate_package_bytes(b);
        Ok(r.issues.len() as u64)
    }),
    ("repair", |b, _, out| {
        let mut r = PptxRepair::from_bytes(b).map_err(e)?;
        let n = r.validate().len() as u64;
        let x = r.repair();
        r.save(out).map_err(e)?;
        Ok(n * 100 + x.issues_repaired.len() as u64)
    }),
    ("read", |_, path, _| {
        let r = PresentationReader::open(path).map_err(e)?;
        let mut h = r.slide_count() as u64;
        for i in 0..r.slide_count() {
            h = h.wrapping_mul(31) + r.get_slide(i).map(|s| s.all_text().concat().len() as u64).unwrap_or(7) % 1000;
        }
        let _ = r.get_slide(r.slide_count());
        let _ = r.get_all_slides().map_err(e)?;
        let _ = r.extract_all_text().map_err(e)?;
        Ok(h)
    }),
    ("import", |_, path, out| {
        let p = ppt_rs::import::import_pptx(path).map_err(e)?;
        let n = p.slide_count();
        let _ = p.save_as_html(out);
        let _ = p.save_as_markdown(out);
        let _ = p.to_pdf_bytes(&Default::default()).map_err(e);
        Ok(p.build().map_err(e)?.len() as u64 / 64 + n as u64)
    }),
    ("edit", |_, path, out| {
        let mut h = 0u64;
        // every kind of edit after every other
        for back in [false, true] {
            let mut d = PresentationEditor::open(path).map_err(e)?;
            let n = d.slide_count();
            for k in 0..7 {
                let ok = match if back { 6 - k } else { k } {
                    0 => d.duplicate_slide(0).is_ok(),
                    1 => d.insert_slide(0, new_slide()).is_ok(),
                    2 => d.update_slide(d.slide_count().max(1) - 1, new_slide()).is_ok(),
                    3 => d.reorder_slide(0, d.slide_count().max(1) - 1).is_ok(),
                    4 => d.add_slide(new_slide()).is_ok(),
                    5 => d.get_slide(0).is_ok() | d.get_slide(n).is_ok(),
                    _ => d.remove_slide(0).is_ok(),
                };
                h = h.wrapping_mul(2) + ok as u64;
            }
            if back {
                d.save(out).map_err(e)?;
            }
        }
        Ok(h)
    }),
    ("compress", |b, path, _| {
        let a = analyze_pptx(path).map_err(e)?;
        a.summary();
        let (v, r) = compress_pptx_in_memory(b, &CompressionOptions::maximum()).map_err(e)?;
        Ok(v.len() as u64 / 64 + r.unused_media_removed as u64)
    }),
    ("template", |_, path, _| {
        let v = create_pptx_with_template("T", &[new_slide(), new_slide().layout(SlideLayout::TwoColumn)], path, None).map_err(e)?;
        Ok(v.len() as u64 / 64)
    }),
];
/// Every use of a file. The answer says which uses accepted it.
fn consume(ch: &mut Ch, b: &[u8], what: &dyn Fn() -> String) -> Result<u32, Fail> {
    uses(ch, b, u32::MAX, what)
}
fn uses(ch: &mut Ch, b: &[u8], which: u32, what: &dyn Fn() -> String) -> Result<u32, Fail> {
    let (path, out) = (path_for(ch.worker, "in"), path_for(ch.worker, "out"));
    std::fs::write(&path, b).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    ch.steps(USES.len() as u64);
    let mut h = 0u64;
    let mut ok = 0;
    for (i, (n, f)) in USES.iter().enumerate() {
        if which >> i & 1 == 0 {
            continue;
        }
        match guarded(|| f(b, &path, &out)) {
            Ok(Ok(v)) => {
                ok |= 1 << i;
                h = h.wrapping_mul(1099511628211) ^ v;
            }
            Ok(Err(e)) => h = h.wrapping_mul(1099511628211) ^ hash_str(&e.chars().filter(|c| !c.is_ascii_digit()).take(30).collect::<String>()),
            Err(p) => {
                let f = panic_fail(p);
                ch.report(Fail { sig: format!("{n}:{}", f.sig), msg: format!("{}: {n} {}", what(), f.msg) });
            }
        }
    }
    ch.outcome(h);
    Ok(ok)
}
/// A slide with everything a reader looks at: levels, formats, spans, groups, positions.
fn dense() -> Pkg {
    let mut s = SlideContent::new("T").title_color("FF0000").add_bullet("a").add_sub_bullet("b").add_numbered("c");
    s.bullets.push(BulletPoint::new("d").with_level(2).bold().color("0000FF"));
    let mut p = Pkg::from_bytes(&create_pptx_with_content("D", vec![s, SlideContent::new("U").add_shape(Shape::new(ShapeType::Star5, 1, 2, 3, 4).with_text("s"))]).unwrap()).unwrap();
    put(&mut p, SLIDE, "</p:spTree>", "<p:grpSp><p:nvGrpSpPr><p:cNvPr id=\"90\" name=\"g\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr/><p:sp><p:nvSpPr><p:cNvPr id=\"91\" name=\"in\"/><p:cNvSpPr/><p:nvPr><p:ph type=\"body\" idx=\"7\"/></p:nvPr></p:nvSpPr><p:spPr><a:xfrm><a:off x=\"1\" y=\"2\"/><a:ext cx=\"3\" cy=\"4\"/></a:xfrm><a:prstGeom prst=\"rect\"/></p:spPr><p:txBody><a:bodyPr/><a:p><a:pPr lvl=\"1\"/><a:r><a:rPr b=\"1\" i=\"true\" u=\"sng\" sz=\"1800\"><a:solidFill><a:srgbClr val=\"00FF00\"/></a:solidFill></a:rPr><a:t>in</a:t></a:r><a:br/><a:fld id=\"{1}\" type=\"slidenum\"><a:t>1</a:t></a:fld></a:p></p:txBody></p:sp></p:grpSp><p:graphicFrame><p:nvGraphicFramePr><p:cNvPr id=\"92\" name=\"t\"/><p:cNvGraphicFramePr/><p:nvPr/></p:nvGraphicFramePr><p:xfrm><a:off x=\"1\" y=\"2\"/><a:ext cx=\"3\" cy=\"4\"/></p:xfrm><a:graphic><a:graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/table\"><a:tbl><a:tblGrid><a:gridCol w=\"9\"/><a:gridCol w=\"9\"/></a:tblGrid><a:tr h=\"5\"><a:tc gridSpan=\"2\" rowSpan=\"2\"><a:txBody><a:bodyPr/><a:p><a:r><a:t>x</a:t></a:r></a:p></a:txBody></a:tc><a:tc hMerge=\"1\" rowSpan=\"2\"/></a:tr><a:tr h=\"5\"><a:tc vMerge=\"1\" gridSpan=\"2\"/><a:tc vMerge=\"1\" hMerge=\"1\"/></a:tr></a:tbl></a:graphicData></a:graphic></p:graphicFrame>".into());
    p
}
/// The sound packages without the layouts no slide uses.
fn slim(all: bool) -> &'static Vec<(String, Pkg)> {
    static Q: OnceLock<Vec<(String, Pkg)>> = OnceLock::new();
    static T: OnceLock<Vec<(String, Pkg)>> = OnceLock::new();
    let make = move || {
        std::iter::once(("dense".to_string(), dense()))
            .chain(bases(all).iter().cloned())
            .map(|(n, mut p)| {
                let used: Vec<String> = p.slides().iter().flat_map(|s| p.rel_of_type(s, "slideLayout")).map(|r| r.part).collect();
                let master = "ppt/slideMasters/slideMaster1.xml";
                for r in p.rel_of_type(master, "slideLayout") {
                    if used.contains(&r.part) {
                        continue;
                    }
                    p.parts.remove(&r.part);
                    p.parts.remove(&pkg::rels_path(&r.part));
                    for (part, tag, mark) in [(master.to_string(), "sldLayoutId", format!("\"{}\"", r.id)), (pkg::rels_path(master), "Relationship", format!("Id=\"{}\"", r.id)), ("[Content_Types].xml".into(), "Override", format!("/{}\"", r.part))] {
                        let s = p.text(&part);
                        if let Some((a, b)) = super::v01::tags(&s, tag).into_iter().find(|(a, b)| s[*a..*b].contains(&mark)) {
                            p.set(&part, format!("{}{}", &s[..a], &s[b..]));
                        }
                    }
                }
                let f = pkg::check(&p).1;
                assert!(f.is_empty(), "{n}: {:?}", f.first());
                (n, p)
            })
            .collect()
    };
    if all { T.get_or_init(make) } else { Q.get_or_init(make) }
}
fn names(p: &Pkg) -> Vec<String> {
    let mut v: Vec<String> = p.parts.keys().cloned().collect();
    v.sort();
    v
}
fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}

/// A small file as the generator writes it.
fn small() -> &'static Vec<u8> {
    static S: OnceLock<Vec<u8>> = OnceLock::new();
    S.get_or_init(|| create_pptx_with_content("S", vec![SlideContent::new("A").add_bullet("b").add_image(Image::from_bytes(crate::decks::png(1), 9, 9, "PNG"))]).unwrap())
}
fn truncation(ch: &mut Ch, part: usize) -> Res {
    let b = small();
    let n = b.len() / 16 + 1;
    let at = part * n + ch.pick(n);
    if at >= b.len() {
        return Ok(());
    }
    ch.note(|| format!("cut to {at} of {} bytes", b.len()));
    ch.nontrivial(at as u64);
    // opened and validated at every length, everything else (which opens first) at every 16th
    let which = if ch.tier == Tier::Thorough || at % 16 == 15 || at + 64 > b.len() { u32::MAX } else { 3 };
    let ok = uses(ch, &b[..at], which, &|| format!("cut to {at} bytes"))?;
    // validation reports, everything else refuses
    ch.check(ok & !2 == 0, "truncation-accepted", || format!("cut to {at} of {} bytes: accepted by {:?}", b.len(), USES.iter().enumerate().filter(|(i, _)| ok >> i & 1 == 1).map(|x| x.1 .0).collect::<Vec<_>>()));
    ch.check(!validate_package_bytes(&b[..at]).is_valid(), "truncation-valid", || format!("cut to {at} bytes: reported valid"));
    Ok(())
}
/// Offsets of the local headers, the data, the central directory and its end.
struct Zip {
    heads: Vec<usize>,
    data: Vec<(usize, usize)>,
    central: Vec<usize>,
    end: usize,
}
fn u16at(b: &[u8], i: usize) -> usize {
    u16::from_le_bytes([b[i], b[i + 1]]) as usize
}
fn u32at(b: &[u8], i: usize) -> usize {
    u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize
}
fn layout(b: &[u8]) -> Zip {
    let end = (0..=b.len() - 22).rev().find(|&i| b[i..].starts_with(b"PK\x05\x06")).unwrap();
    let mut z = Zip { heads: vec![], data: vec![], central: vec![], end };
    let mut c = u32at(b, end + 16);
    for _ in 0..u16at(b, end + 10) {
        z.central.push(c);
        let h = u32at(b, c + 42);
        z.heads.push(h);
        let d = h + 30 + u16at(b, h + 26) + u16at(b, h + 28);
        z.data.push((d, d + u32at(b, c + 20)));
        c += 46 + u16at(b, c + 28) + u16at(b, c + 30) + u16at(b, c + 32);
    }
    z
}
fn same_parts(b: &[u8]) -> Result<bool, Fail> {
    static P: OnceLock<Pkg> = OnceLock::new();
    let want = P.get_or_init(|| Pkg::from_bytes(small()).unwrap());
    let p = match guarded(|| Package::open_reader(Cursor::new(b))).map_err(panic_fail)? {
        Ok(p) => p,
        Err(_) => return Ok(true),
    };
    Ok(p.part_count() == want.parts.len() && want.parts.iter().all(|(n, v)| p.get_part(n) == Some(v)))
}
/// A byte of the structure overwritten. Which name a part has is not protected by a sum, all else is.
fn structure(ch: &mut Ch) -> Res {
    let mut b = small().clone();
    let z = layout(&b);
    let n = z.heads.len();
    let of: Vec<usize> = if ch.tier == Tier::Quick { vec![0, n / 2, n - 1] } else { (0..n).collect() };
    let (what, from, len) = match ch.pick(3) {
        0 => ("local header", z.heads[*ch.of(&of)], 30),
        1 => ("directory entry", z.central[*ch.of(&of)], 46),
        _ => ("directory end", z.end, 22),
    };
    let at = ch.pick(len);
    let old = b[from + at];
    let new = match ch.pick(if ch.tier == Tier::Quick { 4 } else { 10 }) {
        0 => old ^ 0x01,
        1 => old ^ 0x80,
        2 => 0,
        3 => 0xff,
        k => old ^ (1 << (k - 3)),
    };
    if new == old {
        return Ok(());
    }
    b[from + at] = new;
    ch.note(|| format!("{what} at {from}: byte {at} = {new:#x} instead of {old:#x}"));
    ch.nontrivial(hash_bytes(&b));
    consume(ch, &b, &|| format!("{what} byte {at} = {new:#x}"))?;
    // flags that change the meaning of names and of the comment are fine either way
    Ok(())
}
/// A byte of the content overwritten.
fn content(ch: &mut Ch) -> Res {
    let mut b = small().clone();
    let z = layout(&b);
    let (s, t) = z.data[ch.pick(z.data.len())];
    let quick = ch.tier == Tier::Quick;
    let n = if quick { (t - s).min(60) } else { t - s };
    if n == 0 {
        return Ok(());
    }
    // evenly spread over the part
    let at = s + ch.pick(n) * (t - s) / n;
    b[at] ^= *ch.of(if quick { &[0x01u8, 0xff][..] } else { &[0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff] });
    ch.note(|| format!("content byte at {at}"));
    ch.nontrivial(hash_bytes(&b));
    ch.step();
    let same = same_parts(&b)?;
    ch.outcome(same as u64);
    ch.check(same, "damaged-content-accepted", || format!("content byte at {at} changed: the package opens with other content"));
    if !quick && ch.path.last() == Some(&0) {
        consume(ch, &b, &|| format!("content byte at {at}"))?;
    }
    Ok(())
}
fn one_part(ch: &mut Ch, p: &mut Pkg, all: &[String]) -> String {
    let n = ch.of(all).clone();
    let k = if ch.tier == Tier::Quick { [0, 2, 5, 7, 9, 13, 15, 17, BREAK.len()][ch.pick(9)] } else { ch.pick(BREAK.len() + 1) };
    if k == BREAK.len() {
        p.parts.remove(&n);
        return format!("{n} missing");
    }
    let v = if is_xml(&n) { guarded(|| BREAK[k].1(&p.text(&n))).unwrap_or_default() } else { p.get(&n).map(|b| b[..b.len() / (k + 1)].to_vec()).unwrap_or_default() };
    p.set(&n, v);
    format!("{n}: {}", BREAK[k].0)
}
fn parts(ch: &mut Ch) -> Res {
    let (bn, base) = ch.of(slim(ch.tier == Tier::Thorough));
    let mut p = base.clone();
    let mut seen = std::collections::HashSet::new();
    let mut all = names(base);
    if ch.tier == Tier::Quick {
        // one of each kind
        all.retain(|n| seen.insert(pkg::generic(n)));
    }
    let w = one_part(ch, &mut p, &all);
    ch.note(|| format!("{bn}: {w}"));
    let b = p.to_zip();
    ch.nontrivial(hash_bytes(&b));
    consume(ch, &b, &|| format!("{bn}: {w}"))?;
    Ok(())
}
/// Two parts missing or emptied.
fn pairs(ch: &mut Ch) -> Res {
    let (bn, base) = ch.of(if ch.tier == Tier::Quick { &slim(false)[2..3] } else { &slim(false)[1..4] });
    let mut p = base.clone();
    // one of each kind of part
    let mut seen = vec![];
    let all: Vec<String> = names(base).into_iter().filter(|n| { let g = pkg::generic(n); let new = !seen.contains(&g); seen.push(g); new }).collect();
    let i = ch.pick(all.len());
    let j = ch.pick(all.len());
    if j <= i {
        return Ok(());
    }
    let mut w = vec![];
    for k in [i, j] {
        if ch.pick(2) == 0 {
            p.parts.remove(&all[k]);
            w.push(format!("{} missing", all[k]));
        } else {
            p.set(&all[k], vec![]);
            w.push(format!("{} empty", all[k]));
        }
    }
    let w = format!("{bn}: {}", w.join(", "));
    ch.note(|| w.clone());
    let b = p.to_zip();
    ch.nontrivial(hash_bytes(&b));
    consume(ch, &b, &|| w.clone())?;
    Ok(())
}

/// Places in markup: values and texts (ranges), elements (range of start tag, range of element).
enum Place {
    Value(usize, usize),
    Text(usize, usize),
    Element(usize, usize, usize),
}
/// The places of a part, one of each kind.
fn places(s: &str) -> Vec<(String, Place)> {
    let b = s.as_bytes();
    let mut out: Vec<(String, Place)> = vec![];
    let mut seen = std::collections::HashMap::new();
    let mut put = |k: String, p: Place, out: &mut Vec<(String, Place)>| {
        let n = seen.entry(k.clone()).or_insert(0);
        *n += 1;
        if *n <= 1 {
            out.push((k, p));
        }
    };
    let mut stack: Vec<(String, usize, usize, usize)> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            let j = s[i..].find('<').map_or(b.len(), |k| i + k);
            if !stack.is_empty() {
                put(format!("text {}", stack.last().unwrap().0), Place::Text(i, j), &mut out);
            }
            i = j;
            continue;
        }
        let j = i + s[i..].find('>').unwrap_or(b.len() - i - 1) + 1;
        let tag = &s[i..j];
        if tag.starts_with("<?") || tag.starts_with("<!") {
            i = j;
            continue;
        }
        if tag.starts_with("</") {
            if let Some((n, a, z, slot)) = stack.pop() {
                let _ = (slot, z);
                put(format!("element {n}"), Place::Element(a, z, j), &mut out);
            }
            i = j;
            continue;
        }
        let name = tag[1..].split([' ', '/', '>', '\n', '\t', '\r']).next().unwrap().to_string();
        let mut at = i;
        while let Some(q) = s[at..j].find('"').map(|k| at + k + 1) {
            let z = q + s[q..j].find('"').unwrap_or(0);
            let an = s[at..q - 1].trim_end_matches('=').rsplit([' ', '\n']).next().unwrap_or("");
            put(format!("value {}/{name}@{an}", stack.last().map_or("", |x| x.0.as_str())), Place::Value(q, z), &mut out);
            at = z + 1;
        }
        if tag.ends_with("/>") {
            put(format!("element {name}"), Place::Element(i, j, j), &mut out);
        } else {
            stack.push((name, i, j, out.len()));
        }
        i = j;
    }
    out
}
const VALUES: &[&str] = &[
    "", "-1", "4294967295", "2147483648", "9223372036854775807", "é", "12é456", "../../../../x", "/", "rId1", "&lt;", "0", "1e9", "slides/slide1.xml",
    "1", "255", "65536", "4294967296", "-2147483649", "18446744073709551616", "NaN", "ééé", "#é", "ffffff", " ", "a/", "//", "..", ".", "#", "?", "%00", "http://x/", "ppt/presentation.xml", "../slides/slide1.xml", "&#233;", "&#10;", "slide-1.xml", "true", "title",
];
/// The damaged parts with their places, over all bases once per kind of part and place.
fn spots(all: bool) -> &'static Vec<(usize, String, String, Place)> {
    static Q: OnceLock<Vec<(usize, String, String, Place)>> = OnceLock::new();
    static T: OnceLock<Vec<(usize, String, String, Place)>> = OnceLock::new();
    let make = move || {
        let mut seen = std::collections::HashSet::new();
        let mut v = vec![];
        for (i, (_, p)) in slim(all).iter().enumerate() {
            for n in names(p) {
                // parts no reader looks into differ only in being read at all
                let g = pkg::generic(&n);
                let deep = ["theme", "slideLayout", "slideMaster", "chart", "notesMaster", "fonts", "handout"].iter().any(|k| g.contains(k)) && !n.ends_with(".rels");
                if !is_xml(&n) || (deep && !all) {
                    continue;
                }
                for (k, pl) in places(&p.text(&n)) {
                    if seen.insert(format!("{g} {k}")) {
                        v.push((i, n.clone(), k, pl));
                    }
                }
            }
        }
        v
    };
    if all { T.get_or_init(make) } else { Q.get_or_init(make) }
}
fn markup(ch: &mut Ch) -> Res {
    let all = ch.tier == Tier::Thorough;
    let sp = spots(all);
    let (bi, part, k, place) = ch.of(sp);
    let base = &slim(all)[*bi].1;
    let s = base.text(part);
    let (new, how) = match *place {
        Place::Value(a, b) | Place::Text(a, b) => {
            let v = *ch.of(if all { VALUES } else { &VALUES[..6] });
            (format!("{}{v}{}", &s[..a], &s[b..]), format!("{v:?}"))
        }
        Place::Element(a, z, b) => {
            let name = s[a + 1..].split([' ', '/', '>', '\n', '\t', '\r']).next().unwrap();
            let el = &s[a..b];
            let empty = z == b;
            let start = &s[a..z];
            let (v, h) = match ch.pick(if all { 9 } else { 6 }) {
                0 => (String::new(), "removed"),
                1 => (format!("{el}{el}"), "twice"),
                2 => (el.repeat(40), "forty times"),
                3 => (if empty { format!("{}>{el}</{name}>", &start[..start.len() - 2]) } else { format!("{start}{el}</{name}>") }, "inside itself"),
                4 => (if empty { el.to_string() } else { format!("{}/>", start[..start.len() - 1].trim_end()) }, "emptied"),
                5 => (format!("<{name}/>"), "bare"),
                6 => (if empty { el.to_string() } else { s[z..b - name.len() - 3].to_string() }, "unwrapped"),
                7 => (format!("<zz xmlns=\"urn:z\">{el}</zz>"), "wrapped"),
                _ => (format!("<!-- {} --><![CDATA[{}]]>", el.replace('-', "_"), el.replace("]]>", "")), "commented out"),
            };
            (format!("{}{v}{}", &s[..a], &s[b..]), h.to_string())
        }
    };
    let mut p = base.clone();
    p.set(part, new);
    let w = format!("{part}: {k} {how}");
    ch.note(|| w.clone());
    let b = p.to_zip();
    ch.nontrivial(hash_bytes(&b));
    consume(ch, &b, &|| w.clone())?;
    Ok(())
}

const XML: &[&str] = &[
    "<p:sld xmlns:p=\"p\" xmlns:a=\"a\">", "</p:sld>", "<p:cSld>", "</p:cSld>", "<p:spTree>", "</p:spTree>", "<p:sp>", "</p:sp>", "<p:grpSp>", "<a:p>", "<a:pPr lvl=\"-1\"/>", "<a:r>", "</a:r>", "<a:t>", "</a:t>", "<p:txBody>", "<a:tbl>", "<a:tr/>", "<a:tc gridSpan=\"99999999999\"/>", "<p:graphicFrame>",
    "<p:nvPr><p:ph/>", "x", "é", "&#x110000;", "&#0;", "&x;", "<![CDATA[", "]]>", "<!--", "-->", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"utf-16\"?>", "<!DOCTYPE x [<!ENTITY x \"&x;\">]>", "\u{feff}", "<", ">", "\"", "\0",
];
fn xml(ch: &mut Ch, s: &str) -> Res {
    ch.step();
    ch.note(|| format!("{s:?}"));
    ch.nontrivial(hash_str(s));
    let h = guarded(|| {
        let mut h = XmlParser::parse_str(s).map(|r| (r.text_content().len() + 31 * r.find_all_descendants("sp").len()) as u64).unwrap_or_else(|e| hash_str(&e.to_string().chars().filter(|c| !c.is_ascii_digit()).collect::<String>()));
        h ^= SlideParser::parse(s).map(|p| (p.shapes.len() * 100 + p.tables.len()) as u64).unwrap_or(3);
        ppt_rs::parts::slide::parse_slide(s, 1).is_ok();
        Relationships::from_xml(s).map(|r| r.to_xml().len()).ok();
        SlidePart::from_xml(s).and_then(|p| p.to_xml()).ok();
        PresentationPart::from_xml(s).and_then(|p| p.to_xml()).ok();
        CorePropertiesPart::from_xml(s).and_then(|p| p.to_xml()).ok();
        AppPropertiesPart::from_xml(s).and_then(|p| p.to_xml()).ok();
        ContentTypesPart::from_xml(s).and_then(|p| p.to_xml()).ok();
        NotesSlidePart::from_xml(s).and_then(|p| p.to_xml()).ok();
        SlideLayoutPart::from_xml(s).and_then(|p| p.to_xml()).ok();
        SlideMasterPart::from_xml(s).and_then(|p| p.to_xml()).ok();
        ThemePart::from_xml(s).and_then(|p| p.to_xml()).ok();
        h
    })
    .map_err(panic_fail)?;
    ch.outcome(h);
    Ok(())
}

/// Files that grow.
type Grow = (&'static str, fn(&mut Pkg, usize));
fn put(p: &mut Pkg, part: &str, before: &str, what: String) {
    let s = p.text(part);
    let i = s.find(before).unwrap();
    p.set(part, format!("{}{what}{}", &s[..i], &s[i..]));
}
const SLIDE: &str = "ppt/slides/slide1.xml";
const PRES: &str = "ppt/presentation.xml";
const GROW: &[Grow] = &[
    ("groups", |p, n| put(p, SLIDE, "</p:spTree>", format!("{}{}", "<p:grpSp>".repeat(n), "</p:grpSp>".repeat(n)))),
    ("groups never closed", |p, n| put(p, SLIDE, "</p:spTree>", "<p:grpSp>".repeat(n))),
    ("groups with names", |p, n| put(p, SLIDE, "</p:spTree>", format!("{}{}", "<p:grpSp xmlns:q=\"q\">".repeat(n), "</p:grpSp>".repeat(n)))),
    ("shapes", |p, n| put(p, SLIDE, "</p:spTree>", "<p:sp><p:txBody><a:p><a:r><a:t>x</a:t></a:r></a:p></p:txBody></p:sp>".repeat(n))),
    ("paragraphs", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:sp><p:txBody>{}</p:txBody></p:sp>", "<a:p><a:r><a:t>x</a:t></a:r></a:p>".repeat(n)))),
    ("runs", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:sp><p:txBody><a:p>{}</a:p></p:txBody></p:sp>", "<a:r><a:t>x</a:t></a:r>".repeat(n)))),
    ("rows", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:graphicFrame><a:tbl>{}</a:tbl></p:graphicFrame>", "<a:tr><a:tc><a:txBody><a:p><a:r><a:t>x</a:t></a:r></a:p></a:txBody></a:tc></a:tr>".repeat(n)))),
    ("cells", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:graphicFrame><a:tbl><a:tr>{}</a:tr></a:tbl></p:graphicFrame>", "<a:tc><a:txBody><a:p><a:r><a:t>x</a:t></a:r></a:p></a:txBody></a:tc>".repeat(n)))),
    ("text", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:sp><p:txBody><a:p><a:r><a:t>{}</a:t></a:r></a:p></p:txBody></p:sp>", "é".repeat(n * 20)))),
    ("attributes", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:sp {}/>", (0..n).map(|i| format!("a{i}=\"x\" ")).collect::<String>()))),
    ("namespaces", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:sp {}/>", (0..n).map(|i| format!("xmlns:a{i}=\"x\" ")).collect::<String>()))),
    ("long attribute", |p, n| put(p, SLIDE, "</p:spTree>", format!("<p:sp a=\"{}\"/>", "x".repeat(n * 20)))),
    ("comments", |p, n| put(p, SLIDE, "</p:spTree>", "<!-- x -->".repeat(n))),
    ("entities", |p, n| put(p, SLIDE, "</p:spTree>", "&#233;".repeat(n))),
    ("entity of entities", |p, n| {
        let m = (n / 1000).clamp(3, 30);
        let s = p.text(SLIDE);
        let d: String = (1..m).map(|i| format!("<!ENTITY e{i} \"&e{0};&e{0};&e{0};&e{0};&e{0};&e{0};&e{0};&e{0};\">", i - 1)).collect();
        let i = s.find("<p:sld").unwrap();
        let s = format!("{}<!DOCTYPE p:sld [<!ENTITY e0 \"xxxxxxxx\">{d}]>{}", &s[..i], &s[i..]);
        p.set(SLIDE, s.replace("</p:spTree>", &format!("<p:sp><p:txBody><a:p><a:r><a:t>&e{};</a:t></a:r></a:p></p:txBody></p:sp></p:spTree>", m - 1)));
    }),
    ("stray <", |p, n| put(p, SLIDE, "</p:spTree>", "<".repeat(n))),
    ("stray tags", |p, n| put(p, SLIDE, "</p:spTree>", "<p".repeat(n))),
    ("end tags", |p, n| put(p, SLIDE, "</p:spTree>", "</p:sp>".repeat(n))),
    ("slide list", |p, n| put(p, PRES, "</p:sldIdLst>", (0..n).map(|i| format!("<p:sldId id=\"{}\" r:id=\"rId9{i}\"/>", 300 + i)).collect())),
    ("slide list of one slide", |p, n| {
        let s = p.text(PRES);
        let i = s.find("<p:sldId ").unwrap();
        let e = s[i..i + s[i..].find("/>").unwrap() + 2].to_string();
        put(p, PRES, "</p:sldIdLst>", e.repeat(n))
    }),
    ("slide lists", |p, n| put(p, PRES, "<p:sldIdLst>", "<p:sldIdLst>".repeat(n) + &"</p:sldIdLst>".repeat(n))),
    ("presentation depth", |p, n| put(p, PRES, "</p:presentation>", "<p:ext>".repeat(n) + &"</p:ext>".repeat(n))),
    ("relationships", |p, n| put(p, "ppt/_rels/presentation.xml.rels", "</Relationships>", (0..n).map(|i| format!("<Relationship Id=\"x{i}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/no{i}.xml\"/>")).collect())),
    ("relationships to a slide", |p, n| put(p, "ppt/_rels/presentation.xml.rels", "</Relationships>", (0..n).map(|i| format!("<Relationship Id=\"x{i}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide1.xml\"/>")).collect())),
    ("relationships depth", |p, n| put(p, "ppt/_rels/presentation.xml.rels", "</Relationships>", "<x>".repeat(n) + &"</x>".repeat(n))),
    ("content types", |p, n| put(p, "[Content_Types].xml", "</Types>", (0..n).map(|i| format!("<Override PartName=\"/no{i}.xml\" ContentType=\"application/xml\"/>")).collect())),
    ("content types depth", |p, n| put(p, "[Content_Types].xml", "</Types>", "<x>".repeat(n) + &"</x>".repeat(n))),
    ("core depth", |p, n| put(p, "docProps/core.xml", "</cp:coreProperties>", "<x>".repeat(n) + &"</x>".repeat(n))),
    ("dotted target", |p, n| put(p, "ppt/_rels/presentation.xml.rels", "</Relationships>", format!("<Relationship Id=\"x\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{}slides/slide1.xml\"/>", "../".repeat(n)))),
    ("parts", |p, n| {
        for i in 0..n {
            p.set(&format!("ppt/slides/slide{}.xml", i + 10), p.text(SLIDE).into_bytes());
        }
    }),
    ("slides", |p, n| {
        let s = p.text(SLIDE);
        let r = p.text("ppt/slides/_rels/slide1.xml.rels");
        for i in 0..n / 10 {
            p.set(&format!("ppt/slides/slide{}.xml", i + 10), s.clone());
            p.set(&format!("ppt/slides/_rels/slide{}.xml.rels", i + 10), r.clone());
        }
        put(p, PRES, "</p:sldIdLst>", (0..n / 10).map(|i| format!("<p:sldId id=\"{}\" r:id=\"x{i}\"/>", 300 + i)).collect());
        put(p, "ppt/_rels/presentation.xml.rels", "</Relationships>", (0..n / 10).map(|i| format!("<Relationship Id=\"x{i}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{}.xml\"/>", i + 10)).collect());
        put(p, "[Content_Types].xml", "</Types>", (0..n / 10).map(|i| format!("<Override PartName=\"/ppt/slides/slide{}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>", i + 10)).collect());
    }),
    ("chain of parts", |p, n| {
        for i in 0..n / 10 {
            p.set(&format!("ppt/x/p{i}.xml"), "<x/>");
            p.set(&format!("ppt/x/_rels/p{i}.xml.rels"), format!("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"a\" Type=\"t\" Target=\"p{}.xml\"/><Relationship Id=\"b\" Type=\"t\" Target=\"p{}.xml\"/></Relationships>", i + 1, i / 2));
        }
        put(p, "ppt/slides/_rels/slide1.xml.rels", "</Relationships>", "<Relationship Id=\"x0\" Type=\"t\" Target=\"../x/p0.xml\"/>".into());
    }),
];
pub fn child(a: &[String]) {
    let (kind, n): (usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let b = create_pptx_with_content("S", vec![SlideContent::new("A").add_bullet("b")]).unwrap();
    let mut p = Pkg::from_bytes(&b).unwrap();
    GROW[kind].1(&mut p, n);
    let b = p.to_zip();
    let text = p.text(SLIDE);
    let (path, out) = (format!("{}.in", a[2]), format!("{}.out", a[2]));
    std::fs::write(&path, &b).unwrap();
    // with the stack a thread has unless it asks for more
    let r = std::thread::spawn(move || {
        let mut ok = 0u32;
        for (i, (n, f)) in USES.iter().enumerate() {
            let t = std::time::Instant::now();
            println!("use {n}");
            match guarded(|| f(&b, &path, &out)) {
                Ok(r) => ok |= (r.is_ok() as u32) << i,
                Err(p) => {
                    println!("panic {}", panic_fail(p).msg);
                    std::process::exit(0);
                }
            }
            eprintln!("{n} {:?}", t.elapsed());
        }
        println!("use parsers");
        SlideParser::parse(&text).is_ok();
        ppt_rs::parts::slide::parse_slide(&text, 1).is_ok();
        if let Ok(x) = XmlParser::parse_str(&text) {
            let y = x.clone();
            x.text_content();
            x.find_descendant("none");
            x.find_all_descendants("none");
            format!("{y:?}");
        }
        ok
    })
    .join();
    match r {
        Ok(ok) => println!("done {ok:b}"),
        Err(_) => println!("panic"),
    }
}
fn grow(ch: &mut Ch) -> Res {
    let kind = ch.pick(GROW.len());
    let n = *ch.of(if ch.tier == Tier::Quick { &[100, 1000, 10_000][..] } else { &[100, 1000, 3000, 10_000, 30_000][..] });
    let limit = 50;
    let name = GROW[kind].0;
    // Where a use takes time in proportion to the number of shapes it writes anew or to the
    // square of the number of things it repairs, this build needs minutes for more.
    let most = match name {
        "parts" => 300,
        "shapes" | "rows" | "cells" | "slide list" | "slide list of one slide" | "relationships" => 1000,
        _ => usize::MAX,
    };
    let n = n.min(most);
    ch.note(|| format!("{name} {n}"));
    ch.step();
    let file = scratch().join(format!("r03-grow-{kind}-{n}"));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", "r03", &kind.to_string(), &n.to_string(), &file.to_string_lossy()]).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut c = c.spawn().map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let start = std::time::Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(st)) => break Some(st),
            _ if start.elapsed().as_secs() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(2)),
        }
    };
    for x in ["in", "out"] {
        let _ = std::fs::remove_file(format!("{}.{x}", file.to_string_lossy()));
    }
    let mut out = String::new();
    use std::io::Read;
    let _ = c.stdout.take().map(|mut o| o.read_to_string(&mut out));
    let last = out.trim().lines().last().unwrap_or("").to_string();
    let sig = format!("grows:{name}");
    match st {
        None => ch.check(false, sig, || format!("{name} x {n}: not done after {limit} s ({last})")),
        Some(st) if !st.success() => ch.check(false, sig, || format!("{name} x {n}: the process ended with {st} ({last})")),
        _ => ch.check(last.starts_with("done"), sig, || format!("{name} x {n}: {last}")),
    }
    ch.outcome(hash_str(&last));
    ch.nontrivial(hash_str(&format!("{kind} {n}")));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "R03",
        level: "fault_enumeration",
        rule: "every damage of the stated sets given to every reader, validator, repairer, importer, editor and compressor; panics caught, time limited, growing files in a process of their own with an ordinary thread stack; every truncation and every overwritten content byte must be refused",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let k = if q { 3 } else { 4 };
            vec![
                Scenario::new("truncations", format!("every length of a file of {} bytes cut short", small().len()), 0, |ch| {
                    let part = ch.pick(16);
                    truncation(ch, part)
                }),
                Scenario::new("structure", "every byte of the local headers, directory entries (quick of 3 parts) and directory end of a file overwritten with 4 (thorough 10) values", 0, structure),
                Scenario::new("content", "bytes of every stored part (quick 60 of each, thorough all) overwritten with 2 (9) values", 0, content),
                Scenario::new("parts", format!("every part (quick one of each kind) of {} sound packages missing or broken in {} ways", slim(!q).len(), if q { 8 } else { BREAK.len() }), 0, parts),
                Scenario::new("pairs", "every pair of kinds of parts missing or empty in 1 (3) packages", 0, pairs),
                Scenario::new("tokens", format!("all strings of up to {k} of {} tokens as markup, bare and within a slide", XML.len()), 0, move |ch| {
                    let n = 1 + ch.pick(k);
                    let wrap = ch.flag();
                    let s: String = (0..n).map(|_| *ch.of(XML)).collect();
                    let s = if wrap { format!("<p:sld xmlns:p=\"p\" xmlns:a=\"a\"><p:cSld><p:spTree>{s}</p:spTree></p:cSld></p:sld>") } else { s };
                    xml(ch, &s)
                }),
                Scenario::new("growing", format!("{} kinds of files nested and repeated up to {} times (up to 1000 or 300 where it is repaired or imported one by one)", GROW.len(), if q { 10_000 } else { 30_000 }), 0, grow).threads(if q { 8 } else { 4 }),
                Scenario::new("markup", format!("{} places in the parts of {} packages x {} values or {} rearrangements", spots(!q).len(), slim(!q).len(), if q { 6 } else { VALUES.len() }, if q { 6 } else { 9 }), 0, markup),
            ]
        },
        must_cover: || vec![],
    }
}
