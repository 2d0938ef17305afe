//! O02: compression removes exactly what was asked for, with every reference to it, and changes no text.
use super::v01::bases;
use super::v02::restyle;
use super::*;
use crate::decks::*;
use crate::pkg::{self, Pkg};
use crate::xml::{Elem, Node};
use ppt_rs::generator::*;
use ppt_rs::opc::{analyze_pptx, compress_pptx, compress_pptx_in_memory, CompressionLevel, CompressionOptions, CompressionResult};
use ppt_rs::oxml::PresentationReader;
use std::collections::{BTreeMap, BTreeSet};

// ---- the same document ----
/// Everything of a document but the white space between elements that have no text beside them.
fn content(e: &Elem, preserve: bool, out: &mut String) {
    out.push_str(&format!("<{{{}}}{}", e.ns, e.local));
    let mut at: Vec<String> = e.attrs.iter().map(|a| format!(" {{{}}}{}={:?}", a.ns, a.local, a.value)).collect();
    at.sort();
    out.push_str(&at.concat());
    out.push('>');
    let preserve = match e.attrs.iter().find(|a| &*a.local == "space" && a.ns.contains("XML/1998")) {
        Some(a) => a.value == "preserve",
        None => preserve,
    };
    let blank = |t: &str| t.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
    let layout = !preserve && e.elems().next().is_some() && e.kids.iter().all(|k| match k { Node::T(t) => blank(t), _ => true });
    let mut text = String::new();
    for k in &e.kids {
        match k {
            Node::E(x) => {
                if !text.is_empty() {
                    out.push_str(&format!("{:?}", std::mem::take(&mut text)));
                }
                content(x, preserve, out);
            }
            Node::T(t) if !layout => text.push_str(t),
            _ => {}
        }
    }
    if !text.is_empty() {
        out.push_str(&format!("{text:?}"));
    }
    out.push_str("</>");
}
fn content_of(b: &[u8]) -> Option<String> {
    let p = pkg::parse_cached(b);
    let e = p.as_ref().as_ref().ok()?;
    let mut s = String::new();
    content(e, false, &mut s);
    Some(s)
}

// ---- what is found in stored decks ----
fn rel(p: &mut Pkg, source: &str, id: &str, kind: &str, target: &str) {
    let n = pkg::rels_path(source);
    let ty = if kind.contains("://") { kind.to_string() } else { format!("http://schemas.openxmlformats.org/officeDocument/2006/relationships/{kind}") };
    let e = format!("<Relationship Id=\"{id}\" Type=\"{ty}\" Target=\"{target}\"/></Relationships>");
    let s = if p.parts.contains_key(&n) { p.text(&n) } else { "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"></Relationships>".into() };
    p.set(&n, s.replace("</Relationships>", &e));
}
fn ty(p: &mut Pkg, part: &str, ct: &str) {
    let s = p.text("[Content_Types].xml").replace("</Types>", &format!("<Override PartName=\"/{part}\" ContentType=\"{ct}\"/></Types>"));
    p.set("[Content_Types].xml", s);
}
const S1: &str = "ppt/slides/slide1.xml";
const MEDIA: &[u8] = b"\x89PNG\r\n\x1a\nnot really";
const AUGS: &[(&str, fn(&mut Pkg))] = &[
    ("nothing", |_| {}),
    ("stray picture", |p| { p.set("ppt/media/stray.png", MEDIA); }),
    ("stray picture named in the text", |p| {
        p.set("ppt/media/image77.png", MEDIA);
        let s = p.text(S1).replacen("</a:t>", " ppt/media/image77.png</a:t>", 1);
        p.set(S1, s);
    }),
    ("stray pictures with names alike", |p| { for n in ["mage1.png", "image1.pn", "image1.png.png", "Image1.png", "image11.png"] { p.set(&format!("ppt/media/{n}"), MEDIA); } for n in ["ppt/media/image1.pn", "ppt/media/image1.png.png"] { ty(p, n, "image/png"); } }),
    ("picture of a layout", |p| { p.set("ppt/media/bg.png", MEDIA); rel(p, "ppt/slideLayouts/slideLayout1.xml", "rId77", "image", "../media/bg.png"); }),
    ("picture of the master, absolute target", |p| { p.set("ppt/media/bg.png", MEDIA); rel(p, "ppt/slideMasters/slideMaster1.xml", "rId77", "image", "/ppt/media/bg.png"); }),
    ("picture of the notes alone", |p| {
        if let Some(n) = p.parts.keys().find(|n| n.starts_with("ppt/notesSlides/notesSlide")).cloned() {
            p.set("ppt/media/noted.png", MEDIA);
            rel(p, &n, "rId77", "image", "../media/noted.png");
        }
    }),
    ("sound and film", |p| { p.set("ppt/media/media1.mp4", MEDIA); ty(p, "ppt/media/media1.mp4", "video/mp4"); rel(p, S1, "rId77", "video", "../media/media1.mp4"); rel(p, S1, "rId78", "http://schemas.microsoft.com/office/2007/relationships/media", "../media/media1.mp4"); }),
    ("stray film", |p| { p.set("ppt/media/media1.mp4", MEDIA); ty(p, "ppt/media/media1.mp4", "video/mp4"); }),
    ("comments", |p| {
        let c = "<?xml version=\"1.0\"?><p:cmLst xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:cm authorId=\"0\" idx=\"1\"><p:pos x=\"1\" y=\"1\"/><p:text>c</p:text></p:cm></p:cmLst>";
        p.set("ppt/comments/comment1.xml", c);
        ty(p, "ppt/comments/comment1.xml", "application/vnd.openxmlformats-officedocument.presentationml.comments+xml");
        rel(p, S1, "rId88", "comments", "../comments/comment1.xml");
        p.set("ppt/commentAuthors.xml", "<?xml version=\"1.0\"?><p:cmAuthorLst xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"><p:cmAuthor id=\"0\" name=\"A\" initials=\"A\" lastIdx=\"1\" clrIdx=\"0\"/></p:cmAuthorLst>");
        ty(p, "ppt/commentAuthors.xml", "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml");
        rel(p, "ppt/presentation.xml", "rId88", "commentAuthors", "commentAuthors.xml");
    }),
    ("comments of newer programs", |p| {
        p.set("ppt/comments/modernComment_100_0.xml", "<?xml version=\"1.0\"?><c:cmLst xmlns:c=\"http://schemas.microsoft.com/office/powerpoint/2018/8/main\"/>");
        ty(p, "ppt/comments/modernComment_100_0.xml", "application/vnd.ms-powerpoint.comments+xml");
        rel(p, S1, "rId88", "http://schemas.microsoft.com/office/2018/10/relationships/comments", "../comments/modernComment_100_0.xml");
        p.set("ppt/authors.xml", "<?xml version=\"1.0\"?><c:authorLst xmlns:c=\"http://schemas.microsoft.com/office/powerpoint/2018/8/main\"/>");
        ty(p, "ppt/authors.xml", "application/vnd.ms-powerpoint.authors+xml");
        rel(p, "ppt/presentation.xml", "rId88", "http://schemas.microsoft.com/office/2018/10/relationships/authors", "authors.xml");
    }),
    ("thumbnail and custom properties", |p| {
        p.set("docProps/thumbnail.jpeg", MEDIA);
        rel(p, "", "rId77", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail", "docProps/thumbnail.jpeg");
        p.set("docProps/custom.xml", "<?xml version=\"1.0\"?><Properties xmlns=\"http://schemas.openxmlformats.org/officeDocument/2006/custom-properties\"/>");
        ty(p, "docProps/custom.xml", "application/vnd.openxmlformats-officedocument.custom-properties+xml");
        rel(p, "", "rId78", "custom-properties", "docProps/custom.xml");
    }),
    ("properties elsewhere", |p| {
        let b = p.parts.remove("docProps/core.xml").unwrap();
        p.parts.insert("package/services/metadata/core.xml".into(), b);
        for n in ["_rels/.rels", "[Content_Types].xml"] {
            let s = p.text(n).replace("docProps/core.xml", "package/services/metadata/core.xml");
            p.set(n, s);
        }
    }),
    ("text of white space", |p| {
        let s = p.text(S1);
        let i = s.find("</a:r>").unwrap() + 6;
        let r = |t: &str| format!("<a:r>\n  <a:rPr lang=\"en-US\"/>\n<a:t>{t}</a:t> </a:r>");
        p.set(S1, format!("{}{}{}{}{}{}", &s[..i], r("   "), r(" \"lead\" "), r("tail\n\t <!-- c -->  x"), r("&#160;&quot; &#10;"), &s[i..]));
    }),
    ("comments and sections in markup", |p| {
        let s = p.text(S1);
        let i = s.find("</a:r>").unwrap() + 6;
        p.set(S1, format!("{}<!-- a  >  \" b -->\n<a:r><a:t><![CDATA[ < two  spaces > \" ]]></a:t></a:r>\n{}", &s[..i], &s[i..]));
    }),
    ("quotes and angles in attributes", |p| {
        let s = p.text(S1).replacen("<p:cNvPr ", "<p:cNvPr descr='a \"  >  b' title=\"it's  >  so\" ", 1);
        p.set(S1, s);
    }),
    ("preserved and mixed white space", |p| {
        let s = p.text(S1).replace("</p:cSld>", "<p:extLst><p:ext uri=\"{1}\"><x:a xmlns:x=\"urn:x\" xml:space=\"preserve\"> <x:b/> <x:b> </x:b> </x:a><x:m xmlns:x=\"urn:x\">one <x:b>two</x:b> <x:b>three</x:b></x:m></p:ext></p:extLst></p:cSld>");
        p.set(S1, s);
    }),
    ("a custom XML part", |p| {
        p.set("customXml/item1.xml", "<d><b>x</b> <i>y</i></d>");
        rel(p, "ppt/presentation.xml", "rId90", "customXml", "../customXml/item1.xml");
    }),
    ("relationships of a part that is not there", |p| { p.set("ppt/media/ghost.png", MEDIA); rel(p, "ppt/slides/slide99.xml", "rId1", "image", "../media/ghost.png"); }),
    ("notes that no slide has", |p| {
        if let Some(n) = p.parts.keys().find(|n| n.starts_with("ppt/notesSlides/notesSlide")).cloned() {
            let b = p.parts[&n].clone();
            p.set("ppt/notesSlides/notesSlide99.xml", b);
            ty(p, "ppt/notesSlides/notesSlide99.xml", "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml");
        }
    }),
    ("pictures with capital extensions", |p| { p.set("ppt/media/image80.PNG", MEDIA); ty(p, "ppt/media/image80.PNG", "image/png"); rel(p, S1, "rId80", "image", "../media/image80.PNG"); }),
];

// ---- options and what they ask for ----
fn options(bits: usize, target: usize, level: usize) -> CompressionOptions {
    let on = |k: usize| bits >> k & 1 == 1;
    CompressionOptions::new()
        .with_unused_media_removal(on(0))
        .with_properties_removal(on(1))
        .with_notes_removal(on(2))
        .with_comments_removal(on(3))
        .with_xml_optimization(on(4))
        .with_target_size(target)
        .with_level([CompressionLevel::Light, CompressionLevel::Medium, CompressionLevel::Aggressive, CompressionLevel::Custom(1)][level])
}
fn sources(p: &Pkg) -> Vec<String> {
    p.parts.keys().filter(|n| n.ends_with(".rels")).filter_map(|n| pkg::source_of_rels(n)).filter(|s| s.is_empty() || p.parts.contains_key(s)).collect()
}
fn reached(p: &Pkg) -> BTreeSet<String> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![String::new()];
    while let Some(s) = todo.pop() {
        for r in p.rels(&s) {
            if !r.external && p.parts.contains_key(&r.part) && seen.insert(r.part.clone()) {
                todo.push(r.part);
            }
        }
    }
    seen
}
/// The package that is left, as parts, relationships and content types.
struct Left {
    parts: BTreeSet<String>,
    media_removed: usize,
}
fn left(p: &Pkg, o: &CompressionOptions) -> Left {
    let mut q = p.clone();
    let mut kinds: Vec<&str> = vec![];
    let mut gone: BTreeSet<String> = BTreeSet::new();
    if o.remove_properties {
        kinds.extend(["core-properties", "extended-properties", "custom-properties", "thumbnail"]);
    }
    if o.remove_notes {
        kinds.push("notesSlide");
        gone.extend(q.parts.keys().filter(|n| n.starts_with("ppt/notesSlides/") && n.ends_with(".xml")).cloned());
    }
    if o.remove_comments {
        kinds.extend(["comments", "commentAuthors", "authors"]);
    }
    for s in sources(&q) {
        gone.extend(q.rels(&s).into_iter().filter(|r| !r.external && kinds.contains(&pkg::short(&r.ty).rsplit('/').next().unwrap())).map(|r| r.part));
    }
    let before = reached(&q);
    for g in &gone {
        q.parts.remove(g);
        q.parts.remove(&pkg::rels_path(g));
    }
    if !gone.is_empty() {
        // what only those parts needed
        let after = reached(&q);
        for n in before.difference(&after).filter(|n| !n.starts_with("ppt/media/")) {
            q.parts.remove(n);
            q.parts.remove(&pkg::rels_path(n));
        }
    }
    let mut media_removed = 0;
    if o.remove_unused_media {
        let used: BTreeSet<String> = sources(&q).iter().flat_map(|s| q.rels(s)).filter(|r| !r.external).map(|r| r.part).collect();
        let unused: Vec<String> = q.parts.keys().filter(|n| n.starts_with("ppt/media/") && !used.contains(*n)).cloned().collect();
        media_removed = unused.len();
        for n in unused {
            q.parts.remove(&n);
        }
    }
    Left { parts: q.parts.keys().cloned().collect(), media_removed }
}

fn judge(ch: &mut Ch, p: &Pkg, o: &CompressionOptions, out: &[u8], res: &CompressionResult, original: usize, what: &str) -> Result<Pkg, Fail> {
    let q = pkg_of(out)?;
    let want = left(p, o);
    let have: BTreeSet<String> = q.parts.keys().cloned().collect();
    for n in want.parts.difference(&have) {
        ch.check(false, format!("lost:{}", pkg::generic(n)), || format!("{what}: {n} was removed"));
    }
    for n in have.difference(&want.parts) {
        ch.check(false, format!("kept:{}", pkg::generic(n)), || format!("{what}: {n} is still there"));
    }
    ch.check(q.dups.is_empty(), "duplicate", || format!("{what}: {:?}", q.dups));
    // relationships and content types of what is left, everything else as it was
    for n in &want.parts {
        let (Some(a), Some(b)) = (p.get(n), q.get(n)) else { continue };
        if let Some(s) = pkg::source_of_rels(n) {
            let key = |p: &Pkg| -> Vec<String> { p.rels(&s).into_iter().filter(|r| r.external || want.parts.contains(&r.part)).map(|r| format!("{} {} {} {}", r.id, r.ty, r.target, r.external)).collect() };
            ch.check(key(p) == key(&q), format!("rels:{}", pkg::generic(n)), || format!("{what}: {n} has {:?}, wanted {:?}", key(&q), key(p)));
            for r in q.rels(&s) {
                ch.check(r.external || q.parts.contains_key(&r.part) || !p.parts.contains_key(&r.part) || !(s.is_empty() || q.parts.contains_key(&s)), format!("dangling:{}", pkg::generic(n)), || format!("{what}: {n} leads to {} which was removed", r.part));
            }
        } else if n == "[Content_Types].xml" {
            let key = |b: &[u8]| -> Vec<(String, String)> {
                crate::xml::parse(b).map(|e| e.elems().map(|k| (k.attr("PartName").map(|n| n.trim_start_matches('/')).or(k.attr("Extension")).unwrap_or("").to_string(), k.attr("ContentType").unwrap_or("").to_string())).filter(|(n, _)| !n.contains('/') || want.parts.contains(n) || !p.parts.contains_key(n)).collect()).unwrap_or_default()
            };
            ch.check(key(a) == key(b), "types", || format!("{what}: content types {:?}, wanted {:?}", key(b), key(a)));
            let all = crate::xml::parse(b).unwrap();
            for k in all.elems() {
                let n = k.attr("PartName").unwrap_or("").trim_start_matches('/');
                ch.check(n.is_empty() || q.parts.contains_key(n) || !p.parts.contains_key(n), "dangling-type", || format!("{what}: content type of {n} which was removed"));
            }
        } else if a != b {
            let xml = n.ends_with(".xml");
            ch.check(xml && o.optimize_xml, format!("touched:{}", pkg::generic(n)), || format!("{what}: {n} changed"));
            if xml {
                ch.check(content_of(a) == content_of(b), format!("content:{}", pkg::generic(n)), || format!("{what}: {n} was {} and is {}", String::from_utf8_lossy(a), String::from_utf8_lossy(b)));
            }
        }
    }
    // the figures
    let r = res;
    ch.check(r.original_size == original && r.compressed_size == out.len(), "sizes", || format!("{what}: {r:?} for {original} and {} bytes", out.len()));
    let pc = (original as f64 - out.len() as f64) / original as f64 * 100.0;
    ch.check((r.reduction_percent - pc).abs() < 1e-6, "percentage", || format!("{what}: {}, wanted {pc}", r.reduction_percent));
    ch.check(r.unused_media_removed == want.media_removed, "count", || format!("{what}: {} media removed, told {}", want.media_removed, r.unused_media_removed));
    ch.check(r.images_compressed == 0, "count", || format!("{what}: no picture changed, told {}", r.images_compressed));
    ch.check(r.target_achieved == (o.target_size == 0 || out.len() <= o.target_size), "target", || format!("{what}: target {} for {} bytes told {}", o.target_size, out.len(), r.target_achieved));
    // no new structural fault
    let sigs = |p: &Pkg| pkg::check(p).1.into_iter().map(|f| f.sig).collect::<BTreeSet<_>>();
    let (old, new) = (sigs(p), sigs(&q));
    for s in new.difference(&old) {
        // checked above; and media is only removed when asked for
        if s.starts_with("rel-dangling") || s.starts_with("unreachable:ppt/media/") && !o.remove_unused_media {
            continue;
        }
        ch.check(false, format!("unsound:{s}"), || format!("{what}: {s}"));
    }
    Ok(q)
}
fn prepared(ch: &mut Ch, all: bool, augs: usize) -> (Pkg, String) {
    let (n, p) = ch.of(bases(all));
    let mut p = p.clone();
    let mut what = n.clone();
    let mut from = 0;
    for k in 0..augs {
        let i = from + ch.pick(AUGS.len() - from);
        if k > 0 && i == from {
            continue; // fewer additions
        }
        from = i;
        (AUGS[i].1)(&mut p);
        what += &format!(", {}", AUGS[i].0);
    }
    (p, what)
}
fn in_memory(ch: &mut Ch, p: &Pkg, o: &CompressionOptions, what: &str) -> Res {
    let z = p.to_zip();
    let what = format!("{what}: {o:?}");
    ch.note(|| what.clone());
    let (out, res) = compress_pptx_in_memory(&z, o).map_err(|e| Fail { sig: "error".into(), msg: format!("{what}: {e}") })?;
    let q = judge(ch, p, o, &out, &res, z.len(), &what)?;
    // again: nothing more to remove, the same parts
    let (out2, res2) = compress_pptx_in_memory(&out, o).map_err(|e| Fail { sig: "error".into(), msg: format!("{what}, again: {e}") })?;
    let q2 = pkg_of(&out2)?;
    ch.check(q2.parts == q.parts && res2.unused_media_removed == 0, "again", || format!("{what}: compressing again changed the package"));
    ch.nontrivial(hash_str(&what));
    ch.outcome(hash_str(&format!("{:?} {}", q.parts.keys().collect::<Vec<_>>(), res.unused_media_removed)));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "O02",
        level: "exploration",
        rule: "every combination of compression options on every base deck with every kind of content found in stored decks (thorough: pairs, every way of writing) through the real compression, compared with a model of what the options ask to remove",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            vec![
                Scenario::new("options", format!("all 32 combinations of removals x {} additions x {} decks", AUGS.len(), bases(!q).len()), 0, move |ch| {
                    let (p, what) = prepared(ch, !q, 1);
                    let bits = ch.pick(32);
                    in_memory(ch, &p, &options(bits, 0, 1), &what)
                }),
                Scenario::new("pairs", format!("all pairs of additions x {} ways of writing x nothing, everything or each removal alone", if q { 1 } else { 6 }), 0, move |ch| {
                    let (p, what) = prepared(ch, false, 2);
                    let s = if q { 0 } else { ch.pick(6) };
                    let bits = if q { 31 } else { *ch.of(&[0, 31, 1, 2, 4, 8, 16]) };
                    in_memory(ch, &restyle(&p, s), &options(bits, 0, 1), &format!("{what} (style {s})"))
                }),
                Scenario::new("writing", "each addition in every way of writing, everything removed or only markup", 0, |ch| {
                    let (p, what) = prepared(ch, false, 1);
                    let s = 1 + ch.pick(5);
                    let bits = *ch.of(&[31, 16]);
                    in_memory(ch, &restyle(&p, s), &options(bits, 0, 1), &format!("{what} (style {s})"))
                }),
                Scenario::new("decks", format!("1..2 slides with up to {} features or settings, four option sets", if q { 1 } else { 2 }), if q { 1 } else { 2 }, |ch| {
                    let d = deck(ch, 1, 2, true, true);
                    let p = pkg_of(&bytes_of(d.build(), &d.describe())?)?;
                    let bits = *ch.of(&[31, 25, 1, 6]);
                    in_memory(ch, &p, &options(bits, 0, 1), &d.describe())
                }),
                Scenario::new("texts", "every string up to length 2 of 12 characters as text and title", 0, move |ch| {
                    const C: &[&str] = &["", " ", "\t", "\n", "a", "\"", "'", ">", "<", "&", "\u{a0}", "é", "--"];
                    let t = format!("{}{}{}", ch.of(C), ch.of(C), if q { "" } else { ch.of(C) });
                    let s = vec![SlideContent::new(&t).add_bullet(&t).notes(&t), SlideContent::new("x").table(TableBuilder::new(vec![100]).add_simple_row(vec![&t]).build())];
                    let p = pkg_of(&bytes_of(create_pptx_with_content(&t, s), "texts")?)?;
                    in_memory(ch, &p, &options(16, 0, 1), &format!("{t:?}"))
                }),
                Scenario::new("entries", "file, in-memory and presentation entry points, in place, presets, levels and target sizes around the result's size", 0, |ch| {
                    let (p, what) = prepared(ch, false, 1);
                    let k = ch.pick(6);
                    let z = p.to_zip();
                    let o = match k {
                        0 => CompressionOptions::new(),
                        1 => CompressionOptions::web(),
                        2 => CompressionOptions::maximum(),
                        _ => {
                            let size = compress_pptx_in_memory(&z, &options(31, 0, 0)).map_err(|e| Fail { sig: "error".into(), msg: e.to_string() })?.0.len();
                            options(31, size + k - 4, k - 2)
                        }
                    };
                    let what = format!("{what}: {o:?}");
                    ch.note(|| what.clone());
                    let dir = scratch().join(format!("o02-{}", ch.worker));
                    std::fs::create_dir_all(&dir).unwrap();
                    let (a, b) = (dir.join("a.pptx"), dir.join("b.pptx"));
                    std::fs::write(&a, &z).unwrap();
                    let (mem, mr) = compress_pptx_in_memory(&z, &o).map_err(|e| Fail { sig: "error".into(), msg: format!("{what}: {e}") })?;
                    let m = judge(ch, &p, &o, &mem, &mr, z.len(), &what)?;
                    let r = compress_pptx(&a, &b, &o).map_err(|e| Fail { sig: "error".into(), msg: format!("{what}: {e}") })?;
                    let out = std::fs::read(&b).unwrap();
                    let f = judge(ch, &p, &o, &out, &r, z.len(), &format!("{what}, file"))?;
                    ch.check(f.parts == m.parts, "entries", || format!("{what}: file and memory differ"));
                    ch.check(std::fs::read(&a).unwrap() == z, "input-changed", || format!("{what}: the input file changed"));
                    let r = compress_pptx(&a, &a, &o).map_err(|e| Fail { sig: "error".into(), msg: format!("{what}, in place: {e}") })?;
                    let out = std::fs::read(&a).unwrap();
                    let f = judge(ch, &p, &o, &out, &r, z.len(), &format!("{what}, in place"))?;
                    ch.check(f.parts == m.parts, "entries", || format!("{what}: in place differs"));
                    // what is read is the same
                    let reading = |bytes: &[u8]| -> Option<Vec<(Option<String>, Vec<String>)>> {
                        let f = dir.join("c.pptx");
                        std::fs::write(&f, bytes).unwrap();
                        let r = PresentationReader::open(f.to_str().unwrap()).ok()?;
                        Some(r.get_all_slides().ok()?.into_iter().map(|s| (s.title, s.body_text)).collect())
                    };
                    ch.check(reading(&z) == reading(&mem), "reading", || format!("{what}: reads {:?}, was {:?}", reading(&mem), reading(&z)));
                    // the analysis of the result
                    let an = analyze_pptx(&a).map_err(|e| Fail { sig: "error".into(), msg: format!("{what}, analysis: {e}") })?;
                    let media: Vec<&String> = f.parts.keys().filter(|n| n.starts_with("ppt/media/")).collect();
                    let pictures = media.iter().filter(|n| ["png", "jpg", "jpeg", "gif", "bmp", "tif", "tiff", "svg", "webp", "emf", "wmf"].contains(&n.rsplit('.').next().unwrap().to_ascii_lowercase().as_str())).count();
                    let total: usize = f.parts.values().map(|v| v.len()).sum();
                    ch.check(an.total_size == out.len() && an.slide_count == f.slides().len() && an.image_count == pictures && an.media_count == media.len() - pictures && an.images_size + an.xml_size + an.other_size == total, "analysis", || format!("{what}: {an:?} for {} bytes, {} slides, media {media:?}, {total} bytes in parts", out.len(), f.slides().len()));
                    ch.nontrivial(hash_str(&what));
                    ch.outcome(hash_str(&format!("{:?}", m.parts.keys().collect::<Vec<_>>())));
                    Ok(())
                }),
                Scenario::new("setters", "every sequence of two setters on every preset", 0, |ch| {
                    type M = BTreeMap<&'static str, String>;
                    let view = |o: &CompressionOptions| -> M {
                        BTreeMap::from([("level", format!("{:?}", o.level)), ("media", o.remove_unused_media.to_string()), ("props", o.remove_properties.to_string()), ("notes", o.remove_notes.to_string()), ("comments", o.remove_comments.to_string()), ("xml", o.optimize_xml.to_string()), ("target", o.target_size.to_string())])
                    };
                    let (mut o, mut w) = {
                        let k = ch.pick(4);
                        let o = [CompressionOptions::new(), CompressionOptions::default(), CompressionOptions::web(), CompressionOptions::maximum()][k].clone();
                        let w = [["Medium", "true", "false", "false", "true", "true", "0"], ["Medium", "true", "false", "false", "true", "true", "0"], ["Medium", "true", "true", "false", "true", "true", "5242880"], ["Aggressive", "true", "true", "true", "true", "true", "0"]][k];
                        (o, ["level", "media", "props", "notes", "comments", "xml", "target"].into_iter().zip(w.map(String::from)).collect::<M>())
                    };
                    for _ in 0..2 {
                        let b = ch.flag();
                        o = match ch.pick(7) {
                            0 => { w.insert("media", b.to_string()); o.with_unused_media_removal(b) }
                            1 => { w.insert("props", b.to_string()); o.with_properties_removal(b) }
                            2 => { w.insert("notes", b.to_string()); o.with_notes_removal(b) }
                            3 => { w.insert("comments", b.to_string()); o.with_comments_removal(b) }
                            4 => { w.insert("xml", b.to_string()); o.with_xml_optimization(b) }
                            5 => { let n = if b { 7 } else { 0 }; w.insert("target", n.to_string()); o.with_target_size(n) }
                            _ => { let l = if b { CompressionLevel::Custom(33) } else { CompressionLevel::Light }; w.insert("level", format!("{l:?}")); o.with_level(l) }
                        };
                    }
                    ch.check(view(&o) == w, "setters", || format!("{o:?}, wanted {w:?}"));
                    ch.nontrivial(hash_str(&format!("{w:?}")));
                    ch.outcome(hash_str(&format!("{o:?}")));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
