//! R02: slides are read in the order of the presentation's slide list.
use super::*;
use crate::decks::*;
use crate::pkg::Pkg;
use ppt_rs::generator::*;
use ppt_rs::import::import_pptx;
use ppt_rs::oxml::{PresentationEditor, PresentationReader};
use std::cell::RefCell;
use std::collections::HashMap;

const OFF: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
const STRICT: &str = "http://purl.oclc.org/ooxml/officeDocument/relationships";

/// One way of storing a deck.
#[derive(Clone)]
struct Store {
    main: String,
    /// part name, relationship id and slide id of slide k of the show
    names: Vec<String>,
    rids: Vec<String>,
    ids: Vec<u32>,
    /// order of the relationship entries
    entries: Vec<usize>,
    /// 0 relative, 1 absolute, 2 with dot segments
    style: usize,
    /// 0 plain, 1 other prefixes, 2 default namespace, 3 single quotes and line breaks, 4 comments, 5 extension list, 6 attributes swapped
    markup: usize,
    ty: &'static str,
}
thread_local! {
    static BASE: RefCell<HashMap<usize, Pkg>> = RefCell::new(HashMap::new());
}
fn base(n: usize) -> Pkg {
    BASE.with(|b| {
        b.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                let s = (0..n).map(|i| SlideContent::new(&format!("S{i}")).add_bullet(&format!("b{i}"))).collect();
                Pkg::from_bytes(&create_pptx_with_content("D", s).unwrap()).unwrap()
            })
            .clone()
    })
}
fn dir_of(p: &str) -> &str {
    p.rsplit_once('/').map_or("", |x| x.0)
}
fn target(from: &str, to: &str, style: usize) -> String {
    let d = dir_of(from);
    let rel = match to.strip_prefix(&format!("{d}/")) {
        Some(r) if !d.is_empty() => r.to_string(),
        _ => format!("{}{to}", "../".repeat(d.split('/').filter(|s| !s.is_empty()).count())),
    };
    match style {
        0 => rel,
        1 => format!("/{to}"),
        _ => {
            let up = dir_of(to).rsplit('/').next().unwrap_or("");
            if up.is_empty() { format!("./{rel}") } else if rel.starts_with("..") { format!("./{rel}") } else { format!("{}/../{rel}", rel.split('/').next().unwrap()) }
        }
    }
}
fn build(st: &Store) -> Vec<u8> {
    let n = st.names.len();
    let b = base(n);
    let mut p = b.clone();
    // slides move to their part names
    let old: Vec<String> = (0..n).map(|i| format!("ppt/slides/slide{}.xml", i + 1)).collect();
    for o in &old {
        p.parts.remove(o);
        p.parts.remove(&crate::pkg::rels_path(o));
    }
    for k in 0..n {
        p.set(&st.names[k], b.get(&old[k]).unwrap().to_vec());
        let lay = target(&st.names[k], "ppt/slideLayouts/slideLayout2.xml", 0);
        p.set(
            &crate::pkg::rels_path(&st.names[k]),
            format!("<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"rId1\" Type=\"{}/slideLayout\" Target=\"{lay}\"/></Relationships>", st.ty),
        );
    }
    // the presentation part
    p.parts.remove("ppt/presentation.xml");
    p.parts.remove("ppt/_rels/presentation.xml.rels");
    let (pp, rp) = match st.markup {
        1 => ("pp:", "rel:"),
        2 => ("", "r:"),
        _ => ("p:", "r:"),
    };
    let ns = "http://schemas.openxmlformats.org/presentationml/2006/main";
    let q = if st.markup == 3 { '\'' } else { '"' };
    let mut list = String::new();
    for k in 0..n {
        let (a, r) = (format!("id={q}{}{q}", st.ids[k]), format!("{rp}id={q}{}{q}", st.rids[k]));
        match st.markup {
            3 => list += &format!("\n\t<{pp}sldId\n {a}\n {r} >\n</{pp}sldId>\n"),
            4 => list += &format!("<!-- <p:sldId id=\"999\" r:id=\"{}\"/> --><{pp}sldId {a} {r}/>", st.rids[n - 1]),
            5 => list += &format!("<{pp}sldId {a} {r}><{pp}extLst><{pp}ext uri=\"{{X}}\"/></{pp}extLst></{pp}sldId>"),
            6 => list += &format!("<{pp}sldId {r} {a}/>"),
            _ => list += &format!("<{pp}sldId {a} {r}/>"),
        }
    }
    let decl = match st.markup {
        1 => format!("xmlns:pp=\"{ns}\" xmlns:rel=\"{OFF}\""),
        2 => format!("xmlns=\"{ns}\" xmlns:r=\"{OFF}\""),
        _ => format!("xmlns:p=\"{ns}\" xmlns:r=\"{OFF}\""),
    };
    p.set(
        &st.main,
        format!(
            "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<{pp}presentation {decl}><{pp}sldMasterIdLst><{pp}sldMasterId id=\"2147483648\" {rp}id=\"mst\"/></{pp}sldMasterIdLst><{pp}sldIdLst>{list}</{pp}sldIdLst><{pp}sldSz cx=\"9144000\" cy=\"6858000\"/><{pp}notesSz cx=\"6858000\" cy=\"9144000\"/></{pp}presentation>"
        ),
    );
    let mut rels = String::new();
    let e = |id: &str, kind: &str, to: &str| {
        let (a, b, c) = (format!("Id={q}{id}{q}"), format!("Type={q}{}/{kind}{q}", st.ty), format!("Target={q}{}{q}", target(&st.main, to, st.style)));
        if st.markup == 6 { format!("<Relationship {c} {b} {a}/>") } else { format!("<Relationship {a} {b} {c}/>") }
    };
    rels += &e("mst", "slideMaster", "ppt/slideMasters/slideMaster1.xml");
    for &k in &st.entries {
        rels += &e(&st.rids[k], "slide", &st.names[k]);
    }
    rels += &e("thm", "theme", "ppt/theme/theme1.xml");
    p.set(&crate::pkg::rels_path(&st.main), format!("<?xml version=\"1.0\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">{rels}</Relationships>"));
    p.set(
        "_rels/.rels",
        format!("<?xml version=\"1.0\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"><Relationship Id=\"c\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties\" Target=\"docProps/core.xml\"/><Relationship Id=\"a\" Type=\"{}/officeDocument\" Target=\"{}\"/></Relationships>", st.ty, target("", &st.main, st.style)),
    );
    let mut ct = p.text("[Content_Types].xml").replace("/ppt/presentation.xml", &format!("/{}", st.main));
    for k in 0..n {
        ct = ct.replace(&format!("\"/{}\"", old[k]), &format!("\"/@{k}@\""));
    }
    for k in 0..n {
        ct = ct.replace(&format!("\"/@{k}@\""), &format!("\"/{}\"", st.names[k]));
    }
    p.set("[Content_Types].xml", ct);
    p.to_zip()
}
fn check(ch: &mut Ch, st: &Store) -> Res {
    let n = st.names.len();
    let path = scratch().join(format!("r02-{}.pptx", ch.worker));
    std::fs::write(&path, build(st)).unwrap();
    let path = path.to_str().unwrap();
    let desc = format!("main {} names {:?} rids {:?} ids {:?} entries {:?} style {} markup {} {}", st.main, st.names, st.rids, st.ids, st.entries, st.style, st.markup, st.ty);
    ch.note(|| desc.clone());
    ch.nontrivial(hash_str(&desc));
    ch.step();
    let want: Vec<String> = (0..n).map(|i| format!("S{i}")).collect();
    let r = match PresentationReader::open(path) {
        Ok(r) => r,
        Err(e) => return fail("open", format!("{e}")),
    };
    let got: Vec<String> = (0..r.slide_count()).map(|i| r.get_slide(i).map(|s| s.title.unwrap_or_default()).unwrap_or_else(|e| e.to_string())).collect();
    ch.outcome(hash_str(&got.join(",")));
    ch.check(got == want, "reader", || format!("slides read as {got:?}"));
    ch.check(r.info().slide_count == n, "count", || format!("{} slides counted", r.info().slide_count));
    let all: Vec<String> = r.get_all_slides().map(|v| v.into_iter().flat_map(|s| s.body_text).collect()).unwrap_or_default();
    ch.check(all == (0..n).map(|i| format!("b{i}")).collect::<Vec<_>>(), "reader-all", || format!("bodies read as {all:?}"));
    let text = r.extract_all_text().unwrap_or_default();
    let pos: Vec<Option<usize>> = want.iter().map(|w| text.iter().position(|t| t == w)).collect();
    ch.check(pos.iter().all(|p| p.is_some()) && pos.windows(2).all(|w| w[0] < w[1]), "text-order", || format!("text {text:?}"));
    match import_pptx(path) {
        Ok(p) => {
            let g: Vec<String> = p.slides().iter().map(|s| s.title.clone()).collect();
            ch.check(g == want, "import", || format!("slides imported as {g:?}"));
        }
        Err(e) => ch.check(false, "import", || e.to_string()),
    }
    match PresentationEditor::open(path) {
        Ok(e) => {
            let g: Vec<String> = (0..e.slide_count()).map(|i| e.get_slide(i).ok().and_then(|s| s.title).unwrap_or_default()).collect();
            ch.check(g == want, "editor", || format!("editor sees {g:?}"));
        }
        Err(e) => ch.check(false, "editor", || e.to_string()),
    }
    Ok(())
}
fn perm(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|_| { let k = ch.pick(left.len()); left.remove(k) }).collect()
}
fn plain(n: usize) -> Store {
    Store {
        main: "ppt/presentation.xml".into(),
        names: (1..=n).map(|i| format!("ppt/slides/slide{i}.xml")).collect(),
        rids: (1..=n).map(|i| format!("rId{}", i + 1)).collect(),
        ids: (0..n).map(|i| 256 + i as u32).collect(),
        entries: (0..n).collect(),
        style: 0,
        markup: 0,
        ty: OFF,
    }
}
fn named(set: usize, i: usize) -> String {
    match set {
        0 => format!("ppt/slides/slide{}.xml", i + 1),
        1 => format!("ppt/slides/slide{}.xml", [10, 2, 100, 1, 21][i]),
        2 => format!("ppt/slides/{}.xml", ["intro", "Ärger", "slide", "z-1", "a b"][i].replace(' ', "%20")),
        3 => format!("content/{}/page.xml", ["x", "y", "z", "v", "w"][i]),
        4 => format!("ppt/slides{}/slide1.xml", i),
        _ => format!("{}.xml", ["one", "two", "three", "four", "five"][i]),
    }
}
fn rid(set: usize, i: usize) -> String {
    match set {
        0 => format!("rId{}", i + 1),
        1 => format!("rId{}", [10, 2, 1, 11, 100][i]),
        2 => ["rIdA", "rIdB", "rIdC", "rIdD", "rIdE"][i].into(),
        3 => ["R1", "r1", "RId1", "rid1", "rId1"][i].into(),
        4 => format!("R{:032x}", 0xdeadbeefu64.wrapping_mul(i as u64 * 7919 + 13)),
        _ => ["a", "aa", "a1", "_", "id"][i].into(),
    }
}
fn ids(set: usize, i: usize) -> u32 {
    match set {
        0 => 256 + i as u32,
        1 => 2147483647 - i as u32,
        _ => [300, 256, 2147483647, 257, 1000][i],
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "R02",
        level: "exploration",
        rule: "packages of the same slides stored with every permutation of list, names, relationship ids and entries of the stated sets; the reader, importer and editor must see the slides in the order of the slide list",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 3 } else { 4 };
            vec![
                Scenario::new("permutations", format!("1..{n} slides: all permutations of part numbers x relationship ids x relationship entries"), 0, move |ch| {
                    let k = 1 + ch.pick(n);
                    let mut st = plain(k);
                    let a = perm(ch, k);
                    st.names = a.iter().map(|i| named(0, *i)).collect();
                    let b = perm(ch, k);
                    st.rids = b.iter().map(|i| rid(0, *i)).collect();
                    st.entries = perm(ch, k);
                    check(ch, &st)
                }),
                Scenario::new("names", "1..3 slides: 6 sets of part names x 6 sets of relationship ids x 3 sets of slide ids, each permuted, x 4 main parts x 3 target styles", if q { 3 } else { 5 }, |ch| {
                    let k = 1 + ch.pick(3);
                    let mut st = plain(k);
                    let (a, b, c) = (ch.dev(6), ch.dev(6), ch.dev(3));
                    let rot = |ch: &mut Ch| if ch.dev(2) == 1 { (0..k).rev().collect::<Vec<_>>() } else { (0..k).collect() };
                    st.names = rot(ch).iter().map(|i| named(a, *i)).collect();
                    st.rids = rot(ch).iter().map(|i| rid(b, *i)).collect();
                    st.ids = rot(ch).iter().map(|i| ids(c, *i)).collect();
                    st.entries = rot(ch);
                    st.main = ch.dev_of(&["ppt/presentation.xml", "ppt/presentation2.xml", "presentation.xml", "a/b/main.xml"]).to_string();
                    st.style = ch.dev(3);
                    st.ty = *ch.dev_of(&[OFF, STRICT]);
                    check(ch, &st)
                }),
                Scenario::new("markup", "1..3 slides: 7 ways of writing the slide list and relationships x all permutations of parts and ids x target style", 0, |ch| {
                    let k = 1 + ch.pick(3);
                    let mut st = plain(k);
                    st.markup = ch.pick(7);
                    let a = perm(ch, k);
                    st.names = a.iter().map(|i| named(0, *i)).collect();
                    let b = perm(ch, k);
                    st.rids = b.iter().map(|i| rid(1, *i)).collect();
                    st.style = ch.pick(3);
                    check(ch, &st)
                }),
                Scenario::new("many", format!("1..{} slides stored in order, in reverse, and interleaved", if q { 30 } else { 130 }), 0, move |ch| {
                    let k = 1 + ch.pick(if q { 30 } else { 130 });
                    let mut st = plain(k);
                    let order = |w: usize, i: usize| match w { 0 => i, 1 => k - 1 - i, _ => if i % 2 == 0 { i / 2 } else { k - 1 - i / 2 } };
                    let (a, b) = (ch.pick(3), ch.pick(3));
                    st.names = (0..k).map(|i| format!("ppt/slides/slide{}.xml", order(a, i) + 1)).collect();
                    st.rids = (0..k).map(|i| format!("rId{}", order(b, i) + 1)).collect();
                    check(ch, &st)
                }),
            ]
        },
        must_cover: || vec![],
    }
}
