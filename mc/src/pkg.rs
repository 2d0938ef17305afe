//! Independent oracle for OPC / PresentationML packages.
use crate::engine::{hash_bytes, Fail};
use crate::xml::{self, Elem, NS_A, NS_CT, NS_P, NS_PR, NS_R};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{Cursor, Read, Write};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Pkg {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub order: Vec<String>,
    pub dups: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String,
    pub external: bool,
    /// Resolved part name for internal targets.
    pub part: String,
}

thread_local! { static CACHE: RefCell<HashMap<(u64,usize), Rc<Result<Elem,String>>>> = RefCell::new(HashMap::new()); }
pub fn parse_cached(b: &[u8]) -> Rc<Result<Elem, String>> {
    let k = (hash_bytes(b), b.len());
    CACHE.with(|c| {
        if let Some(r) = c.borrow().get(&k) {
            return r.clone();
        }
        let r = Rc::new(xml::parse(b));
        let mut c = c.borrow_mut();
        if c.len() > 600 {
            c.clear()
        }
        c.insert(k, r.clone());
        r
    })
}

pub fn rels_path(part: &str) -> String {
    match part.rsplit_once('/') {
        Some((d, f)) => format!("{d}/_rels/{f}.rels"),
        None => format!("_rels/{part}.rels"),
    }
}
pub fn source_of_rels(p: &str) -> Option<String> {
    if p == "_rels/.rels" {
        return Some(String::new());
    }
    let s = p.strip_suffix(".rels")?;
    let (d, f) = s.rsplit_once('/')?;
    let d = d.strip_suffix("_rels")?;
    Some(format!("{d}{f}"))
}
pub fn resolve(source: &str, target: &str) -> String {
    let t = target.split('#').next().unwrap_or("");
    let mut segs: Vec<&str> = vec![];
    if !t.starts_with('/') {
        if let Some((d, _)) = source.rsplit_once('/') {
            segs.extend(d.split('/'));
        }
    }
    for s in t.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                segs.pop();
            }
            s => segs.push(s),
        }
    }
    segs.join("/")
}

impl Pkg {
    pub fn from_bytes(b: &[u8]) -> Result<Pkg, String> {
        let mut z = zip::ZipArchive::new(Cursor::new(b)).map_err(|e| format!("not a zip: {e}"))?;
        let mut p = Pkg::default();
        for i in 0..z.len() {
            let mut f = z.by_index(i).map_err(|e| format!("zip entry {i}: {e}"))?;
            let n = f.name().to_string();
            let mut v = vec![];
            f.read_to_end(&mut v).map_err(|e| format!("zip entry {n}: {e}"))?;
            p.order.push(n.clone());
            if n.ends_with('/') && v.is_empty() {
                continue;
            }
            if p.parts.insert(n.clone(), v).is_some() {
                p.dups.push(n);
            }
        }
        Ok(p)
    }
    pub fn to_zip(&self) -> Vec<u8> {
        let mut z = zip::ZipWriter::new(Cursor::new(Vec::new()));
        let o = zip::write::FileOptions::default().compression_method(zip::CompressionMethod::Stored);
        let mut names: Vec<&String> = self.parts.keys().collect();
        names.sort_by_key(|n| (n.as_str() != "[Content_Types].xml", n.as_str()));
        for n in names {
            z.start_file(n.clone(), o).unwrap();
            z.write_all(&self.parts[n]).unwrap();
        }
        z.finish().unwrap().into_inner()
    }
    pub fn get(&self, n: &str) -> Option<&[u8]> {
        self.parts.get(n).map(|v| v.as_slice())
    }
    pub fn set(&mut self, n: &str, v: impl Into<Vec<u8>>) {
        self.parts.insert(n.into(), v.into());
    }
    pub fn text(&self, n: &str) -> String {
        String::from_utf8_lossy(self.get(n).unwrap_or(b"")).into_owned()
    }
    pub fn xml(&self, n: &str) -> Result<Rc<Result<Elem, String>>, String> {
        match self.parts.get(n) {
            Some(b) => Ok(parse_cached(b)),
            None => Err(format!("part {n} missing")),
        }
    }
    /// Parsed part or an error string.
    pub fn doc(&self, n: &str) -> Result<Elem, String> {
        match &*self.xml(n)? {
            Ok(e) => Ok(e.clone()),
            Err(e) => Err(format!("{n}: {e}")),
        }
    }
    pub fn with_doc<T>(&self, n: &str, f: impl FnOnce(&Elem) -> T) -> Result<T, String> {
        match &*self.xml(n)? {
            Ok(e) => Ok(f(e)),
            Err(e) => Err(format!("{n}: {e}")),
        }
    }
    pub fn rels(&self, source: &str) -> Vec<Rel> {
        let p = if source.is_empty() { "_rels/.rels".to_string() } else { rels_path(source) };
        let Ok(x) = self.xml(&p) else { return vec![] };
        let Ok(e) = &*x else { return vec![] };
        e.elems()
            .filter(|r| r.is(NS_PR, "Relationship"))
            .map(|r| {
                let t = r.attr("Target").unwrap_or("").to_string();
                let ext = r.attr("TargetMode") == Some("External");
                Rel {
                    id: r.attr("Id").unwrap_or("").into(),
                    ty: r.attr("Type").unwrap_or("").into(),
                    part: if ext { String::new() } else { resolve(source, &t) },
                    target: t,
                    external: ext,
                }
            })
            .collect()
    }
    pub fn rel_of_type(&self, source: &str, kind: &str) -> Vec<Rel> {
        self.rels(source).into_iter().filter(|r| r.ty.rsplit('/').next() == Some(kind)).collect()
    }
    pub fn content_type(&self, part: &str) -> Option<String> {
        let x = self.xml("[Content_Types].xml").ok()?;
        let e = x.as_ref().as_ref().ok()?;
        let want = format!("/{part}");
        for o in e.elems() {
            if &*o.local == "Override" && o.attr("PartName").is_some_and(|p| p.eq_ignore_ascii_case(&want)) {
                return o.attr("ContentType").map(|s| s.to_string());
            }
        }
        let ext = part.rsplit('/').next()?.rsplit_once('.')?.1;
        for o in e.elems() {
            if &*o.local == "Default" && o.attr("Extension").is_some_and(|p| p.eq_ignore_ascii_case(ext)) {
                return o.attr("ContentType").map(|s| s.to_string());
            }
        }
        None
    }
    /// Slide part names in sldIdLst order.
    pub fn slides(&self) -> Vec<String> {
        let pres = self.rel_of_type("", "officeDocument").first().map(|r| r.part.clone()).unwrap_or_default();
        let rels = self.rels(&pres);
        self.with_doc(&pres, |e| {
            e.child("sldIdLst")
                .map(|l| {
                    l.children("sldId")
                        .filter_map(|s| s.attr_ns(NS_R, "id"))
                        .map(|id| rels.iter().find(|r| r.id == id).map(|r| r.part.clone()).unwrap_or_else(|| format!("?{id}")))
                        .collect()
                })
                .unwrap_or_default()
        })
        .unwrap_or_default()
    }
    /// Parts ignoring the clock fields of docProps/core.xml.
    pub fn normalized(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = self.parts.clone();
        if let Some(c) = m.get_mut("docProps/core.xml") {
            let s = String::from_utf8_lossy(c).into_owned();
            *c = blank_dates(&s).into_bytes();
        }
        m
    }
}
pub fn blank_dates(s: &str) -> String {
    let mut out = s.to_string();
    for t in ["dcterms:created", "dcterms:modified"] {
        if let (Some(a), Some(b)) = (out.find(&format!("<{t}")), out.find(&format!("</{t}>"))) {
            if let Some(g) = out[a..b].find('>') {
                out.replace_range(a + g + 1..b, "T");
            }
        }
    }
    out
}

pub fn short(ty: &str) -> &str {
    ty.rsplit('/').next().unwrap_or(ty)
}
const CT: &str = "application/vnd.openxmlformats-officedocument.";
fn expected_ct(kind: &str, part: &str) -> Option<Vec<String>> {
    let o = |s: &str| Some(vec![format!("{CT}{s}")]);
    match kind {
        "officeDocument" => o("presentationml.presentation.main+xml"),
        "slide" => o("presentationml.slide+xml"),
        "slideLayout" => o("presentationml.slideLayout+xml"),
        "slideMaster" => o("presentationml.slideMaster+xml"),
        "notesSlide" => o("presentationml.notesSlide+xml"),
        "notesMaster" => o("presentationml.notesMaster+xml"),
        "handoutMaster" => o("presentationml.handoutMaster+xml"),
        "presProps" => o("presentationml.presProps+xml"),
        "viewProps" => o("presentationml.viewProps+xml"),
        "tableStyles" => o("presentationml.tableStyles+xml"),
        "theme" => o("theme+xml"),
        "chart" => o("drawingml.chart+xml"),
        "comments" => o("presentationml.comments+xml"),
        "commentAuthors" => o("presentationml.commentAuthors+xml"),
        "package" => o("spreadsheetml.sheet"),
        "extended-properties" => o("extended-properties+xml"),
        "core-properties" => Some(vec!["application/vnd.openxmlformats-package.core-properties+xml".into()]),
        "origin" => Some(vec!["application/vnd.openxmlformats-package.digital-signature-origin".into()]),
        "signature" => Some(vec!["application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml".into()]),
        "font" => Some(vec!["application/x-fontdata".into()]),
        "image" => {
            let ext = part.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
            Some(vec![match ext.as_str() {
                "png" => "image/png".into(),
                "jpg" | "jpeg" => "image/jpeg".into(),
                "gif" => "image/gif".into(),
                "bmp" => "image/bmp".into(),
                "tif" | "tiff" => "image/tiff".into(),
                "svg" => "image/svg+xml".into(),
                "webp" => "image/webp".into(),
                _ => return None,
            }])
        }
        _ => None,
    }
}
/// Relationship kinds allowed behind an r: attribute.
fn expected_rel(el: &Elem, attr: &str) -> Option<&'static [&'static str]> {
    Some(match (&*el.local, attr) {
        ("sldId", "id") => &["slide"],
        ("sldMasterId", "id") => &["slideMaster"],
        ("notesMasterId", "id") => &["notesMaster"],
        ("handoutMasterId", "id") => &["handoutMaster"],
        ("sldLayoutId", "id") => &["slideLayout"],
        ("blip", "embed") => &["image"],
        ("blip", "link") => &["image"],
        ("chart", "id") => &["chart"],
        ("externalData", "id") => &["package", "oleObject"],
        ("hlinkClick" | "hlinkHover" | "hlinkMouseOver", "id") => &["hyperlink", "slide", "slideUpdateUrl", "video", "audio", "media", "file"],
        ("regular" | "bold" | "italic" | "boldItalic", "id") => &["font"],
        ("videoFile", "link") => &["video"],
        ("audioFile" | "wavAudioFile", "link" | "embed") => &["audio"],
        ("media", "embed" | "link") => &["media"],
        ("contentPart", "id") => &["customXml", "ink"],
        _ => return None,
    })
}

#[derive(Default, Debug, Clone)]
pub struct Model {
    pub slides: Vec<String>,
    pub layouts: Vec<String>,
    pub notes: Vec<Option<String>>,
}

pub fn generic(p: &str) -> String {
    // part name with numbers collapsed, for stable signatures
    let mut s = String::new();
    let mut d = false;
    for c in p.chars() {
        if c.is_ascii_digit() {
            if !d {
                s.push('N')
            }
            d = true
        } else {
            d = false;
            s.push(c)
        }
    }
    s
}

/// Every closure/consistency rule; all problems found.
pub fn check(p: &Pkg) -> (Model, Vec<Fail>) {
    let mut f: Vec<Fail> = vec![];
    let mut bad = |sig: String, msg: String| f.push(Fail { sig, msg });
    let mut m = Model::default();

    // names
    for d in &p.dups {
        bad(format!("dup-entry:{}", generic(d)), format!("zip entry {d} occurs twice"));
    }
    let mut low = HashMap::new();
    for n in p.parts.keys() {
        if let Some(o) = low.insert(n.to_ascii_lowercase(), n.clone()) {
            bad(format!("dup-entry-case:{}", generic(n)), format!("parts {o} and {n} differ only in case"));
        }
        if n.starts_with('/') || n.contains("\\") || n.contains("//") || n.split('/').any(|s| s == "." || s == ".." || s.is_empty()) {
            bad(format!("bad-part-name:{}", generic(n)), format!("illegal part name {n}"));
        }
    }
    // content types
    match p.xml("[Content_Types].xml") {
        Err(e) => bad("no-content-types".into(), e),
        Ok(x) => match &*x {
            Err(e) => bad("malformed:[Content_Types].xml".into(), e.clone()),
            Ok(e) => {
                if !e.is(NS_CT, "Types") {
                    bad("ct-root".into(), "root of [Content_Types].xml".into());
                }
                let mut seen = HashSet::new();
                for o in e.elems() {
                    match &*o.local {
                        "Default" => {
                            let ext = o.attr("Extension").unwrap_or("").to_ascii_lowercase();
                            if ext.is_empty() || o.attr("ContentType").unwrap_or("").is_empty() {
                                bad("ct-empty-default".into(), "Default without Extension or ContentType".into());
                            }
                            if !seen.insert(format!(".{ext}")) {
                                bad(format!("ct-dup-default:{ext}"), format!("content type Default for {ext} occurs twice"));
                            }
                        }
                        "Override" => {
                            let n = o.attr("PartName").unwrap_or("").to_string();
                            if !seen.insert(n.to_ascii_lowercase()) {
                                bad(format!("ct-dup-override:{}", generic(&n)), format!("content type Override for {n} occurs twice"));
                            }
                            match n.strip_prefix('/') {
                                Some(q) if p.parts.contains_key(q) => {}
                                _ => bad(format!("ct-dangling-override:{}", generic(&n)), format!("content type Override for absent part {n}")),
                            }
                        }
                        l => bad(format!("ct-elem:{l}"), format!("unexpected element {l} in content types")),
                    }
                }
            }
        },
    }
    for n in p.parts.keys() {
        if n == "[Content_Types].xml" {
            continue;
        }
        match p.content_type(n) {
            None => bad(format!("no-content-type:{}", generic(n)), format!("part {n} has no content type")),
            Some(ct) => {
                if n.ends_with(".rels") && ct != "application/vnd.openxmlformats-package.relationships+xml" {
                    bad("rels-content-type".into(), format!("{n} has content type {ct}"));
                }
            }
        }
    }
    // well-formedness
    for (n, b) in &p.parts {
        if n.ends_with(".xml") || n.ends_with(".rels") {
            if let Err(e) = &*parse_cached(b) {
                bad(format!("malformed:{}", generic(n)), format!("{n} is not well-formed XML: {e}"));
            }
        }
    }
    // relationships
    for n in p.parts.keys().filter(|n| n.ends_with(".rels")) {
        let Some(src) = source_of_rels(n) else {
            bad(format!("bad-rels-name:{}", generic(n)), format!("{n}: not a relationship part name"));
            continue;
        };
        if !src.is_empty() && !p.parts.contains_key(&src) {
            bad(format!("orphan-rels:{}", generic(n)), format!("{n} has no source part {src}"));
        }
        let mut ids = HashSet::new();
        let mut tgts = HashSet::new();
        if let Ok(x) = p.xml(n) {
            if let Ok(e) = &*x {
                if !e.is(NS_PR, "Relationships") {
                    bad(format!("rels-root:{}", generic(n)), format!("root of {n}"));
                }
                for r in e.elems() {
                    if !r.is(NS_PR, "Relationship") {
                        bad(format!("rels-elem:{}", generic(n)), format!("unexpected element {} in {n}", r.local));
                    }
                }
            }
        }
        for r in p.rels(&src) {
            if r.id.is_empty() || r.ty.is_empty() {
                bad(format!("rel-incomplete:{}", generic(n)), format!("{n}: relationship without Id or Type: {r:?}"));
            }
            if !ids.insert(r.id.clone()) {
                bad(format!("rel-dup-id:{}", generic(n)), format!("{n}: relationship id {} occurs twice", r.id));
            }
            if r.external {
                continue;
            }
            if r.ty.ends_with("/hyperlink") {
                bad(format!("hyperlink-internal:{}", generic(n)), format!("{n}: hyperlink {} to {} is not External", r.id, r.target));
                continue;
            }
            if !p.parts.contains_key(&r.part) {
                bad(format!("rel-dangling:{}:{}", generic(n), short(&r.ty)), format!("{n}: {} -> {} ({}) does not exist", r.id, r.target, r.part));
                continue;
            }
            let kind = short(&r.ty);
            if let Some(ex) = expected_ct(kind, &r.part) {
                let got = p.content_type(&r.part).unwrap_or_default();
                if !got.is_empty() && !ex.contains(&got) {
                    bad(format!("rel-target-type:{}:{kind}", generic(n)), format!("{n}: {} is a {kind} relationship to {} whose content type is {got}", r.id, r.part));
                }
            }
            if matches!(kind, "slide" | "slideLayout" | "slideMaster" | "theme" | "notesMaster" | "handoutMaster" | "notesSlide" | "presProps" | "viewProps" | "tableStyles" | "officeDocument" | "core-properties" | "extended-properties") && !tgts.insert((kind.to_string(), r.part.clone())) {
                bad(format!("rel-dup-target:{}:{kind}", generic(n)), format!("{n}: two {kind} relationships to {}", r.part));
            }
        }
    }
    // references in markup
    for (n, b) in &p.parts {
        if !n.ends_with(".xml") || n == "[Content_Types].xml" {
            continue;
        }
        let x = parse_cached(b);
        let Ok(e) = &*x else { continue };
        let rels = p.rels(n);
        e.walk(&mut |el| {
            for a in &el.attrs {
                if &*a.ns != NS_R {
                    continue;
                }
                if a.value.is_empty() {
                    if el.local.starts_with("hlink") && el.attr("action").is_some_and(|x| !x.is_empty()) {
                        continue;
                    }
                    if el.is(NS_A, "blip") && &*a.local == "link" {
                        continue;
                    }
                }
                match rels.iter().find(|r| r.id == a.value) {
                    None => bad(format!("ref-dangling:{}:{}@{}", generic(n), el.local, a.local), format!("{n}: <{} r:{}={:?}> has no such relationship", el.local, a.local, a.value)),
                    Some(r) => {
                        if let Some(ks) = expected_rel(el, &a.local) {
                            if !ks.contains(&short(&r.ty)) {
                                bad(format!("ref-kind:{}:{}@{}", generic(n), el.local, a.local), format!("{n}: <{} r:{}={:?}> leads to a {} relationship", el.local, a.local, a.value, short(&r.ty)));
                            }
                        }
                    }
                }
            }
        });
    }
    // reachability
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut todo: Vec<String> = vec![String::new()];
    while let Some(s) = todo.pop() {
        for r in p.rels(&s) {
            if !r.external && p.parts.contains_key(&r.part) && seen.insert(r.part.clone()) {
                todo.push(r.part);
            }
        }
    }
    for n in p.parts.keys() {
        if n != "[Content_Types].xml" && !n.ends_with(".rels") && !seen.contains(n) {
            bad(format!("unreachable:{}", generic(n)), format!("part {n} is not reachable from the package root"));
        }
    }
    // presentation
    let roots = p.rel_of_type("", "officeDocument");
    if roots.len() != 1 {
        bad("root-officeDocument".into(), format!("{} officeDocument relationships", roots.len()));
    }
    let pres = roots.first().map(|r| r.part.clone()).unwrap_or_default();
    let pr = p.rels(&pres);
    let mut big_ids: HashSet<u64> = HashSet::new();
    if let Ok(x) = p.xml(&pres) {
        if let Ok(e) = &*x {
            if !e.is(NS_P, "presentation") {
                bad("pres-root".into(), format!("root of {pres} is {}", e.local));
            }
            let mut ids = HashSet::new();
            let mut rids = HashSet::new();
            for l in e.children("sldIdLst") {
                for s in l.elems() {
                    if !s.is(NS_P, "sldId") {
                        bad("sldIdLst-elem".into(), format!("unexpected {} in sldIdLst", s.local));
                        continue;
                    }
                    let id: u64 = s.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0);
                    if !(256..2147483648).contains(&id) {
                        bad("sldId-range".into(), format!("slide id {id} out of range"));
                    }
                    if !ids.insert(id) {
                        bad("sldId-dup".into(), format!("slide id {id} occurs twice"));
                    }
                    let rid = s.attr_ns(NS_R, "id").unwrap_or("").to_string();
                    if !rids.insert(rid.clone()) {
                        bad("sldId-dup-rid".into(), format!("slide list names relationship {rid} twice"));
                    }
                    m.slides.push(pr.iter().find(|r| r.id == rid).map(|r| r.part.clone()).unwrap_or_else(|| format!("?{rid}")));
                }
            }
            if e.children("sldIdLst").count() > 1 {
                bad("sldIdLst-count".into(), "two slide lists".into());
            }
            for r in pr.iter().filter(|r| short(&r.ty) == "slide") {
                if !rids.contains(&r.id) {
                    bad("slide-not-listed".into(), format!("slide relationship {} -> {} is not in the slide list", r.id, r.part));
                }
            }
            let mut nm = 0;
            for l in e.all("sldMasterId") {
                nm += 1;
                let id: u64 = l.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0);
                if id < 2147483648 || !big_ids.insert(id) {
                    bad("masterId".into(), format!("slide master id {id}"));
                }
            }
            let mr = pr.iter().filter(|r| short(&r.ty) == "slideMaster").count();
            if nm == 0 || nm != mr {
                bad("master-list".into(), format!("{nm} masters listed, {mr} master relationships"));
            }
            for (list, kind) in [("notesMasterId", "notesMaster"), ("handoutMasterId", "handoutMaster")] {
                let a = e.all(list).len();
                let b = pr.iter().filter(|r| short(&r.ty) == kind).count();
                if a != b || a > 1 {
                    bad(format!("{kind}-list"), format!("{a} {kind} entries listed, {b} relationships"));
                }
            }
        }
    } else {
        bad("no-presentation".into(), format!("no presentation part {pres:?}"));
    }
    // masters, layouts
    for n in p.parts.keys() {
        let ct = p.content_type(n).unwrap_or_default();
        let one = |kind: &str| p.rel_of_type(n, kind);
        if ct.ends_with("slideMaster+xml") {
            let lr: BTreeSet<String> = one("slideLayout").into_iter().map(|r| r.id).collect();
            if let Ok(x) = p.xml(n) {
                if let Ok(e) = &*x {
                    let mut li = BTreeSet::new();
                    for l in e.all("sldLayoutId") {
                        let id: u64 = l.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0);
                        if id < 2147483648 || !big_ids.insert(id) {
                            bad("layoutId".into(), format!("slide layout id {id} in {n}"));
                        }
                        li.insert(l.attr_ns(NS_R, "id").unwrap_or("").to_string());
                    }
                    if li != lr {
                        bad("layout-list".into(), format!("{n}: layouts listed {li:?}, relationships {lr:?}"));
                    }
                }
            }
            if one("theme").len() != 1 {
                bad("master-theme".into(), format!("{n}: {} themes", one("theme").len()));
            }
        } else if ct.ends_with("slideLayout+xml") {
            if one("slideMaster").len() != 1 {
                bad("layout-master".into(), format!("{n}: {} masters", one("slideMaster").len()));
            }
        } else if ct.ends_with("notesMaster+xml") || ct.ends_with("handoutMaster+xml") {
            if one("theme").len() != 1 {
                bad("master-theme".into(), format!("{n}: {} themes", one("theme").len()));
            }
        } else if ct.ends_with("notesSlide+xml") {
            let s = one("slide");
            if s.len() != 1 || one("notesMaster").len() != 1 {
                bad("notes-links".into(), format!("{n}: {} slides, {} notes masters", s.len(), one("notesMaster").len()));
            } else if !p.rel_of_type(&s[0].part, "notesSlide").iter().any(|r| &r.part == n) {
                bad("notes-backlink".into(), format!("{n} points to {} which does not point back", s[0].part));
            }
        }
    }
    // theme shared by two masters is not allowed
    let mut th: HashMap<String, String> = HashMap::new();
    for n in p.parts.keys() {
        let ct = p.content_type(n).unwrap_or_default();
        if ct.ends_with("Master+xml") {
            for r in p.rel_of_type(n, "theme") {
                if let Some(o) = th.insert(r.part.clone(), n.clone()) {
                    bad("theme-shared".into(), format!("{} is the theme of both {o} and {n}", r.part));
                }
            }
        }
    }
    // slides
    let mut ss = HashSet::new();
    for s in &m.slides {
        if !ss.insert(s.clone()) {
            bad("slide-listed-twice".into(), format!("{s} listed twice"));
        }
        let l = p.rel_of_type(s, "slideLayout");
        if l.len() != 1 {
            bad("slide-layout-count".into(), format!("{s}: {} layouts", l.len()));
        }
        m.layouts.push(l.first().map(|r| r.part.clone()).unwrap_or_default());
        let nt = p.rel_of_type(s, "notesSlide");
        if nt.len() > 1 {
            bad("slide-notes-count".into(), format!("{s}: {} notes parts", nt.len()));
        }
        if let Some(r) = nt.first() {
            if !p.rel_of_type(&r.part, "slide").iter().any(|b| &b.part == s) {
                bad("notes-backlink".into(), format!("{s} -> {} which points elsewhere", r.part));
            }
        }
        m.notes.push(nt.first().map(|r| r.part.clone()));
        if let Ok(x) = p.xml(s) {
            if let Ok(e) = &*x {
                if !e.is(NS_P, "sld") {
                    bad("slide-root".into(), format!("root of {s} is {}", e.local));
                }
                check_ids(s, e, &mut bad);
            }
        }
    }
    for n in p.parts.keys() {
        if p.content_type(n).is_some_and(|c| c.ends_with("presentationml.slide+xml")) && !ss.contains(n) {
            bad("slide-part-unlisted".into(), format!("slide part {n} is not in the slide list"));
        }
    }
    (m, f)
}

fn check_ids(s: &str, e: &Elem, bad: &mut dyn FnMut(String, String)) {
    let mut ids: HashMap<String, String> = HashMap::new();
    e.walk(&mut |x| {
        if &*x.local == "cNvPr" {
            let id = x.attr("id").unwrap_or("").to_string();
            let nm = x.attr("name").unwrap_or("").to_string();
            if id.parse::<u32>().is_err() || id == "0" {
                bad("shape-id".into(), format!("{s}: shape {nm:?} has id {id:?}"));
            }
            if let Some(o) = ids.insert(id.clone(), nm.clone()) {
                bad("shape-id-dup".into(), format!("{s}: shapes {o:?} and {nm:?} share id {id}"));
            }
        }
    });
}

pub fn first(fs: Vec<Fail>) -> Result<(), Fail> {
    match fs.into_iter().next() {
        None => Ok(()),
        Some(f) => Err(f),
    }
}
