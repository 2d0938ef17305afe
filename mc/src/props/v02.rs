//! V02: repair reports nothing on sound decks, and on damaged ones removes what it says it removed and keeps the rest.
use super::v01::{bases, tags, BREAK};
use super::*;
use crate::decks::*;
use crate::pkg::{self, Pkg};
use crate::xml::Elem;
use ppt_rs::oxml::{PptxRepair, PresentationReader, RepairIssue};
use std::collections::{BTreeMap, BTreeSet};

// ---- ways of writing relationship files, content types and the slide list ----
const STYLES: &[&str] = &["as generated", "one attribute per line", "single quotes", "one line, attributes reversed", "other prefixes", "absolute targets, comments"];
fn esc(s: &str, q: char) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace(q, if q == '"' { "&quot;" } else { "&apos;" })
}
pub fn restyle(p: &Pkg, style: usize) -> Pkg {
    let mut out = p.clone();
    if style == 0 {
        return out;
    }
    for (n, b) in &p.parts {
        let table = n.ends_with(".rels") || n == "[Content_Types].xml";
        if table {
            let Ok(e) = crate::xml::parse(b) else { continue };
            let src = pkg::source_of_rels(n);
            let write = |e: &Elem| {
                let q = if style == 2 { '\'' } else { '"' };
                let mut a: Vec<String> = e
                    .attrs
                    .iter()
                    .map(|a| {
                        let mut v = a.value.clone();
                        if style == 5 && &*a.local == "Target" && e.attr("TargetMode").is_none() {
                            if let Some(s) = &src {
                                v = format!("/{}", pkg::resolve(s, &v));
                            }
                        }
                        format!("{}={q}{}{q}", a.local, esc(&v, q))
                    })
                    .collect();
                if style == 3 {
                    a.reverse();
                }
                let pre = if style == 4 { "pr:" } else { "" };
                let sep = if style == 1 { "\n      " } else { " " };
                format!("<{pre}{}{sep}{}/>", e.local, a.join(sep))
            };
            let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
            let pre = if style == 4 { "pr:" } else { "" };
            s += &format!("<{pre}{} xmlns{}=\"{}\">", e.local, if style == 4 { ":pr" } else { "" }, e.ns);
            for k in e.elems() {
                if style == 5 {
                    s += "<!-- <Relationship Id=\"rId999\" Target=\"none.xml\"/> -->";
                }
                s += &write(k);
                if style == 1 {
                    s += "\n";
                }
            }
            s += &format!("</{pre}{}>", e.local);
            out.set(n, s);
        } else if n == "ppt/presentation.xml" && crate::xml::parse(b).is_ok() {
            let s = p.text(n);
            let s = match style {
                1 => s.replace("<p:sldId ", "<p:sldId\n   ").replace(" r:id=", "\n   r:id="),
                2 if !s.contains('\'') => s.replace('"', "'"),
                3 => s.replace('\n', ""),
                4 => s.replace("<p:", "<x:").replace("</p:", "</x:").replace("xmlns:p=", "xmlns:x=").replace(" r:id=", " q:id=").replace("xmlns:r=", "xmlns:q="),
                _ => s.replace("<p:sldIdLst>", "<p:sldIdLst><!-- <p:sldId id=\"999\" r:id=\"rId999\"/> -->"),
            };
            out.set(n, s);
        }
    }
    out
}

// ---- damages ----
#[derive(Clone, Debug)]
enum Dmg {
    NoPart(String),
    /// relationship file, and the part or target whose entries go
    NoEntry(String, String),
    Target(String, String),
    NoType(String),
    Unlist(usize),
    ListTwice(usize),
    ListGhost,
    Markup(String, usize),
    /// an ampersand in text
    Amp(String),
    StraySlide,
    StrayMedia,
}
fn entries(p: &Pkg, rels: &str) -> Vec<(usize, usize, String)> {
    let s = p.text(rels);
    let src = pkg::source_of_rels(rels).unwrap_or_default();
    tags(&s, "Relationship").into_iter().map(|(a, b)| { let t = s[a..b].split("Target=\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or(""); (a, b, if s[a..b].contains("\"External\"") { t.to_string() } else { pkg::resolve(&src, t) }) }).collect()
}
fn apply(p: &mut Pkg, d: &Dmg) -> bool {
    match d {
        Dmg::NoPart(n) => p.parts.remove(n).is_some(),
        Dmg::NoEntry(r, t) | Dmg::Target(r, t) => {
            if !p.parts.contains_key(r) {
                return false;
            }
            let s = p.text(r);
            for (a, b, to) in entries(p, r) {
                if &to == t {
                    let new = match d {
                        Dmg::NoEntry(..) => String::new(),
                        _ => { let e = &s[a..b]; let i = e.find("Target=\"").unwrap() + 8; let j = i + e[i..].find('"').unwrap(); format!("{}{}.gone{}", &e[..i], &e[i..j], &e[j..]) }
                    };
                    p.set(r, format!("{}{new}{}", &s[..a], &s[b..]));
                    return true;
                }
            }
            false
        }
        Dmg::NoType(k) => {
            if !p.parts.contains_key("[Content_Types].xml") {
                return false;
            }
            let s = p.text("[Content_Types].xml");
            let mut t = tags(&s, "Override");
            t.extend(tags(&s, "Default"));
            for (a, b) in t {
                if s[a..b].split('"').nth(1) == Some(k) {
                    p.set("[Content_Types].xml", format!("{}{}", &s[..a], &s[b..]));
                    return true;
                }
            }
            false
        }
        Dmg::Unlist(k) | Dmg::ListTwice(k) => {
            let s = p.text("ppt/presentation.xml");
            let t: Vec<_> = tags(&s, "sldId").into_iter().filter(|(a, b)| s[*a..*b].contains("r:id")).collect();
            let Some(&(a, b)) = t.get(*k) else { return false };
            let e = &s[a..b];
            let new = if matches!(d, Dmg::Unlist(_)) { String::new() } else { format!("{e}{e}") };
            p.set("ppt/presentation.xml", format!("{}{new}{}", &s[..a], &s[b..]));
            true
        }
        Dmg::ListGhost => {
            let s = p.text("ppt/presentation.xml");
            if !s.contains("</p:sldIdLst>") {
                return false;
            }
            p.set("ppt/presentation.xml", s.replace("</p:sldIdLst>", "<p:sldId id=\"2147483647\" r:id=\"rId4000\"/></p:sldIdLst>"));
            true
        }
        Dmg::Markup(n, k) => {
            let Some(b) = p.get(n).map(|b| b.to_vec()) else { return false };
            if crate::xml::parse(&b).is_err() {
                return false;
            }
            let b = BREAK[*k].1(&p.text(n));
            p.parts.insert(n.clone(), b);
            true
        }
        Dmg::Amp(n) => {
            let s = p.text(n);
            let Some(i) = s.find("</a:t>") else { return false };
            p.set(n, format!("{} & more{}", &s[..i], &s[i..]));
            true
        }
        Dmg::StraySlide => {
            let (Some(a), Some(b)) = (p.get("ppt/slides/slide1.xml").map(|x| x.to_vec()), p.get("ppt/slides/_rels/slide1.xml.rels").map(|x| x.to_vec())) else { return false };
            p.parts.insert("ppt/slides/slide9.xml".into(), a);
            p.parts.insert("ppt/slides/_rels/slide9.xml.rels".into(), b);
            true
        }
        Dmg::StrayMedia => {
            p.parts.insert("ppt/media/stray.emf".into(), vec![1, 2, 3]);
            true
        }
    }
}
fn all_damages(p: &Pkg) -> Vec<Dmg> {
    let mut v = vec![];
    for n in p.parts.keys() {
        v.push(Dmg::NoPart(n.clone()));
        if n.ends_with(".rels") {
            for (_, _, t) in entries(p, n) {
                v.push(Dmg::NoEntry(n.clone(), t.clone()));
                if !t.contains("://") && !t.starts_with("mailto:") {
                    v.push(Dmg::Target(n.clone(), t));
                }
            }
        }
        if n.ends_with(".xml") || n.ends_with(".rels") {
            for k in 0..BREAK.len() {
                v.push(Dmg::Markup(n.clone(), k));
            }
            v.push(Dmg::Amp(n.clone()));
        }
    }
    let s = p.text("[Content_Types].xml");
    for (a, b) in tags(&s, "Override").into_iter().chain(tags(&s, "Default")) {
        v.push(Dmg::NoType(s[a..b].split('"').nth(1).unwrap_or("").into()));
    }
    for k in 0..p.slides().len() {
        v.push(Dmg::Unlist(k));
        v.push(Dmg::ListTwice(k));
    }
    v.extend([Dmg::ListGhost, Dmg::StraySlide, Dmg::StrayMedia]);
    v
}
/// The damages that are combined with each other (on the deck "three").
fn some_damages() -> Vec<Dmg> {
    let s = |x: &str| x.to_string();
    let pr = "ppt/_rels/presentation.xml.rels";
    let s2 = "ppt/slides/_rels/slide2.xml.rels";
    let mut v = vec![];
    for n in ["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", pr, "ppt/slides/slide1.xml", "ppt/slides/slide2.xml", s2, "ppt/slideLayouts/slideLayout2.xml", "ppt/charts/chart1.xml", "ppt/media/image1.png", "ppt/notesSlides/notesSlide2.xml", "ppt/notesMasters/notesMaster1.xml", "docProps/core.xml", "ppt/theme/theme1.xml"] {
        v.push(Dmg::NoPart(s(n)));
    }
    for (r, t) in [(pr, "ppt/slides/slide1.xml"), (pr, "ppt/slides/slide3.xml"), (pr, "ppt/notesMasters/notesMaster1.xml"), (s2, "ppt/media/image1.png"), ("_rels/.rels", "ppt/presentation.xml")] {
        v.push(Dmg::NoEntry(s(r), s(t)));
    }
    for (r, t) in [(pr, "ppt/slides/slide1.xml"), (s2, "ppt/media/image1.png"), (s2, "ppt/charts/chart1.xml"), (s2, "ppt/slideLayouts/slideLayout2.xml"), ("_rels/.rels", "docProps/core.xml"), ("_rels/.rels", "ppt/presentation.xml")] {
        v.push(Dmg::Target(s(r), s(t)));
    }
    for t in ["/ppt/slides/slide1.xml", "/ppt/charts/chart1.xml", "png", "rels", "xml", "/ppt/presentation.xml"] {
        v.push(Dmg::NoType(s(t)));
    }
    v.extend([Dmg::Unlist(0), Dmg::Unlist(2), Dmg::ListGhost, Dmg::ListTwice(1), Dmg::StraySlide, Dmg::StrayMedia, Dmg::Amp(s("ppt/slides/slide1.xml"))]);
    for n in ["ppt/slides/slide2.xml", "ppt/presentation.xml", pr, "[Content_Types].xml", "_rels/.rels"] {
        v.push(Dmg::Markup(s(n), 2));
    }
    v
}

type Parts = BTreeMap<String, Vec<u8>>;
fn parts_of(r: &PptxRepair) -> Result<Parts, Fail> {
    let b = r.to_bytes().map_err(|e| Fail { sig: "error:save".into(), msg: e.to_string() })?;
    Ok(pkg_of(&b)?.parts.clone().into_iter().collect())
}
fn opened(p: &Pkg) -> Result<PptxRepair, Fail> {
    PptxRepair::from_bytes(&p.to_zip()).map_err(|e| Fail { sig: "error:open".into(), msg: e.to_string() })
}
fn key(i: &RepairIssue) -> String {
    match i {
        RepairIssue::InvalidXml { path, .. } => format!("invalid {path}"),
        i => format!("{i:?}"),
    }
}
fn keys(v: &[RepairIssue]) -> BTreeSet<String> {
    v.iter().map(key).collect()
}
fn texts_of(p: &Pkg, s: &str) -> Option<Vec<String>> {
    p.with_doc(s, |d| d.all("t").iter().map(|t| t.text()).collect()).ok()
}

/// A sound deck: nothing to report, nothing changed.
fn sound(ch: &mut Ch, p: &Pkg, what: &str) -> Res {
    let mut r = opened(p)?;
    let before: Parts = p.parts.clone().into_iter().collect();
    let i = r.validate();
    ch.check(i.is_empty(), format!("false-report:{}", i.first().map(|i| format!("{i:?}").split([' ', '{']).next().unwrap_or("").to_string()).unwrap_or_default()), || format!("{what}: {i:?}"));
    let res = r.repair();
    ch.check(res.issues_found.is_empty() && res.is_valid && res.issues_repaired.is_empty() && res.issues_unrepaired.is_empty(), "false-repair", || format!("{what}: {res:?}"));
    ch.check(parts_of(&r)? == before, "sound-changed", || format!("{what}: repairing changed a sound deck"));
    ch.nontrivial(hash_str(what));
    ch.outcome(i.len() as u64);
    Ok(())
}

fn damaged(ch: &mut Ch, base: &Pkg, dmg: &[Dmg], style: usize, what: &str) -> Res {
    let mut p = base.clone();
    let tables_last = |d: &Dmg| matches!(d, Dmg::Markup(..));
    for d in dmg.iter().filter(|d| !tables_last(d)) {
        if !apply(&mut p, d) {
            return Ok(());
        }
    }
    p = restyle(&p, style);
    for d in dmg.iter().filter(|d| tables_last(d)) {
        if !apply(&mut p, d) {
            return Ok(());
        }
    }
    let what = format!("{what}, {}: {dmg:?}", STYLES[style]);
    ch.note(|| what.clone());
    let mut r = opened(&p)?;
    let found = r.validate();
    ch.check(keys(&found) == keys(&r.validate()), "validate-twice", || format!("{what}: two validations differ"));
    for d in dmg {
        let gone = |n: &str| p.parts.keys().any(|r| r.ends_with(".rels") && pkg::source_of_rels(r).is_some_and(|s| s.is_empty() || p.parts.contains_key(&s)) && p.rels(&pkg::source_of_rels(r).unwrap()).iter().any(|e| !e.external && e.part == n));
        let must = match d {
            Dmg::NoPart(n) => matches!(n.as_str(), "[Content_Types].xml" | "_rels/.rels" | "ppt/presentation.xml" | "ppt/_rels/presentation.xml.rels") || gone(n),
            Dmg::Target(r, _) => p.parts.contains_key(r),
            Dmg::Unlist(_) => base.slides().iter().any(|s| p.parts.contains_key(s) && !p.slides().contains(s)),
            Dmg::Markup(n, _) | Dmg::Amp(n) => p.parts.contains_key(n),
            Dmg::ListGhost | Dmg::StraySlide | Dmg::StrayMedia => true,
            Dmg::NoEntry(r, t) => r.ends_with("presentation.xml.rels") && t.contains("/slides/"),
            Dmg::NoType(_) => p.parts.contains_key("[Content_Types].xml") && p.parts.keys().any(|n| n != "[Content_Types].xml" && p.content_type(n) != base.content_type(n) && (gone(n) || p.content_type(n).is_none())),
            Dmg::ListTwice(_) => false,
        };
        ch.check(!must || !found.is_empty(), format!("unreported:{}", format!("{d:?}").split('(').next().unwrap()), || format!("{what}: validate reports nothing"));
    }
    let res = r.repair();
    ch.outcome(hash_str(&format!("{:?}{:?}", keys(&res.issues_repaired), keys(&res.issues_unrepaired))));
    ch.check(keys(&found).is_subset(&keys(&res.issues_found)), "found-less", || format!("{what}: repair found {:?}, validation {found:?}", res.issues_found));
    let (rep, unrep) = (keys(&res.issues_repaired), keys(&res.issues_unrepaired));
    ch.check(rep.union(&unrep).cloned().collect::<BTreeSet<_>>() == keys(&res.issues_found) && rep.is_disjoint(&unrep), "issue-lost", || format!("{what}: {res:?}"));
    // what was repaired is gone, in the object and in what it writes
    let after = parts_of(&r)?;
    let q = { let b = r.to_bytes().unwrap(); pkg_of(&b)? };
    let mut r2 = opened(&q)?;
    let left = keys(&r2.validate());
    ch.check(left == keys(&r.validate()), "stored-differs", || format!("{what}: stored package has {left:?}"));
    ch.check(rep.is_disjoint(&left), "still-there", || format!("{what}: reported repaired but still there: {:?}", rep.intersection(&left).collect::<Vec<_>>()));
    ch.check(left.is_subset(&unrep), "new-issues", || format!("{what}: repairing left {left:?}, told {unrep:?}"));
    ch.check(res.is_valid == left.is_empty(), "is-valid", || format!("{what}: is_valid {} with {left:?}", res.is_valid));
    for i in &res.issues_found {
        let fixable = i.is_repairable() && !matches!(i, RepairIssue::InvalidXml { .. });
        ch.check(!fixable || rep.contains(&key(i)), "repairable-unrepaired", || format!("{what}: {i:?} is repairable and was not repaired"));
    }
    // a second time nothing happens
    let res2 = r2.repair();
    ch.check(parts_of(&r2)? == after && res2.issues_repaired.is_empty() && keys(&res2.issues_found) == left, "second-repair", || format!("{what}: second repair {res2:?}"));
    r.repair();
    ch.check(parts_of(&r)? == after, "second-repair", || format!("{what}: repairing again changed the package"));
    // nothing else is touched
    let mut may: BTreeSet<String> = ["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels"].iter().map(|s| s.to_string()).collect();
    for i in &res.issues_found {
        match i {
            RepairIssue::InvalidXml { path, .. } | RepairIssue::MissingPart { path, .. } => { may.insert(path.clone()); }
            RepairIssue::BrokenRelationship { source, .. } => { may.insert(source.clone()); may.extend(pkg::source_of_rels(source)); }
            _ => {}
        }
    }
    for (n, b) in &p.parts {
        if !may.contains(n) {
            ch.check(after.get(n) == Some(b), format!("touched:{}", pkg::generic(n)), || format!("{what}: {n} {}", if after.contains_key(n) { "changed" } else { "removed" }));
        }
    }
    // unaffected bookkeeping stays as it is, too
    for n in &may {
        let own = |i: &RepairIssue| match i {
            RepairIssue::InvalidXml { path, .. } | RepairIssue::MissingPart { path, .. } => path == n,
            RepairIssue::BrokenRelationship { source, .. } => source == n || pkg::source_of_rels(source).as_deref() == Some(n) || n.contains("presentation.xml"),
            RepairIssue::InvalidContentType { .. } => n == "[Content_Types].xml",
            _ => n.contains("presentation.xml"),
        };
        if let Some(b) = p.parts.get(n) {
            if !res.issues_found.iter().any(own) {
                ch.check(after.get(n) == Some(b), format!("touched:{}", pkg::generic(n)), || format!("{what}: {n} changed without reason"));
            }
        }
    }
    // an ampersand inside a namespace leaves a readable table of another namespace
    if style != 0 && dmg.iter().any(|d| matches!(d, Dmg::Markup(_, 6))) {
        ch.nontrivial(hash_str(&what));
        return Ok(());
    }
    // slides
    let main_ok = dmg.iter().all(|d| !matches!(d, Dmg::Markup(n, _) if n == "ppt/presentation.xml") && !matches!(d, Dmg::NoPart(n) if n.contains("ppt/presentation.xml") || n.contains("presentation.xml.rels")) && !matches!(d, Dmg::Markup(n, _) if n.contains("presentation.xml.rels")) && !matches!(d, Dmg::Unlist(_) | Dmg::NoEntry(..) | Dmg::Target(..)));
    let shown = q.slides();
    for s in base.slides() {
        let Some(t) = texts_of(&p, &s).or_else(|| dmg.iter().any(|d| matches!(d, Dmg::Amp(n) if n == &s && p.parts.contains_key(n))).then(Vec::new)) else { continue };
        ch.check(shown.contains(&s), "slide-lost", || format!("{what}: slide {s} is not shown, only {shown:?}"));
        if !t.is_empty() {
            ch.check(texts_of(&q, &s) == Some(t.clone()), "slide-text", || format!("{what}: {s} has {:?}, wanted {t:?}", texts_of(&q, &s)));
        } else {
            ch.check(texts_of(&q, &s).is_some_and(|t| t.iter().any(|t| t.ends_with(" & more"))), "ampersand", || format!("{what}: {s} has {:?}", texts_of(&q, &s)));
        }
    }
    if main_ok {
        let order: Vec<&String> = shown.iter().filter(|s| base.slides().contains(s)).collect();
        let want: Vec<String> = base.slides().into_iter().filter(|s| shown.contains(s)).collect();
        let mut dd = order.clone();
        dd.dedup();
        ch.check(dd == want.iter().collect::<Vec<_>>(), "slide-order", || format!("{what}: slides are {shown:?}"));
    }
    for s in &shown {
        ch.check(q.parts.contains_key(s), "ghost-slide", || format!("{what}: slide list names {s}"));
    }
    // the result opens
    let f = scratch().join(format!("v02-{}.pptx", ch.worker)).to_str().unwrap().to_string();
    r.save(&f).map_err(|e| Fail { sig: "error:save".into(), msg: format!("{what}: {e}") })?;
    match PresentationReader::open(&f) {
        Err(e) => ch.check(false, "unreadable", || format!("{what}: {e}")),
        Ok(x) => ch.check(x.slide_count() == shown.len(), "unreadable", || format!("{what}: {} slides read, {} listed", x.slide_count(), shown.len())),
    }
    // what is called valid has no structural fault of the kinds repair is about
    if res.is_valid {
        let (_, fs) = pkg::check(&q);
        for f in fs {
            let about = ["ref-dangling", "rel-dangling", "rel-dup-id", "ct-dup", "no-content-type", "malformed", "sldId", "slide-not-listed", "rels-content-type", "rel-target-type", "rel-incomplete", "slide-part-unlisted"].iter().any(|k| f.sig.starts_with(k));
            let dup = f.sig == "sldId-dup" || f.sig == "sldId-dup-rid"; // repair does not deal with double entries
            // an entry whose relationship was removed by hand is not reported by repair
            if dmg.iter().any(|d| matches!(d, Dmg::Markup(_, 6))) {
                continue; // the ampersand is in a namespace: readable again, but another namespace
            }
            let removed_entry = f.sig.starts_with("ref-dangling") && dmg.iter().any(|d| matches!(d, Dmg::NoEntry(..)) || matches!(d, Dmg::NoPart(n) if n.ends_with(".rels")));
            if about && !dup && !removed_entry {
                ch.check(false, format!("unsound:{}", f.sig), || format!("{what}: called valid but {}", f.msg));
            }
        }
    }
    ch.nontrivial(hash_str(&what));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "V02",
        level: "fault_enumeration",
        rule: "every single damage of every base deck, and every pair (thorough: triple) of a damage alphabet, in every way of writing relationship files, through the real repair; sound decks of every kind and way of writing are left alone",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let alphabet = some_damages().len();
            let mut v = vec![
                Scenario::new("sound", format!("every base deck in {} ways of writing", STYLES.len()), 0, |ch| {
                    let (n, p) = ch.of(bases(true));
                    let s = ch.pick(STYLES.len());
                    sound(ch, &restyle(p, s), &format!("{n}, {}", STYLES[s]))
                }),
                Scenario::new("foreign", "sound decks with the parts of other programs' decks: other part names, ids, orders, extensions", 0, |ch| {
                    let k = ch.pick(super::e01::start_count());
                    let (n, p) = super::e01::start(k);
                    let s = ch.pick(STYLES.len());
                    let p = restyle(p, s);
                    sound(ch, &p, &format!("{n}, {}", STYLES[s]))
                }),
                Scenario::new("single", format!("every single damage of {} base decks{}", bases(!q).len(), if q { " (two kinds of broken markup on all but one of them)" } else { " in every way of writing" }), 0, move |ch| {
                    let (n, p) = ch.of(bases(!q));
                    let mut d = all_damages(p);
                    if q && n != &bases(false)[1].0 {
                        d.retain(|d| !matches!(d, Dmg::Markup(_, k) if k % 4 != 2));
                    }
                    let d = d[ch.pick(d.len())].clone();
                    let s = if q { 0 } else { ch.pick(STYLES.len()) };
                    damaged(ch, p, &[d], s, n)
                }),
                Scenario::new("pairs", format!("every pair of {alphabet} damages of one deck in {} ways of writing", if q { 2 } else { STYLES.len() }), 0, move |ch| {
                    let p = &bases(false)[1].1;
                    let d = some_damages();
                    let a = ch.pick(d.len());
                    let b = ch.pick(d.len());
                    if q && a > b {
                        return Ok(());
                    }
                    let s = if q { *ch.of(&[0, 3]) } else { ch.pick(STYLES.len()) };
                    let v = if a == b { vec![d[a].clone()] } else { vec![d[a].clone(), d[b].clone()] };
                    damaged(ch, p, &v, s, "three")
                }),
            ];
            if !q {
                v.push(Scenario::new("triples", format!("every triple of {alphabet} damages of one deck"), 0, move |ch| {
                    let p = &bases(false)[1].1;
                    let d = some_damages();
                    let (a, b, c) = (ch.pick(d.len()), ch.pick(d.len()), ch.pick(d.len()));
                    if a >= b || b >= c {
                        return Ok(());
                    }
                    damaged(ch, p, &[d[a].clone(), d[b].clone(), d[c].clone()], 0, "three")
                }));
            }
            v
        },
        must_cover: || vec![],
    }
}
