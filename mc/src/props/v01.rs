//! V01: package validation accepts generated decks and reports every structural damage.
use super::*;
use crate::decks::*;
use crate::pkg::{self, Pkg};
use ppt_rs::core::validate_package_bytes;
use ppt_rs::generator::*;
use std::sync::OnceLock;

/// Sound packages to damage: plain, every feature, every setting, everything together.
pub fn bases(all: bool) -> &'static Vec<(String, Pkg)> {
    static Q: OnceLock<Vec<(String, Pkg)>> = OnceLock::new();
    static T: OnceLock<Vec<(String, Pkg)>> = OnceLock::new();
    let make = move || {
        let mut v = vec![];
        let mut push = |n: String, s: Vec<SlideContent>, st: PresentationSettings| {
            let b = create_pptx_with_settings("Base", &s, Some(st)).unwrap();
            v.push((n, Pkg::from_bytes(&b).unwrap()));
        };
        let plain = |i: usize| SlideContent::new(&format!("S{i}")).add_bullet(&format!("b{i}"));
        let rich = |i: usize| plain(i).add_image(Image::from_bytes(png(i as u8), 9, 9, "PNG")).add_chart(chart(ChartType::Bar, &format!("c{i}"))).notes(&format!("n{i}"));
        push("plain".into(), vec![plain(0)], PresentationSettings::new());
        push("three".into(), vec![plain(0), rich(1), plain(2).layout(SlideLayout::TwoColumn)], PresentationSettings::new());
        push("links".into(), vec![plain(0).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::url("http://x/"))), plain(1).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::slide(1))).with_ink(ink()).table(table("t"))], PresentationSettings::new());
        let mut st = PresentationSettings::new();
        for (_, f) in SETTINGS {
            st = f(st);
        }
        push("all settings".into(), vec![rich(0), rich(1).with_transition(TransitionType::Fade)], st);
        if all {
            for (n, f) in SETTINGS {
                push(n.to_string(), vec![rich(0)], f(PresentationSettings::new()));
            }
            for (n, f) in FEATURES {
                push(n.to_string(), vec![plain(0), f(plain(1), 1)], PresentationSettings::new());
            }
        }
        v
    };
    if all { T.get_or_init(make) } else { Q.get_or_init(make) }
}
fn zipped(p: &Pkg) -> Vec<u8> {
    p.to_zip()
}
fn is_xml(n: &str) -> bool {
    n.ends_with(".xml") || n.ends_with(".rels")
}
/// Byte ranges of the elements with this local name in a part written by the generator.
pub fn tags(s: &str, name: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut at = 0;
    while let Some(i) = s[at..].find('<').map(|i| at + i) {
        let end = i + s[i..].find('>').map_or(s.len() - i, |e| e + 1);
        let t = s[i + 1..end].split([' ', '/', '>', '\n']).next().unwrap_or("");
        if t.rsplit(':').next() == Some(name) && !s[i + 1..].starts_with('/') {
            // to the end of the element
            let e = if s[..end].ends_with("/>") { end } else { let c = format!("</{t}>"); s[end..].find(&c).map_or(end, |k| end + k + c.len()) };
            v.push((i, e));
        }
        at = end;
    }
    v
}
pub const BREAK: &[(&str, fn(&str) -> Vec<u8>)] = &[
    ("empty", |_| vec![]),
    ("blank", |_| b" \n".to_vec()),
    ("half", |s| { let mut i = s.len() / 2; while !s.is_char_boundary(i) { i += 1; } s.as_bytes()[..i].to_vec() }),
    ("last byte missing", |s| s.trim_end().as_bytes()[..s.trim_end().len() - 1].to_vec()),
    ("last end tag missing", |s| s.as_bytes()[..s.rfind("</").unwrap_or(s.len() / 2)].to_vec()),
    ("stray <", |s| { let i = s.find("?>").map_or(0, |i| i + 2); let j = i + s[i..].find('>').unwrap() + 1; format!("{}<{}", &s[..j], &s[j..]).into_bytes() }),
    ("ampersand", |s| { let j = s.rfind("=\"").unwrap() + 2; format!("{}&{}", &s[..j], &s[j..]).into_bytes() }),
    ("unknown entity", |s| { let i = s.rfind("</").unwrap_or(0); format!("{}&nbsp;{}", &s[..i], &s[i..]).into_bytes() }),
    ("other end tag", |s| { let i = s.rfind("</").map_or(0, |i| i + 2); format!("{}x{}", &s[..i], &s[i..]).into_bytes() }),
    ("second root", |s| format!("{s}<more/>").into_bytes()),
    ("text after root", |s| format!("{s}more").into_bytes()),
    ("attribute twice", |s| { let i = s.find("?>").map_or(0, |i| i + 2); let j = i + s[i..].find("xmlns").unwrap_or(0); format!("{}zz=\"1\" zz=\"2\" {}", &s[..j], &s[j..]).into_bytes() }),
    ("unquoted attribute", |s| { let i = s.find("?>").map_or(0, |i| i + 2); let j = i + s[i..].find("xmlns").unwrap_or(0); format!("{}zz=1 {}", &s[..j], &s[j..]).into_bytes() }),
    ("undeclared prefix", |s| { let i = s.rfind("</").unwrap_or(0); format!("{}<zz:e/>{}", &s[..i], &s[i..]).into_bytes() }),
    ("control character", |s| { let i = s.rfind("</").unwrap_or(0); format!("{}\u{1}{}", &s[..i], &s[i..]).into_bytes() }),
    ("bytes that are not text", |s| { let i = s.rfind("</").unwrap_or(0); let mut v = s.as_bytes()[..i].to_vec(); v.extend([0xff, 0xc0]); v.extend(&s.as_bytes()[i..]); v }),
    ("not XML", |_| b"PK\x03\x04 not xml".to_vec()),
    ("tag never closed", |s| { let i = s.rfind("</").unwrap_or(0); format!("{}<zz>{}", &s[..i], &s[i..]).into_bytes() }),
];

fn must_report(ch: &mut Ch, p: &Pkg, sig: String, what: impl Fn() -> String) -> Res {
    let r = validate_package_bytes(&zipped(p));
    ch.check(!r.is_valid(), format!("unreported:{sig}"), || format!("{} is not reported", what()));
    ch.nontrivial(hash_str(&what()));
    let mut m: Vec<_> = r.issues.iter().map(|i| format!("{:?}{}{:?}", i.category, i.message, i.path)).collect();
    m.sort();
    ch.outcome(hash_str(&m.concat()));
    Ok(())
}
fn damage(ch: &mut Ch, all: bool) -> Res {
    let bs = bases(all);
    let (bn, base) = ch.of(bs);
    let mut p = base.clone();
    let mut names: Vec<String> = p.parts.keys().cloned().collect();
    // a deterministic order
    names.sort();
    match ch.pick(6) {
        0 => {
            let n = ch.of(&names).clone();
            ch.cover("part");
            p.parts.remove(&n);
            if n.ends_with(".rels") && base.rels(&pkg::source_of_rels(&n).unwrap()).is_empty() {
                return Ok(());
            }
            must_report(ch, &p, format!("part:{}", pkg::generic(&n)), || format!("{bn}: without {n}"))
        }
        1 => {
            let rels: Vec<String> = names.iter().filter(|n| n.ends_with(".rels")).cloned().collect();
            let n = ch.of(&rels).clone();
            let s = p.text(&n);
            let t = tags(&s, "Relationship");
            if t.is_empty() {
                return Ok(());
            }
            let (a, b) = t[ch.pick(t.len())];
            ch.cover("entry");
            p.set(&n, format!("{}{}", &s[..a], &s[b..]));
            let k = s[a..b].split("Type=\"").nth(1).and_then(|x| x.split('"').next()).map(pkg::short).unwrap_or("").to_string();
            must_report(ch, &p, format!("relationship:{}:{k}", pkg::generic(&n)), || format!("{bn}: {n} without {}", &s[a..b]))
        }
        2 => {
            let rels: Vec<String> = names.iter().filter(|n| n.ends_with(".rels")).cloned().collect();
            let n = ch.of(&rels).clone();
            let s = p.text(&n);
            let t: Vec<_> = tags(&s, "Relationship").into_iter().filter(|(a, b)| !s[*a..*b].contains("External")).collect();
            if t.is_empty() {
                return Ok(());
            }
            let (a, b) = t[ch.pick(t.len())];
            let e = &s[a..b];
            let i = a + e.find("Target=\"").unwrap() + 8;
            let j = i + s[i..].find('"').unwrap();
            let tgt = &s[i..j];
            let way = ch.pick(4);
            let new = match way {
                0 => format!("{tgt}.gone"),
                1 => format!("/{}", tgt.trim_start_matches("../").trim_start_matches('/')),
                2 => format!("../../{tgt}x"),
                _ => tgt.replacen('.', "99.", 1),
            };
            p.set(&n, format!("{}{new}{}", &s[..i], &s[j..]));
            let src = pkg::source_of_rels(&n).unwrap();
            if p.parts.contains_key(&pkg::resolve(&src, &new)) {
                return Ok(()); // still leads somewhere
            }
            ch.cover("target");
            must_report(ch, &p, format!("target:{}:{way}", pkg::generic(&n)), || format!("{bn}: {n} leads to {new} instead of {tgt}"))
        }
        3 => {
            let s = p.text("[Content_Types].xml");
            let mut t = tags(&s, "Override");
            t.extend(tags(&s, "Default"));
            let (a, b) = t[ch.pick(t.len())];
            p.set("[Content_Types].xml", format!("{}{}", &s[..a], &s[b..]));
            // an entry nothing uses may go
            if names.iter().all(|n| n == "[Content_Types].xml" || p.content_type(n) == base.content_type(n)) {
                return Ok(());
            }
            ch.cover("type");
            let e = &s[a..b];
            must_report(ch, &p, format!("type:{}", pkg::generic(e.split('"').nth(1).unwrap_or(""))), || format!("{bn}: content types without {e}"))
        }
        4 => {
            let s = p.text("ppt/presentation.xml");
            let t: Vec<_> = tags(&s, "sldId").into_iter().filter(|(a, b)| s[*a..*b].contains("r:id")).collect();
            let (a, b) = t[ch.pick(t.len())];
            let way = ch.pick(5);
            let e = &s[a..b];
            let new = match way {
                0 => String::new(),
                1 => format!("{e}{e}"),
                2 => e.replace("r:id=\"", "r:id=\"x"),
                3 => e.replace("id=\"2", "id=\"1"),
                _ => format!("{e}{}", e.replace("id=\"2", "id=\"3")),
            };
            if new == e {
                return Ok(());
            }
            ch.cover("list");
            p.set("ppt/presentation.xml", format!("{}{new}{}", &s[..a], &s[b..]));
            must_report(ch, &p, format!("slide-list:{way}"), || format!("{bn}: slide list has {new:?} for {e:?}"))
        }
        _ => {
            let x: Vec<String> = names.iter().filter(|n| is_xml(n)).cloned().collect();
            let n = ch.of(&x).clone();
            let s = p.text(&n);
            let (w, f) = ch.of(BREAK);
            let b = f(&s);
            // the independent parser agrees that it is broken
            if crate::xml::parse(&b).is_ok() {
                return fail("harness", format!("{w} leaves {n} of {bn} well-formed"));
            }
            p.parts.insert(n.clone(), b);
            ch.cover("markup");
            must_report(ch, &p, format!("markup:{w}"), || format!("{bn}: {n} is broken ({w})"))
        }
    }
}
pub fn prop() -> Prop {
    Prop {
        id: "V01",
        level: "fault_enumeration",
        rule: "every single structural damage (part, relationship entry, relationship target, content type, slide list entry, 18 ways of breaking the markup of a part) of every base deck must be reported; every deck of the lattice must be accepted",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let bud = if q { 2 } else { 3 };
            vec![
                Scenario::new("damage", format!("every single damage of {} base decks", bases(!q).len()), 0, move |ch| damage(ch, !q)),
                Scenario::new("sound", format!("1..{} slides, all sets of <= {bud} features/settings", if q { 2 } else { 3 }), bud, move |ch| {
                    let d = deck(ch, 1, if q { 2 } else { 3 }, true, true);
                    let b = bytes_of(d.build(), &d.describe())?;
                    let r = validate_package_bytes(&b);
                    ch.check(r.is_valid(), "sound-rejected", || format!("{}: {:?}", d.describe(), r.issues));
                    ch.nontrivial(hash_str(&d.describe()));
                    ch.outcome(hash_str(&format!("{:?}", r.issues.len())));
                    Ok(())
                }),
                Scenario::new("many", "1..40 slides with up to every kind of part each", 0, |ch| {
                    let n = 1 + ch.pick(40);
                    let k = ch.pick(3);
                    let s = (0..n).map(|i| {
                        let s = SlideContent::new(&format!("S{i}"));
                        match (k, i % 3) {
                            (0, _) => s,
                            (1, _) | (_, 0) => s.notes("n").add_image(Image::from_bytes(png(i as u8), 9, 9, "PNG")),
                            _ => s.add_chart(chart(ChartType::Pie, "p")).add_chart(chart(ChartType::Bar, "q")),
                        }
                    }).collect();
                    let r = validate_package_bytes(&bytes_of(create_pptx_with_content("Many", s), "many")?);
                    ch.check(r.is_valid(), "sound-rejected", || format!("{n} slides of kind {k}: {:?}", r.issues));
                    ch.nontrivial((n * 3 + k) as u64);
                    ch.outcome((n * 3 + k) as u64);
                    Ok(())
                }),
            ]
        },
        must_cover: || vec!["part", "entry", "target", "type", "list", "markup"],
    }
}
