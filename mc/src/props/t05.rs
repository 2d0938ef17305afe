//! T05: the dates in a document are valid and are those of the clock.
use super::*;
use crate::decks::*;
use crate::pkg::Pkg;
use crate::sched::at_time;
use crate::xml::*;
use ppt_rs::generator::*;
use ppt_rs::parts::{CorePropertiesPart, Part};

const TERMS: &str = "http://purl.org/dc/terms/";

/// The calendar, counted day by day.
fn calendar() -> &'static Vec<(u32, u32, u32)> {
    static V: std::sync::OnceLock<Vec<(u32, u32, u32)>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![];
        for y in 1970..10000u32 {
            let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
            for (m, n) in [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31].iter().enumerate() {
                v.extend((1..=*n).map(|d| (y, m as u32 + 1, d)));
            }
        }
        v
    })
}
fn expected(day: usize, sec: u32) -> String {
    let (y, m, d) = calendar()[day];
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", sec / 3600, sec / 60 % 60, sec % 60)
}
/// The same instant in any of the forms of W3CDTF with seconds in UTC.
fn same(got: &str, want: &str) -> bool {
    let t = got.strip_suffix('Z').or_else(|| got.strip_suffix("+00:00"));
    let t = t.map(|t| match t.split_once('.') {
        Some((t, f)) if !f.is_empty() && f.chars().all(|c| c.is_ascii_digit()) => t,
        _ => t,
    });
    t == Some(want)
}
fn dates(ch: &mut Ch, what: &str, e: &Elem, created: &str, modified: &str) {
    for (n, want) in [("created", created), ("modified", modified)] {
        let got: Vec<String> = e.elems().filter(|k| k.is(TERMS, n)).map(|k| k.text()).collect();
        ch.check(got.len() == 1 && same(&got[0], want), n, || format!("{what}: {n} is {got:?}, the clock said {want}Z"));
    }
}
fn part(ch: &mut Ch, day: usize, sec: u32, ns: i64) {
    let p = at_time(day as i64 * 86400 + sec as i64, ns, CorePropertiesPart::new);
    let want = expected(day, sec);
    for (n, d) in [("created", &p.created), ("modified", &p.modified)] {
        ch.check(d.as_deref().is_some_and(|d| same(d, &want)), n, || format!("new properties: {n} is {d:?}, the clock said {want}Z"));
    }
    ch.step();
}
fn deck(ch: &mut Ch, day: usize, sec: u32, ns: i64) -> Res {
    let b = at_time(day as i64 * 86400 + sec as i64, ns, || create_pptx_with_content("T", vec![SlideContent::new("a")]));
    let p = pkg_of(&bytes_of(b, "deck")?)?;
    let want = expected(day, sec);
    let doc = p.doc("docProps/core.xml").map_err(|m| Fail { sig: "core".into(), msg: m })?;
    dates(ch, "generated deck", &doc, &want, &want);
    ch.step();
    Ok(())
}
const HOUR: [u32; 4] = [0, 1, 45296, 86399];
/// The days of the years 1970 to 2120.
const DAYS: usize = 55152;

pub fn prop() -> Prop {
    Prop {
        id: "T05",
        level: "model_checking",
        rule: "at every instant of the stated sets the real code runs under a controlled clock; the dates written equal those of a calendar counted day by day",
        assumptions: &["the clock is read through clock_gettime (the standard library's only source), which this program replaces", "bounds as stated per scenario; nothing is claimed beyond them"],
        scenarios: |t| {
            let q = t == Tier::Quick;
            vec![
                Scenario::new("days", "new document properties at 4 times of every day from 1970 to 2120", 0, |ch| {
                    let c = ch.pick(DAYS / 48);
                    for day in c * 48..(c + 1) * 48 {
                        HOUR.iter().for_each(|s| part(ch, day, *s, 0));
                        ch.state(hash_str(&expected(day, 0)));
                    }
                    ch.nontrivial(c as u64);
                    ch.outcome(c as u64);
                    Ok(())
                }),
                Scenario::new("seconds", "every second of a day, with 3 fractions of a second", 0, |ch| {
                    let c = ch.pick(240);
                    for s in c * 360..(c + 1) * 360 {
                        [0, 1, 999_999_999].iter().for_each(|ns| part(ch, 20000, s as u32, *ns));
                        ch.state(s as u64);
                    }
                    ch.nontrivial(c as u64);
                    ch.outcome(c as u64);
                    Ok(())
                }),
                Scenario::new("far", "the days around every turn of the month of every year up to 9999", 0, |ch| {
                    let y = 1970 + ch.pick(8030) as u32;
                    let c = calendar();
                    let from = c.partition_point(|d| d.0 < y);
                    let to = c.partition_point(|d| d.0 <= y);
                    for day in from..to {
                        if c[day].2 == 1 || c[day].2 >= 28 {
                            part(ch, day, 0, 0);
                            part(ch, day, 86399, 0);
                        }
                    }
                    ch.nontrivial(y as u64);
                    ch.outcome(y as u64);
                    Ok(())
                }),
                Scenario::new("decks", format!("decks generated on every day from 1970 to 2120, at {} times", if q { 1 } else { 4 }), 0, move |ch| {
                    let day = ch.pick(DAYS);
                    for s in if q { &HOUR[3..] } else { &HOUR[..] } {
                        deck(ch, day, *s, 0)?;
                    }
                    ch.state(day as u64);
                    ch.nontrivial(day as u64);
                    ch.outcome(day as u64);
                    Ok(())
                }),
                Scenario::new("before", "a clock before 1970: valid dates", 0, |ch| {
                    let s = -[1i64, 86400, 1 << 31][ch.pick(3)];
                    let p = at_time(s, 0, CorePropertiesPart::new);
                    let d = p.created.clone().unwrap_or_default();
                    ch.check(d.len() > 10 && same(&d, &d[..19]) && d[5..7].parse::<u32>().is_ok_and(|m| (1..=12).contains(&m)), "before", || format!("clock {s}: {d}"));
                    let b = at_time(s, 0, || create_pptx_with_content("T", vec![SlideContent::new("a")]));
                    pkg_of(&bytes_of(b, "deck")?)?;
                    ch.outcome(s as u64);
                    ch.nontrivial(s as u64);
                    Ok(())
                }),
                Scenario::new("histories", format!("all histories of {} operations (touch, write and reread, change the title) at 5 instants", if q { 3 } else { 4 }), 0, move |ch| {
                    const T: [(usize, u32); 5] = [(0, 0), (11016, 86399), (11017, 0), (20514, 45296), (47540, 3661)];
                    let t0 = T[ch.pick(5)];
                    let at = |t: (usize, u32)| t.0 as i64 * 86400 + t.1 as i64;
                    let mut p = at_time(at(t0), 0, CorePropertiesPart::new);
                    let mut modified = t0;
                    let mut rev = 1;
                    for _ in 0..if q { 3 } else { 4 } {
                        let t = T[ch.pick(5)];
                        match ch.pick(3) {
                            0 => {
                                at_time(at(t), 0, || p.touch());
                                modified = t;
                                rev += 1;
                            }
                            1 => {
                                let x = p.to_xml().map_err(|e| Fail { sig: "write".into(), msg: e.to_string() })?;
                                p = at_time(at(t), 0, || CorePropertiesPart::from_xml(&x)).map_err(|e| Fail { sig: "read".into(), msg: e.to_string() })?;
                            }
                            _ => at_time(at(t), 0, || {
                                p.set_title("t");
                            }),
                        }
                        ch.step();
                        let x = p.to_xml().map_err(|e| Fail { sig: "write".into(), msg: e.to_string() })?;
                        let d = parse_str(&x).map_err(|e| Fail { sig: "xml".into(), msg: e.to_string() })?;
                        dates(ch, "properties after operations", &d, &expected(t0.0, t0.1), &expected(modified.0, modified.1));
                        ch.check(p.revision == Some(rev), "revision", || format!("revision {:?} after {rev}", p.revision));
                        ch.state(hash_str(&format!("{t0:?} {modified:?} {rev} {:?}", p.title)));
                    }
                    ch.nontrivial(hash_str(&format!("{t0:?}{modified:?}{rev}")));
                    ch.outcome(hash_str(&format!("{modified:?}")));
                    Ok(())
                }),
                Scenario::new("given", "dates and texts given by the caller, written and reread", 0, |ch| {
                    const D: [&str; 5] = ["2020-02-29T01:02:03Z", "1999-12-31T23:59:59+01:00", "2000", "<&\"'>", "a]]>b"];
                    let (a, b) = (D[ch.pick(5)], D[ch.pick(5)]);
                    let mut p = CorePropertiesPart::new();
                    p.created = Some(a.into());
                    p.modified = Some(b.into());
                    let x = p.to_xml().map_err(|e| Fail { sig: "write".into(), msg: e.to_string() })?;
                    let d = parse_str(&x).map_err(|e| Fail { sig: "given-xml".into(), msg: format!("{a:?} {b:?}: {e}") })?;
                    for (n, want) in [("created", a), ("modified", b)] {
                        let got: Vec<String> = d.elems().filter(|k| k.is(TERMS, n)).map(|k| k.text()).collect();
                        ch.check(got == [want], "given", || format!("{n} {got:?} instead of {want:?}"));
                    }
                    let r = CorePropertiesPart::from_xml(&x).map_err(|e| Fail { sig: "read".into(), msg: e.to_string() })?;
                    ch.check(r.created.as_deref() == Some(a) && r.modified.as_deref() == Some(b), "given", || format!("reread {:?} {:?} instead of {a:?} {b:?}", r.created, r.modified));
                    ch.nontrivial(hash_str(&x));
                    ch.outcome(hash_str(&x));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
