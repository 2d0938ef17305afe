use super::*;
use ppt_rs::generator::*;

type Sec = (String, usize, usize);
fn overlap(a: &Sec, b: &Sec) -> bool {
    let inside = |x: usize, s: &Sec| x >= s.1 && x - s.1 < s.2;
    a.2 > 0 && b.2 > 0 && (inside(a.1, b) || inside(b.1, a))
}
fn check(m: &SectionManager, want: &[Sec], total: usize) -> Vec<Fail> {
    let mut out = vec![];
    let mut bad = |s: &str, t: String| out.push(Fail { sig: s.into(), msg: t });
    let got: Vec<Sec> = m.sections().iter().map(|s| (s.name.clone(), s.first_slide, s.slide_count)).collect();
    if got != want || m.len() != want.len() || m.is_empty() != want.is_empty() {
        bad("sections", format!("{got:?}, wanted {want:?}"));
        return out;
    }
    for i in 0..total + 2 {
        let g = m.section_for_slide(i).map(|s| (s.name.clone(), s.first_slide, s.slide_count));
        let w = want.iter().find(|s| i >= s.1 && i - s.1 < s.2).cloned();
        if g != w {
            bad("section-for-slide", format!("slide {i}: {g:?}, wanted {w:?} of {want:?}"));
        }
    }
    for n in ["A", "B", "C"] {
        let g = m.get_section(n).map(|s| (s.name.clone(), s.first_slide, s.slide_count));
        if g != want.iter().find(|s| s.0 == n).cloned() {
            bad("get-section", format!("{n}: {g:?} of {want:?}"));
        }
    }
    let x = m.to_xml(total);
    if want.is_empty() {
        if !x.is_empty() {
            bad("xml-empty", x);
        }
        return out;
    }
    match crate::xml::parse_str(&format!("<r xmlns:p=\"urn:p\">{x}</r>")) {
        Err(e) => bad("xml-malformed", e),
        Ok(e) => {
            let secs = e.all("section");
            let got: Vec<(String, Vec<usize>)> = secs
                .iter()
                .map(|s| (s.attr("name").unwrap_or("").to_string(), s.all("sldId").iter().filter_map(|i| i.attr("id").and_then(|v| v.parse().ok())).collect()))
                .collect();
            let exp: Vec<(String, Vec<usize>)> = want.iter().map(|s| (s.0.clone(), (0..total).filter(|i| *i >= s.1 && *i - s.1 < s.2).map(|i| 256 + i).collect())).collect();
            if got != exp {
                bad("xml-slides", format!("markup lists {got:?}, wanted {exp:?}"));
            }
            let mut ids: Vec<&str> = secs.iter().map(|s| s.attr("id").unwrap_or("")).collect();
            for i in &ids {
                let t = i.trim_start_matches('{').trim_end_matches('}');
                let ok = t.split('-').map(|p| p.len()).collect::<Vec<_>>() == [8, 4, 4, 4, 12] && t.chars().all(|c| c == '-' || c.is_ascii_hexdigit()) && i.len() == 38;
                if !ok {
                    bad("xml-guid", format!("section id {i:?}"));
                }
            }
            ids.sort();
            let n = ids.len();
            ids.dedup();
            if ids.len() != n {
                bad("xml-id-shared", format!("sections {want:?} share an id"));
            }
        }
    }
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "T02",
        level: "model_checking",
        rule: "every operation history on the section manager compared with a reference list after every step, including its markup; states are reference lists",
        assumptions: STD,
        scenarios: |t| {
            let depth = if t == Tier::Quick { 3 } else { 4 };
            vec![
                Scenario::new("histories", format!("all histories of {depth} operations: add (3 names x start 0..4 x count 0..3), remove, rename, clear; 5 slides; ids as in the generated presentation"), 0, move |ch| {
                    let mut m = SectionManager::new();
                    let mut want: Vec<Sec> = vec![];
                    const N: &[&str] = &["A", "B", "C"];
                    for _ in 0..depth {
                        match ch.pick(4) {
                            0 => {
                                let s: Sec = (ch.of(&N[..2]).to_string(), ch.pick(5), ch.pick(4));
                                let clash = want.iter().any(|x| overlap(x, &s));
                                let r = m.add_section(&s.0, s.1, s.2);
                                ch.check(r.is_err() == clash, "add", || format!("adding {s:?} to {want:?} gave {r:?}"));
                                if r.is_ok() {
                                    let at = want.iter().position(|x| x.1 > s.1).unwrap_or(want.len());
                                    want.insert(at, s);
                                }
                            }
                            1 => {
                                let n = *ch.of(N);
                                let r = m.remove_section(n);
                                let had = want.iter().any(|s| s.0 == n);
                                ch.check(r == had, "remove", || format!("removing {n} from {want:?} gave {r}"));
                                want.retain(|s| s.0 != n);
                            }
                            2 => {
                                let (a, b) = (*ch.of(N), *ch.of(N));
                                let r = m.rename_section(a, b);
                                let i = want.iter().position(|s| s.0 == a);
                                ch.check(r == i.is_some(), "rename", || format!("renaming {a} in {want:?} gave {r}"));
                                if let Some(i) = i {
                                    want[i].0 = b.to_string();
                                }
                            }
                            _ => {
                                m.clear();
                                want.clear();
                            }
                        }
                        ch.step();
                        ch.state(hash_str(&format!("{want:?}")));
                        ch.report_all(check(&m, &want, 5));
                    }
                    ch.note(|| format!("{want:?}"));
                    ch.nontrivial(hash_str(&format!("{want:?}")));
                    Ok(())
                }),
                Scenario::new("extremes", "pairs of sections with starts and counts over {0,1,usize::MAX/2,usize::MAX-1,usize::MAX}", 0, |ch| {
                    const N: &[usize] = &[0, 1, usize::MAX / 2, usize::MAX - 1, usize::MAX];
                    let mut m = SectionManager::new();
                    let mut want: Vec<Sec> = vec![];
                    for n in ["A", "B"] {
                        let s: Sec = (n.into(), *ch.of(N), *ch.of(N));
                        let clash = want.iter().any(|x| overlap(x, &s));
                        let r = m.add_section(&s.0, s.1, s.2);
                        ch.check(r.is_err() == clash, "add-extreme", || format!("adding {s:?} to {want:?} gave {r:?}"));
                        if r.is_ok() {
                            let at = want.iter().position(|x| x.1 > s.1).unwrap_or(want.len());
                            want.insert(at, s);
                        }
                    }
                    ch.report_all(check(&m, &want, 3));
                    ch.nontrivial(hash_str(&format!("{want:?}")));
                    Ok(())
                }),
                Scenario::new("slide-ids", "section slide ids match the ids of generated presentations of 1..12 slides", 0, |ch| {
                    let n = 1 + ch.pick(12);
                    let p = pkg_of(&bytes_of(create_pptx("D", n), "create_pptx")?)?;
                    let ids: Vec<String> = p.with_doc("ppt/presentation.xml", |e| e.all("sldId").iter().filter_map(|s| s.attr("id").map(|x| x.to_string())).collect()).map_err(|e| Fail { sig: "presentation".into(), msg: e })?;
                    let mut m = SectionManager::new();
                    m.add_section("all", 0, n).map_err(|e| Fail { sig: "add".into(), msg: e })?;
                    let e = crate::xml::parse_str(&format!("<r xmlns:p=\"urn:p\">{}</r>", m.to_xml(n))).map_err(|e| Fail { sig: "xml-malformed".into(), msg: e })?;
                    let got: Vec<String> = e.all("sldId").iter().filter_map(|s| s.attr("id").map(|x| x.to_string())).collect();
                    ch.check(got == ids, "slide-ids", || format!("section lists {got:?}, presentation has {ids:?}"));
                    ch.nontrivial(n as u64);
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
