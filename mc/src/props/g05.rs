use super::*;
use crate::decks::{self, *};
use crate::pkg::{self, Pkg};
use ppt_rs::generator::*;
use ppt_rs::{Presentation, PptxError};
use std::collections::BTreeMap;
use std::io::{Cursor, Seek, SeekFrom, Write};

/// Lazy source with the default feature probe (the slide is regenerated each time it is asked for).
pub struct Plain(pub Vec<SlideContent>);
impl LazySlideSource for Plain {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
}
/// Lazy source that answers the probes itself.
struct Probed(Vec<SlideContent>);
impl LazySlideSource for Probed {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        self.0.get(i).cloned()
    }
    fn slide_features(&self, i: usize) -> Option<(bool, usize)> {
        self.0.get(i).map(|s| (s.notes.is_some(), s.charts.len()))
    }
    fn slide_has_notes(&self, i: usize) -> bool {
        self.0.get(i).is_some_and(|s| s.notes.is_some())
    }
    fn slide_chart_count(&self, i: usize) -> usize {
        self.0.get(i).map_or(0, |s| s.charts.len())
    }
}
/// A source that has no slide at one of the indices it counts.
struct Holed(Vec<SlideContent>, usize);
impl LazySlideSource for Holed {
    fn slide_count(&self) -> usize {
        self.0.len()
    }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> {
        if i == self.1 {
            None
        } else {
            self.0.get(i).cloned()
        }
    }
}
/// Destination that accepts at most n bytes a time.
struct Short(Cursor<Vec<u8>>, usize);
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Short {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

/// Parts in comparable form: dates blanked, content types as a set.
pub fn comparable(p: &Pkg) -> BTreeMap<String, Vec<u8>> {
    let mut m = p.normalized();
    if let Ok(Ok(e)) = p.xml("[Content_Types].xml").as_deref() {
        let mut v: Vec<String> = e.elems().map(|x| x.canon()).collect();
        v.sort();
        m.insert("[Content_Types].xml".into(), v.join("\n").into_bytes());
    }
    m
}
pub fn compare(a: &Pkg, b: &Pkg, sig: &str, ctx: &str) -> Vec<Fail> {
    let mut out = vec![];
    for d in &b.dups {
        out.push(Fail { sig: format!("{sig}:duplicate-entry"), msg: format!("{ctx}: {d} twice") });
    }
    let (x, y) = (comparable(a), comparable(b));
    for (n, v) in &x {
        match y.get(n) {
            None => out.push(Fail { sig: format!("{sig}:missing:{}", kind(n)), msg: format!("{ctx}: {n} missing") }),
            Some(w) if w != v => {
                let i = v.iter().zip(w).take_while(|(a, b)| a == b).count();
                let cut = |b: &[u8]| String::from_utf8_lossy(&b[i.saturating_sub(20).min(b.len())..(i + 60).min(b.len())]).into_owned();
                out.push(Fail { sig: format!("{sig}:differs:{}", kind(n)), msg: format!("{ctx}: {n} differs at {i}: {:?} / {:?}", cut(v), cut(w)) })
            }
            _ => {}
        }
    }
    for n in y.keys() {
        if !x.contains_key(n) {
            out.push(Fail { sig: format!("{sig}:extra:{}", kind(n)), msg: format!("{ctx}: {n} extra") });
        }
    }
    out
}
/// Part name with digits removed, for signatures.
pub fn kind(n: &str) -> String {
    n.chars().filter(|c| !c.is_ascii_digit()).collect()
}

fn finish(r: Result<Cursor<Vec<u8>>, PptxError>) -> Result<Vec<u8>, PptxError> {
    r.map(|c| c.into_inner())
}

pub fn prop() -> Prop {
    Prop {
        id: "G05",
        level: "exploration",
        rule: "every deck of the feature/settings lattice through every generating entry point (in memory, writer, lazy with default and own probes, template, Presentation), packages compared part by part byte for byte (dates blanked, content types as sets); a counted slide a lazy source cannot supply is an error",
        assumptions: STD,
        scenarios: |t| {
            let b = if t == Tier::Quick { 2 } else { 3 };
            vec![
                Scenario::new("entry-points", format!("0..3 slides, all sets of <= {b} features/settings of {} per slide + {} settings, x 7 entry points", decks::FEATURES.len(), decks::SETTINGS.len() + 1), b, |ch| {
                    let d = decks::deck(ch, 0, 3, true, true);
                    let ctx = d.describe();
                    let base = pkg_of(&bytes_of(d.build(), &ctx)?)?;
                    let s = || Some(d.settings.clone());
                    let mut ways: Vec<(&str, Result<Vec<u8>, PptxError>)> = vec![];
                    ways.push(("lazy", finish(create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Plain(d.slides.clone())), s()))));
                    ways.push(("lazy-probed", finish(create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Probed(d.slides.clone())), s()))));
                    {
                        let mut p = Presentation::with_title(&d.title).with_settings(d.settings.clone());
                        for x in &d.slides {
                            p = p.add_slide(x.clone());
                        }
                        if !d.slides.is_empty() {
                            ways.push(("presentation", p.build()));
                        }
                    }
                    ways.push(("content-writer", finish(create_pptx_with_content_to_writer(Cursor::new(vec![]), &d.title, &d.slides, s()))));
                    ways.push(("short-writes", create_pptx_with_content_to_writer(Short(Cursor::new(vec![]), 7), &d.title, &d.slides, s()).map(|x| x.0.into_inner())));
                    if !d.spec.iter().any(|x| !x.contains(':')) {
                        // no settings
                        ways.push(("content", create_pptx_with_content(&d.title, d.slides.clone())));
                        ways.push(("no-settings", create_pptx_with_settings(&d.title, &d.slides, None)));
                    }
                    for (w, r) in ways {
                        let p = pkg_of(&bytes_of(r, &format!("{w} {ctx}"))?)?;
                        ch.report_all(compare(&base, &p, w, &format!("{w} {ctx}")));
                        ch.step();
                    }
                    ch.nontrivial(hash_str(&ctx));
                    ch.outcome(hash_str(&format!("{:?}", base.parts.keys())));
                    Ok(())
                }),
                Scenario::new("plain", "create_pptx and create_pptx_to_writer, 0..12 slides x 3 titles", 0, |ch| {
                    let n = ch.pick(13);
                    let t = *ch.of(&["Deck", "A & <b>", ""]);
                    let a = pkg_of(&bytes_of(create_pptx(t, n), "create_pptx")?)?;
                    let b = pkg_of(&bytes_of(finish(create_pptx_to_writer(Cursor::new(vec![]), t, n)), "create_pptx_to_writer")?)?;
                    ch.report_all(compare(&a, &b, "plain-writer", &format!("{n} slides {t:?}")));
                    let (m, fs) = pkg::check(&a);
                    ch.report_all(fs);
                    ch.check(m.slides.len() == n, "plain-count", || format!("{} slides for {n}", m.slides.len()));
                    ch.nontrivial(hash_str(&format!("{t}{n}")));
                    Ok(())
                }),
                Scenario::new("template", "create_pptx_with_template against the template setting, 1..2 slides with one feature", 1, |ch| {
                    let d = decks::deck(ch, 1, 2, false, false);
                    let base = create_pptx_with_settings(&d.title, &d.slides, Some(PresentationSettings::new().template(decks::template_file())));
                    let a = pkg_of(&bytes_of(base, "template setting")?)?;
                    let b = pkg_of(&bytes_of(create_pptx_with_template(&d.title, &d.slides, &decks::template_file(), None), "create_pptx_with_template")?)?;
                    ch.report_all(compare(&a, &b, "with-template", &d.describe()));
                    ch.nontrivial(hash_str(&d.describe()));
                    Ok(())
                }),
                Scenario::new("holes", "lazy sources of 1..3 slides lacking one counted slide, one feature", 1, |ch| {
                    let d = decks::deck(ch, 1, 3, false, false);
                    let h = ch.pick(d.slides.len());
                    let r = create_pptx_lazy_to_writer(Cursor::new(vec![]), &d.title, Box::new(Holed(d.slides.clone(), h)), None);
                    if let Ok(c) = r {
                        let p = pkg_of(&c.into_inner())?;
                        let (_, fs) = pkg::check(&p);
                        ch.report_all(fs.into_iter().map(|f| Fail { sig: format!("hole:{}", f.sig), msg: format!("slide {h} of {} absent, yet success: {}", d.describe(), f.msg) }).collect());
                    }
                    ch.nontrivial(hash_str(&format!("{h} {}", d.describe())));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
