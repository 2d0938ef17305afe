//! A01: a presentation is the list of what was added to it; failed calls leave no trace.
use super::g05::compare;
use super::*;
use crate::decks::*;
use ppt_rs::generator::*;
use ppt_rs::Presentation;

fn slides() -> Vec<(&'static str, SlideContent)> {
    let rich = SlideContent::new("Rich").add_bullet("one").add_image(Image::from_bytes(png(1), 9, 9, "PNG")).add_chart(chart(ChartType::Bar, "c")).notes("noted");
    vec![
        ("plain", SlideContent::new("Plain").add_bullet("a").add_bullet("a")),
        ("rich", rich),
        ("untitled", SlideContent::new("")),
        ("tabled", SlideContent::new("Plain").table(table("t")).layout(SlideLayout::TitleOnly)),
    ]
}
fn themes() -> Vec<PresentationTheme> {
    vec![PresentationTheme::tech(), PresentationTheme::corporate()]
}
/// What a presentation is.
#[derive(Clone)]
struct Model {
    title: String,
    slides: Vec<SlideContent>,
    settings: Option<PresentationSettings>,
}
struct Run {
    p: Presentation,
    m: Model,
    log: Vec<String>,
    dir: std::path::PathBuf,
}
fn text(s: &[SlideContent]) -> Vec<String> {
    s.iter().map(|s| format!("{s:?}")).collect()
}
fn others() -> Vec<(&'static str, Presentation, Vec<SlideContent>)> {
    let s = slides();
    vec![
        ("empty", Presentation::with_title("Other"), vec![]),
        ("one", Presentation::with_title("Other").add_slide(s[1].1.clone()).with_theme(PresentationTheme::dark()), vec![s[1].1.clone()]),
        ("two", Presentation::new().with_settings(PresentationSettings::new().slide_show(SlideShowSettings::kiosk())).add_slide(s[2].1.clone()).add_slide(s[0].1.clone()), vec![s[2].1.clone(), s[0].1.clone()]),
    ]
}
impl Run {
    fn new(worker: usize, titled: bool) -> Run {
        let dir = scratch().join(format!("a01-{worker}"));
        std::fs::create_dir_all(&dir).unwrap();
        let t = if titled { "Deck" } else { "" };
        Run { p: if titled { Presentation::with_title("Deck") } else { Presentation::new() }, m: Model { title: t.into(), slides: vec![], settings: None }, log: vec![if titled { "with_title".into() } else { "new".into() }], dir }
    }
    fn op(&mut self, ch: &mut Ch) -> Res {
        let p = self.p.clone();
        match ch.pick(8) {
            0 => {
                let (n, s) = ch.of(&slides()).clone();
                self.log.push(format!("add {n}"));
                self.p = p.add_slide(s.clone());
                self.m.slides.push(s);
            }
            1 => {
                let (n, o, s) = ch.of(&others()).clone();
                self.log.push(format!("append {n}"));
                self.p = p.add_presentation(o);
                self.m.slides.extend(s);
            }
            2 => {
                self.log.push("append itself".into());
                self.p = p.clone().add_presentation(p);
                let s = self.m.slides.clone();
                self.m.slides.extend(s);
            }
            3 => {
                let t = *ch.of(&["New & title", ""]);
                self.log.push(format!("title {t:?}"));
                self.p = p.title(t);
                self.m.title = t.into();
            }
            4 => {
                let k = ch.pick(2);
                self.log.push(format!("theme {k}"));
                self.p = p.with_theme(themes()[k].clone());
                let mut s = self.m.settings.take().unwrap_or_default();
                s.theme = Some(themes()[k].clone());
                self.m.settings = Some(s);
            }
            5 => {
                let k = ch.pick(2);
                self.log.push(format!("settings {k}"));
                let s = [PresentationSettings::new().print(PrintSettings::new().print_what(PrintWhat::Handouts).header("H")), PresentationSettings::new().slide_show(SlideShowSettings::kiosk()).theme(PresentationTheme::modern())][k].clone();
                self.p = p.with_settings(s.clone());
                self.m.settings = Some(s);
            }
            6 => self.failing(ch)?,
            _ => {
                // what was stored is imported and appended
                self.log.push("store, import and append".into());
                let f = self.dir.join("s.pptx");
                let _ = std::fs::remove_file(&f);
                let r = p.save(&f);
                let l = self.log.join(", ");
                ch.check(r.is_ok() == !self.m.slides.is_empty(), "save-result", || format!("{l}: {r:?}"));
                ch.check(f.exists() == r.is_ok(), "bogus-file", || format!("{l}: file exists {}, saving gave {r:?}", f.exists()));
                if r.is_ok() {
                    let o = Presentation::from_path(&f).map_err(|e| Fail { sig: "import".into(), msg: format!("{l}: {e}") })?;
                    let titles = |s: &[SlideContent]| s.iter().map(|s| s.title.clone()).collect::<Vec<_>>();
                    let bullets = |s: &[SlideContent]| s.iter().map(|s| s.bullets.iter().map(|b| b.text.clone()).collect::<Vec<_>>()).collect::<Vec<_>>();
                    ch.check(titles(o.slides()) == titles(&self.m.slides), "import-titles", || format!("{l}: imported {:?}, wanted {:?}", titles(o.slides()), titles(&self.m.slides)));
                    ch.check(bullets(o.slides()) == bullets(&self.m.slides), "import-bullets", || format!("{l}: imported {:?}, wanted {:?}", bullets(o.slides()), bullets(&self.m.slides)));
                    self.m.slides.extend(o.slides().to_vec());
                    self.p = p.add_presentation(o);
                }
            }
        }
        Ok(())
    }
    /// Calls that have to fail.
    fn failing(&mut self, ch: &mut Ch) -> Res {
        let k = ch.pick(5);
        let bad = self.dir.join("missing").join("x.pptx");
        let keep = self.dir.join("keep.pptx");
        std::fs::write(&keep, "kept").unwrap();
        let before = dir_list(&self.dir);
        self.log.push(format!("failing {k}"));
        let l = self.log.join(", ");
        let failed = match k {
            0 => self.p.save(&bad).is_err(),
            1 => self.p.save_as_html(self.dir.join("missing").join("x.html")).is_err(),
            2 => Presentation::from_path(&bad).is_err(),
            3 => Presentation::from_path(&keep).is_err(),
            _ => self.m.slides.is_empty() == self.p.save(&keep).is_err(),
        };
        ch.check(failed, format!("not-failing:{k}"), || format!("{l}: did not fail"));
        if k < 4 || self.m.slides.is_empty() {
            ch.check(std::fs::read(&keep).unwrap() == b"kept", "overwritten", || format!("{l}: a failing call changed a file"));
        }
        ch.check(dir_list(&self.dir) == before, "left-files", || format!("{l}: files are {:?}, were {before:?}", dir_list(&self.dir)));
        Ok(())
    }
    fn check(&self, ch: &mut Ch) -> Res {
        let l = self.log.join(", ");
        let (p, m) = (&self.p, &self.m);
        ch.check(p.get_title() == m.title, "title", || format!("{l}: title {:?}, wanted {:?}", p.get_title(), m.title));
        ch.check(p.slide_count() == m.slides.len() && text(p.slides()) == text(&m.slides), "slides", || format!("{l}: slides {:?}, wanted {:?}", p.slides().iter().map(|s| &s.title).collect::<Vec<_>>(), m.slides.iter().map(|s| &s.title).collect::<Vec<_>>()));
        let b = p.build();
        let c = p.clone().into_bytes();
        ch.check(b.is_ok() == !m.slides.is_empty() && c.is_ok() == b.is_ok(), "build-result", || format!("{l}: build {:?}, into_bytes {:?}", b.as_ref().map(|b| b.len()), c.as_ref().map(|b| b.len())));
        if let (Ok(b), Ok(c)) = (b, c) {
            let w = bytes_of(create_pptx_with_settings(&m.title, &m.slides, m.settings.clone()), &l)?;
            let (b, c, w) = (pkg_of(&b)?, pkg_of(&c)?, pkg_of(&w)?);
            ch.report_all(compare(&b, &w, "build", &l));
            ch.report_all(compare(&c, &w, "into-bytes", &l));
            ch.check(b.slides().len() == m.slides.len(), "slide-count", || format!("{l}: {} slides stored", b.slides().len()));
            let f = self.dir.join("stored.pptx");
            p.save(&f).map_err(|e| Fail { sig: "save".into(), msg: format!("{l}: {e}") })?;
            ch.report_all(compare(&pkg_of(&std::fs::read(&f).unwrap())?, &w, "save", &l));
        }
        ch.state(hash_str(&format!("{:?} {:?}", text(&m.slides), m.title)));
        ch.outcome(hash_str(&format!("{:?}", m.slides.iter().map(|s| &s.title).collect::<Vec<_>>())));
        Ok(())
    }
}
fn dir_list(d: &std::path::Path) -> Vec<std::ffi::OsString> {
    let mut v: Vec<_> = std::fs::read_dir(d).unwrap().flatten().map(|e| e.file_name()).collect();
    v.sort();
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "A01",
        level: "model_checking",
        rule: "every history of building calls (add a slide, append a presentation, itself or an imported deck, title, theme, settings, failing calls) up to the depth on the real presentation, against a list of slides; every prefix is checked",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let depth = if q { 3 } else { 4 };
            vec![
                Scenario::new("histories", format!("all histories up to {depth} calls from 2 starts; 4 slides, 3 other presentations, 2 titles, themes and settings each, 5 failing calls"), 0, move |ch| {
                    let mut r = Run::new(ch.worker, ch.flag());
                    for k in 0..depth {
                        if k > 0 && ch.flag() {
                            break;
                        }
                        ch.step();
                        r.op(ch)?;
                    }
                    ch.note(|| r.log.join(", "));
                    ch.nontrivial(hash_str(&r.log.join(", ")));
                    r.check(ch)
                }),
                Scenario::new("many", "1..60 slides through add, append and both, in order", 0, |ch| {
                    let n = 1 + ch.pick(60);
                    let k = ch.pick(4);
                    let s: Vec<SlideContent> = (0..n).map(|i| SlideContent::new(&format!("S{i}")).add_bullet(&format!("b{i}"))).collect();
                    let mut p = Presentation::with_title("Many");
                    let half = s.len() / 2;
                    match k {
                        0 => for x in &s { p = p.add_slide(x.clone()); },
                        1 => for x in &s { p = p.add_presentation(Presentation::new().add_slide(x.clone())); },
                        2 => {
                            let o = s[half..].iter().fold(Presentation::new(), |o, x| o.add_slide(x.clone()));
                            p = s[..half].iter().fold(p, |p, x| p.add_slide(x.clone())).add_presentation(o);
                        }
                        _ => {
                            let f = scratch().join(format!("a01-many-{}.pptx", ch.worker));
                            s[..half.max(1)].iter().fold(Presentation::new(), |o, x| o.add_slide(x.clone())).save(&f).map_err(|e| Fail { sig: "save".into(), msg: e.to_string() })?;
                            p = p.add_presentation(Presentation::from_path(&f).map_err(|e| Fail { sig: "import".into(), msg: e.to_string() })?);
                            for x in &s[half.max(1)..] { p = p.add_slide(x.clone()); }
                        }
                    }
                    let t: Vec<&String> = p.slides().iter().map(|s| &s.title).collect();
                    let w: Vec<&String> = s.iter().map(|s| &s.title).collect();
                    ch.check(t == w, "order", || format!("{n} slides, way {k}: {t:?}"));
                    ch.nontrivial((n * 4 + k) as u64);
                    ch.outcome(n as u64);
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
