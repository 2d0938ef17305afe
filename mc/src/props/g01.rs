use super::*;
use crate::decks;
use crate::pkg;

pub fn prop() -> Prop {
    Prop {
        id: "G01",
        level: "exploration",
        rule: "every deck of 1..3 slides with up to the stated number of features/settings (any slides, any combination) is generated and its package closure checked by an independent OPC/PresentationML oracle; plus slide-count sweep",
        assumptions: STD,
        scenarios: |t| {
            let b = if t == Tier::Quick { 2 } else { 3 };
            vec![
                Scenario::new("features", format!("1..3 slides, all sets of <= {b} features/settings of {} per slide + {} settings", decks::FEATURES.len(), decks::SETTINGS.len() + 1), b, |ch| {
                    let d = decks::deck(ch, 1, 3, true, true);
                    let b = bytes_of(d.build(), &d.describe())?;
                    let p = pkg_of(&b)?;
                    let (m, fs) = pkg::check(&p);
                    ch.outcome(hash_bytes(&b));
                    ch.report_all(fs.into_iter().map(|f| Fail { msg: format!("{} in {}", f.msg, d.describe()), sig: f.sig }).collect());
                    ch.check(m.slides.len() == d.slides.len(), "slide-count", || format!("{} slides listed", m.slides.len()));
                    for (i, s) in m.slides.iter().enumerate() {
                        let t = p.with_doc(s, |e| e.deep_text()).unwrap_or_default();
                        if d.slides[i].layout != ppt_rs::SlideLayout::Blank {
                            ch.check(t.contains(&format!("Slide {i}")), "slide-order", || format!("slide {i} is {s} with text {t:?}"));
                        }
                    }
                    ch.nontrivial(hash_str(&d.describe()));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
