//! T08: the ready-made presentations place every item under its heading, in order.
use super::*;
use ppt_rs::generator::{SlideContent, SlideLayout};
use ppt_rs::templates::*;

type Bullets = Vec<String>;
const ITEMS: [&str; 3] = ["one <&> \"x\"", "two\u{e9} ]]>", " three  spaced: - "];
const PAIRS: [(&str, &str); 3] = [("k <1>", "v & 1"), ("", "only value"), ("key: again", "")];

fn items(ch: &mut Ch, n: usize) -> Vec<&'static str> {
    // each list starts elsewhere, so that no two lists of equal length look alike
    let k = ch.pick(n + 1);
    let o = ch.path.len() % 3;
    (0..k).map(|i| ITEMS[(i + o) % 3]).collect()
}
fn pairs(ch: &mut Ch, n: usize) -> Vec<(&'static str, &'static str)> {
    let k = ch.pick(n + 1);
    let o = ch.path.len() % 3;
    (0..k).map(|i| PAIRS[(i + o) % 3]).collect()
}
fn groups(ch: &mut Ch, n: usize) -> Vec<(&'static str, Vec<&'static str>)> {
    let k = ch.pick(n + 1);
    (0..k).map(|i| (["Mod <A>", "B", "Mod <A>"][i % 3], items(ch, n))).collect()
}
fn joined(v: &[(&str, &str)], sep: &str) -> Bullets {
    v.iter().map(|(a, b)| format!("{a}{sep}{b}")).collect()
}
fn texts(v: &[&str]) -> Bullets {
    v.iter().map(|s| s.to_string()).collect()
}
fn slide(t: &str, b: Bullets) -> SlideContent {
    b.iter().fold(SlideContent::new(t), |s, b| s.add_bullet(b))
}
fn front(t: &str, b: &str) -> SlideContent {
    SlideContent::new(t).add_bullet(b).layout(SlideLayout::CenteredTitle)
}
fn same(ch: &mut Ch, what: &str, title: &str, got: ppt_rs::exc::Result<Vec<u8>>, want: Vec<SlideContent>) -> Res {
    let p = pkg_of(&bytes_of(got, what)?)?;
    let s = p.slides();
    ch.check(s.len() == want.len(), format!("{what}-count"), || format!("{} slides, expected {}", s.len(), want.len()));
    for (part, c) in s.iter().zip(&want) {
        for f in super::g03::check_slide(&p, part, c) {
            ch.report(Fail { sig: format!("{what}-{}", f.sig), msg: format!("{}: {}", c.title, f.msg) });
        }
    }
    let core = p.parts.get("docProps/core.xml").and_then(|b| crate::xml::parse(b).ok());
    let t = core.as_ref().and_then(|c| c.child("title")).map(|t| t.text());
    ch.check(t.as_deref() == Some(title), format!("{what}-title"), || format!("document title {t:?}, expected {title:?}"));
    let h = hash_str(&format!("{what}{want:?}"));
    ch.state(h);
    ch.nontrivial(h);
    Ok(())
}
const NAMES: [(&str, &str); 2] = [("Deck <&>", "By & For"), ("Plain", "2.0")];
fn proposal(ch: &mut Ch, n: usize) -> Res {
    let (t, a) = *ch.of(&NAMES);
    let c = ProposalContent { executive_summary: items(ch, n), problem: items(ch, n), solution: items(ch, n), timeline: pairs(ch, n), budget: pairs(ch, n), next_steps: items(ch, n) };
    let want = vec![
        front(t, a),
        slide("Agenda", texts(&["Executive Summary", "Problem Statement", "Proposed Solution", "Timeline & Budget", "Next Steps"])),
        slide("Executive Summary", texts(&c.executive_summary)),
        slide("Problem Statement", texts(&c.problem)),
        slide("Proposed Solution", texts(&c.solution)),
        slide("Timeline", joined(&c.timeline, ": ")),
        slide("Budget", joined(&c.budget, ": ")),
        slide("Next Steps", texts(&c.next_steps)),
        front("Questions?", "Discussion and Q&A"),
    ];
    same(ch, "proposal", t, business_proposal(t, a, c), want)
}
fn training(ch: &mut Ch, n: usize) -> Res {
    let (t, a) = *ch.of(&NAMES);
    let c = TrainingContent { objectives: items(ch, n), modules: groups(ch, n), exercises: items(ch, n), summary: items(ch, n) };
    let mut want = vec![front(t, a), slide("Learning Objectives", texts(&c.objectives))];
    want.extend(c.modules.iter().map(|(n, v)| slide(n, texts(v))));
    want.push(slide("Exercises", texts(&c.exercises)));
    want.push(slide("Summary", texts(&c.summary)));
    want.push(SlideContent::new("Questions?").layout(SlideLayout::CenteredTitle));
    same(ch, "training", t, training_material(t, a, c), want)
}
fn status(ch: &mut Ch, n: usize) -> Res {
    let (t, a) = *ch.of(&NAMES);
    let c = StatusContent { summary: items(ch, n), completed: items(ch, n), in_progress: items(ch, n), blocked: items(ch, n), next_week: items(ch, n), metrics: pairs(ch, n) };
    let mut want = vec![front(t, a), slide("Executive Summary", texts(&c.summary)), slide("Completed ✓", texts(&c.completed)), slide("In Progress", texts(&c.in_progress))];
    if !c.blocked.is_empty() {
        want.push(slide("Blocked / Risks", texts(&c.blocked)));
    }
    want.push(slide("Next Week", texts(&c.next_week)));
    if !c.metrics.is_empty() {
        want.push(slide("Key Metrics", joined(&c.metrics, ": ")));
    }
    same(ch, "status", t, status_report(t, a, c), want)
}
fn technical(ch: &mut Ch, n: usize) -> Res {
    let (t, a) = *ch.of(&NAMES);
    let c = TechnicalContent { overview: items(ch, n), architecture: items(ch, n), components: groups(ch, n), api_examples: pairs(ch, n), best_practices: items(ch, n) };
    let mut want = vec![front(t, &format!("Version {a}")), slide("Overview", texts(&c.overview)), slide("Architecture", texts(&c.architecture))];
    want.extend(c.components.iter().map(|(n, v)| slide(n, texts(v))));
    if !c.api_examples.is_empty() {
        want.push(slide("API Reference", joined(&c.api_examples, " - ")));
    }
    want.push(slide("Best Practices", texts(&c.best_practices)));
    same(ch, "technical", t, technical_doc(t, a, c), want)
}
fn plain(ch: &mut Ch, n: usize) -> Res {
    let (t, _) = *ch.of(&NAMES);
    let k = ch.pick(n + 2);
    let v: Vec<(&str, Vec<&str>)> = (0..k).map(|i| (["S <1>", "S2", "S <1>", "S4"][i % 4], items(ch, n))).collect();
    let arg: Vec<(&str, &[&str])> = v.iter().map(|(t, b)| (*t, &b[..])).collect();
    let want = v.iter().map(|(t, b)| slide(t, texts(b))).collect();
    same(ch, "simple", t, simple(t, &arg), want)
}
pub fn prop() -> Prop {
    Prop {
        id: "T08",
        level: "model_checking",
        rule: "every template with every combination of the lengths of its lists (0 up to the bound; nested lists independently), built by the real code and compared slide by slide, through an independent reader, with the slides its documentation promises",
        assumptions: STD,
        scenarios: |t| {
            let n = if t == Tier::Quick { 2 } else { 3 };
            let s = |name: &'static str, lists: &str, f: fn(&mut Ch, usize) -> Res| Scenario::new(name, format!("2 names x {lists} of 0..{n} entries"), 0, move |ch: &mut Ch| f(ch, n));
            vec![
                s("proposal", "6 lists", proposal),
                s("training", "3 lists and one of lists", training),
                s("status", "6 lists", status),
                s("technical", "4 lists and one of lists", technical),
                s("simple", "up to one more slides than that, with lists", plain),
            ]
        },
        must_cover: || vec![],
    }
}
