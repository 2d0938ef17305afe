//! M01: Markdown becomes slides without losing, inventing or reordering content.
use super::*;
use crate::decks::*;
use ppt_rs::generator::*;

/// What a slide is to hold.
#[derive(Default, Clone, Debug, PartialEq)]
struct Want {
    /// Title, or the start of it for a slide that continues another.
    title: String,
    continued: bool,
    /// Text, level and whether it is numbered.
    bullets: Vec<(String, u32, bool)>,
    tables: Vec<Vec<Vec<String>>>,
    codes: Vec<(String, String)>,
    notes: Vec<String>,
    pictures: usize,
}
impl Want {
    fn empty(&self) -> bool {
        self.bullets.is_empty() && self.tables.is_empty() && self.codes.is_empty() && self.notes.is_empty() && self.pictures == 0
    }
}
/// The reference: slides built block by block.
#[derive(Default)]
struct Ref {
    slides: Vec<Want>,
    open: bool,
}
impl Ref {
    fn heading(&mut self, t: &str) {
        self.slides.push(Want { title: t.into(), ..Want::default() });
        self.open = true;
    }
    fn on(&mut self) -> &mut Want {
        if !self.open {
            // content before any heading: a title of the library's choice
            self.slides.push(Want { continued: true, ..Want::default() });
            self.open = true;
        }
        self.slides.last_mut().unwrap()
    }
    fn turn(&mut self) {
        if let Some(l) = self.slides.last() {
            let title = l.title.clone();
            self.slides.push(Want { title, continued: true, ..Want::default() });
            self.open = true;
        }
    }
    fn bullet(&mut self, t: impl Into<String>, level: u32, num: bool) {
        self.on().bullets.push((t.into(), level, num));
    }
    fn table(&mut self, rows: Vec<Vec<String>>) {
        if self.open && !self.slides.last().unwrap().tables.is_empty() {
            self.turn();
        }
        self.on().tables.push(rows);
    }
}
/// A block: its source, given a word, and its effect.
struct Block {
    name: &'static str,
    src: fn(&str) -> String,
    effect: fn(&mut Ref, &str),
}
const fn b(name: &'static str, src: fn(&str) -> String, effect: fn(&mut Ref, &str)) -> Block {
    Block { name, src, effect }
}
fn rows(w: &str, n: usize) -> Vec<Vec<String>> {
    (0..n).map(|r| (0..2).map(|c| format!("{w}r{r}c{c}")).collect()).collect()
}
fn md_table(rows: &[Vec<String>]) -> String {
    let mut s = String::new();
    for (i, r) in rows.iter().enumerate() {
        s += &format!("| {} |\n", r.join(" | "));
        if i == 0 {
            s += "|---|:-:|\n";
        }
    }
    s
}
const BLOCKS: &[Block] = &[
    b("h1", |w| format!("# {w}"), |r, w| r.heading(w)),
    b("paragraph", |w| format!("{w}a {w}b"), |r, w| r.bullet(format!("{w}a {w}b"), 0, false)),
    b("list", |w| format!("- {w}a\n- {w}b"), |r, w| {
        r.bullet(format!("{w}a"), 0, false);
        r.bullet(format!("{w}b"), 0, false);
    }),
    b("h2", |w| format!("## {w}"), |r, w| r.bullet(w, 0, false)),
    b("table", |w| md_table(&rows(w, 2)), |r, w| r.table(rows(w, 2))),
    b("code", |w| format!("```rust\n  {w}a\n\n{w}b\n```"), |r, w| r.on().codes.push(("rust".into(), format!("  {w}a\n\n{w}b")))),
    b("quote", |w| format!("> {w}a\n> {w}b"), |r, w| r.on().notes.push(format!("{w}a {w}b"))),
    b("rule", |_| "---".into(), |r, _| r.turn()),
    b("nested list", |w| format!("- {w}a\n  - {w}b\n    - {w}c\n  - {w}d\n- {w}e"), |r, w| {
        for (t, l) in [("a", 0), ("b", 1), ("c", 2), ("d", 1), ("e", 0)] {
            r.bullet(format!("{w}{t}"), l, false);
        }
    }),
    b("ordered list", |w| format!("1. {w}a\n2. {w}b"), |r, w| {
        r.bullet(format!("{w}a"), 0, true);
        r.bullet(format!("{w}b"), 0, true);
    }),
    b("h3", |w| format!("### {w}a `{w}b`"), |r, w| r.bullet(format!("{w}a {w}b"), 0, false)),
    b("setext h1", |w| format!("{w}\n==="), |r, w| r.heading(w)),
    b("paragraph of lines", |w| format!("{w}a\n{w}b  \n{w}c\\\n{w}d"), |r, w| r.bullet(format!("{w}a {w}b {w}c {w}d"), 0, false)),
    b("marked paragraph", |w| format!("**{w}a & {w}b** *{w}c **{w}d*** ~~{w}e~~ [{w}f](http://x/) `{w}g`"), |r, w| {
        r.bullet(format!("{w}a & {w}b {w}c {w}d {w}e {w}f {w}g"), 0, false)
    }),
    b("mixed list", |w| format!("- {w}a\n  1. {w}b\n  2. {w}c\n\n     {w}d\n- {w}e"), |r, w| {
        r.bullet(format!("{w}a"), 0, false);
        r.bullet(format!("{w}b"), 1, true);
        r.bullet(format!("{w}c {w}d"), 1, true);
        r.bullet(format!("{w}e"), 0, false);
    }),
    b("list with code and quote", |w| format!("* {w}a\n\n  ```\n  {w}b\n  ```\n* {w}c\n\n  > {w}d\n"), |r, w| {
        r.bullet(format!("{w}a"), 0, false);
        r.on().codes.push(("text".into(), format!("{w}b")));
        r.bullet(format!("{w}c"), 0, false);
        r.on().notes.push(format!("{w}d"));
    }),
    b("task list", |w| format!("- [ ] {w}a\n- [x] {w}b"), |r, w| {
        r.bullet(format!("☐ {w}a"), 0, false);
        r.bullet(format!("☑ {w}b"), 0, false);
    }),
    b("wide table", |w| format!("{w}a|b|c\n-|-|-\n1||**{w}**\n\\|x|{w} \\| y|`z`"), |r, w| {
        r.table(vec![vec![format!("{w}a"), "b".into(), "c".into()], vec!["1".into(), "".into(), w.into()], vec!["|x".into(), format!("{w} | y"), "z".into()]])
    }),
    b("long quote", |w| format!("> {w}a\n>\n> - {w}b\n> - {w}c\n>\n> > {w}d\n>\n> {w}e"), |r, w| r.on().notes.push(format!("{w}a {w}b {w}c {w}d {w}e"))),
    b("quoted heading", |w| format!("> # {w}a\n> {w}b"), |r, w| r.on().notes.push(format!("{w}a {w}b"))),
    b("plain code", |w| format!("~~~\n# {w}\n- x\n\n> y\n~~~"), |r, w| r.on().codes.push(("text".into(), format!("# {w}\n- x\n\n> y")))),
    b("picture", |_| "![seen](missing.png)".into(), |r, _| r.on().pictures += 1),
    b("h1 of marks", |w| format!("# {w}a &amp; *{w}b*"), |r, w| r.heading(&format!("{w}a & {w}b"))),
    b("stars", |_| "***".into(), |r, _| r.turn()),
];
/// Without marks, and with white space as one space.
fn plain(s: &str) -> String {
    s.replace(['*', '`', '~'], "").split_whitespace().collect::<Vec<_>>().join(" ")
}
fn got(s: &SlideContent) -> Want {
    let num = |b: &BulletPoint| matches!(b.style, BulletStyle::Number);
    Want {
        title: plain(&s.title),
        continued: false,
        bullets: s.bullets.iter().map(|b| (plain(&b.text), b.level as u32, num(b))).collect(),
        tables: s.table.iter().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| plain(&c.text)).collect()).collect()).collect(),
        codes: s.code_blocks.iter().map(|c| (c.language.clone(), c.code.clone())).collect(),
        notes: s.notes.iter().map(|n| plain(n)).collect(),
        pictures: s.images.len() + s.shapes.iter().filter(|s| s.text.as_deref().is_some_and(|t| t.contains("seen") || t.contains("missing.png"))).count(),
    }
}
fn same(w: &Want, g: &Want) -> Result<(), (&'static str, String)> {
    let d = |k, a: String, b: String| Err((k, format!("{k}: {b} instead of {a}")));
    if !(g.title == w.title || w.continued && g.title.starts_with(&w.title)) {
        return d("title", w.title.clone(), g.title.clone());
    }
    if w.bullets.iter().map(|b| &b.0).ne(g.bullets.iter().map(|b| &b.0)) {
        return d("bullets", format!("{:?}", w.bullets), format!("{:?}", g.bullets));
    }
    if w.bullets != g.bullets {
        return d("levels", format!("{:?}", w.bullets), format!("{:?}", g.bullets));
    }
    if w.tables != g.tables {
        return d("table", format!("{:?}", w.tables), format!("{:?}", g.tables));
    }
    let code = |v: &[(String, String)]| v.iter().map(|(l, c)| (l.clone(), c.trim_end_matches('\n').to_string())).collect::<Vec<_>>();
    if code(&w.codes) != code(&g.codes) {
        return d("code", format!("{:?}", w.codes), format!("{:?}", g.codes));
    }
    if w.notes.join(" ") != g.notes.join(" ") {
        return d("notes", format!("{:?}", w.notes), format!("{:?}", g.notes));
    }
    if w.pictures != g.pictures {
        return d("pictures", w.pictures.to_string(), g.pictures.to_string());
    }
    Ok(())
}
fn judge(ch: &mut Ch, md: &str, want: &[Want]) -> Res {
    let slides = match guarded(|| ppt_rs::cli::parse_markdown(md)) {
        Err(p) => return Err(panic_fail(p)),
        Ok(r) => r,
    };
    ch.step();
    // a slide that only continues another may be left out when nothing follows
    let want: Vec<&Want> = want.iter().filter(|w| !(w.continued && w.empty())).collect();
    let slides = match slides {
        Ok(s) => s,
        Err(e) => {
            ch.check(want.is_empty(), "refused", || format!("{md:?}: {e}"));
            return Ok(());
        }
    };
    let again = ppt_rs::cli::parse_markdown(md);
    ch.check(again.as_ref().is_ok_and(|a| format!("{a:?}") == format!("{slides:?}")), "again", || format!("{md:?}: another result the second time"));
    let titles: Vec<String> = want.iter().filter(|w| !w.continued).map(|w| w.title.clone()).collect();
    let g: Vec<Want> = slides.iter().map(got).filter(|g| !(g.empty() && !titles.contains(&g.title))).collect();
    ch.outcome(hash_str(&format!("{g:?}")));
    ch.state(hash_str(&format!("{want:?}")));
    ch.check(g.len() == want.len(), "slides", || format!("{md:?}: slides {:?} instead of {:?}", g.iter().map(|s| &s.title).collect::<Vec<_>>(), want.iter().map(|s| &s.title).collect::<Vec<_>>()));
    for (w, g) in want.iter().zip(&g) {
        if let Err((k, m)) = same(w, g) {
            ch.check(false, k, || format!("{md:?}: {m}"));
        }
    }
    ch.nontrivial(hash_str(md));
    Ok(())
}
fn blocks(ch: &mut Ch, n: usize) -> Res {
    let mut r = Ref::default();
    let mut src = vec![];
    let mut what = vec![];
    for k in 0..n {
        let i = ch.pick(BLOCKS.len());
        let w = format!("{}{k}", ["wq", "xq", "yq", "zq", "uq", "vq"][k]);
        src.push((BLOCKS[i].src)(&w));
        (BLOCKS[i].effect)(&mut r, &w);
        what.push(BLOCKS[i].name);
    }
    let md = src.join("\n\n");
    ch.note(|| what.join(", "));
    judge(ch, &md, &r.slides)
}
/// Inline pieces and the text they stand for.
const PIECES: &[(&str, &str)] = &[
    ("w", "w"),
    ("**b**", "b"),
    ("*i*", "i"),
    ("***bi***", "bi"),
    ("~~s~~", "s"),
    ("`c`", "c"),
    ("&amp;&lt;", "&<"),
    ("\\# \\[", "# ["),
    ("[l](http://x/ \"t\")", "l"),
    ("<http://y/>", "http://y/"),
    ("<b>h</b>", "h"),
    ("**x & y**", "x & y"),
    ("**n *m* o**", "n m o"),
    ("`` a`b ``", "ab"),
    ("é😀", "é😀"),
    ("![seen](none.png)", ""),
    ("&#35;1", "#1"),
    ("a_b_c", "a_b_c"),
    ("<mark>h</mark>", "==h=="),
    ("x<sub>2</sub>", "x2"),
    ("y<sup>3</sup>", "y^3^"),
    ("a<!-- <mark>v</mark> -->b", "ab"),
];
fn inline(ch: &mut Ch, n: usize) -> Res {
    let k = ch.pick(8);
    let seq: Vec<usize> = (0..n).map(|_| ch.pick(PIECES.len())).collect();
    let src: Vec<&str> = seq.iter().map(|i| PIECES[*i].0).collect();
    let text: Vec<&str> = seq.iter().map(|i| PIECES[*i].1).filter(|t| !t.is_empty()).collect();
    let (src, text) = (src.join(" "), text.join(" "));
    let mut r = Ref::default();
    if text.is_empty() {
        return Ok(());
    }
    let pics = seq.iter().filter(|i| PIECES[**i].1.is_empty()).count();
    if k != 0 {
        r.heading("T");
    }
    let bullet = |r: &mut Ref, t: &str| r.bullet(plain(t), 0, false);
    let md = match k {
        0 => {
            r.heading(&text);
            // a picture in a heading stands before its slide
            if pics > 0 {
                return Ok(());
            }
            format!("# {src}")
        }
        1 => {
            bullet(&mut r, &text);
            format!("# T\n\n## {src}")
        }
        2 => {
            bullet(&mut r, &text);
            format!("# T\n\n{src}")
        }
        3 => {
            bullet(&mut r, &text);
            format!("# T\n\n- {src}")
        }
        4 => {
            bullet(&mut r, "p");
            r.bullet(plain(&text), 1, true);
            format!("# T\n\n- p\n  1. {src}")
        }
        5 => {
            r.table(vec![vec!["h".into(), plain(&text)], vec![plain(&text), "z".into()]]);
            format!("# T\n\n|h|{src}|\n|-|-|\n|{src}|z|")
        }
        6 => {
            r.on().notes.push(plain(&text));
            format!("# T\n\n> {src}")
        }
        _ => {
            bullet(&mut r, &format!("{text} {text}"));
            format!("# T\n\n{src}\n{src}")
        }
    };
    for w in &mut r.slides {
        w.title = plain(&w.title);
        w.pictures = if k == 5 || k == 7 { 2 * pics } else { pics };
    }
    // what placeholders of pictures say is not judged here
    let md2 = md.replace("none.png", "missing.png");
    judge(ch, &md2, &r.slides)
}
/// Lists: each item one deeper, as deep, or up to all levels less deep than the one before.
fn nesting(ch: &mut Ch, n: usize) -> Res {
    let mut r = Ref::default();
    let mut md = String::new();
    if ch.flag() {
        r.heading("T");
        md += "# T\n\n";
    }
    let loose = ch.flag();
    let kinds: Vec<usize> = (0..3).map(|_| ch.pick(3)).collect();
    let mut level = 0usize;
    for i in 0..n {
        if i > 0 {
            level = ch.pick((level + 2).min(3));
        }
        let indent: usize = kinds[..level].iter().map(|k| if *k == 2 { 3 } else { 2 }).sum();
        let mark = ["-", "+", "1."][kinds[level]];
        md += &format!("{}{mark} w{i}\n{}", " ".repeat(indent), if loose { "\n" } else { "" });
        r.bullet(format!("w{i}"), level as u32, kinds[level] == 2);
    }
    if ch.flag() {
        md += "\nafter\n";
        r.bullet("after", 0, false);
    }
    judge(ch, &md, &r.slides)
}
/// Emphasis stays visible as its marks, and a file gives the slides that its text gives.
fn marks(ch: &mut Ch) -> Res {
    const M: [&str; 6] = ["**b**", "*i*", "~~s~~", "`c`", "**b** x *i*", "a **b *i* b** c"];
    let m = M[ch.pick(6)];
    let md = format!("# T\n\n- {m}\n\n{m}\n\n|a|\n|-|\n|{m}|\n");
    let s = ppt_rs::cli::parse_markdown(&md).map_err(|e| Fail { sig: "refused".into(), msg: e })?;
    let ok = s.len() == 1 && s[0].bullets.len() == 2 && s[0].bullets.iter().all(|b| b.text == m) && s[0].content == [m, m];
    ch.check(ok, "marks", || format!("{md:?}: {:?}", s[0].bullets.iter().map(|b| &b.text).collect::<Vec<_>>()));
    let cell = s[0].table.as_ref().map(|t| t.rows[1].cells[0].text.clone());
    ch.check(cell.as_deref() == Some(m), "marks", || format!("{md:?}: cell {cell:?}"));
    ch.nontrivial(hash_str(m));
    ch.outcome(hash_str(m));
    Ok(())
}
fn pictures(ch: &mut Ch) -> Res {
    let f = picture_file("m01.png", &png(4));
    let place = ch.pick(4);
    let md = match place {
        0 => format!("# T\n\n![d]({f})\n"),
        1 => format!("# T\n\n- a ![d]({f})\n- b\n"),
        2 => format!("![d]({f})\n\n# T\n"),
        _ => format!("# T\n\nbefore ![d]({f}) after ![e]({f})\n"),
    };
    let s = ppt_rs::cli::parse_markdown(&md).map_err(|e| Fail { sig: "refused".into(), msg: e })?;
    let want = if place == 3 { 2 } else { 1 };
    let imgs: Vec<_> = s[0].images.iter().map(|i| i.get_bytes()).collect();
    ch.check(imgs.len() == want && imgs.iter().all(|b| b.as_deref() == Some(&png(4)[..])), "picture", || format!("{md:?}: {} pictures", imgs.len()));
    ch.nontrivial(place as u64);
    ch.outcome(place as u64);
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "M01",
        level: "model_checking",
        rule: "every document of the stated sets through the real converter: the slides equal those a reference builds block by block (texts without emphasis marks and with white space as one space)",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 4 } else { 5 };
            let p = if q { 4 } else { 5 };
            let l = if q { 8 } else { 10 };
            vec![
                Scenario::new("one", format!("all documents of up to 3 of {} blocks", BLOCKS.len()), 0, move |ch| {
                    let k = 1 + ch.pick(3);
                    blocks(ch, k)
                }),
                Scenario::new("blocks", format!("all documents of {n} of {} blocks", BLOCKS.len()), 0, move |ch| blocks(ch, n)),
                Scenario::new("inline", format!("all sequences of up to {p} of {} inline pieces in 8 places", PIECES.len()), 0, move |ch| {
                    let k = 1 + ch.pick(p);
                    inline(ch, k)
                }),
                Scenario::new("nesting", format!("all lists of up to {l} items at up to 3 levels of 3 kinds, tight and loose"), 0, move |ch| {
                    let k = 1 + ch.pick(l);
                    nesting(ch, k)
                }),
                Scenario::new("marks", "emphasis in items, paragraphs and cells", 0, marks),
                Scenario::new("pictures", "pictures from files in 4 places", 0, pictures),
            ]
        },
        must_cover: || vec![],
    }
}
