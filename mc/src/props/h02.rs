//! H02: converters end with slides or an error on every text.
use super::*;
use ppt_rs::generator::{create_pptx_with_content, SlideContent};
use ppt_rs::import::{parse_html, parse_html_with_options, HtmlParseOptions};
use ppt_rs::web2ppt::{html_to_pptx_with_options, ConversionOptions, Web2PptConfig};
use std::process::{Command, Stdio};

const HTML: &[&str] = &[
    "<", "</", ">", "<!--", "-->", "<![CDATA[", "&", "&#", "&#x110000;", "&#xD800;", "&amp", ";", "é", "😀", "\"", "'", "=", " ", "\n", "\0", "<p", "<td colspan=99999999999999999999", "<td rowspan=-1 colspan=0", " style=\"", "color:#é", "font-size:1e400px", "font-size:-3pt", "color:rgb(",
    "<script>", "</script", "<h1>", "<ol start=99999999999999999999>", "<li>", "<table>", "<tr>", "<pre>", "<img src=", "<img src=data:image/png;base64,é", "/>", "<svg", "<hr>", "<blockquote>", "</h1>", "x",
];
const MD: &[&str] = &[
    "# ", "#", " ", "\n", "\n\n", "- ", "99999999999999999999. ", "1. ", "|", "|-|", "|:", "```", "```mermaid\n", "~~~", "`", "*", "**", "_", "[", "](", ")", "!", "<", ">", "> ", "\t", "---", "===", "é", "😀", "\u{0}", "&", "&#x110000;", "\\", "~~", ":", "[^1]", "[^1]: ", "- [ ] ", "<!--", "-->", "<b>", "![](", "$$", "x", "    ", "\r",
];
const LINE: &[&str] = &[
    "\n", " ", "-->", "---", ":", "::", "[", "]", "((", ")", "{", "}", "\"", "|", "é", "😀", "%%", "subgraph", "end", ",", "-", "0", "99999999999999999999", "1e999", "NaN", "section", "title", ";", "after", "1d", "2024-13-45", "&", "@", "x", "a", "\t", "participant", "class", "state", "branch", "merge", "checkout", "commit", "id:", "loop", "alt", "note", "dateFormat", "->>", "||--o{", "<|--",
];
const HEADS: &[&str] = &["flowchart LR", "graph TD", "sequenceDiagram", "pie", "gantt", "classDiagram", "stateDiagram-v2", "erDiagram", "mindmap", "timeline", "journey", "quadrantChart", "gitGraph", "x"];
const CSS: &[&str] = &[
    "color", ":", ";", "#", "é", "fff", "12345678", "rgb(", "rgba(", "hsl(", ")", ",", "999999999999", "-1", "1e999", "NaN", "%", "px", "pt", "em", "font-size", "font-weight", "bold", "background-color", "text-align", " ", "!important", "url(", "\\", "/*",
];

fn pptx(slides: Vec<SlideContent>) -> Result<usize, Fail> {
    let b = guarded(|| create_pptx_with_content("t", slides)).map_err(panic_fail)?;
    Ok(bytes_of(b, "slides of a converted text")?.len())
}
/// What became of a text: how many slides and how much on them, or an error.
fn summary<E: std::fmt::Display>(r: &Result<Vec<SlideContent>, E>) -> String {
    match r {
        Ok(v) => format!("{:?}", v.iter().map(|s| (s.title.len().min(3), s.bullets.len(), s.table.is_some(), s.shapes.iter().map(|s| s.text.as_deref().unwrap_or("")).collect::<Vec<_>>().join("|"), s.connectors.len(), s.code_blocks.len(), s.images.len(), s.notes.is_some())).collect::<Vec<_>>()),
        Err(e) => e.to_string().chars().take(40).collect(),
    }
}
fn html(ch: &mut Ch, s: &str, write: bool) -> Res {
    ch.step();
    let r = guarded(|| parse_html(s)).map_err(panic_fail)?;
    ch.outcome(hash_str(&summary(&r)));
    guarded(|| parse_html_with_options(s, HtmlParseOptions::new().max_bullets(0).max_slides(0).include_code(false).include_tables(false)).is_ok()).map_err(panic_fail)?;
    if let (true, Ok(v)) = (write, r) {
        pptx(v)?;
    }
    Ok(())
}
fn markdown(ch: &mut Ch, s: &str, write: bool) -> Res {
    ch.step();
    let r = guarded(|| ppt_rs::cli::parse_markdown(s)).map_err(panic_fail)?;
    ch.outcome(hash_str(&summary(&r)));
    if let (true, Ok(v)) = (write, r) {
        pptx(v)?;
    }
    Ok(())
}
fn web(ch: &mut Ch, s: &str) -> Res {
    ch.step();
    for g in [true, false] {
        let mut c = Web2PptConfig::new();
        c.group_by_headings = g;
        if !g {
            c = c.max_bullets(0).max_slides(1);
        }
        let r = guarded(|| html_to_pptx_with_options(s, "é://", c, ConversionOptions::new())).map_err(panic_fail)?;
        ch.outcome(match r {
            Ok(b) => b.len() as u64 / 16,
            Err(e) => hash_str(&e.to_string()),
        });
    }
    Ok(())
}
fn tokens(ch: &mut Ch, of: &[&str], n: usize) -> String {
    let k = 1 + ch.pick(n);
    let s: String = (0..k).map(|_| *ch.of(of)).collect();
    ch.note(|| format!("{s:?}"));
    ch.nontrivial(hash_str(&s));
    s
}

const INLINE: &[&str] = &["<mark>", "</mark>", "<ins>", "<sub>", "<sup>", "<!--", "-->", "</", ">", " é", "<a b=\"", "\">"];

/// Texts that grow: nesting, repetition, length.
type Grow = (&'static str, fn(usize) -> String);
const GROW: &[Grow] = &[
    ("html div", |n| format!("<h1>T</h1>{}<p>x</p>", "<div>".repeat(n))),
    ("html closed div", |n| format!("<h1>T</h1>{}<p>x</p>{}", "<div>".repeat(n), "</div>".repeat(n))),
    ("html ul", |n| format!("<h1>T</h1>{}x", "<ul><li>".repeat(n))),
    ("html b", |n| format!("<h1>T</h1><p>{}x", "<b>".repeat(n))),
    ("html styled span", |n| format!("<h1>T</h1><p>{}x", "<span style='color:#ff0000;font-size:20px'>".repeat(n))),
    ("html table", |n| format!("<h1>T</h1>{}x", "<table><tr><td>".repeat(n))),
    ("html quote", |n| format!("<h1>T</h1>{}x", "<blockquote>".repeat(n))),
    ("html pre", |n| format!("<h1>T</h1>{}x", "<pre><code>".repeat(n))),
    ("html open", |n| "<".repeat(n)),
    ("html open tags", |n| "<p".repeat(n)),
    ("html attributes", |n| format!("<p {}", "a=\"".repeat(n))),
    ("html comments", |n| "<!--".repeat(n)),
    ("html entities", |n| "&".repeat(n)),
    ("html long entity", |n| format!("&{};", "a".repeat(n))),
    ("html scripts", |n| "<script>".repeat(n)),
    ("html script ends", |n| "<script></scrip".repeat(n)),
    ("html h1", |n| "<h1>".repeat(n)),
    ("html ends", |n| "</div>".repeat(n)),
    ("html items", |n| format!("<h1>T</h1><ul>{}", "<li>x".repeat(n))),
    ("html cells", |n| format!("<table><tr>{}", "<td>x".repeat(n))),
    ("html rows", |n| format!("<table>{}", "<tr><td>x".repeat(n))),
    ("html word", |n| format!("<p>{}", "é".repeat(n))),
    ("html breaks", |n| format!("<p>{}", "<br>".repeat(n))),
    ("html rules", |n| "<hr>".repeat(n)),
    ("md lists", |n| format!("# T\n{}x", "- ".repeat(n))),
    ("md quotes", |n| format!("# T\n{}x", "> ".repeat(n))),
    ("md stars", |n| "*".repeat(n)),
    ("md star words", |n| "*a ".repeat(n)),
    ("md mixed stars", |n| "**a *b ".repeat(n)),
    ("md brackets", |n| "[".repeat(n)),
    ("md images", |n| "![".repeat(n)),
    ("md links", |n| "[a](".repeat(n)),
    ("md ticks", |n| (1..(n / 50).max(2)).map(|i| "`".repeat(i) + " ").collect()),
    ("md fences", |n| "```\n".repeat(n)),
    ("md pipes", |n| format!("{}\n{}", "|a".repeat(n), "|-".repeat(n))),
    ("md rows", |n| format!("|a|b|\n|-|-|\n{}", "|x|y|\n".repeat(n))),
    ("md headings", |n| "# a\n".repeat(n)),
    ("md items", |n| format!("# T\n{}", "- a\n".repeat(n))),
    ("md deeper items", |n| (0..n.min(3000)).map(|i| format!("{}- a\n", " ".repeat(2 * i))).collect()),
    ("md rules", |n| "---\n".repeat(n)),
    ("md notes", |n| format!("# T\n{}", "> a\n".repeat(n))),
    ("md footnotes", |n| (0..n).map(|i| format!("[^{i}]: a\n")).collect()),
    ("md tags", |n| "<div>\n".repeat(n)),
    ("md entities", |n| "&amp;".repeat(n)),
    ("md escapes", |n| "\\*".repeat(n)),
    ("md word", |n| "é".repeat(n)),
    ("md code", |n| format!("```rust\n{}\n```", "fn a() { b(); }\n".repeat(n / 10 + 1))),
    ("md code word", |n| format!("```rust\n{}\n```", "((((((((((".repeat(n / 10 + 1))),
    ("mermaid subgraphs", |n| format!("```mermaid\nflowchart TD\n{}a --> b\n```", "subgraph s\n".repeat(n / 4))),
    ("mermaid states", |n| format!("```mermaid\nstateDiagram\n{}\n```", "state a {\n".repeat(n / 4))),
    ("mermaid class", |n| format!("```mermaid\nclassDiagram\n{}\n```", "class a {\n".repeat(n / 4))),
    ("mermaid mindmap", |n| format!("```mermaid\nmindmap\n{}\n```", (0..n.min(2000)).map(|i| format!("{}a\n", " ".repeat(i + 1))).collect::<String>())),
    ("mermaid loops", |n| format!("```mermaid\nsequenceDiagram\n{}\n```", "loop x\na->>b: m\n".repeat(n / 4))),
    ("mermaid chain", |n| format!("```mermaid\nflowchart LR\n{}z\n```", (0..n / 8).map(|i| format!("a{i} --> ")).collect::<String>())),
    ("mermaid ands", |n| format!("```mermaid\nflowchart LR\n{}z --> y\n```", (0..n / 8).map(|i| format!("a{i} & ")).collect::<String>())),
    ("mermaid cycle", |n| format!("```mermaid\nflowchart LR\n{}\n```", (0..n / 8).map(|i| format!("a{i} --> a{}\n", (i * 7 + 1) % (n / 8).max(1))).collect::<String>())),
    ("mermaid brackets", |n| format!("```mermaid\nflowchart LR\na{}\n```", "[".repeat(n))),
    ("mermaid label", |n| format!("```mermaid\nflowchart LR\na[\"{}\"]\n```", "é".repeat(n))),
    ("mermaid git", |n| format!("```mermaid\ngitGraph\n{}\n```", (0..n / 8).map(|i| format!("branch b{i}\ncommit\n")).collect::<String>())),
    ("web div", |n| format!("<h1>T</h1>{}<p>a paragraph that is long enough</p>", "<div>".repeat(n))),
    ("web ul", |n| format!("<h1>T</h1>{}x", "<ul><li>".repeat(n))),
    ("web b", |n| format!("<h1>T</h1><p>{}a paragraph that is long enough", "<b>".repeat(n))),
    ("web table", |n| format!("<h1>T</h1>{}x", "<table><tr><td>".repeat(n))),
    ("web quote", |n| format!("<h1>T</h1>{}x", "<blockquote>".repeat(n))),
    ("web items", |n| format!("<h1>T</h1><ul>{}", "<li>an item".repeat(n))),
    ("web word", |n| format!("<p>{}", "é".repeat(n))),
    ("web h2", |n| "<h2>a</h2><p>a paragraph</p>".repeat(n / 4)),
];
pub fn child(a: &[String]) {
    let (kind, n): (usize, usize) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let (name, gen_) = GROW[kind];
    let text = gen_(n);
    // with the stack a thread has unless it asks for more
    let out = std::thread::spawn(move || {
        let slides = match name.split(' ').next() {
            Some("html") => parse_html(&text).map_err(|e| e.to_string()),
            Some("web") => {
                let text = format!("{text}<p>{}</p>", "some more words to make it a page ".repeat(4));
                html_to_pptx_with_options(&text, "http://x/", Web2PptConfig::new(), ConversionOptions::new()).map(|b| vec![SlideContent::new(&format!("{}", b.len()))]).map_err(|e| e.to_string())
            }
            _ => ppt_rs::cli::parse_markdown(&text).map_err(|e| e.to_string()),
        };
        slides.and_then(|v| create_pptx_with_content("t", v).map(|b| b.len()).map_err(|e| e.to_string()))
    })
    .join();
    match out {
        Ok(Ok(_)) => println!("slides"),
        Ok(Err(e)) => println!("error {e}"),
        Err(_) => println!("panic"),
    }
}
fn grow(ch: &mut Ch) -> Res {
    let kind = ch.pick(GROW.len());
    let n = *ch.of(if ch.tier == Tier::Quick || GROW[kind].0.starts_with("web") { &[100, 1000, 10_000][..] } else { &[100, 1000, 3000, 10_000, 30_000][..] });
    let limit = 30;
    ch.note(|| format!("{} {n}", GROW[kind].0));
    ch.step();
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", "h02", &kind.to_string(), &n.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null());
    let mut c = c.spawn().map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
    let start = std::time::Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(st)) => break Some(st),
            _ if start.elapsed().as_secs() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            _ => std::thread::sleep(std::time::Duration::from_millis(2)),
        }
    };
    let mut out = String::new();
    use std::io::Read;
    let _ = c.stdout.take().map(|mut o| o.read_to_string(&mut out));
    let name = GROW[kind].0;
    let sig = format!("grows:{name}");
    match st {
        None => ch.check(false, sig, || format!("{name} x {n}: not done after {limit} s")),
        Some(st) if !st.success() => ch.check(false, sig, || format!("{name} x {n}: the process ended with {st}")),
        _ => ch.check(out.starts_with("slides") || out.starts_with("error"), sig, || format!("{name} x {n}: {}", out.trim())),
    }
    ch.outcome(hash_str(&out));
    ch.nontrivial(hash_str(&format!("{kind} {n}")));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "H02",
        level: "exploration",
        rule: "every string of tokens up to the bound through the real converters and the generator, panics caught; growing texts in a process of their own with an ordinary thread stack and a time limit",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let (h, m, w, d, i) = if q { (3, 3, 2, 3, 4) } else { (4, 4, 3, 4, 5) };
            vec![
                Scenario::new("html", format!("all strings of up to {h} of {} tokens, read and written", HTML.len()), 0, move |ch| {
                    let s = tokens(ch, HTML, h);
                    html(ch, &s, s.len() < 12)
                }),
                Scenario::new("markdown", format!("all strings of up to {m} of {} tokens, read and written", MD.len()), 0, move |ch| {
                    let s = tokens(ch, MD, m);
                    markdown(ch, &s, s.len() < 6)
                }),
                Scenario::new("inline", format!("a paragraph with all strings of up to {i} of {} tokens of inline HTML, read and written", INLINE.len()), 0, move |ch| {
                    let s = tokens(ch, INLINE, i);
                    markdown(ch, &format!("# T\n\nx {s}"), s.len() < 12)
                }),
                Scenario::new("styles", format!("all style values of up to {h} of {} tokens", CSS.len()), 0, move |ch| {
                    let s = tokens(ch, CSS, h);
                    html(ch, &format!("<h1 style=\"{s}\">T</h1><p style='color:{s}'>x<span style='font-size:{s}'>y</span><font color=\"{s}\" size=\"{s}\">z</font></p>"), true)
                }),
                Scenario::new("tables", "cells with every pair of spans, in rows of every length up to 3", 0, |ch| {
                    const V: &[&str] = &["", "0", "1", "2", "-1", "65536", "4294967295", "99999999999999999999", "é", "1e9"];
                    let a = format!("<td colspan='{}' rowspan='{}'>x</td>", ch.of(V), ch.of(V));
                    let (b, c) = (ch.pick(3), ch.pick(3));
                    let s = format!("<table><tr>{a}{}</tr><tr>{}</tr></table>", "<td>y</td>".repeat(b), "<td>z</td>".repeat(c));
                    ch.note(|| s.clone());
                    ch.nontrivial(hash_str(&s));
                    html(ch, &s, true)?;
                    web(ch, &s)
                }),
                Scenario::new("diagrams", format!("{} kinds x all strings of up to {d} of {} tokens after the head, on the first line and on a later one", HEADS.len(), LINE.len()), 0, move |ch| {
                    let head = *ch.of(HEADS);
                    let sep = *ch.of(&["\n", "\n  a --> b\n    "]);
                    let k = 1 + ch.pick(d);
                    let s: String = (0..k).map(|_| *ch.of(LINE)).collect();
                    let s = format!("# T\n```mermaid\n{head}{sep}{s}\n```\n");
                    ch.note(|| format!("{s:?}"));
                    ch.nontrivial(hash_str(&s));
                    markdown(ch, &s, k < 2)
                }),
                Scenario::new("web", format!("all strings of up to {w} of {} tokens, in a page and bare", HTML.len()), 0, move |ch| {
                    let s = tokens(ch, HTML, w);
                    web(ch, &s)?;
                    web(ch, &format!("<h1>T</h1>{s}<p>{}</p>", "enough words to be a page ".repeat(5)))
                }),
                Scenario::new("growing", format!("{} kinds of texts nested and repeated up to {} times", GROW.len(), if q { 10_000 } else { 30_000 }), 0, grow).threads(if q { 8 } else { 4 }),
            ]
        },
        must_cover: || vec![],
    }
}
