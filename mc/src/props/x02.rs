//! X02: the Markdown export read as CommonMark with GFM tables says what the deck says.
use super::x01::{full, grid, outline, placed, plain, want, View, PLACES, TOKENS};
use super::*;
use crate::decks::*;
use ppt_rs::api::Presentation;
use ppt_rs::export::md::{export_to_markdown, export_to_markdown_with_options, MarkdownOptions};
use ppt_rs::generator::*;
use pulldown_cmark::{CodeBlockKind, Event, HeadingLevel, MetadataBlockKind, Options, Parser, Tag, TagEnd};

fn bad<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg })
}
/// A YAML scalar as it stands after a key: quoted, plain, or a literal block over the lines after.
fn scalar(first: &str, more: &[&str]) -> Option<String> {
    let first = first.trim();
    if let Some(head) = first.strip_prefix('|') {
        let keep = match head {
            "-" => false,
            "" => true,
            _ => return None,
        };
        let indent = more.iter().find(|l| !l.trim().is_empty())?.chars().take_while(|c| *c == ' ').count();
        if indent == 0 {
            return None;
        }
        let mut lines = vec![];
        for l in more {
            if l.len() >= indent && l[..indent].trim().is_empty() {
                lines.push(&l[indent..]);
            } else if l.trim().is_empty() {
                lines.push("");
            } else {
                return None;
            }
        }
        let t = lines.join("\n");
        if t.chars().any(|c| c.is_control() && c != '\n' && c != '\t') {
            return None;
        }
        return Some(if keep { format!("{}\n", t.trim_end_matches('\n')) } else { t.trim_end_matches('\n').to_string() });
    }
    if !more.is_empty() {
        return None;
    }
    if let Some(q) = first.strip_prefix('"') {
        let (mut out, mut it) = (String::new(), q.chars());
        loop {
            match it.next()? {
                '"' => return if it.next().is_none() { Some(out) } else { None },
                '\\' => match it.next()? {
                    'n' => out.push('\n'),
                    't' => out.push('\t'),
                    'r' => out.push('\r'),
                    '"' => out.push('"'),
                    '\\' => out.push('\\'),
                    '/' => out.push('/'),
                    c @ ('x' | 'u') => {
                        let h: String = it.by_ref().take(if c == 'x' { 2 } else { 4 }).collect();
                        out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    _ => return None,
                },
                c => out.push(c),
            }
        }
    }
    if let Some(q) = first.strip_prefix('\'') {
        let q = q.strip_suffix('\'')?.replace("''", "\0");
        return if q.contains('\'') { None } else { Some(q.replace('\0', "'")) };
    }
    let safe = first.chars().next()?.is_alphanumeric() && !first.contains(": ") && !first.ends_with(':') && !first.contains(" #");
    safe.then(|| first.to_string())
}
#[derive(Default, Debug)]
struct Page {
    meta: Option<Vec<(String, String)>>,
    title: String,
    rules: usize,
    paragraphs: Vec<String>,
    slides: Vec<View>,
}
fn front(text: &str) -> Result<Vec<(String, String)>, Fail> {
    let lines: Vec<&str> = text.lines().collect();
    let mut out = vec![];
    let mut k = 0;
    while k < lines.len() {
        let Some((key, v)) = lines[k].split_once(':') else {
            return bad("frontmatter", format!("not YAML: {text:?}"));
        };
        let mut e = k + 1;
        while e < lines.len() && (lines[e].starts_with(' ') || lines[e].is_empty()) {
            e += 1;
        }
        match scalar(v, &lines[k + 1..e]) {
            Some(x) if !key.contains([' ', '"']) => out.push((key.to_string(), x)),
            _ => return bad("frontmatter", format!("not YAML: {text:?}")),
        }
        k = e;
    }
    Ok(out)
}
fn read(md: &str, separator: bool) -> Result<Page, Fail> {
    let o = Options::ENABLE_TABLES | Options::ENABLE_STRIKETHROUGH | Options::ENABLE_TASKLISTS | Options::ENABLE_FOOTNOTES | Options::ENABLE_YAML_STYLE_METADATA_BLOCKS;
    let mut p = Page::default();
    let mut it = Parser::new_ext(md, o);
    let mut buf = String::new();
    let mut lists: Vec<Option<u64>> = vec![];
    // the item whose text is being read
    let mut item: Option<usize> = None;
    let (mut quote, mut notes, mut strong) = (false, false, false);
    while let Some(e) = it.next() {
        let odd = |e: &dyn std::fmt::Debug| Fail { sig: "markup".into(), msg: format!("{e:?} in {md:?}") };
        if p.slides.is_empty() && !matches!(e, Event::Start(Tag::MetadataBlock(_) | Tag::Heading { .. }) | Event::End(TagEnd::MetadataBlock(_) | TagEnd::Heading(_)) | Event::Text(_) | Event::InlineHtml(_) | Event::Rule | Event::Start(Tag::Paragraph) | Event::End(TagEnd::Paragraph)) {
            return Err(odd(&e));
        }
        match e {
            Event::Start(Tag::MetadataBlock(MetadataBlockKind::YamlStyle)) => {
                let mut t = String::new();
                for e in it.by_ref() {
                    match e {
                        Event::Text(x) => t += &x,
                        Event::End(TagEnd::MetadataBlock(_)) => break,
                        e => return Err(odd(&e)),
                    }
                }
                if p.meta.is_some() || !p.title.is_empty() {
                    return bad("frontmatter", format!("a second one in {md:?}"));
                }
                p.meta = Some(front(&t)?);
            }
            Event::Start(Tag::Heading { level, .. }) => {
                buf.clear();
                match level {
                    HeadingLevel::H1 if p.slides.is_empty() => (),
                    HeadingLevel::H2 => p.slides.push(View::default()),
                    _ => return Err(odd(&level)),
                }
                notes = false;
            }
            Event::End(TagEnd::Heading(l)) => {
                let t = plain(&std::mem::take(&mut buf));
                if l == HeadingLevel::H1 {
                    p.title = t;
                } else {
                    p.slides.last_mut().unwrap().title = t;
                }
            }
            Event::Start(Tag::Paragraph) => {
                if item.is_some() {
                    return Err(odd(&"paragraph in an item"));
                }
                if !quote {
                    buf.clear();
                } else {
                    buf.push('\n');
                }
            }
            Event::End(TagEnd::Paragraph) => {
                if quote {
                    continue;
                }
                let t = plain(&std::mem::take(&mut buf));
                if strong {
                    notes = t == "Notes:";
                    strong = false;
                } else if p.slides.is_empty() {
                    if !separator {
                        return Err(odd(&t));
                    }
                } else if !t.is_empty() {
                    if separator {
                        p.paragraphs.push(t.clone());
                    }
                    p.slides.last_mut().unwrap().shapes.push(t);
                }
            }
            // the heading of the notes
            Event::Start(Tag::Strong) if buf.is_empty() && item.is_none() && !quote => strong = true,
            Event::End(TagEnd::Strong) => (),
            Event::Start(Tag::BlockQuote) if notes => {
                quote = true;
                buf.clear();
            }
            Event::End(TagEnd::BlockQuote) => {
                quote = false;
                notes = false;
                p.slides.last_mut().unwrap().notes = Some(plain(&std::mem::take(&mut buf)));
            }
            Event::Start(Tag::List(n)) if !quote => {
                lists.push(n);
                item_done(&mut p, &mut item, &mut buf);
            }
            Event::End(TagEnd::List(_)) => {
                lists.pop();
            }
            Event::Start(Tag::Item) => {
                let d = lists.len() - 1;
                let n = lists[d].map(|n| n.to_string());
                lists[d] = lists[d].map(|n| n + 1);
                let v = p.slides.last_mut().unwrap();
                item = Some(v.items.len());
                v.items.push((d, n, String::new()));
                buf.clear();
            }
            Event::End(TagEnd::Item) => item_done(&mut p, &mut item, &mut buf),
            Event::Start(Tag::Table(_)) if !quote => p.slides.last_mut().unwrap().tables.push(vec![]),
            Event::Start(Tag::TableHead | Tag::TableRow) => p.slides.last_mut().unwrap().tables.last_mut().unwrap().push(vec![]),
            Event::Start(Tag::TableCell) => buf.clear(),
            Event::End(TagEnd::TableCell) => {
                let t = plain(&std::mem::take(&mut buf));
                p.slides.last_mut().unwrap().tables.last_mut().unwrap().last_mut().unwrap().push((t, 1, 1));
            }
            Event::End(TagEnd::Table | TagEnd::TableHead | TagEnd::TableRow) => (),
            Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(lang))) if !quote && lists.is_empty() => {
                let mut t = String::new();
                for e in it.by_ref() {
                    match e {
                        Event::Text(x) => t += &x,
                        Event::End(TagEnd::CodeBlock) => break,
                        e => return Err(odd(&e)),
                    }
                }
                p.slides.last_mut().unwrap().codes.push((lang.to_string(), t.strip_suffix('\n').unwrap_or(&t).to_string()));
            }
            Event::Start(Tag::Image { dest_url, .. }) => {
                let mut t = String::new();
                for e in it.by_ref() {
                    match e {
                        Event::Text(x) => t += &x,
                        Event::SoftBreak | Event::HardBreak => t.push(' '),
                        Event::End(TagEnd::Image) => break,
                        e => return Err(odd(&e)),
                    }
                }
                p.slides.last_mut().unwrap().images.push((plain(&t), dest_url.to_string()));
            }
            Event::Text(t) => buf += &t,
            Event::SoftBreak => buf.push(' '),
            Event::HardBreak => buf.push('\n'),
            Event::InlineHtml(h) if matches!(&h[..], "<br>" | "<br/>" | "<br />") => buf.push('\n'),
            Event::Rule if !quote && lists.is_empty() => p.rules += 1,
            e => return Err(odd(&e)),
        }
    }
    Ok(p)
}
fn item_done(p: &mut Page, item: &mut Option<usize>, buf: &mut String) {
    if let Some(i) = item.take() {
        p.slides.last_mut().unwrap().items[i].2 = plain(&std::mem::take(buf));
    }
}
fn judge(ch: &mut Ch, deck: &str, slides: &[SlideContent], o: Option<&MarkdownOptions>) -> Res {
    let mut p = Presentation::with_title(deck);
    for s in slides {
        p = p.add_slide(s.clone());
    }
    let md = match guarded(|| match o {
        None => export_to_markdown(&p),
        Some(o) => export_to_markdown_with_options(&p, o),
    }) {
        Err(e) => return Err(panic_fail(e)),
        Ok(Err(e)) => return bad("refused", format!("no Markdown: {e}")),
        Ok(Ok(x)) => x,
    };
    let std = MarkdownOptions::default();
    let o = o.unwrap_or(&std);
    ch.step();
    ch.outcome(hash_str(&md));
    let words = !["---", "***", "* * *"].contains(&&o.slide_separator[..]);
    let page = match read(&md, words) {
        Ok(x) => x,
        Err(f) => {
            ch.check(false, &f.sig, || f.msg.clone());
            return Ok(());
        }
    };
    ch.check(page.title == plain(deck), "deck title", || format!("headed {:?} instead of {:?}: {md:?}", page.title, plain(deck)));
    match (&page.meta, o.include_frontmatter) {
        (Some(m), true) => {
            let get = |k: &str| m.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>();
            ch.check(get("title") == [deck], "meta title", || format!("{:?} instead of {deck:?}", get("title")));
            ch.check(get("slides") == [slides.len().to_string()], "meta slides", || format!("{:?} instead of {}", get("slides"), slides.len()));
        }
        (m, want) => ch.check(m.is_some() == want, "frontmatter", || format!("asked for: {want}: {md:?}")),
    }
    ch.check(page.slides.len() == slides.len(), "slides", || format!("{} slides instead of {}: {md:?}", page.slides.len(), slides.len()));
    let breaks = if o.include_slide_numbers { slides.len() } else { slides.len().saturating_sub(1) };
    ch.check(words || page.rules == breaks, "separators", || format!("{} separators instead of {breaks}: {md:?}", page.rules));
    let mut sources = vec![];
    for (k, (s, mut g)) in slides.iter().zip(page.slides).enumerate() {
        let mut w = want(s, true);
        ch.state(hash_str(&format!("{w:?}")));
        if o.include_slide_numbers {
            w.title = plain(&format!("Slide {}: {}", k + 1, s.title.trim_start()));
        }
        if !o.include_notes {
            w.notes = None;
        }
        g.notes = g.notes.filter(|n| !n.is_empty());
        // a grid without spans, filled up to its widest row
        w.tables.clear();
        if let Some(t) = s.table.as_ref().filter(|_| o.use_gfm_tables) {
            let n = t.rows.iter().map(|r| r.cells.len()).max().unwrap_or(0);
            if n > 0 {
                let cell = |c: &TableCell| if c.h_merge || c.v_merge { String::new() } else { plain(&c.text) };
                w.tables.push(t.rows.iter().map(|r| (0..n).map(|i| (r.cells.get(i).map(cell).unwrap_or_default(), 1, 1)).collect()).collect());
            }
        }
        // Markdown has one way of numbering
        let numbers = super::x01::items(
            &w_bullets(s).into_iter().map(|b| if super::x01::number(b.style, 1).is_some() { b.with_style(BulletStyle::Number) } else { b }).collect::<Vec<_>>(),
            true,
        );
        w.items = numbers;
        for (lang, code) in &mut w.codes {
            *lang = lang.clone();
            *code = code.replace('\r', "\n");
        }
        if !o.include_images {
            w.images.clear();
        }
        for ((i, w), g) in s.images.iter().zip(&mut w.images).zip(&mut g.images) {
            let ext = g.1.rsplit_once('.').map(|x| x.1.to_string());
            let format = i.format.to_lowercase();
            ch.check(ext.is_some_and(|e| e == format || e == "jpg" && format == "jpeg"), "image source", || format!("a {format} picture is called {}", g.1));
            ch.check(!sources.contains(&g.1), "image source", || format!("two pictures are called {}", g.1));
            sources.push(std::mem::take(&mut g.1));
            w.0 = w.0.replace('\n', " ");
            if i.alt_text.is_none() {
                g.0.clear();
            }
        }
        if words && k + 1 < slides.len() {
            ch.check(g.shapes.pop().is_some_and(|t| t == plain(&o.slide_separator)), "separators", || format!("slide {} is not followed by {:?}: {md:?}", k + 1, o.slide_separator));
        }
        if let Some((sig, m)) = super::x01::differ(&w, &g) {
            ch.check(false, sig, || format!("slide {}: {m}: {md:?}", k + 1));
        }
    }
    ch.nontrivial(hash_str(&md));
    Ok(())
}
fn w_bullets(s: &SlideContent) -> Vec<BulletPoint> {
    if s.bullets.is_empty() {
        s.content.iter().map(|c| BulletPoint::new(c).with_style(s.bullet_style)).collect()
    } else {
        s.bullets.clone()
    }
}
fn texts(ch: &mut Ch, n: usize) -> Res {
    let place = ch.pick(PLACES);
    let t: String = (0..n).map(|_| TOKENS[ch.pick(TOKENS.len())]).collect();
    let (deck, s) = placed(place, &t);
    judge(ch, &deck, &[s], None)
}
fn lists(ch: &mut Ch, n: usize, levels: usize, styles: usize) -> Res {
    let n = ch.pick(n + 1);
    let s = outline(ch, n, levels, styles).notes("n");
    judge(ch, "deck", &[s], None)
}
/// Long numbered lists with deeper items under any of them.
fn long(ch: &mut Ch) -> Res {
    let n = 8 + ch.pick(5);
    let under = ch.pick(n);
    let kind = STYLES2[ch.pick(2)];
    let mut s = SlideContent::new("t");
    for k in 0..n {
        s = s.add_numbered(&format!("i{k}"));
        if k == under {
            for d in 1..=2 {
                s.content.push("x".into());
                s.bullets.push(BulletPoint::new(&format!("d{d}")).with_level(d).with_style(kind));
            }
        }
    }
    judge(ch, "deck", &[s], None)
}
const STYLES2: [BulletStyle; 2] = [BulletStyle::Bullet, BulletStyle::Number];
fn tables(ch: &mut Ch, max: usize) -> Res {
    let mut s = grid(ch, max);
    s.has_table = ch.flag();
    judge(ch, "deck", &[s], None)
}
fn options(ch: &mut Ch) -> MarkdownOptions {
    MarkdownOptions::new()
        .with_notes(ch.flag())
        .with_slide_numbers(ch.flag())
        .with_gfm_tables(ch.flag())
        .with_images(ch.flag())
        .with_frontmatter(ch.flag())
        .with_separator(["---", "***", "next page"][ch.pick(3)])
}
fn decks(ch: &mut Ch, n: usize) -> Res {
    let slides: Vec<SlideContent> = (0..n).map(|k| full(ch, ["x", "yy"][k])).collect();
    let o = options(ch);
    judge(ch, "deck", &slides, Some(&o))
}
fn pairs(ch: &mut Ch, q: bool) -> Res {
    if !q {
        return decks(ch, 2);
    }
    let slides = [full(ch, "x"), full(ch, "yy")];
    judge(ch, "deck", &slides, None)
}
fn pictures(ch: &mut Ch) -> Res {
    let n = 1 + ch.pick(3);
    let slides: Vec<SlideContent> = (0..2)
        .map(|_| {
            let mut s = SlideContent::new("t");
            for _ in 0..n {
                let f = ["PNG", "JPEG", "JPG", "GIF", "BMP", "TIFF", "SVG", "WEBP"][ch.pick(8)];
                let i = Image::from_bytes(png(1), 9, 9, f);
                s = s.add_image(if n == 1 && ch.flag() { i.with_alt_text("a [b]\n!c") } else { i });
            }
            s
        })
        .collect();
    judge(ch, "deck", &slides, None)
}

pub fn prop() -> Prop {
    Prop {
        id: "X02",
        level: "exploration",
        rule: "every deck of the stated sets through the real export: the result, read by a CommonMark and GFM parser and a YAML reader, has the deck's title and number of slides, one heading per slide in order, and under it exactly the slide's list items (depth, number, text), table grid, pictures, shape texts, code and notes; no text becomes markup; options switch off exactly what they name",
        assumptions: &["pulldown-cmark reads Markdown as CommonMark with GFM tables says", "an item can be at most one level below the item before it, letters and roman numbers become numbers, covered cells are empty: Markdown knows no more", "charts, connectors and media are not part of the Markdown export and are not judged"],
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 2 } else { 3 };
            let i = if q { 4 } else { 5 };
            let x = if q { 3 } else { 4 };
            vec![
                Scenario::new("texts", format!("all texts of up to {x} of {} tokens that mean something in HTML, Markdown or YAML x {PLACES} places", TOKENS.len()), 0, move |ch| {
                    let k = 1 + ch.pick(x);
                    texts(ch, k)
                }),
                Scenario::new("lists", format!("all lists of up to {i} items x 3 levels x 3 kinds of sign"), 0, move |ch| lists(ch, i, 3, 3)),
                Scenario::new("signs", "all lists of up to 3 items x 4 levels x 8 kinds of sign", 0, |ch| lists(ch, 3, 4, 8)),
                Scenario::new("long", "numbered lists of 8 to 12 items with two deeper ones after any", 0, long),
                Scenario::new("tables", format!("all tables of up to {n} rows and cells, ragged, each cell plain, empty, spanning or covered"), 0, move |ch| tables(ch, n)),
                Scenario::new("decks", "all slides with any of six kinds of content x every option", 0, |ch| decks(ch, 1)),
                Scenario::new("pairs", "all pairs of such slides with default options (thorough: every option)", 0, move |ch| pairs(ch, q)),
                Scenario::new("pictures", "up to 3 pictures of 8 formats on each of 2 slides", 0, pictures),
            ]
        },
        must_cover: || vec![],
    }
}
