//! W01: a web page becomes slides that carry its blocks in order, within the limits.
use super::*;
use ppt_rs::web2ppt::{html_to_pptx_with_options, ContentType, ConversionOptions, Web2PptConfig, WebContent, WebParser};

/// A block of a page, as the parser is to see it and as a slide is to show it.
#[derive(Clone, Debug, PartialEq)]
enum B {
    Head(u8, String),
    Para(String),
    Item(String, u8),
    Quote(String),
    Code(String),
    Table(usize, usize),
    Image(String),
}
use B::*;
struct Block {
    src: fn(&str) -> String,
    gives: fn(&str) -> Vec<B>,
}
const fn b(src: fn(&str) -> String, gives: fn(&str) -> Vec<B>) -> Block {
    Block { src, gives }
}
fn p(w: &str) -> String {
    format!("{w} is said here")
}
const BLOCKS: &[Block] = &[
    b(|w| format!("<h1>{w}</h1>"), |w| vec![Head(1, w.into())]),
    b(|w| format!("<p>{}</p>", p(w)), |w| vec![Para(p(w))]),
    b(|w| format!("<ul><li>{w}a</li><li>{w}b</li></ul>"), |w| vec![Item(format!("{w}a"), 0), Item(format!("{w}b"), 0)]),
    b(|w| format!("<h2>{w}<em>x</em> &amp; y</h2>"), |w| vec![Head(2, format!("{w}x & y"))]),
    b(|w| format!("<blockquote><p>{w}a</p><p>{w}b</p></blockquote>"), |w| vec![Quote(format!("{w}a {w}b"))]),
    b(|w| format!("<pre><code>let {w};</code></pre>"), |w| vec![Code(format!("let {w};"))]),
    b(|w| format!("<table><tr><th>{w}</th><th>x</th></tr><tr><td>1</td><td>2</td></tr></table>"), |_| vec![Table(2, 2)]),
    b(|w| format!("<img src='/{w}.png' alt='{w}'>"), |w| vec![Image(w.into())]),
    b(|w| format!("<ol><li>{w}a<ul><li>{w}b</li><li>{w}c<ol><li>{w}d</li></ol></li></ul></li><li><p>{w}e</p><p>{w}f</p></li></ol>"), |w| {
        vec![Item(format!("{w}a"), 0), Item(format!("{w}b"), 1), Item(format!("{w}c"), 1), Item(format!("{w}d"), 2), Item(format!("{w}e {w}f"), 0)]
    }),
    b(|w| format!("<div><section><p>{w}a<br>{w}b and <a href='http://x/'>{w}c</a><b>d</b></p></section></div>"), |w| vec![Para(format!("{w}a {w}b and {w}cd"))]),
    b(|w| format!("<script>var {w} = '<p>{w} is not said</p>';</script><style>.{w} {{}}</style><!-- <p>{w} is a remark</p> -->"), |_| vec![]),
    b(|w| format!("<p>{} <script>var {w};</script>now</p>", p(w)), |w| vec![Para(format!("{} now", p(w)))]),
    b(|w| format!("<form><p>{} in a form</p><input value='x'></form>", p(w)), |_| vec![]),
    b(|w| format!("<div class='x Advertisement'><p>{} in an advertisement</p></div>", p(w)), |_| vec![]),
    b(|w| format!("<h6>{w}\n  z</h6>"), |w| vec![Head(6, format!("{w} z"))]),
    b(|w| format!("<p>{} unclosed<p>{} again", p(w), p(w)), |w| vec![Para(format!("{} unclosed", p(w))), Para(format!("{} again", p(w)))]),
    b(|w| format!("<figure><img src='{w}.png' alt='{w}'></figure><img src='data:x' alt='d'><img src='y'>"), |w| vec![Image(w.into())]),
    b(|w| format!("<table><tr><td>{w}<br>z</td></tr></table>"), |_| vec![Table(1, 1)]),
    b(|w| format!("<table><tr><td>{w}<table><tr><td>x</td><td>y</td><td>z</td></tr></table></td><td>2</td></tr><tr></tr></table>"), |_| vec![Table(1, 2)]),
    b(|w| format!("<p><a href='x'><img src='{w}.png' alt='{w}'></a></p>"), |w| vec![Image(w.into())]),
    b(|w| format!("<ul><li>{w}a <img src='{w}.png' alt='{w}'><ul><li>{w}b</li></ul></ul><h2>{w}<img src=x alt='{w}c'></h2>"), |w| vec![Item(format!("{w}a"), 0), Image(w.into()), Item(format!("{w}b"), 1), Head(2, w.into()), Image(format!("{w}c"))]),
];
fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
fn seen(c: &WebContent) -> Vec<B> {
    c.blocks
        .iter()
        .filter_map(|b| {
            Some(match &b.content_type {
                ContentType::Title => Head(1, b.text.clone()),
                ContentType::Heading(n) => Head(*n, b.text.clone()),
                ContentType::Paragraph => Para(b.text.clone()),
                ContentType::ListItem => Item(b.text.clone(), b.level),
                ContentType::Quote => Quote(b.text.clone()),
                ContentType::Code => Code(b.text.clone()),
                ContentType::Table(r) => Table(r.len(), r.first().map_or(0, |c| c.len())),
                ContentType::Image { alt, .. } => Image(alt.clone()),
                ContentType::Link { .. } => return None,
            })
        })
        .collect()
}
const FILL: &str = "This last paragraph says nothing of any weight, but it makes the page long enough to be taken for one that has content.";
fn page(head: &str, body: &str) -> String {
    format!("<!DOCTYPE html><html><head>{head}</head><body>{body}\n<p>{FILL}</p></body></html>")
}
/// Titles and other paragraphs of the slides of a package.
fn slides_of(bytes: &[u8]) -> Result<Vec<(String, Vec<String>)>, Fail> {
    let p = pkg_of(bytes)?;
    let mut v = vec![];
    for s in p.slides() {
        let doc = p.doc(&s).map_err(|e| Fail { sig: "xml".into(), msg: e })?;
        let mut title = String::new();
        let mut rest = vec![];
        for sp in doc.all("sp") {
            let lines: Vec<String> = sp.child("txBody").into_iter().flat_map(|t| t.children("p")).map(|e| squeeze(&super::g02::para_text(e))).filter(|t| !t.is_empty()).collect();
            // the title is what stands first
            if title.is_empty() {
                title = lines.join(" ");
            } else {
                rest.extend(lines);
            }
        }
        v.push((title, rest));
    }
    Ok(v)
}
/// What a slide shows of a block; the marks around texts are the library's choice.
fn shows(b: &B, c: &Web2PptConfig) -> Option<Vec<String>> {
    Some(match b {
        Head(..) => return None,
        Para(t) | Item(t, _) | Quote(t) => vec![t.clone()],
        Code(t) if c.include_code => vec![squeeze(t)],
        Table(r, k) if c.include_tables => vec![format!("{r}"), format!("{k}")],
        Image(a) if c.include_images => vec![a.clone()],
        _ => return None,
    })
}
fn bullet_ok(got: &str, want: &[String]) -> bool {
    want.iter().all(|w| got.contains(w.as_str())) || matches!(want, [w] if cut(got, w))
}
/// Whether a text is the start of another, cut with an ellipsis.
fn cut(got: &str, want: &str) -> bool {
    let Some(end) = got.find("...") else { return false };
    let start = got[..end].trim_start_matches(['•', '"', ' ']).trim_start_matches("[Code] ");
    !start.is_empty() && want.starts_with(start) && start.len() * 4 > 150
}
struct Asked {
    c: Web2PptConfig,
    o: ConversionOptions,
    title: &'static str,
    description: Option<&'static str>,
}
fn judge(ch: &mut Ch, html: &str, want: &[B], a: &Asked) -> Res {
    let url = "http://host/page?a=1&b=2";
    ch.step();
    let parsed = guarded(|| WebParser::with_config(a.c.clone()).parse(html, url)).map_err(panic_fail)?;
    let content = match parsed {
        Ok(c) => c,
        Err(e) => {
            ch.check(false, "refused", || format!("{html:?}: {e}"));
            return Ok(());
        }
    };
    let mut want = want.to_vec();
    want.push(Para(FILL.into()));
    want.retain(|b| match b {
        Code(_) => a.c.include_code,
        Table(..) => a.c.include_tables,
        Image(_) => a.c.include_images,
        _ => true,
    });
    let got: Vec<B> = seen(&content).into_iter().map(|b| if let Code(t) = b { Code(t.trim().into()) } else { b }).collect();
    ch.outcome(hash_str(&format!("{got:?}")));
    ch.check(got == want, "blocks", || format!("{html:?}: {got:?} instead of {want:?}"));
    if got != want {
        return Ok(());
    }
    ch.check(content.title == a.title, "title", || format!("{html:?}: title {:?}", content.title));
    ch.check(content.description.as_deref() == a.description, "description", || format!("{html:?}: description {:?}", content.description));
    let bytes = guarded(|| html_to_pptx_with_options(html, url, a.c.clone(), a.o.clone())).map_err(panic_fail)?;
    let bytes = bytes_of(bytes, "html_to_pptx")?;
    let slides = slides_of(&bytes)?;
    // the reference: a slide per heading and what follows it, cut into slides of their own
    let max = a.c.max_bullets_per_slide;
    let mut groups: Vec<(Option<String>, Vec<Vec<String>>)> = vec![(None, vec![])];
    for b in &want {
        match b {
            Head(_, t) => groups.push((Some(t.clone()), vec![])),
            _ => groups.last_mut().unwrap().1.extend(shows(b, &a.c)),
        }
    }
    let mut expected: Vec<(Option<String>, bool, Vec<Vec<String>>)> = vec![];
    for (t, bullets) in groups {
        for (i, c) in bullets.chunks(max).enumerate() {
            expected.push((t.clone(), i > 0, c.to_vec()));
        }
    }
    expected.truncate(a.c.max_slides - 1);
    let say = || format!("{html:?} with at most {max} bullets and {} slides, grouped {}", a.c.max_slides, a.c.group_by_headings);
    ch.check(slides.len() == expected.len() + 1, "slides", || format!("{}: slides {slides:?} instead of a title slide and {expected:?}", say()));
    let Some(first) = slides.first() else { return Ok(()) };
    let own = a.o.title.as_deref().unwrap_or(a.title);
    ch.check(first.0 == own, "deck-title", || format!("{}: title slide {:?}", say(), first.0));
    let mut about: Vec<&str> = a.description.into_iter().collect();
    if a.o.include_source_url {
        about.push(url);
    }
    ch.check(first.1.len() == about.len() && first.1.iter().zip(&about).all(|(g, w)| g.contains(w)), "about", || format!("{}: title slide says {:?}", say(), first.1));
    for (s, e) in slides[1..].iter().zip(&expected) {
        let title_ok = match &e.0 {
            None => true,
            Some(t) if e.1 => s.0.starts_with(t.as_str()) && s.0.len() > t.len(),
            Some(t) => s.0 == *t,
        };
        ch.check(title_ok, "heading", || format!("{}: {:?} stands above {:?}", say(), s.0, e.2));
        let ok = s.1.len() == e.2.len() && s.1.iter().zip(&e.2).all(|(g, w)| bullet_ok(g, w));
        ch.check(ok, "bullets", || format!("{}: bullets {:?} instead of {:?}", say(), s.1, e.2));
    }
    ch.state(hash_str(&format!("{expected:?}")));
    ch.nontrivial(hash_str(&format!("{html} {max} {}", a.c.max_slides)));
    Ok(())
}
fn plain() -> Asked {
    Asked { c: Web2PptConfig::new().max_slides(50).max_bullets(4), o: ConversionOptions::new(), title: "The page", description: None }
}
fn blocks(ch: &mut Ch, n: usize) -> Res {
    let mut body = String::new();
    let mut want = vec![];
    for k in 0..n {
        let w = format!("w{k}");
        let b = ch.of(BLOCKS);
        body += &(b.src)(&w);
        want.extend((b.gives)(&w));
    }
    let mut a = plain();
    a.c.group_by_headings = ch.flag();
    let html = page("<title>The page</title>", &body);
    ch.note(|| body.clone());
    judge(ch, &html, &want, &a)
}
fn options(ch: &mut Ch, n: usize) -> Res {
    let mut body = String::new();
    let mut want = vec![];
    for k in 0..n {
        let w = format!("w{k}");
        let b = &BLOCKS[ch.pick(8)];
        body += &(b.src)(&w);
        want.extend((b.gives)(&w));
    }
    let mut a = plain();
    a.c.group_by_headings = ch.flag();
    a.c = a.c.max_bullets(1 + ch.pick(3)).max_slides(*ch.of(&[1, 2, 3, 50]));
    a.c.include_code = ch.dev(2) == 0;
    a.c.include_tables = ch.dev(2) == 0;
    a.c.include_images = ch.dev(2) == 0;
    a.o.include_source_url = ch.dev(2) == 0;
    if ch.dev(2) == 1 {
        a.o.title = Some("Mine & more".into());
    }
    let mut head = String::from("<title>The page</title>");
    if ch.dev(2) == 1 {
        head += "<meta name='description' content=' About &lt;it&gt; '>";
        a.description = Some("About <it>");
    }
    let html = page(&head, &body);
    ch.note(|| format!("{body} {:?} {:?}", a.c, a.o));
    judge(ch, &html, &want, &a)
}
/// Texts around the lengths at which slides cut them, of characters of 1 to 4 bytes.
fn long(ch: &mut Ch) -> Res {
    let unit = *ch.of(&["a", "é", "€", "😀", "ab ", "é€ "]);
    let count = 1 + ch.pick(if ch.tier == Tier::Quick { 230 } else { 400 });
    let text = squeeze(&format!("start of it {}", unit.repeat(count)));
    let (body, want) = match ch.pick(4) {
        0 => (format!("<p>{text}</p>"), Para(text.clone())),
        1 if text.len() < 500 => (format!("<ul><li>{text}</li></ul>"), Item(text.clone(), 0)),
        2 => (format!("<blockquote>{text}</blockquote>"), Quote(text.clone())),
        3 if text.len() <= 1000 => (format!("<pre>{text}</pre>"), Code(text.clone())),
        _ => return Ok(()),
    };
    let html = page("<title>The page</title>", &body);
    ch.note(|| format!("{unit:?} {count} times"));
    judge(ch, &html, &[want], &plain())
}
/// Where the title of a page comes from.
fn titles(ch: &mut Ch) -> Res {
    let t = ch.flag();
    let h = ch.flag();
    let og = ch.flag();
    let d = ch.pick(3);
    let mut head = String::new();
    if og {
        head += "<meta property='og:title' content='From og'>";
    }
    if t {
        head += "<title>\n  From &quot;title&quot;\n  tag </title>";
    }
    match d {
        1 => head += "<meta property='og:description' content='og about'>",
        2 => head += "<meta property='og:description' content='og about'><meta name='description' content='about'>",
        _ => {}
    }
    let body = if h { "<h1>From <i>h1</i></h1>" } else { "" };
    let mut a = plain();
    a.title = if t {
        "From \"title\" tag"
    } else if h {
        "From h1"
    } else if og {
        "From og"
    } else {
        "Untitled"
    };
    a.description = [None, Some("og about"), Some("about")][d];
    let want: Vec<B> = if h { vec![Head(1, "From h1".into())] } else { vec![] };
    let html = page(&head, body);
    ch.note(|| html.clone());
    judge(ch, &html, &want, &a)
}
/// The part of a page that is its content, by how the page marks it.
fn areas(ch: &mut Ch) -> Res {
    let (open, close) = *ch.of(&[("<article>", "</article>"), ("<main>", "</main>"), ("<main><article>", "</article></main>"), ("<div role='main'>", "</div>"), ("<div class='a content b'>", "</div>"), ("<div id='main'>", "</div>"), ("<div class='markdown-body'>", "</div>")]);
    let before = ch.flag();
    let after = ch.flag();
    let short = ch.flag();
    let side = "<div><p>This stands beside the content of the page.</p></div>";
    let mut body = String::new();
    if before {
        body += side;
    }
    // an area too short to be the content of the page does not hide the rest
    let inner = if short { "<p>Short but said.</p>".to_string() } else { format!("<h2>Inside</h2><p>{FILL}</p>") };
    body += &format!("{open}{inner}{close}");
    if after {
        body += side;
    }
    let tail = if short { format!("<p>{FILL}</p>") } else { String::new() };
    let html = format!("<html><head><title>The page</title></head><body>{body}{tail}</body></html>");
    ch.note(|| html.clone());
    let c = guarded(|| WebParser::new().parse(&html, "http://x/")).map_err(panic_fail)?;
    ch.step();
    let beside = Para("This stands beside the content of the page.".into());
    let want = if short {
        let mut v = vec![];
        v.extend(before.then(|| beside.clone()));
        v.push(Para("Short but said.".into()));
        v.extend(after.then(|| beside.clone()));
        v.push(Para(FILL.into()));
        v
    } else {
        vec![Head(2, "Inside".into()), Para(FILL.into())]
    };
    let got = c.map(|c| seen(&c)).unwrap_or_default();
    ch.outcome(hash_str(&format!("{got:?}")));
    ch.check(got == want, "area", || format!("{html:?}: {got:?} instead of {want:?}"));
    ch.nontrivial(hash_str(&html));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "W01",
        level: "model_checking",
        rule: "every page of the stated sets through the real parser and converter: the extracted blocks and the slides of the package equal those a reference builds block by block",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 3 } else { 4 };
            let m = if q { 3 } else { 4 };
            vec![
                Scenario::new("blocks", format!("all pages of up to {n} of {} blocks, grouped and linear", BLOCKS.len()), 0, move |ch| {
                    let k = 1 + ch.pick(n);
                    blocks(ch, k)
                }),
                Scenario::new("options", format!("all pages of up to {m} of 8 blocks with every limit, and up to {} other options", if q { 1 } else { 2 }), if q { 1 } else { 2 }, move |ch| {
                    let k = 1 + ch.pick(m);
                    options(ch, k)
                }),
                Scenario::new("long", "texts around the lengths at which slides cut them", 0, long),
                Scenario::new("titles", "every source of a title and description", 0, titles),
                Scenario::new("areas", "every mark of the content area of a page", 0, areas),
            ]
        },
        must_cover: || vec![],
    }
}
