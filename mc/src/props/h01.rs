//! H01: HTML becomes slides without losing, inventing or reordering content.
use super::*;
use crate::decks::*;
use ppt_rs::generator::*;
use ppt_rs::import::{parse_html, parse_html_with_options, HtmlParseOptions};

/// What a slide is to hold.
#[derive(Default, Clone, Debug, PartialEq)]
struct Want {
    title: String,
    /// Follows no heading of its own: its title is the library's choice.
    free: bool,
    bullets: Vec<String>,
    tables: Vec<Vec<Vec<String>>>,
    codes: Vec<String>,
    notes: Option<String>,
}
impl Want {
    fn empty(&self) -> bool {
        self.bullets.is_empty() && self.tables.is_empty() && self.codes.is_empty() && self.notes.is_none()
    }
}
struct Ref {
    slides: Vec<Want>,
    open: bool,
    o: HtmlParseOptions,
}
impl Ref {
    fn new(o: HtmlParseOptions) -> Self {
        Ref { slides: vec![], open: false, o }
    }
    fn heading(&mut self, t: impl Into<String>) {
        self.slides.push(Want { title: t.into(), ..Want::default() });
        self.open = true;
    }
    fn on(&mut self) -> &mut Want {
        if !self.open {
            self.slides.push(Want { free: true, ..Want::default() });
            self.open = true;
        }
        self.slides.last_mut().unwrap()
    }
    fn turn(&mut self) {
        self.open = false;
    }
    fn bullet(&mut self, t: impl Into<String>) {
        let max = self.o.max_bullets;
        let s = self.on();
        if s.bullets.len() < max {
            s.bullets.push(t.into());
        }
    }
    fn table(&mut self, rows: Vec<Vec<String>>) {
        if !self.o.include_tables {
            return;
        }
        if self.open && !self.slides.last().unwrap().tables.is_empty() {
            self.turn();
        }
        self.on().tables.push(rows);
    }
    fn code(&mut self, t: impl Into<String>) {
        if self.o.include_code {
            self.on().codes.push(t.into());
        }
    }
    /// A slide has the notes of its last quote (fixed by the repository's tests).
    fn quote(&mut self, t: impl Into<String>) {
        self.on().notes = Some(t.into());
    }
    fn picture(&mut self, alt: &str) {
        if self.o.include_images {
            self.bullet(format!("[Image: {alt}]"));
        }
    }
}
struct Block {
    name: &'static str,
    src: fn(&str) -> String,
    effect: fn(&mut Ref, &str),
}
const fn b(name: &'static str, src: fn(&str) -> String, effect: fn(&mut Ref, &str)) -> Block {
    Block { name, src, effect }
}
fn rows(w: &str) -> Vec<Vec<String>> {
    (0..2).map(|r| (0..2).map(|c| format!("{w}r{r}c{c}")).collect()).collect()
}
const NOTHING: fn(&mut Ref, &str) = |_, _| ();
const BLOCKS: &[Block] = &[
    b("h1", |w| format!("<h1>{w}</h1>"), |r, w| r.heading(w)),
    b("p", |w| format!("<p>{w}a\n{w}b</p>"), |r, w| r.bullet(format!("{w}a {w}b"))),
    b("ul", |w| format!("<ul>\n<li>{w}a</li>\n<li>{w}b</li>\n</ul>"), |r, w| {
        r.bullet(format!("{w}a"));
        r.bullet(format!("{w}b"));
    }),
    b("table", |w| {
        let t = rows(w);
        format!("<table>{}</table>", t.iter().map(|r| format!("<tr>{}</tr>\n", r.iter().map(|c| format!("<td>{c}</td>")).collect::<String>())).collect::<String>())
    }, |r, w| r.table(rows(w))),
    b("pre", |w| format!("<pre>  {w}a\n\n{w}b</pre>"), |r, w| r.code(format!("  {w}a\n\n{w}b"))),
    b("quote", |w| format!("<blockquote>{w}a</blockquote>"), |r, w| r.quote(format!("{w}a"))),
    b("hr", |_| "<hr>".into(), |r, _| r.turn()),
    b("script", |w| format!("<script>if (a < b && c > d) s = \"<h1>{w}</h1><p>\";</script>"), NOTHING),
    b("form", |w| format!("<form action='x'><p>{w}</p><input name=a><select><option>{w}</select><br></form>"), NOTHING),
    b("h2", |w| format!("<h2>{w}a <b>{w}b</b></h2>"), |r, w| r.bullet(format!("{w}a {w}b"))),
    b("ol", |w| format!("<ol><li>{w}a<li><p>{w}b</p></li><li><b>{w}c</b> {w}d</ol>"), |r, w| {
        r.bullet(format!("{w}a"));
        r.bullet(format!("{w}b"));
        r.bullet(format!("{w}c {w}d"));
    }),
    b("open p", |w| format!("<p>{w}"), |r, w| r.bullet(w)),
    b("bare text", |w| format!("<div></div>{w}a <em>{w}b</em><br>{w}c<section></section>"), |r, w| r.bullet(format!("{w}a {w}b {w}c"))),
    b("rich table", |w| {
        format!("<table border=1><thead><tr><th>{w}<th></thead><tbody><tr><td><b>{w}a</b> &amp; <a href=x>{w}b</a><td><p>{w}c</p><p>{w}d</p></td></tr></tbody></table>")
    }, |r, w| r.table(vec![vec![w.into(), "".into()], vec![format!("{w}a & {w}b"), format!("{w}c {w}d")]])),
    b("div", |w| format!("<div class=\"a>b\"><div>{w}a</div>{w}b<p>{w}c</p>{w}d</div>"), |r, w| {
        for x in ["a", "b", "c", "d"] {
            r.bullet(format!("{w}{x}"));
        }
    }),
    b("nav", |w| format!("<nav><ul><li><a href='#'>{w}</a></li></ul><h1>{w}</h1></nav>"), NOTHING),
    b("style", |w| format!("<style>p > a {{ content: '<{w}>' }}</style>"), NOTHING),
    b("code in pre", |w| format!("<pre><code class=x>{w} &lt;a&gt; <b>b</b><br>c</code></pre>"), |r, w| r.code(format!("{w} <a> b\nc"))),
    b("long quote", |w| format!("<blockquote cite=x><p>{w}a <b>{w}b</b></p><ul><li>{w}c</ul><blockquote>{w}d</blockquote></blockquote>"), |r, w| {
        r.quote(format!("{w}a {w}b {w}c {w}d"))
    }),
    b("svg", |w| format!("<svg width=1><title>{w}</title><text>{w}</text></svg>"), NOTHING),
    b("entities", |w| format!("<P STYLE='color:#12'>{w} &lt;p&gt; &#65;&#x42;&copy;&nbsp;&bogus; a < b &amp;amp;</P>"), |r, w| r.bullet(format!("{w} <p> AB© &bogus; a < b &amp;"))),
    b("comment", |w| format!("<!-- <h1>{w}</h1> -- > -->"), NOTHING),
    b("stray ends", |_| "</b></li></td></div></ul></table></script>".into(), NOTHING),
    b("h1 of marks", |w| format!("<h1 id=x>\n  {w}a &mdash; <i>{w}b</i><script>x</script>\n</h1>"), |r, w| r.heading(format!("{w}a — {w}b"))),
    b("h3 section", |w| format!("<section><h3>{w}a</h3>{w}b</section>"), |r, w| {
        r.bullet(format!("{w}a"));
        r.bullet(format!("{w}b"));
    }),
    b("picture", |w| format!("<p>{w}</p><img src=\"no/{w}.png\" alt='{w} seen'>"), |r, w| {
        r.bullet(w);
        r.picture(&format!("{w} seen"));
    }),
    b("open h1", |w| format!("<h1>{w}a<h2>{w}b</h2>"), |r, w| {
        r.heading(format!("{w}a"));
        r.bullet(format!("{w}b"));
    }),
    b("crossed blocks", |w| format!("<div></div><b>{w}a<p>{w}b</b>{w}c</p>"), |r, w| {
        r.bullet(format!("{w}a"));
        r.bullet(format!("{w}b{w}c"));
    }),
    b("crossed h1", |w| format!("<div></div><i><div><h1>{w}a</i>{w}b</h1></div>"), |r, w| r.heading(format!("{w}a{w}b"))),
    b("crossed nav", |w| format!("<div></div><em><nav><b>{w}</em></b><h1>{w}</h1></nav>"), NOTHING),
    b("crossed", |w| format!("<p><b>{w}a<i>{w}b</b>{w}c</i> {w}d</p>"), |r, w| r.bullet(format!("{w}a{w}b{w}c {w}d"))),
];
fn plain(s: &str) -> String {
    s.replace('*', "").split_whitespace().collect::<Vec<_>>().join(" ")
}
fn got(s: &SlideContent) -> Want {
    Want {
        title: plain(&s.title),
        free: false,
        bullets: s.bullets.iter().map(|b| plain(&b.text)).collect(),
        tables: s.table.iter().map(|t| t.rows.iter().map(|r| r.cells.iter().map(|c| plain(&c.text)).collect()).collect()).collect(),
        codes: s.code_blocks.iter().map(|c| c.code.clone()).collect(),
        notes: s.notes.as_deref().map(plain),
    }
}
fn same(w: &Want, g: &Want) -> Result<(), (&'static str, String)> {
    let d = |k, a: String, b: String| Err((k, format!("{k}: {b} instead of {a}")));
    if !w.free && g.title != w.title {
        return d("title", w.title.clone(), g.title.clone());
    }
    if w.bullets != g.bullets {
        return d("bullets", format!("{:?}", w.bullets), format!("{:?}", g.bullets));
    }
    if w.tables != g.tables {
        return d("table", format!("{:?}", w.tables), format!("{:?}", g.tables));
    }
    let code = |v: &[String]| v.iter().map(|c| c.trim_end().to_string()).collect::<Vec<_>>();
    if code(&w.codes) != code(&g.codes) {
        return d("code", format!("{:?}", w.codes), format!("{:?}", g.codes));
    }
    if w.notes.as_deref().map(plain) != g.notes {
        return d("notes", format!("{:?}", w.notes), format!("{:?}", g.notes));
    }
    Ok(())
}
fn judge(ch: &mut Ch, html: &str, r: &Ref) -> Res {
    let o = r.o.clone();
    let slides = match guarded(|| parse_html_with_options(html, o)) {
        Err(p) => return Err(panic_fail(p)),
        Ok(x) => x,
    };
    ch.step();
    let max = r.o.max_slides;
    // whether a break or a limit leaves a slide without content is not judged
    let want: Vec<&Want> = r.slides.iter().take(max).filter(|w| !(w.free && w.empty())).collect();
    let slides = match slides {
        Ok(s) => s,
        Err(e) => {
            ch.check(want.is_empty(), "refused", || format!("{html:?}: {e}"));
            return Ok(());
        }
    };
    ch.check(slides.len() <= max, "limit", || format!("{html:?}: {} slides, at most {max} asked for", slides.len()));
    let again = parse_html_with_options(html, r.o.clone());
    ch.check(again.as_ref().is_ok_and(|a| format!("{a:?}") == format!("{slides:?}")), "again", || format!("{html:?}: another result the second time"));
    let mut g: Vec<Want> = vec![];
    for s in slides.iter().map(got) {
        let awaited = want.get(g.len()).is_some_and(|w| w.empty() && w.title == s.title);
        if !s.empty() || awaited {
            g.push(s);
        }
    }
    ch.outcome(hash_str(&format!("{g:?}")));
    ch.state(hash_str(&format!("{want:?}")));
    ch.check(g.len() == want.len(), "slides", || format!("{html:?}: slides {:?} instead of {:?}", g.iter().map(|s| &s.title).collect::<Vec<_>>(), want.iter().map(|s| &s.title).collect::<Vec<_>>()));
    for (w, g) in want.iter().zip(&g) {
        if let Err((k, m)) = same(w, g) {
            ch.check(false, k, || format!("{html:?}: {m}"));
        }
    }
    ch.nontrivial(hash_str(html));
    Ok(())
}
fn wide() -> HtmlParseOptions {
    HtmlParseOptions::new().max_bullets(99).max_slides(99)
}
fn document(ch: &mut Ch, n: usize, r: &mut Ref) -> String {
    let mut src = vec![];
    let mut what = vec![];
    for k in 0..n {
        let i = ch.pick(BLOCKS.len());
        let w = format!("{}{k}", ["wq", "xq", "yq", "zq", "uq", "vq"][k]);
        src.push((BLOCKS[i].src)(&w));
        (BLOCKS[i].effect)(r, &w);
        what.push(BLOCKS[i].name);
    }
    ch.note(|| what.join(", "));
    src.join("\n")
}
fn blocks(ch: &mut Ch, n: usize, frame: bool) -> Res {
    let mut r = Ref::new(wide());
    let mut html = document(ch, n, &mut r);
    if frame && ch.flag() {
        html = format!("<!DOCTYPE html>\n<html lang=en>\n<head>\n<meta charset=utf-8><title>t < u</title><link href=x>\n<style>b{{}}</style></head>\n<body>\n<header></header><main>\n{html}\n</main></body>\n</html>\n");
    }
    judge(ch, &html, &r)
}
/// Documents under every combination of limits and switches.
fn options(ch: &mut Ch, n: usize) -> Res {
    let o = HtmlParseOptions::new()
        .max_bullets(ch.pick(4))
        .max_slides(ch.pick(4))
        .include_code(ch.flag())
        .include_tables(ch.flag())
        .include_images(ch.flag());
    let mut r = Ref::new(o);
    const OF: [&str; 9] = ["h1", "ul", "table", "pre", "hr", "picture", "h2", "quote", "rich table"];
    let mut src = vec![];
    for k in 0..n {
        let of = OF[ch.pick(OF.len())];
        let b = BLOCKS.iter().find(|b| b.name == of).unwrap();
        let w = format!("{}{k}", ["wq", "xq", "yq", "zq", "uq"][k]);
        src.push((b.src)(&w));
        (b.effect)(&mut r, &w);
    }
    judge(ch, &src.join("\n"), &r)
}
/// Long content meets the limits of the default options exactly.
fn limits(ch: &mut Ch) -> Res {
    let n = 8 + ch.pick(5);
    let slides = [1, 49, 50, 51, 60][ch.pick(5)];
    let kind = ch.pick(3);
    let o = HtmlParseOptions::default();
    let mut r = Ref::new(o);
    let mut html = String::new();
    for s in 0..slides {
        html += &format!("<h1>T{s}</h1>");
        r.heading(format!("T{s}"));
        let k = if s % 7 == 0 { n } else { 1 };
        for i in 0..k {
            html += &match kind {
                0 => format!("<p>b{i}</p>"),
                1 => format!("<h4>b{i}</h4>"),
                _ => format!("<ul><li>b{i}</li></ul>"),
            };
            r.bullet(format!("b{i}"));
        }
    }
    judge(ch, &html, &r)?;
    let d = format!("{:?}", parse_html(&html));
    ch.check(d == format!("{:?}", parse_html_with_options(&html, HtmlParseOptions::new())), "default", || "the default options give another result".into());
    Ok(())
}
const PIECES: &[(&str, &str)] = &[
    ("w", "w"),
    ("<b>b</b>", "b"),
    ("<i>i</i>", "i"),
    ("<strong><em>s</em></strong>", "s"),
    ("&amp;&lt;", "&<"),
    ("&eacute;&hellip;", "é…"),
    ("&#65;&#x42;", "AB"),
    ("<a href=\"http://x/?a=1&b=2>3\">l</a>", "l"),
    ("<br>", " "),
    ("<span style='color:#ff00zz'>n</span>", "n"),
    ("<!-- c > d -->", ""),
    ("<script>if (a<b) x='</p>';</script>", ""),
    ("a < c", "a < c"),
    ("<code>k</code>", "k"),
    ("& co", "& co"),
    ("é😀", "é😀"),
    ("<input value='v>'>", ""),
    ("<B>u</b>", "u"),
    ("<i>m<b>n</i>o</b>", "mno"),
    ("x<wbr>y", "xy"),
    ("<sup></sup>", ""),
    ("<o:p>q</o:p>", "q"),
];
fn inline(ch: &mut Ch, n: usize) -> Res {
    let k = ch.pick(9);
    let sep = ["", " ", "\n"][ch.pick(3)];
    let seq: Vec<usize> = (0..n).map(|_| ch.pick(PIECES.len())).collect();
    let src = seq.iter().map(|i| PIECES[*i].0).collect::<Vec<_>>().join(sep);
    let text = plain(&seq.iter().map(|i| PIECES[*i].1).collect::<Vec<_>>().join(sep));
    if text.is_empty() {
        return Ok(());
    }
    let mut r = Ref::new(wide());
    if k != 0 {
        r.heading("T");
    }
    let html = match k {
        0 => {
            r.heading(&text);
            format!("<h1>{src}</h1>")
        }
        5 => {
            r.table(vec![vec!["h".into(), text.clone()], vec![text.clone(), "z".into()]]);
            format!("<h1>T</h1><table><tr><th>h</th><th>{src}</th></tr><tr><td>{src}</td><td>z</td></tr></table>")
        }
        6 => {
            r.quote(text);
            format!("<h1>T</h1><blockquote>{src}</blockquote>")
        }
        _ => {
            r.bullet(text);
            match k {
                1 => format!("<h1>T</h1><h2>{src}</h2>"),
                2 => format!("<h1>T</h1><p>{src}</p>"),
                3 => format!("<h1>T</h1><ul><li>{src}</li></ul>"),
                4 => format!("<h1>T</h1><div>{src}</div>"),
                7 => format!("<h1>T</h1>{src}"),
                _ => format!("<h1>T</h1><p>{src}"),
            }
        }
    };
    judge(ch, &html, &r)
}
/// Emphasis is kept as marks.
fn marks(ch: &mut Ch) -> Res {
    const M: [(&str, &str); 5] = [("<b>b</b>", "**b**"), ("<strong>b</strong>", "**b**"), ("<i>i</i>", "*i*"), ("<em>i</em>", "*i*"), ("a <b>b c</b> <i>d</i>", "a **b c** *d*")];
    let (src, want) = M[ch.pick(5)];
    let html = format!("<h1>T</h1><p>{src}</p><ul><li>{src}</li></ul>");
    let s = parse_html(&html).map_err(|e| Fail { sig: "refused".into(), msg: e })?;
    ch.check(s.len() == 1 && s[0].bullets.iter().map(|b| &b.text[..]).eq([want, want]) && s[0].content == [want, want], "marks", || format!("{html:?}: {:?}", s[0].content));
    ch.nontrivial(hash_str(src));
    ch.outcome(hash_str(src));
    Ok(())
}
/// Words bold, italic, both or neither, apart or joined: marks stand next to words and open and close where the state changes.
fn words(ch: &mut Ch, n: usize) -> Res {
    let (mut src, mut want) = (String::new(), String::new());
    let (mut b, mut i) = (false, false);
    let mut close = |want: &mut String, nb: bool, ni: bool, gap: &str| {
        if i && (!ni || nb != b) {
            want.push('*');
            i = false;
        }
        if b && !nb {
            want.push_str("**");
        }
        want.push_str(gap);
        if nb && !b {
            want.push_str("**");
        }
        if ni && !i {
            want.push('*');
        }
        (b, i) = (nb, ni);
    };
    for k in 0..n {
        let gap = if k > 0 && ch.flag() { " " } else { "" };
        let inside = gap == " " && ch.flag();
        let kind = ch.pick(5);
        let w = ["u", "v", "w", "x", "y"][k];
        // the space before a word belongs to it or not: it makes no difference
        let (o, t) = if inside { ("", format!(" {w}")) } else { (gap, w.to_string()) };
        src += o;
        src += &match kind {
            0 => t,
            1 => format!("<b>{t}</b>"),
            2 => format!("<em>{t}</em>"),
            3 => format!("<strong><i>{t}</i></strong>"),
            _ => format!("<i><b>{t}</b></i>"),
        };
        close(&mut want, kind == 1 || kind > 2, kind > 1, gap);
        want += w;
    }
    close(&mut want, false, false, "");
    let html = format!("<h1>T</h1><p>{src}</p><ul><li>{src}</li></ul>");
    let s = match guarded(|| parse_html(&html)) {
        Err(p) => return Err(panic_fail(p)),
        Ok(s) => s.map_err(|e| Fail { sig: "refused".into(), msg: e })?,
    };
    ch.check(s.len() == 1 && s[0].content == [&want[..], &want[..]], "marks", || format!("{html:?}: {:?} instead of {want:?}", s[0].content));
    ch.state(hash_str(&want));
    ch.outcome(hash_str(&want));
    ch.nontrivial(hash_str(&src));
    Ok(())
}
fn pictures(ch: &mut Ch) -> Res {
    let f = picture_file("h01.png", &png(4));
    let place = ch.pick(6);
    let img = format!("<img alt=d src={f}>");
    let html = match place {
        0 => format!("<h1>T</h1>{img}"),
        1 => format!("<h1>T</h1><ul><li>a {img}</li><li>b</li></ul>"),
        2 => format!("{img}<h1>T</h1>"),
        3 => format!("<h1>T</h1><p>before {img} after {img}</p>"),
        4 => format!("<h1>T {img}</h1>"),
        _ => format!("<h1>T</h1><table><tr><td>a</td><td>{img}</td></tr></table>"),
    };
    let s = parse_html(&html).map_err(|e| Fail { sig: "refused".into(), msg: e })?;
    let want = if place == 3 { 2 } else { 1 };
    let on = if place == 2 { 0 } else { s.len() - 1 };
    let imgs: Vec<_> = s[on].images.iter().map(|i| i.get_bytes()).collect();
    ch.check(imgs.len() == want && imgs.iter().all(|b| b.as_deref() == Some(&png(4)[..])), "picture", || format!("{html:?}: {} pictures on slide {on}", imgs.len()));
    ch.check(s.iter().map(|s| s.images.len()).sum::<usize>() == want, "picture", || format!("{html:?}: pictures on other slides"));
    let none = parse_html_with_options(&html, wide().include_images(false)).unwrap_or_default();
    ch.check(none.iter().all(|s| s.images.is_empty()), "picture-off", || format!("{html:?}: pictures that were switched off"));
    ch.nontrivial(place as u64);
    ch.outcome(place as u64);
    Ok(())
}
/// Formats given by styles, through containers.
fn styles(ch: &mut Ch) -> Res {
    const C: [(&str, Option<&str>); 9] = [
        ("red", Some("FF0000")), ("#0a0B0c", Some("0A0B0C")), ("#abc", Some("AABBCC")), ("rgb(1, 2,255)", Some("0102FF")), ("#11223344", Some("112233")),
        ("#gg0000", None), ("#é", None), ("rgb(1,2)", None), ("nocolor", None),
    ];
    let c = C[ch.pick(9)];
    let size = [("18pt", Some(18)), ("20px", Some(15)), ("1e9pt", None), ("-3pt", None), ("", None)][ch.pick(5)];
    let bold = ch.flag();
    let at = ch.pick(5);
    let style = format!("color:{}; font-size:{};{}", c.0, size.0, if bold { "font-weight:bold" } else { "" });
    let html = match at {
        0 => format!("<h1>T</h1><p style=\"{style}\">x</p><p>y</p>"),
        1 => format!("<h1>T</h1><ul><li style=\"{style}\">x</li><li>y</li></ul>"),
        2 => format!("<h1>T</h1><div style=\"{style}\"><section><br><img><p>x</p></section></div><p>y</p>"),
        3 => format!("<h1>T</h1><h3 style=\"{style}\">x</h3><p>y</p>"),
        _ => format!("<h1>T</h1><div style=\"{style}\">x<hr></div><p>y</p>"),
    };
    let s = match guarded(|| parse_html(&html)) {
        Err(p) => return Err(panic_fail(p)),
        Ok(s) => s.map_err(|e| Fail { sig: "refused".into(), msg: e })?,
    };
    let all: Vec<&BulletPoint> = s.iter().flat_map(|s| &s.bullets).collect();
    ch.check(all.len() == 2, "style-bullets", || format!("{html:?}: {} bullets", all.len()));
    if all.len() == 2 {
        let f = all[0].format.clone().unwrap_or_default();
        let ok = f.color.as_deref() == c.1 && f.font_size == size.1 && f.bold == bold;
        ch.check(ok, "style", || format!("{html:?}: {f:?}"));
        let g = all[1].format.clone().unwrap_or_default();
        ch.check(g.color.is_none() && g.font_size.is_none() && !g.bold, "style-leak", || format!("{html:?}: {g:?}"));
    }
    ch.nontrivial(hash_str(&html));
    ch.outcome(hash_str(&style));
    Ok(())
}
/// The colours of CSS that have a name here.
const NAMED: &[(&str, &str)] = &[
    ("red", "FF0000"), ("blue", "0000FF"), ("green", "008000"), ("yellow", "FFFF00"), ("white", "FFFFFF"), ("black", "000000"), ("gray", "808080"), ("grey", "808080"),
    ("silver", "C0C0C0"), ("maroon", "800000"), ("purple", "800080"), ("fuchsia", "FF00FF"), ("lime", "00FF00"), ("olive", "808000"), ("navy", "000080"), ("teal", "008080"),
    ("aqua", "00FFFF"), ("orange", "FFA500"), ("pink", "FFC0CB"), ("coral", "FF7F50"), ("tomato", "FF6347"), ("darkred", "8B0000"), ("darkblue", "00008B"), ("darkgreen", "006400"),
    ("darkgray", "A9A9A9"), ("darkgrey", "A9A9A9"), ("lightgray", "D3D3D3"), ("lightgrey", "D3D3D3"), ("darkorange", "FF8C00"), ("brown", "A52A2A"), ("crimson", "DC143C"),
    ("gold", "FFD700"), ("goldenrod", "DAA520"), ("indigo", "4B0082"), ("salmon", "FA8072"), ("chocolate", "D2691E"), ("steelblue", "4682B4"), ("violet", "EE82EE"),
    ("orchid", "DA70D6"), ("plum", "DDA0DD"), ("wheat", "F5DEB3"), ("deeppink", "FF1493"), ("hotpink", "FF69B4"), ("royalblue", "4169E1"), ("skyblue", "87CEEB"),
    ("seagreen", "2E8B57"), ("forestgreen", "228B22"),
];
/// Every declaration outside and inside, which wins, on text and on titles.
fn formats(ch: &mut Ch) -> Res {
    #[derive(Clone, Default, PartialEq, Debug)]
    struct F {
        color: Option<String>,
        back: Option<String>,
        size: Option<u32>,
        bold: bool,
        italic: bool,
        underline: bool,
        strike: bool,
        font: Option<String>,
    }
    type Decl = (&'static str, fn(&mut F));
    const D: &[Decl] = &[
        ("", |_| ()),
        ("COLOR : #010203", |f| f.color = Some("010203".into())),
        ("color:rgba(255, 0,16, 0.5)", |f| f.color = Some("FF0010".into())),
        ("background-color:#0f0", |f| f.back = Some("00FF00".into())),
        ("font-size: 24", |f| f.size = Some(24)),
        ("font-size:32px", |f| f.size = Some(24)),
        ("font-size:4000pt", |f| f.size = Some(4000)),
        ("font-weight: 700", |f| f.bold = true),
        ("font-weight: bolder", |f| f.bold = true),
        ("font-weight: normal", |f| f.bold = false),
        ("font-style:Italic", |f| f.italic = true),
        ("font-style:oblique", |f| f.italic = true),
        ("font-style:normal", |f| f.italic = false),
        ("text-decoration:underline", |f| (f.underline, f.strike) = (true, false)),
        ("text-decoration:line-through", |f| (f.underline, f.strike) = (false, true)),
        ("text-decoration:underline line-through", |f| (f.underline, f.strike) = (true, true)),
        ("font-family: 'Courier New'", |f| f.font = Some("Courier New".into())),
        ("margin-top:3px", |_| ()),
    ];
    let place = ch.pick(5);
    let (a, b, c) = (ch.pick(D.len()), ch.pick(D.len()), ch.pick(D.len()));
    let mut f = F::default();
    for k in [a, b, c] {
        (D[k].1)(&mut f);
    }
    // two declarations in one attribute, within another
    let (out, inn) = (D[a].0, format!("{}; {} ;", D[b].0, D[c].0));
    let html = match place {
        0 => format!("<h1>T</h1><div style=\"{out}\"><p style=\"{inn}\">x</p></div><p>y</p>"),
        1 => format!("<h1>T</h1><ul style=\"{out}\"><li style=\"{inn}\">x</li></ul><p>y</p>"),
        2 => format!("<h1>T</h1><div style=\"{out}\"><h2 style=\"{inn}\">x</h2></div><p>y</p>"),
        3 => format!("<div style=\"{out}\"><h1 style=\"{inn}\">x</h1></div><p>y</p><h1>z</h1>"),
        _ => format!("<h1>T</h1><section style=\"{out}\"><div style=\"{inn}\"><br>x</div></section>y"),
    };
    let s = match guarded(|| parse_html(&html)) {
        Err(p) => return Err(panic_fail(p)),
        Ok(s) => s.map_err(|e| Fail { sig: "refused".into(), msg: e })?,
    };
    let of = |b: &BulletPoint| {
        let x = b.format.clone().unwrap_or_default();
        F { color: x.color, back: x.highlight, size: x.font_size, bold: x.bold, italic: x.italic, underline: x.underline, strike: x.strikethrough, font: x.font_family }
    };
    let bullets: Vec<&BulletPoint> = s.iter().flat_map(|s| &s.bullets).collect();
    let (got, rest) = if place == 3 {
        ch.check(s.len() == 2 && s[0].title == "x" && s[1].title == "z" && bullets.len() == 1, "style-bullets", || format!("{html:?}: {s:?}"));
        let t = |s: &SlideContent| F { color: s.title_color.clone(), size: s.title_size, bold: s.title_bold, italic: s.title_italic, underline: s.title_underline, ..F::default() };
        (f.back, f.strike, f.font) = (None, false, None);
        // a title is bold at 44 points unless told otherwise
        let d = SlideContent::new("x");
        f.bold |= d.title_bold;
        f.size = f.size.or(d.title_size);
        let mut next = t(&s[1]);
        (next.bold, next.size) = (next.bold != d.title_bold, if next.size == d.title_size { None } else { next.size });
        (t(&s[0]), vec![of(bullets[0]), next])
    } else {
        ch.check(bullets.len() == 2, "style-bullets", || format!("{html:?}: {} bullets", bullets.len()));
        (of(bullets[0]), vec![of(bullets[1])])
    };
    ch.check(got == f, "format", || format!("{html:?}: {got:?} instead of {f:?}"));
    for r in rest {
        ch.check(r == F::default(), "style-leak", || format!("{html:?}: {r:?}"));
    }
    ch.state(hash_str(&format!("{place}{f:?}")));
    ch.outcome(hash_str(&format!("{got:?}")));
    ch.nontrivial(hash_str(&html));
    Ok(())
}
fn named(ch: &mut Ch) -> Res {
    let (n, c) = NAMED[ch.pick(NAMED.len())];
    let html = format!("<h1>T</h1><p style='color:{n};background-color: {n} '>x</p>");
    let s = parse_html(&html).map_err(|e| Fail { sig: "refused".into(), msg: e })?;
    let f = s[0].bullets[0].format.clone().unwrap_or_default();
    ch.check(f.color.as_deref() == Some(c) && f.highlight.as_deref() == Some(c), "named", || format!("{html:?}: {f:?}"));
    ch.nontrivial(hash_str(n));
    ch.outcome(hash_str(c));
    Ok(())
}
/// Lists inside items: what follows is not affected, and no item is lost.
fn nested(ch: &mut Ch) -> Res {
    let n = 2 + ch.pick(4);
    let mut html = "<h1>T</h1>".to_string();
    let mut items: Vec<String> = vec![];
    let mut depth = 0;
    for i in 0..n {
        let d = if i == 0 { 1 } else { 1 + ch.pick((depth + 1).min(3)) };
        if d > depth {
            html += "<ul>";
        } else {
            html += "</li>";
            html += &"</ul></li>".repeat(depth - d);
        }
        depth = d;
        html += &format!("<li>i{i}");
        items.push(format!("i{i}"));
    }
    html += &"</li></ul>".repeat(depth);
    html += "<p>after</p><h1>U</h1><ul><li>v</li></ul>";
    let s = match guarded(|| parse_html(&html)) {
        Err(p) => return Err(panic_fail(p)),
        Ok(s) => s.map_err(|e| Fail { sig: "refused".into(), msg: e })?,
    };
    ch.check(s.len() == 2 && s[0].title == "T" && s[1].title == "U", "nested-slides", || format!("{html:?}: {} slides", s.len()));
    ch.check(s[0].content.last().map(|t| t.trim()) == Some("after"), "nested-after", || format!("{html:?}: {:?}", s[0].content));
    ch.check(s.get(1).is_some_and(|s| s.content == ["v"]), "nested-next", || format!("{html:?}: {:?}", s.get(1).map(|s| &s.content)));
    let got = s[0].content.join(" ");
    let words: Vec<&str> = got.split_whitespace().collect();
    let mut known = items.iter().map(|s| &s[..]).chain(["after"]);
    let sub = words.iter().flat_map(|w| w.split_inclusive(|c: char| c.is_ascii_digit())).all(|w| known.any(|k| k == w));
    ch.check(sub, "nested-order", || format!("{html:?}: {:?}", s[0].content));
    let all: Vec<&str> = items.iter().map(|s| &s[..]).chain(["after"]).collect();
    ch.check(s[0].content == all, "nested-list", || format!("{html:?}: {:?}", s[0].content));
    ch.nontrivial(hash_str(&html));
    ch.outcome(hash_str(&got));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "H01",
        level: "model_checking",
        rule: "every document of the stated sets through the real converter: the slides equal those a reference builds block by block (texts without emphasis marks and with white space as one space)",
        assumptions: STD,
        scenarios: |t| {
            let q = t == Tier::Quick;
            let n = if q { 4 } else { 5 };
            let p = if q { 3 } else { 4 };
            let m = if q { 3 } else { 4 };
            vec![
                Scenario::new("one", format!("all documents of up to 3 of {} blocks, bare and in a page", BLOCKS.len()), 0, move |ch| {
                    let k = 1 + ch.pick(3);
                    blocks(ch, k, true)
                }),
                Scenario::new("blocks", format!("all documents of {n} of {} blocks", BLOCKS.len()), 0, move |ch| blocks(ch, n, false)),
                Scenario::new("options", format!("all documents of {m} of 9 blocks under all limits 0 to 3 and switches"), 0, move |ch| options(ch, m)),
                Scenario::new("limits", "documents around the default limits", 0, limits),
                Scenario::new("inline", format!("all sequences of up to {p} of {} inline pieces in 9 places", PIECES.len()), 0, move |ch| {
                    let k = 1 + ch.pick(p);
                    inline(ch, k)
                }),
                Scenario::new("marks", "emphasis in items and paragraphs", 0, marks),
                Scenario::new("words", format!("all sequences of up to {n} words in 5 states, apart or joined"), 0, move |ch| {
                    let k = 1 + ch.pick(n);
                    words(ch, k)
                }),
                Scenario::new("pictures", "pictures from files in 6 places", 0, pictures),
                Scenario::new("styles", "colours, sizes and weights in 5 places", 0, styles),
                Scenario::new("formats", "all pairs of 18 declarations within each of them, in 5 places", 0, formats),
                Scenario::new("named", "all named colours", 0, named),
                Scenario::new("nested", "all nested lists of up to 5 items at up to 3 levels", 0, nested),
            ]
        },
        must_cover: || vec![],
    }
}
