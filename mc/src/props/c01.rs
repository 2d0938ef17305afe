//! C01: a command succeeds exactly when it produced what it promises.
use super::*;
use crate::decks::*;
use crate::pkg::{self, Pkg};
use ppt_rs::core::validate_package_bytes;
use ppt_rs::generator::*;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}
/// A directory of its own for one run: `w` to work in, `tmp` for temporary files, `bin` for stand-ins.
struct Place {
    root: PathBuf,
}
impl Place {
    fn new(worker: usize) -> Place {
        let root = scratch().join(format!("c01-{worker}"));
        let _ = std::fs::remove_dir_all(&root);
        for d in ["w", "tmp", "bin"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        Place { root }
    }
    fn w(&self, n: &str) -> PathBuf {
        self.root.join("w").join(n)
    }
    fn put(&self, n: &str, b: impl AsRef<[u8]>) {
        std::fs::write(self.w(n), b).unwrap();
    }
    fn get(&self, n: &str) -> Option<Vec<u8>> {
        std::fs::read(self.w(n)).ok()
    }
    /// All files and links below the working directory; of a link where it points.
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(d: &Path, pre: &str, m: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap().flatten() {
                let n = format!("{pre}{}", e.file_name().to_string_lossy());
                let t = e.file_type().unwrap();
                if t.is_dir() {
                    walk(&e.path(), &format!("{n}/"), m);
                } else if t.is_symlink() {
                    m.insert(n, std::fs::read_link(e.path()).unwrap().to_string_lossy().into_owned().into_bytes());
                } else {
                    m.insert(n, std::fs::read(e.path()).unwrap());
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.root.join("w"), "", &mut m);
        m
    }
    /// Temporary files left behind.
    fn left(&self) -> Vec<String> {
        std::fs::read_dir(self.root.join("tmp")).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()
    }
    /// A stand-in for `pdftoppm`: `pages` pictures named as it names them, then the given exit code.
    fn poppler(&self, pages: usize, code: i32) {
        let width = pages.to_string().len();
        let mut s = String::from("#!/bin/sh\n[ \"$1\" = -png ] && [ -f \"$2\" ] && [ $# = 3 ] || exit 99\n");
        for k in 1..=pages {
            std::fs::write(self.root.join(format!("bin/{k}.png")), png(k as u8)).unwrap();
            s += &format!("cp '{}/bin/{k}.png' \"$3-{k:0width$}.png\" || exit 3\n", self.root.display());
        }
        s += &format!("exit {code}\n");
        let p = self.root.join("bin/pdftoppm");
        std::fs::write(&p, s).unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    /// Run the tool; `limit` is the largest file it can write.
    fn run(&self, args: &[&str], limit: Option<u64>) -> Ran {
        let exe = std::env::current_exe().unwrap().parent().unwrap().join("pptcli");
        let mut c = Command::new(exe);
        c.args(args).current_dir(self.root.join("w")).env_clear().env("TMPDIR", self.root.join("tmp")).env("HOME", self.root.join("tmp"));
        c.env("PATH", format!("{}:/bin:/usr/bin", self.root.join("bin").display()));
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        unsafe {
            c.pre_exec(move || {
                if let Some(n) = limit {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &r);
                }
                // a run without end is ended
                libc::alarm(40);
                Ok(())
            });
        }
        let o = c.output().expect("the tool runs");
        let code = o.status.code();
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let err = if code.is_none() { format!("{err} [ended by signal {:?}]", o.status.signal()) } else { err };
        Ran { code, out: String::from_utf8_lossy(&o.stdout).into_owned(), err }
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// What a successful run is to produce.
#[derive(Clone, Debug, Default)]
struct Want {
    kind: Kind,
    /// The title of every slide.
    slides: Vec<String>,
    title: Option<String>,
    /// Pictures of the slides, in order.
    pictures: Option<usize>,
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
enum Kind {
    #[default]
    Pptx,
    Pdf,
    Html,
}
fn sound(b: &[u8], w: &Want) -> Result<(), String> {
    match w.kind {
        Kind::Pdf => {
            let n = super::x03::page_count(b)?;
            if n != w.slides.len() {
                return Err(format!("{n} pages for {} slides", w.slides.len()));
            }
        }
        Kind::Html => {
            let d = scraper::Html::parse_document(std::str::from_utf8(b).map_err(|e| e.to_string())?);
            let text: String = d.root_element().text().collect();
            let mut at = 0;
            for s in &w.slides {
                at += text[at..].find(s.as_str()).ok_or_else(|| format!("no {s:?} in its place"))?;
            }
        }
        Kind::Pptx => {
            let p = Pkg::from_bytes(b)?;
            let (m, fs) = pkg::check(&p);
            if let Some(f) = fs.into_iter().next() {
                return Err(format!("{}: {}", f.sig, f.msg));
            }
            if m.slides.len() != w.slides.len() {
                return Err(format!("{} slides, expected {:?}", m.slides.len(), w.slides));
            }
            for (k, (part, t)) in m.slides.iter().zip(&w.slides).enumerate() {
                let text = p.with_doc(part, |d| d.deep_text())?;
                if !text.contains(t.as_str()) {
                    return Err(format!("slide {k} holds {text:?}, not {t:?}"));
                }
            }
            if let Some(t) = &w.title {
                let got = p.with_doc("docProps/core.xml", |d| d.all("title").iter().map(|e| e.text()).collect::<String>())?;
                if got != *t {
                    return Err(format!("titled {got:?}, not {t:?}"));
                }
            }
            if let Some(n) = w.pictures {
                for k in 0..n {
                    let pics: Vec<_> = p.rel_of_type(&m.slides[k], "image").iter().map(|r| p.get(&pkg::resolve(&m.slides[k], &r.target)).map(|b| b.to_vec())).collect();
                    if pics != [Some(png(k as u8 + 1))] {
                        return Err(format!("slide {k} does not show page {} alone", k + 1));
                    }
                }
            }
        }
    }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    Succeed,
    Fail,
    Either,
}
/// Run a command and judge it. `out` is where its output is to be.
fn judge(ch: &mut Ch, p: &Place, sig: &str, args: &[&str], limit: Option<u64>, out: &str, must: Must, want: &Want) -> Ran {
    let before = p.files();
    let r = p.run(args, limit);
    ch.step();
    let after = p.files();
    let say = |m: String| format!("pptcli {args:?}: exit {:?}, {m} [stderr {:?}]", r.code, r.err.chars().take(200).collect::<String>());
    ch.outcome(hash_str(&format!("{:?} {:?}", r.code, after.keys())));
    ch.check(r.code.is_some_and(|c| c != 101) && !r.err.contains("panicked at"), format!("{sig}-crash"), || say("crashed".into()));
    let changed: Vec<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0).chain(before.keys().filter(|k| !after.contains_key(*k))).collect();
    if r.code == Some(0) {
        ch.check(must != Must::Fail, format!("{sig}-accepted"), || say("though it cannot have succeeded".into()));
        ch.check(changed.is_empty() || changed == [out], format!("{sig}-other-files"), || say(format!("changed {changed:?}")));
        if must != Must::Fail {
            let got = after.get(out).ok_or_else(|| "no output".to_string()).and_then(|b| if b == b"old" { Err("the output is as before".into()) } else { sound(b, want) });
            ch.check(got.is_ok(), format!("{sig}-output"), || say(got.unwrap_err()));
        }
    } else {
        ch.check(must != Must::Succeed, format!("{sig}-refused"), || say("though nothing is wrong".into()));
        ch.check(!r.err.trim().is_empty(), format!("{sig}-silent"), || say("without a message".into()));
        let bogus: Vec<_> = changed.iter().filter(|c| limit.is_none() || !before.contains_key(**c)).collect();
        ch.check(bogus.is_empty(), format!("{sig}-bogus"), || say(format!("changed {bogus:?}")));
    }
    let l = p.left();
    ch.check(l.is_empty(), format!("{sig}-temporary"), || say(format!("left {l:?} behind")));
    r
}

const OUTS: [&str; 9] = ["new", "existing", "directory", "missing directory", "below a file", "link to itself", "long name", "odd name", "empty name"];
/// Where the output goes, and what that means for success.
fn output(p: &Place, kind: usize, ext: &str) -> (String, Must) {
    let n = format!("out.{ext}");
    match kind {
        0 => (n, Must::Succeed),
        1 => {
            p.put(&n, "old");
            (n, Must::Succeed)
        }
        2 => {
            std::fs::create_dir(p.w(&n)).unwrap();
            (n, Must::Fail)
        }
        3 => (format!("no/such/{n}"), Must::Either),
        4 => {
            p.put("plain", "text");
            (format!("plain/{n}"), Must::Fail)
        }
        5 => {
            std::os::unix::fs::symlink(&n, p.w(&n)).unwrap();
            (n, Must::Fail)
        }
        6 => (format!("{}.{ext}", "n".repeat(300)), Must::Fail),
        7 => (format!("ö ut'put &.v2.{ext}"), Must::Succeed),
        _ => (String::new(), Must::Fail),
    }
}
fn both(a: Must, b: Must) -> Must {
    if a == Must::Fail || b == Must::Fail {
        Must::Fail
    } else if a == Must::Either || b == Must::Either {
        Must::Either
    } else {
        Must::Succeed
    }
}
fn deck_bytes(k: usize) -> &'static [u8] {
    static V: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    &V.get_or_init(|| {
        vec![
            create_pptx_with_content("Deck A", vec![SlideContent::new("Alpha").add_bullet("one"), SlideContent::new("Beta").add_bullet("two")]).unwrap(),
            create_pptx_with_content("Deck B", vec![SlideContent::new("Gamma").table(table("t")).notes("n"), SlideContent::new("Delta").add_image(Image::from_bytes(png(1), 914400, 914400, "PNG")), SlideContent::new("Eps").add_shape(Shape::new(ShapeType::Ellipse, 0, 0, 914400, 914400).with_text("x"))]).unwrap(),
        ]
    })[k]
}
const INS: [&str; 10] = ["plain", "rich", "empty", "missing", "directory", "cut short", "other archive", "below a file", "noise", "no slides part"];
/// An input presentation; the titles of its slides if it is sound.
fn pptx_in(p: &Place, kind: usize, name: &str) -> (Must, Vec<String>) {
    let t = |x: &[&str]| x.iter().map(|s| s.to_string()).collect();
    let a = deck_bytes(0);
    match kind {
        0 => {
            p.put(name, a);
            return (Must::Succeed, t(&["Alpha", "Beta"]));
        }
        1 => {
            p.put(name, deck_bytes(1));
            return (Must::Succeed, t(&["Gamma", "Delta", "Eps"]));
        }
        2 => p.put(name, ""),
        3 => {}
        4 => std::fs::create_dir(p.w(name)).unwrap(),
        5 => p.put(name, &a[..a.len() / 2]),
        6 => {
            let mut k = Pkg::from_bytes(a).unwrap();
            k.parts.retain(|n, _| n.starts_with("docProps"));
            p.put(name, k.to_zip());
        }
        7 => p.put(name.split('/').next().unwrap(), "text"),
        8 => p.put(name, (0..5000u32).map(|i| (i * i >> 3) as u8).collect::<Vec<_>>()),
        _ => {
            let mut k = Pkg::from_bytes(a).unwrap();
            k.parts.retain(|n, _| n != "ppt/presentation.xml");
            p.put(name, k.to_zip());
            // readers fall back to the slides there are
            return (Must::Either, t(&["Alpha", "Beta"]));
        }
    }
    (Must::Fail, vec![])
}
const MD: [&str; 2] = ["# Alpha\n\n- one\n\n# Beta\n\ntext\n", "# Gamma\n\n| a | b |\n|---|---|\n| 1 | 2 |\n\n> note\n\n# Delta\n\n```rust\nfn x() {}\n```\n\n# Eps\n\n- é & <x>\n"];
const HT: [&str; 2] = ["<h1>Alpha</h1><p>one</p><h1>Beta</h1><p>two</p>", "<!DOCTYPE html><html><head><title>T</title></head><body><h1>Gamma</h1><p>This page says enough about its subject to be taken for one that has contents, as it is longer than a hundred letters.</p><table><tr><td>1</td></tr></table><h1>Delta</h1><pre>code</pre><h1>Eps</h1><ul><li>é &amp; x</ul></body></html>"];
const TEXTS: [&str; 8] = ["plain", "rich", "empty", "missing", "directory", "not UTF-8", "below a file", "blank"];
fn text_in(p: &Place, kind: usize, name: &str, src: &[&str; 2]) -> (Must, Vec<String>) {
    let t = |x: &[&str]| x.iter().map(|s| s.to_string()).collect();
    match kind {
        0 => {
            p.put(name, src[0]);
            return (Must::Succeed, t(&["Alpha", "Beta"]));
        }
        1 => {
            p.put(name, src[1]);
            return (Must::Succeed, t(&["Gamma", "Delta", "Eps"]));
        }
        2 => p.put(name, ""),
        3 => {}
        4 => std::fs::create_dir(p.w(name)).unwrap(),
        5 => p.put(name, [src[0].as_bytes(), &[0xFF, 0xFE, 0xC3]].concat()),
        6 => p.put(name.split('/').next().unwrap(), "text"),
        _ => p.put(name, " \n\n \n"),
    }
    (Must::Fail, vec![])
}
fn done(ch: &mut Ch, what: String) {
    ch.state(hash_str(&what));
    ch.nontrivial(hash_str(&what));
    ch.note(|| what);
}

fn create(ch: &mut Ch) -> Res {
    let p = Place::new(ch.worker);
    let o = ch.pick(OUTS.len());
    let (out, mut must) = output(&p, o, "pptx");
    let n = *ch.of(&[None, Some(0usize), Some(1), Some(3), Some(12)]);
    let title = *ch.of(&[None, Some("A title"), Some("<&\"é"), Some("")]);
    let t = ch.pick(1 + INS.len());
    let mut args = vec!["create".to_string(), out.clone()];
    if let Some(n) = n {
        args.extend(["--slides".into(), n.to_string()]);
    }
    if let Some(t) = title {
        args.extend(["--title".into(), t.into()]);
    }
    if t > 0 {
        let name = if t == 8 { "tpl/in.pptx" } else { "tpl.pptx" };
        must = both(must, pptx_in(&p, t - 1, name).0);
        args.extend(["--template".into(), name.into()]);
    }
    let want = Want { slides: vec![String::new(); n.unwrap_or(1)], title: title.map(|t| t.to_string()), ..Want::default() };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    judge(ch, &p, "create", &a, None, &out, must, &want);
    done(ch, format!("create {} {n:?} {title:?} {t}", OUTS[o]));
    Ok(())
}
fn convert(ch: &mut Ch, cmd: &str) -> Res {
    let md = cmd.contains("md") || cmd.contains("mark");
    let (ext, src) = if md { ("md", &MD) } else { ("html", &HT) };
    let p = Place::new(ch.worker);
    let i = ch.pick(TEXTS.len());
    let stem = *ch.of(&["in", "ö dir/in.v2", ""]);
    let name = if i == 6 { format!("file/in.{ext}") } else if stem.is_empty() { "noext".into() } else { format!("{stem}.{ext}") };
    if name.contains("ö dir") {
        std::fs::create_dir(p.w("ö dir")).unwrap();
    }
    let (mut must, slides) = text_in(&p, i, &name, src);
    let o = ch.pick(OUTS.len() + 1);
    let mut args = vec![cmd.to_string(), name.clone()];
    let out = if o < OUTS.len() {
        let (out, m) = output(&p, o, "pptx");
        must = both(must, m);
        args.push(out.clone());
        out
    } else if stem.is_empty() || i == 6 {
        format!("{}.pptx", name.trim_end_matches(&format!(".{ext}")))
    } else {
        format!("{stem}.pptx")
    };
    let title = *ch.of(&[None, Some("A title")]);
    if let Some(t) = title {
        args.extend(["--title".into(), t.into()]);
    }
    let want = Want { slides, title: title.map(|t| t.to_string()), ..Want::default() };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    judge(ch, &p, if md { "md2ppt" } else { "html2ppt" }, &a, None, &out, must, &want);
    done(ch, format!("{cmd} {} {name} to {out}", TEXTS[i]));
    Ok(())
}
/// The options that limit or leave out content.
fn options(ch: &mut Ch) -> Res {
    let p = Place::new(ch.worker);
    p.put("in.html", "<h1>Alpha</h1><p>one</p><table><tr><td>cell</td></tr></table><h1>Beta</h1><pre>codetext</pre><h1>Gamma</h1><ul><li>b1<li>b2<li>b3</ul>");
    let max = *ch.of(&[None, Some(0usize), Some(1), Some(2), Some(3), Some(50)]);
    let bul = *ch.of(&[None, Some(0usize), Some(1), Some(2)]);
    let (t, c, i) = (ch.flag(), ch.flag(), ch.flag());
    let mut args: Vec<String> = ["html2ppt", "in.html", "out.pptx"].map(String::from).into();
    for (n, v) in [("--max-slides", max), ("--max-bullets", bul)] {
        if let Some(v) = v {
            args.extend([n.into(), v.to_string()]);
        }
    }
    for (n, v) in [("--no-tables", t), ("--no-code", c), ("--no-images", i)] {
        if v {
            args.push(n.into());
        }
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = p.run(&a, None);
    ch.step();
    let say = |m: &str| format!("pptcli {args:?}: exit {:?} {m}: {}", r.code, r.err);
    if max == Some(0) {
        ch.check(r.code == Some(0) || r.code == Some(1) && !r.err.is_empty(), "options-none", || say("no slides"));
        ch.check(r.code == Some(0) || p.get("out.pptx").is_none(), "options-bogus", || say("a file"));
    } else {
        ch.check(r.code == Some(0), "options-refused", || say("refused"));
    }
    if r.code == Some(0) {
        let k = Pkg::from_bytes(&p.get("out.pptx").unwrap_or_default()).map_err(|m| Fail { sig: "options-output".into(), msg: say(&m) })?;
        ch.report_all(pkg::check(&k).1);
        let s = k.slides();
        ch.check(s.len() <= max.unwrap_or(50), "options-slides", || say(&format!("{} slides", s.len())));
        ch.check(s.len() == max.unwrap_or(50) || bul.is_some() || s.len() == 3.min(max.unwrap_or(50)), "options-slides", || say(&format!("{} slides", s.len())));
        let text: String = s.iter().map(|n| k.with_doc(n, |d| d.deep_text()).unwrap_or_default()).collect();
        ch.check(!(t && text.contains("cell")) && !(c && text.contains("codetext")), "options-left-in", || say(&text));
        // the first slide is there whatever the limits
        ch.check(s.is_empty() || text.contains("Alpha"), "options-lost", || say(&text));
        ch.check(t || s.is_empty() || text.contains("cell"), "options-lost", || say(&text));
        ch.check(c || s.len() < 3 || text.contains("codetext"), "options-lost", || say(&text));
        ch.outcome(hash_str(&text));
    }
    done(ch, format!("{args:?}"));
    Ok(())
}
fn export(ch: &mut Ch) -> Res {
    let p = Place::new(ch.worker);
    let i = ch.pick(INS.len());
    let name = if i == 7 { "file/in.pptx" } else { "in.pptx" };
    let (mut must, slides) = pptx_in(&p, i, name);
    let (ext, format, kind) = *ch.of(&[("pdf", None, Kind::Pdf), ("html", None, Kind::Html), ("PDF", None, Kind::Pdf), ("HTML", None, Kind::Html), ("out", None, Kind::Pdf), ("html", Some("pdf"), Kind::Pdf), ("pdf", Some("html"), Kind::Html)]);
    let o = ch.pick(OUTS.len());
    let (out, m) = output(&p, o, ext);
    must = both(must, m);
    let mut args = vec!["export", name, &out];
    if let Some(f) = format {
        args.extend(["--format", f]);
    }
    judge(ch, &p, "export", &args, None, &out, must, &Want { kind, slides, ..Want::default() });
    done(ch, format!("export {} {ext} {format:?} {}", INS[i], OUTS[o]));
    Ok(())
}
fn merge(ch: &mut Ch, max: usize) -> Res {
    let p = Place::new(ch.worker);
    let n = 1 + ch.pick(max);
    let kinds = [0usize, 1, 2, 3, 5];
    let (mut must, mut slides) = (Must::Succeed, vec![]);
    let mut names = vec![];
    for k in 0..n {
        let i = *ch.of(&kinds);
        let name = format!("in{k}.pptx");
        let (m, s) = pptx_in(&p, i, &name);
        must = both(must, m);
        slides.extend(s);
        names.push(name);
    }
    // 9: onto the first input
    let o = ch.pick(OUTS.len() + 1);
    let out = if o == OUTS.len() {
        names[0].clone()
    } else {
        let (out, m) = output(&p, o, "pptx");
        must = both(must, m);
        out
    };
    let mut args = vec!["merge", "-o", &out];
    args.extend(names.iter().map(|s| s.as_str()));
    judge(ch, &p, "merge", &args, None, &out, must, &Want { slides, ..Want::default() });
    done(ch, format!("merge {names:?} {o} {:?}", ch.path.clone()));
    Ok(())
}
/// Pages through the stand-in, and pictures of slides.
fn pictures(ch: &mut Ch, max: usize) -> Res {
    let p = Place::new(ch.worker);
    let pages = ch.pick(max + 1);
    // absent, works, fails at once, fails after making its files
    let tool = ch.pick(4);
    match tool {
        0 => {}
        1 => p.poppler(pages, 0),
        2 => p.poppler(0, 1),
        _ => p.poppler(pages, 1),
    }
    let works = if tool == 1 { Must::Succeed } else { Must::Fail };
    if ch.flag() {
        // PDF pages to slides
        let i = ch.pick(3);
        let (name, ok) = [("doc.v1.pdf", true), ("missing.pdf", false), ("plain/doc.pdf", false)][i];
        p.put("doc.v1.pdf", "%PDF-1.4 stand-in");
        p.put("plain", "x");
        let o = ch.pick(OUTS.len() + 1);
        let (out, m) = if o < OUTS.len() { output(&p, o, "pptx") } else { (name.replace(".pdf", ".pptx"), Must::Succeed) };
        let mut args = vec!["pdf2ppt", name];
        if o < OUTS.len() {
            args.push(&out);
        }
        let mut must = both(both(works, m), if ok { Must::Succeed } else { Must::Fail });
        if pages == 0 && must == Must::Succeed {
            // a document without pages: a deck without slides, or an error
            must = Must::Either;
        }
        judge(ch, &p, "pdf2ppt", &args, None, &out, must, &Want { slides: vec![String::new(); pages], pictures: Some(pages), ..Want::default() });
        done(ch, format!("pdf2ppt {name} {pages} {tool} {o}"));
    } else {
        let i = ch.pick(INS.len());
        let name = if i == 7 { "file/in.pptx" } else { "in.pptx" };
        let (must, _) = pptx_in(&p, i, name);
        let must = both(must, works);
        let into = *ch.of(&["shots", "shots/deep.png", "plain/x.png", "there.png"]);
        p.put("plain", "x");
        std::fs::create_dir(p.w("there.png")).unwrap();
        let args = if into.ends_with("png") { vec!["export", name, into] } else { vec!["export", name, into, "--format", "png"] };
        let must = if into.starts_with("plain") { Must::Fail } else { must };
        let before = p.files();
        let r = p.run(&args, None);
        ch.step();
        let after = p.files();
        let say = |m: &str| format!("pptcli {args:?} ({} pages, tool {tool}): exit {:?} {m}: {}", pages, r.code, r.err);
        let new: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
        ch.check(r.code.is_some_and(|c| c != 101), "png-crash", || say("crashed"));
        if r.code == Some(0) {
            ch.check(must != Must::Fail, "png-accepted", || say("though it cannot have succeeded"));
            ch.check(pages == 0 || new.len() == pages && new.iter().all(|n| n.starts_with(into)), "png-files", || say(&format!("{new:?}")));
            let shots: Vec<&Vec<u8>> = new.iter().map(|n| &after[*n]).collect();
            ch.check(shots.iter().enumerate().all(|(k, b)| **b == png(k as u8 + 1)), "png-order", || say(&format!("{new:?}")));
        } else {
            ch.check(must != Must::Succeed, "png-refused", || say("though nothing is wrong"));
            ch.check(!r.err.trim().is_empty(), "png-silent", || say("without a message"));
            ch.check(new.is_empty() || tool == 3, "png-bogus", || say(&format!("{new:?}")));
        }
        let l = p.left();
        ch.check(l.is_empty(), "png-temporary", || say(&format!("left {l:?} behind")));
        ch.outcome(hash_str(&format!("{:?}{new:?}", r.code)));
        done(ch, format!("png {name} {i} {into} {pages} {tool}"));
    }
    Ok(())
}
/// A JSON text: its members, strings decoded.
#[derive(Debug, PartialEq, Clone)]
enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}
impl Json {
    fn get(&self, k: &str) -> Option<&Json> {
        match self {
            Json::Obj(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    fn parse(s: &str) -> Result<Json, String> {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        let v = Json::value(&c, &mut i)?;
        Json::space(&c, &mut i);
        if i < c.len() {
            return Err(format!("more after the value, at {i}"));
        }
        Ok(v)
    }
    fn space(c: &[char], i: &mut usize) {
        while c.get(*i).is_some_and(|c| matches!(c, ' ' | '\n' | '\r' | '\t')) {
            *i += 1
        }
    }
    fn value(c: &[char], i: &mut usize) -> Result<Json, String> {
        Json::space(c, i);
        let e = |i: usize| format!("unexpected {:?} at {i}", c.get(i));
        match c.get(*i) {
            Some('{') | Some('[') => {
                let obj = c[*i] == '{';
                let end = if obj { '}' } else { ']' };
                let (mut m, mut a) = (vec![], vec![]);
                *i += 1;
                Json::space(c, i);
                if c.get(*i) == Some(&end) {
                    *i += 1;
                } else {
                    loop {
                        if obj {
                            let Json::Str(k) = Json::value(c, i)? else { return Err(e(*i)) };
                            Json::space(c, i);
                            if c.get(*i) != Some(&':') {
                                return Err(e(*i));
                            }
                            *i += 1;
                            m.push((k, Json::value(c, i)?));
                        } else {
                            a.push(Json::value(c, i)?);
                        }
                        Json::space(c, i);
                        *i += 1;
                        match c.get(*i - 1) {
                            Some(',') => {}
                            Some(x) if *x == end => break,
                            _ => return Err(e(*i - 1)),
                        }
                    }
                }
                Ok(if obj { Json::Obj(m) } else { Json::Arr(a) })
            }
            Some('"') => {
                let mut s = String::new();
                *i += 1;
                loop {
                    let x = *c.get(*i).ok_or_else(|| e(*i))?;
                    *i += 1;
                    match x {
                        '"' => return Ok(Json::Str(s)),
                        '\\' => {
                            let y = *c.get(*i).ok_or_else(|| e(*i))?;
                            *i += 1;
                            s.push(match y {
                                '"' | '\\' | '/' => y,
                                'n' => '\n',
                                'r' => '\r',
                                't' => '\t',
                                'b' => '\u{8}',
                                'f' => '\u{c}',
                                'u' => {
                                    let h: String = c.get(*i..*i + 4).ok_or_else(|| e(*i))?.iter().collect();
                                    *i += 4;
                                    char::from_u32(u32::from_str_radix(&h, 16).map_err(|x| x.to_string())?).unwrap_or('\u{fffd}')
                                }
                                _ => return Err(e(*i - 1)),
                            });
                        }
                        x if (x as u32) < 32 => return Err(e(*i - 1)),
                        x => s.push(x),
                    }
                }
            }
            Some(_) => {
                let from = *i;
                while c.get(*i).is_some_and(|c| c.is_ascii_alphanumeric() || "+-.".contains(*c)) {
                    *i += 1;
                }
                let w: String = c[from..*i].iter().collect();
                match w.as_str() {
                    "null" => Ok(Json::Null),
                    "true" => Ok(Json::Bool(true)),
                    "false" => Ok(Json::Bool(false)),
                    w => w.parse().map(Json::Num).map_err(|_| e(from)),
                }
            }
            None => Err(e(*i)),
        }
    }
}
/// Files to look at: sound ones, and all the single parts missing or broken.
fn look(ch: &mut Ch) -> Res {
    let p = Place::new(ch.worker);
    let names: Vec<String> = Pkg::from_bytes(deck_bytes(1)).unwrap().parts.iter().map(|x| x.0.clone()).collect();
    let kind = ch.pick(INS.len() + 3 * names.len() + 1);
    let name = *ch.of(&["in.pptx", "ö \"q\" \\ x\t\u{1}.pptx", "x", "file/in.pptx"]);
    let mut sound = false;
    let mut slides = vec![];
    if kind < INS.len() {
        if name == "file/in.pptx" && kind != 7 {
            return Ok(());
        }
        let (m, s) = pptx_in(&p, kind, name);
        (sound, slides) = (m == Must::Succeed, s);
    } else if name == "file/in.pptx" {
        return Ok(());
    } else if kind == INS.len() {
        p.put(name, "<?xml version=\"1.0\"?><r><title>x</title> count=\"</r>");
    } else {
        let (part, how) = (&names[(kind - INS.len() - 1) / 3], (kind - INS.len() - 1) % 3);
        let mut k = Pkg::from_bytes(deck_bytes(1)).unwrap();
        match how {
            0 => k.parts.retain(|n, _| n != part),
            1 => k.set(part, "not markup <\"\\"),
            _ => k.set(part, ""),
        }
        p.put(name, k.to_zip());
    }
    let bytes = p.get(name).filter(|_| !(name == "x" && kind == 7));
    let before = p.files();
    let how = ch.pick(3);
    let args = match how {
        0 => vec!["validate", name],
        1 => vec!["validate", name, "--json"],
        _ => vec!["info", name],
    };
    let r = p.run(&args, None);
    ch.step();
    let say = |m: &str| format!("pptcli {args:?} (file {kind}): exit {:?} {m}: {:?} {:?}", r.code, r.out, r.err);
    ch.check(p.files() == before, "look-changed", || say("changed files"));
    ch.check(r.code == Some(0) || r.code == Some(1), "look-crash", || say("crashed"));
    ch.check(r.code == Some(0) || !r.err.trim().is_empty(), "look-silent", || say("without a message"));
    if how < 2 {
        let report = bytes.as_ref().map(|b| validate_package_bytes(b));
        let ok = report.as_ref().is_some_and(|r| r.is_valid());
        ch.check(!sound || ok, "validate-sound", || say("a sound file"));
        ch.check((r.code == Some(0)) == ok, "validate-exit", || say(&format!("the library says {ok}")));
        if how == 0 {
            if let Some(rep) = &report {
                ch.check(rep.issues.iter().all(|i| r.out.contains(&i.message)), "validate-report", || say("an issue is not shown"));
            }
        } else if let Some(rep) = &report {
            let j = Json::parse(&r.out);
            ch.check(j.is_ok(), "json", || say(&format!("{:?}", j.as_ref().err())));
            if let Ok(j) = j {
                let num = |k: &str| j.get(k).cloned();
                ch.check(j.get("file") == Some(&Json::Str(name.into())) && j.get("valid") == Some(&Json::Bool(ok)), "json-verdict", || say("wrong verdict"));
                ch.check(num("error_count") == Some(Json::Num(rep.error_count() as f64)) && num("warning_count") == Some(Json::Num(rep.warning_count() as f64)), "json-counts", || say("wrong counts"));
                let mut got: Vec<(Option<String>, Option<String>, Option<String>)> = match j.get("issues") {
                    Some(Json::Arr(a)) => a
                        .iter()
                        .map(|i| {
                            let s = |k| match i.get(k) {
                                Some(Json::Str(s)) => Some(s.clone()),
                                _ => None,
                            };
                            (s("severity"), s("path"), s("message"))
                        })
                        .collect(),
                    _ => vec![],
                };
                let mut want: Vec<_> = rep.issues.iter().map(|i| (Some(format!("{:?}", i.severity).to_lowercase()), i.path.clone(), Some(i.message.clone()))).collect();
                got.sort();
                want.sort();
                ch.check(got == want, "json-issues", || say(&format!("{want:?}")));
            }
        } else {
            ch.check(r.out.trim().is_empty() || Json::parse(&r.out).is_ok(), "json-error", || say("neither nothing nor JSON"));
        }
    } else {
        let there = p.w(name).exists();
        ch.check((r.code == Some(0)) == there, "info-exit", || say("of a file that is there or not"));
        if let Some(b) = &bytes {
            ch.check(r.out.contains(&b.len().to_string()), "info-size", || say("without the size"));
        }
        if sound {
            let title = if slides.len() == 2 { "Deck A" } else { "Deck B" };
            let count = r.out.lines().any(|l| l.contains("Slides") && l.trim_end().ends_with(&slides.len().to_string()));
            ch.check(r.out.contains(title) && count, "info-presentation", || say(&format!("not the title {title} and {} slides", slides.len())));
        }
    }
    ch.outcome(hash_str(&format!("{:?}{}", r.code, r.out)));
    done(ch, format!("look {kind} {name:?} {how}"));
    Ok(())
}
/// No room for the whole of the output.
fn full(ch: &mut Ch) -> Res {
    let p = Place::new(ch.worker);
    p.put("in.md", MD[1]);
    p.put("in.html", HT[1]);
    p.put("in.pptx", deck_bytes(1));
    p.put("doc.pdf", "%PDF");
    p.poppler(3, 0);
    let url = format!("http://127.0.0.1:{}/page", server());
    const CMDS: [(&str, &[&str]); 9] = [
        ("out.pptx", &["create", "out.pptx", "--slides", "5"]),
        ("out.pptx", &["create", "out.pptx", "--template", "in.pptx"]),
        ("out.pptx", &["md2ppt", "in.md", "out.pptx"]),
        ("out.pptx", &["html2ppt", "in.html", "out.pptx"]),
        ("out.pdf", &["export", "in.pptx", "out.pdf"]),
        ("out.html", &["export", "in.pptx", "out.html"]),
        ("out.pptx", &["merge", "-o", "out.pptx", "in.pptx", "in.pptx"]),
        ("out.pptx", &["pdf2ppt", "doc.pdf", "out.pptx"]),
        ("out.pptx", &["web2ppt", "URL", "-o", "out.pptx"]),
    ];
    let c = ch.pick(CMDS.len());
    let (out, args) = CMDS[c];
    let args: Vec<&str> = args.iter().map(|a| if *a == "URL" { url.as_str() } else { a }).collect();
    let limit = *ch.of(&[0u64, 1, 100, 1000]);
    if ch.flag() {
        p.put(out, "old");
    }
    judge(ch, &p, &format!("full-{}", args[0]), &args, Some(limit), out, Must::Fail, &Want::default());
    done(ch, format!("full {args:?} {limit}"));
    Ok(())
}
/// A web server on this machine: what it answers depends on the path.
fn server() -> u16 {
    static P: std::sync::OnceLock<u16> = std::sync::OnceLock::new();
    *P.get_or_init(|| {
        use std::io::{Read, Write};
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("a port on this machine");
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let mut s = s;
                    let _ = s.set_read_timeout(Some(std::time::Duration::from_secs(5)));
                    let (mut req, mut b) = (vec![], [0u8; 4096]);
                    while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                        match s.read(&mut b) {
                            Ok(n) if n > 0 => req.extend(&b[..n]),
                            _ => return,
                        }
                    }
                    let req = String::from_utf8_lossy(&req).into_owned();
                    let path = req.split(' ').nth(1).unwrap_or("").to_string();
                    let page = HT[1].as_bytes();
                    let answer = |status: &str, head: &str, body: &[u8]| [format!("HTTP/1.1 {status}\r\nContent-Length: {}\r\nConnection: close\r\n{head}\r\n", body.len()).as_bytes(), body].concat();
                    let html = "Content-Type: text/html; charset=utf-8\r\n";
                    let a = match path.as_str() {
                        "/page" => answer("200 OK", html, page),
                        "/untyped" => answer("200 OK", "", page),
                        "/moved" => answer("302 Found", "Location: /page\r\n", b""),
                        "/loop" => answer("302 Found", "Location: /loop\r\n", b""),
                        "/away" => answer("302 Found", "Location: ftp://x/\r\n", b""),
                        "/empty" => answer("200 OK", html, b""),
                        "/none" => answer("404 Not Found", html, page),
                        "/broken" => answer("500 Internal Server Error", html, page),
                        "/cut" => {
                            let mut a = answer("200 OK", html, page);
                            a.truncate(a.len() - 40);
                            a
                        }
                        "/nothing" => vec![],
                        "/nonsense" => b"hello\r\n\r\n".to_vec(),
                        "/picture" => answer("200 OK", "Content-Type: image/png\r\n", &png(1)),
                        "/slow" => {
                            std::thread::sleep(std::time::Duration::from_millis(2500));
                            answer("200 OK", html, page)
                        }
                        _ => answer("400 Bad Request", html, b"?"),
                    };
                    let _ = s.write_all(&a);
                });
            }
        });
        port
    })
}
const PATHS: [(&str, Must); 17] = [
    ("/page", Must::Succeed),
    ("/untyped", Must::Succeed),
    ("/moved", Must::Succeed),
    ("/empty", Must::Fail),
    ("/picture", Must::Either),
    ("/loop", Must::Fail),
    ("/away", Must::Fail),
    ("/none", Must::Fail),
    ("/broken", Must::Fail),
    ("/cut", Must::Fail),
    ("/nothing", Must::Fail),
    ("/nonsense", Must::Fail),
    ("/slow", Must::Fail),
    ("closed", Must::Fail),
    ("ftp", Must::Fail),
    ("words", Must::Fail),
    ("file", Must::Fail),
];
fn web(ch: &mut Ch) -> Res {
    let p = Place::new(ch.worker);
    let port = server();
    let (path, must) = *ch.of(&PATHS);
    let url = match path {
        "closed" => "http://127.0.0.1:1/".into(),
        "ftp" => format!("ftp://127.0.0.1:{port}/page"),
        "words" => "not a url".into(),
        "file" => "file:///etc/hostname".into(),
        p => format!("http://127.0.0.1:{port}{p}"),
    };
    let o = ch.pick(OUTS.len());
    let (out, m) = output(&p, o, "pptx");
    let opts: &[&str] = *ch.of(&[&[][..], &["--title", "A title", "--verbose"], &["--no-source-url", "--no-tables", "--no-code", "--no-images"]]);
    let mut args = vec!["web2ppt", &url, "-o", &out, "--timeout", if path == "/slow" { "1" } else { "30" }];
    args.extend(opts);
    let before = p.files();
    let r = p.run(&args, None);
    ch.step();
    let after = p.files();
    let must = both(must, m);
    let say = |m: &str| format!("pptcli {args:?}: exit {:?} {m}: {}", r.code, r.err);
    ch.check(r.code == Some(0) || r.code == Some(1), "web-crash", || say("crashed"));
    let changed: Vec<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0).collect();
    if r.code == Some(0) {
        ch.check(must != Must::Fail, "web-accepted", || say("though it cannot have succeeded"));
        ch.check(changed == [&out], "web-files", || say(&format!("{changed:?}")));
        if let Some(b) = after.get(&out) {
            match Pkg::from_bytes(b) {
                Err(e) => ch.check(false, "web-output", || say(&e)),
                Ok(k) => {
                    ch.report_all(pkg::check(&k).1);
                    let text: String = k.slides().iter().map(|n| k.with_doc(n, |d| d.deep_text()).unwrap_or_default()).collect();
                    let page = must != Must::Succeed || ["Gamma", "Delta", "Eps"].iter().all(|t| text.contains(t) || *t == "Delta" && opts.contains(&"--no-code"));
                    ch.check(page, "web-content", || say(&text));
                    if opts.contains(&"--title") {
                        ch.check(text.contains("A title"), "web-title", || say(&text));
                    }
                }
            }
        }
    } else {
        ch.check(must != Must::Succeed, "web-refused", || say("though nothing is wrong"));
        ch.check(!r.err.trim().is_empty(), "web-silent", || say("without a message"));
        ch.check(changed.is_empty(), "web-bogus", || say(&format!("{changed:?}")));
    }
    ch.outcome(hash_str(&format!("{:?}{changed:?}", r.code)));
    done(ch, format!("web {path} {} {}", OUTS[o], opts.len()));
    Ok(())
}
const WORDS: [&str; 18] = ["create", "md2ppt", "html2ppt", "info", "validate", "export", "merge", "pdf2ppt", "out.pptx", "in.md", "in.pptx", "--title", "--slides", "2", "-o", "--json", "--help", "--"];
/// Any command line: what exits with zero leaves sound files, what does not leaves none and says why.
fn lines(ch: &mut Ch, max: usize, k: usize) -> Res {
    let p = Place::new(ch.worker);
    p.put("in.md", MD[0]);
    p.put("in.pptx", deck_bytes(0));
    let n = ch.pick(max + 1);
    let args: Vec<&str> = (0..n).map(|_| WORDS[ch.pick(k)]).collect();
    let before = p.files();
    let r = p.run(&args, None);
    ch.step();
    let after = p.files();
    let say = |m: &str| format!("pptcli {args:?}: exit {:?} {m}: {} {}", r.code, r.out, r.err);
    ch.check(matches!(r.code, Some(0..=2)) && !r.err.contains("panicked at"), "line-crash", || say("crashed"));
    let changed: Vec<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0).collect();
    if r.code == Some(0) {
        ch.check(!r.out.trim().is_empty(), "line-mute", || say("said nothing"));
        ch.check(changed.len() <= 1, "line-files", || say(&format!("{changed:?}")));
        for c in &changed {
            let b = &after[*c];
            let ok = if b.starts_with(b"%PDF") { super::x03::page_count(b).map(|_| ()) } else if b.starts_with(b"PK") { Pkg::from_bytes(b).and_then(|k| pkg::check(&k).1.first().map_or(Ok(()), |f| Err(f.msg.clone()))) } else { Err("neither a presentation nor a PDF file".into()) };
            ch.check(ok.is_ok(), "line-output", || say(&format!("{c}: {:?}", ok)));
        }
        let helps = args.iter().take_while(|a| **a != "--").any(|a| *a == "--help");
        let makes = args.first().is_some_and(|a| ["create", "md2ppt", "html2ppt", "export", "merge", "pdf2ppt"].contains(a)) && !helps;
        ch.check(changed.len() == makes as usize, "line-made", || say(&format!("{changed:?}")));
    } else {
        ch.check(!r.err.trim().is_empty(), "line-silent", || say("without a message"));
        ch.check(changed.is_empty() && after.len() == before.len(), "line-bogus", || say(&format!("{changed:?}")));
    }
    ch.outcome(hash_str(&format!("{:?}{changed:?}{}", r.code, r.out.len())));
    done(ch, format!("{args:?}"));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        level: "model_checking",
        rule: "the tool itself, built from its source, is run as a process for every command line and every kind of input and output of the stated sets, each time in a fresh directory; exit status, messages, files made, changed and left behind are compared with what the state of the inputs and outputs calls for",
        assumptions: &["a missing output directory may be made or refused", "pdftoppm is a stand-in that makes the files the real one makes", "runs as root: outputs that cannot be written are those that nobody can write", "a file that existed may be lost when the disk fills up during writing; no new file may be left", "bounds as stated per scenario; nothing is claimed beyond them"],
        scenarios: |t| {
            let q = t == Tier::Quick;
            vec![
                Scenario::new("create", "9 kinds of output x 5 numbers of slides x 4 titles x no or 10 kinds of template", 0, create),
                Scenario::new("md2ppt", "8 kinds of input x 3 names x 10 kinds of output x with and without title", 0, |ch| convert(ch, "md2ppt")),
                Scenario::new("html2ppt", "8 kinds of input x 3 names x 10 kinds of output x with and without title", 0, |ch| convert(ch, "html2ppt")),
                Scenario::new("aliases", "the 4 other names of these commands, with the same inputs and outputs", 0, move |ch| {
                    let a = *ch.of(&["from-md", "from-markdown", "from-html", "from-html-file"]);
                    convert(ch, a)
                }),
                Scenario::new("options", "html2ppt with 6 limits of slides x 4 of bullets x what to leave out", 0, options),
                Scenario::new("export", "10 kinds of input x 7 formats and names x 9 kinds of output", 0, export),
                Scenario::new("merge", format!("1 to {} inputs of 5 kinds x 10 kinds of output", if q { 3 } else { 4 }), 0, move |ch| merge(ch, if q { 3 } else { 4 })),
                Scenario::new("pictures", format!("pdf2ppt and export to pictures: 0 to {} pages x 4 states of the tool they rely on x kinds of input x kinds of output", if q { 11 } else { 101 }), 0, move |ch| if q { pictures(ch, 11) } else { pictures(ch, 101) }),
                Scenario::new("look", "validate, validate --json and info: 10 kinds of files, every part of a deck missing, broken or empty x 4 names", 0, look),
                Scenario::new("full", "9 commands x 4 sizes at which the disk is full x existing output or not", 0, full),
                Scenario::new("web", "17 answers of a web server and addresses x 9 kinds of output x 3 sets of options", 0, web).threads(24),
                Scenario::new("lines", format!("all command lines of up to 3{} words of {}", if q { "" } else { " (and 4)" }, WORDS.len()), 0, move |ch| lines(ch, if q { 3 } else { 4 }, WORDS.len())),
            ]
        },
        must_cover: || vec![],
    }
}
