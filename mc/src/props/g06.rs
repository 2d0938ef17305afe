//! G06: what a call returns depends on its arguments alone: not on calls before it, not on other threads.
use super::g05::{comparable, Plain};
use super::*;
use crate::decks::*;
use crate::sched::{self, ANY, DATA, NAME};
use ppt_rs::generator::*;
use ppt_rs::opc::{compress_pptx, compress_pptx_in_memory, CompressionOptions};
use ppt_rs::oxml::{PptxRepair, PresentationEditor, PresentationReader};
use ppt_rs::Presentation;
use std::collections::BTreeMap;
use std::process::Command;

/// One call, in a directory of its own; the result as text without dates and part order.
type Op = (&'static str, fn(&std::path::Path) -> String);
fn pk<E: std::fmt::Display>(r: Result<Vec<u8>, E>) -> String {
    match r {
        Err(e) => format!("error {e}"),
        Ok(b) => parts(&b),
    }
}
fn parts(b: &[u8]) -> String {
    match crate::pkg::Pkg::from_bytes(b) {
        Err(e) => format!("unreadable {e}"),
        Ok(p) => {
            let m: BTreeMap<String, String> = comparable(&p).into_iter().map(|(n, b)| (n, format!("{:x}", hash_bytes(&b)))).collect();
            format!("{m:?} {:?}", p.dups)
        }
    }
}
/// The default name of a picture is random.
fn pic() -> Image {
    let mut i = Image::from_bytes(png(1), 9, 9, "PNG");
    i.filename = "p.png".into();
    i
}
fn rich(tag: &str) -> Vec<SlideContent> {
    vec![
        SlideContent::new(tag).add_bullet("one").add_image(pic()).add_chart(chart(ChartType::Bar, tag)).notes("noted"),
        SlideContent::new("two").table(table(tag)).add_shape(Shape::new(ShapeType::Ellipse, 0, 0, 9, 9).with_text("s").with_hyperlink(Hyperlink::url("http://x/"))),
    ]
}
fn small(tag: &str) -> Vec<SlideContent> {
    vec![SlideContent::new(tag).add_bullet("one").add_image(pic())]
}
fn plain() -> Vec<SlideContent> {
    vec![SlideContent::new("Plain").add_bullet("a")]
}
fn handout() -> PresentationSettings {
    PresentationSettings::new().print(PrintSettings::new().print_what(PrintWhat::Handouts).header("H & H").footer("F").color_mode(PrintColorMode::Grayscale))
}
fn everything() -> PresentationSettings {
    SETTINGS.iter().fold(PresentationSettings::new(), |s, (n, f)| if *n == "template" { s } else { f(s) })
}
const MD: &str = "# One\n\n- a\n  - b\n- c\n\n> note\n\n## Sub\n\n| x | y |\n|---|---|\n| 1 | 2 |\n\n```rust\nlet a;\n```\n\n# Two\n\ntext\n";
const HTML: &str = "<title>T</title><h1>One</h1><p>a &amp; b</p><ul><li>x<li>y</ul><table><tr><td>1</td></tr></table><pre>code</pre><h1>Two</h1><blockquote>q</blockquote>";
pub const OPS: &[Op] = &[
    ("plain deck", |_| pk(create_pptx_with_content("Plain", plain()))),
    ("rich deck", |_| pk(create_pptx_with_content("Rich", rich("r")))),
    ("deck with handout header and footer", |_| pk(create_pptx_with_settings("Hand", &plain(), Some(handout())))),
    ("deck with every setting", |_| pk(create_pptx_with_settings("All", &rich("e"), Some(everything())))),
    ("themed deck", |_| pk(create_pptx_with_settings("Theme", &plain(), Some(PresentationSettings::new().theme(PresentationTheme::dark()))))),
    ("deck from a template", |d| {
        let t = d.join("t.pptx");
        std::fs::write(&t, create_pptx_with_settings("T", &plain(), Some(PresentationSettings::new().theme(PresentationTheme::tech()))).unwrap()).unwrap();
        pk(create_pptx_with_template("From", &rich("t"), t.to_str().unwrap(), None))
    }),
    ("lazy deck", |_| {
        let mut b = std::io::Cursor::new(vec![]);
        let r = create_pptx_lazy_to_writer(&mut b, "Lazy", Box::new(Plain(rich("l"))), None);
        let r = r.map(|_| ()).map_err(|e| e.to_string());
        pk(r.map(|_| b.into_inner()))
    }),
    ("save, read and import", |d| {
        let f = d.join("s.pptx");
        let r = rich("s").into_iter().fold(Presentation::with_title("S"), |p, s| p.add_slide(s)).save(&f);
        let read = PresentationReader::open(f.to_str().unwrap()).and_then(|r| r.get_all_slides()).map(|v| v.iter().map(|s| format!("{:?} {:?}", s.title, s.body_text)).collect::<Vec<_>>()).map_err(|e| e.to_string());
        let imp = Presentation::from_path(&f).map(|p| p.slides().iter().map(|s| format!("{} {:?}", s.title, s.bullets.iter().map(|b| &b.text).collect::<Vec<_>>())).collect::<Vec<_>>()).map_err(|e| e.to_string());
        format!("{:?} {read:?} {imp:?} {}", r.map_err(|e| e.to_string()), parts(&std::fs::read(&f).unwrap_or_default()))
    }),
    ("edit", |d| {
        let f = d.join("e.pptx");
        std::fs::write(&f, create_pptx_with_content("E", rich("e")).unwrap()).unwrap();
        let r = (|| {
            let mut e = PresentationEditor::open(f.to_str().unwrap())?;
            e.add_slide(SlideContent::new("added").add_image(pic()).notes("n"))?;
            e.duplicate_slide(0)?;
            e.remove_slide(1)?;
            e.save(f.to_str().unwrap())
        })();
        format!("{:?} {}", r.map_err(|e: ppt_rs::PptxError| e.to_string()), parts(&std::fs::read(&f).unwrap_or_default()))
    }),
    ("compress in memory", |_| {
        let b = create_pptx_with_content("C", rich("c")).unwrap();
        match compress_pptx_in_memory(&b, &CompressionOptions::maximum()) {
            Ok((b, r)) => format!("{} {}", parts(&b), r.unused_media_removed),
            Err(e) => format!("error {e}"),
        }
    }),
    ("compress files", |d| {
        let (a, b) = (d.join("a.pptx"), d.join("b.pptx"));
        std::fs::write(&a, create_pptx_with_content("D", small("d")).unwrap()).unwrap();
        let r = compress_pptx(&a, &b, &CompressionOptions::web()).map(|r| r.unused_media_removed).map_err(|e| e.to_string());
        let s = small("f").into_iter().fold(Presentation::with_title("F"), |p, s| p.add_slide(s));
        let c = s.compress(d.join("c.pptx"), &CompressionOptions::new()).map(|r| r.unused_media_removed).map_err(|e| e.to_string());
        let n = s.analyze_size().map(|a| (a.slide_count, a.image_count)).map_err(|e| e.to_string());
        format!("{r:?} {} {c:?} {} {n:?}", parts(&std::fs::read(&b).unwrap_or_default()), parts(&std::fs::read(d.join("c.pptx")).unwrap_or_default()))
    }),
    ("Markdown and HTML to slides", |_| {
        let m = ppt_rs::cli::parse_markdown(MD);
        let h = ppt_rs::import::parse_html(HTML);
        format!("{m:?} {h:?}")
    }),
    ("HTML and Markdown export", |_| {
        let s = rich("x").into_iter().fold(Presentation::with_title("X"), |p, s| p.add_slide(s));
        format!("{:?} {:?}", ppt_rs::export::html::export_to_html(&s).map_err(|e| e.to_string()), ppt_rs::export::export_to_markdown(&s).map_err(|e| e.to_string()))
    }),
    ("PDF export", |d| {
        let s = rich("p").into_iter().fold(Presentation::with_title("P"), |p, s| p.add_slide(s));
        let f = d.join("p.pdf");
        let r = s.save_as_pdf(&f).map_err(|e| e.to_string());
        format!("{r:?} {:x}", hash_bytes(&std::fs::read(&f).unwrap_or_default()))
    }),
    ("image export", |d| {
        let s = small("i").into_iter().fold(Presentation::with_title("I"), |p, s| p.add_slide(s));
        let o = d.join("images");
        let _ = std::fs::remove_dir_all(&o);
        let r = s.save_as_images(&o, &ppt_rs::export::ImageExportOptions::new()).map(|v| v.len()).map_err(|e| e.to_string());
        let out: BTreeMap<_, _> = std::fs::read_dir(&o).map(|d| d.flatten().map(|e| (e.file_name(), parts(&std::fs::read(e.path()).unwrap_or_default()))).collect()).unwrap_or_default();
        format!("{r:?} {out:?}")
    }),
    ("repair and validate", |_| {
        let mut p = crate::pkg::Pkg::from_bytes(&create_pptx_with_content("V", rich("v")).unwrap()).unwrap();
        p.parts.remove("[Content_Types].xml");
        p.parts.remove("ppt/slides/slide2.xml");
        let z = p.to_zip();
        let v = ppt_rs::core::validate_package_bytes(&z).issues.len();
        let mut r = PptxRepair::from_bytes(&z).unwrap();
        let res = r.repair();
        let mut i: Vec<String> = res.issues_repaired.iter().map(|i| format!("{i:?}")).collect();
        i.sort();
        format!("{v} {i:?} {}", parts(&r.to_bytes().unwrap()))
    }),
];

// ---- the process that runs calls ----
fn exe() -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("child").arg("g06");
    c
}
fn dir(name: &str) -> std::path::PathBuf {
    let d = std::path::PathBuf::from(std::env::var("MC_G06_DIR").unwrap()).join(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn ran(op: usize, d: &std::path::Path) -> String {
    match guarded(|| (OPS[op].1)(d)) {
        Ok(s) => s,
        Err(p) => format!("panic {p:?}"),
    }
}
pub fn child(a: &[String]) {
    let n = |i: usize| -> usize { a[i].parse().unwrap() };
    match a[0].as_str() {
        // the results of a sequence of calls
        "history" => {
            for (k, _) in a[1..].iter().enumerate() {
                println!("{:x}", hash_str(&ran(n(k + 1), &dir("h"))));
            }
        }
        "show" => {
            let last = a[1..].iter().enumerate().map(|(k, _)| ran(n(k + 1), &dir("h"))).last();
            println!("{}", last.unwrap());
        }
        // two concurrent calls; the same pair under every plan of a range
        "pair" => {
            let (x, y, level, two, lo, hi, step, warm) = (n(1), n(2), n(3), n(4) == 1, n(5), n(6), n(7), n(8) == 1);
            let (dx, dy) = (dir("x"), dir("y"));
            if warm {
                ran(x, &dx);
                ran(y, &dy);
            }
            let mut k = lo;
            while k < hi {
                // the first's turn ends at its point k; the second's, where asked, at its point m
                for m in 0.. {
                    let plan = [(0, k as u64 + 1), (1, m + 1)];
                    let o = sched::run(&plan[..1 + two as usize], level, || ran(x, &dx), || ran(y, &dy));
                    let p = o.points.concat().iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ");
                    println!("{k} {m} {:x} {:x} {} {p}", hash_str(&o.results[0]), hash_str(&o.results[1]), o.switches);
                    if !two || o.switches < 2 {
                        break;
                    }
                }
                k += step;
            }
        }
        _ => std::process::exit(2),
    }
}
/// Run the child in a scratch directory; its output lines, and the files it left in the temporary directory.
fn spawn(args: &[String]) -> Result<(Vec<String>, Vec<String>), Fail> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let d = scratch().join(format!("g06-{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    let t = d.join("tmp");
    std::fs::create_dir_all(&t).unwrap();
    static BIN: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();
    // a converter of which each picture is a copy of what it was given
    let bin = BIN.get_or_init(|| {
        let bin = scratch().join("g06-bin");
        std::fs::create_dir_all(&bin).unwrap();
        let conv = bin.join("soffice");
        std::fs::write(&conv, "#!/bin/sh\n[ $# -lt 6 ] && exit 0\ncp \"$6\" \"$5/Slide1.png\"\n").unwrap();
        std::fs::set_permissions(&conv, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
        bin
    });
    let path = format!("{}:{}", bin.display(), std::env::var("PATH").unwrap_or_default());
    let mut c = exe().args(args).env("PATH", path).env("TMPDIR", &t).env("MC_G06_DIR", &d).current_dir(&d).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| Fail { sig: "spawn".into(), msg: e.to_string() })?;
    let out = std::io::read_to_string(c.stdout.take().unwrap()).unwrap_or_default();
    let st = c.wait().unwrap();
    if !st.success() {
        return fail("child", format!("calls {args:?} ended with {st}"));
    }
    let left = std::fs::read_dir(&t).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    let _ = std::fs::remove_dir_all(&d);
    Ok((out.lines().map(|s| s.to_string()).collect(), left))
}
fn strs(a: &[&dyn std::fmt::Display]) -> Vec<String> {
    a.iter().map(|x| x.to_string()).collect()
}
/// Results of each call alone in a new process.
fn alone() -> &'static Vec<String> {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| (0..OPS.len()).map(|i| spawn(&strs(&[&"history", &i])).map(|o| o.0.concat()).unwrap_or_else(|f| f.msg)).collect())
}
fn explain(seq: &[usize]) -> String {
    let one = |s: &[usize]| spawn(&std::iter::once("show".to_string()).chain(s.iter().map(|i| i.to_string())).collect::<Vec<_>>()).map(|o| o.0.concat()).unwrap_or_else(|f| f.msg);
    let (a, b) = (one(&seq[seq.len() - 1..]), one(seq));
    let at = a.char_indices().zip(b.chars()).find(|((_, x), y)| x != y).map_or(a.len().min(b.len()), |((i, _), _)| i);
    let cut = |s: &str| s.chars().skip(s.char_indices().take_while(|(i, _)| *i < at).count().saturating_sub(60)).take(160).collect::<String>();
    format!("alone …{}… after the others …{}…", cut(&a), cut(&b))
}
fn names(s: &[usize]) -> String {
    s.iter().map(|i| OPS[*i].0).collect::<Vec<_>>().join(", then ")
}
fn history(ch: &mut Ch, depth: usize) -> Res {
    let seq: Vec<usize> = (0..depth).map(|_| ch.pick(OPS.len())).collect();
    let what = names(&seq);
    ch.note(|| what.clone());
    let args: Vec<String> = std::iter::once("history".to_string()).chain(seq.iter().map(|i| i.to_string())).collect();
    let (out, left) = spawn(&args)?;
    ch.steps(depth as u64);
    for (k, i) in seq.iter().enumerate() {
        let o = out.get(k).cloned().unwrap_or_default();
        ch.check(o == alone()[*i], format!("history:{}", OPS[*i].0), || format!("{what}: call {} differs from the same call alone: {}", k + 1, explain(&seq[..=k])));
    }
    ch.check(left.is_empty(), "left-files", || format!("{what}: left {left:?}"));
    ch.nontrivial(hash_str(&what));
    ch.state(hash_str(&out.concat()));
    ch.outcome(hash_str(&out.concat()));
    Ok(())
}
/// How many points of each level a call has.
fn points(op: usize, warm: bool) -> [usize; 3] {
    static V: std::sync::OnceLock<Vec<[[usize; 3]; 2]>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        (0..OPS.len())
            .map(|i| {
                [0, 1].map(|w| {
                    let (o, _) = spawn(&strs(&[&"pair", &i, &0, &0, &0, &1000000000, &1000000001, &1, &w])).unwrap_or_default();
                    let v: Vec<usize> = o.first().map(|l| l.split(' ').skip(5).map(|x| x.parse().unwrap()).collect()).unwrap_or(vec![0; 6]);
                    [v[0], v[1], v[2]]
                })
            })
            .collect()
    })[op][warm as usize]
}
/// Schedules of one pair: the first switch at the points lo, lo + step, .. below hi.
struct Plans {
    level: usize,
    two: bool,
    warm: bool,
    lo: usize,
    hi: usize,
    step: usize,
}
fn pair(ch: &mut Ch, x: usize, y: usize, p: Plans) -> Res {
    let Plans { level, two, warm, lo, hi, step } = p;
    let what = format!("{} beside {} ({}, points {lo}..{hi} step {step} of level {level})", OPS[x].0, OPS[y].0, if warm { "warm" } else { "cold" });
    ch.note(|| what.clone());
    let (out, left) = spawn(&strs(&[&"pair", &x, &y, &level, &(two as u8), &lo, &hi, &step, &(warm as u8)]))?;
    for l in &out {
        let f: Vec<&str> = l.split(' ').collect();
        ch.step();
        let id = hash_str(&format!("{x} {y} {level} {warm} {} {}", f[0], f[1]));
        ch.state(id);
        for (i, op) in [(2, x), (3, y)] {
            ch.check(f[i] == alone()[op], format!("schedule:{}", OPS[op].0), || format!("{what}: {} differs from the same call alone when the turn passes at points {} and {}", OPS[op].0, f[0], f[1]));
        }
        ch.outcome(hash_str(&f[2..4].concat()));
        if f[4] != "0" {
            ch.nontrivial(id);
        }
    }
    ch.check(!out.is_empty(), "no-schedules", || format!("{what}: no result"));
    ch.check(left.is_empty(), "left-files", || format!("{what}: left {left:?}"));
    Ok(())
}
/// One of `n` parts of the schedules; the first switch at one of up to `at` points evenly spread.
fn part(ch: &mut Ch, x: usize, y: usize, level: usize, two: bool, at: usize, n: usize) -> Res {
    let total = points(x, true)[level];
    let step = total.div_ceil(at).max(1);
    let all = total.div_ceil(step);
    let n = all.min(n).max(1);
    let c = ch.pick(n);
    pair(ch, x, y, Plans { level, two, warm: true, lo: all * c / n * step, hi: (all * (c + 1) / n * step).min(total), step })
}

pub fn prop() -> Prop {
    Prop {
        id: "G06",
        level: "model_checking",
        rule: "every history of calls up to the depth, each in a new process, and the real calls on two controlled threads under every schedule of the stated kind: each result equals that of the same call alone in a new process",
        assumptions: &[
            "the oracle's own XML parser and zip 0.6 reader are correct",
            "threads interact only at allocations, file-system calls and locks (the schedule points); a race between two such points is not explored",
            "bounds as stated per scenario; nothing is claimed beyond them",
        ],
        scenarios: |t| {
            let q = t == Tier::Quick;
            let depth = if q { 3 } else { 4 };
            vec![
                Scenario::new("histories", format!("all histories of {depth} out of {} calls, each in a new process", OPS.len()), 0, move |ch| history(ch, depth)),
                Scenario::new("again", "each call five times, and each call between two others of one kind", 0, |ch| {
                    let i = ch.pick(OPS.len());
                    let seq = vec![i; 5];
                    let args: Vec<String> = std::iter::once("history".to_string()).chain(seq.iter().map(|i| i.to_string())).collect();
                    let (out, _) = spawn(&args)?;
                    ch.check(out.len() == 5 && out.iter().all(|o| *o == alone()[i]), "again", || format!("{} repeated: {out:?}", OPS[i].0));
                    ch.nontrivial(i as u64);
                    ch.outcome(hash_str(&out.concat()));
                    Ok(())
                }),
                Scenario::new("names", "all pairs of calls that use files, every schedule of up to two switches at calls that open, make, rename or remove files", 0, |ch| {
                    let f: Vec<usize> = (0..OPS.len()).filter(|i| points(*i, true)[NAME] > 0).collect();
                    let (x, y) = (f[ch.pick(f.len())], f[ch.pick(f.len())]);
                    part(ch, x, y, NAME, true, usize::MAX, 6)
                }),
                Scenario::new("data", format!("all pairs of calls that use files, one switch at {} file-system calls", if q { "64 evenly spread" } else { "each of the (up to 3000 evenly spread)" }), 0, move |ch| {
                    let f: Vec<usize> = (0..OPS.len()).filter(|i| points(*i, true)[NAME] > 0).collect();
                    let (x, y) = (f[ch.pick(f.len())], f[ch.pick(f.len())]);
                    part(ch, x, y, DATA, false, if q { 64 } else { 3000 }, if q { 8 } else { 32 })
                }),
                Scenario::new("warm", format!("all pairs of calls, one switch at {} allocations", if q { "24 evenly spread" } else { "up to 2000 evenly spread" }), 0, move |ch| {
                    let (x, y) = (ch.pick(OPS.len()), ch.pick(OPS.len()));
                    part(ch, x, y, ANY, false, if q { 24 } else { 2000 }, if q { 1 } else { 16 })
                }),
                Scenario::new("cold", format!("first calls of a process: all pairs of calls, one switch at {} allocations", if q { "6 evenly spread" } else { "100 evenly spread" }), 0, move |ch| {
                    let (x, y) = (ch.pick(OPS.len()), ch.pick(OPS.len()));
                    let total = points(x, false)[ANY];
                    let n = if q { 6 } else { 100 };
                    let k = ch.pick(n);
                    let lo = total * k / n;
                    pair(ch, x, y, Plans { level: ANY, two: false, warm: false, lo, hi: lo + 1, step: 1 })
                }),
            ]
        },
        must_cover: || vec![],
    }
}
