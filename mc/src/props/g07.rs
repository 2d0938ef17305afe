//! G07: a destination that fails is reported; one that takes part of each write gets the same bytes.
use super::g05::{comparable, Plain};
use super::*;
use crate::decks::*;
use crate::pkg::Pkg;
use crate::sched::{self, Fault};
use ppt_rs::generator::*;
use ppt_rs::opc::{compress_pptx, CompressionOptions, Package};
use ppt_rs::oxml::{PptxRepair, PresentationEditor};
use ppt_rs::Presentation;
use std::collections::BTreeMap;
use std::io::{Cursor, Error, ErrorKind, Seek, SeekFrom, Write};
use std::path::Path;

// ---- destinations of the caller's own ----
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    No,
    /// The operation with this number fails, later ones work.
    Once(u64, ErrorKind),
    /// This operation and the n-th after it fail.
    Twice(u64, u64),
    /// This and all later operations fail.
    From(u64, ErrorKind),
    /// The write with this number takes nothing.
    Zero(u64),
    /// There is room for this many bytes.
    Room(u64),
    /// At most this many bytes per write.
    Short(usize),
    /// The write with this number is interrupted once.
    Interrupted(u64),
    /// Every second write is interrupted.
    Interrupts,
    /// Half of what is offered, interrupted every third time.
    Both,
}
struct Dest {
    to: Cursor<Vec<u8>>,
    bad: Bad,
    ops: u64,
    writes: u64,
    delivered: bool,
}
impl Dest {
    fn new(bad: Bad) -> Self {
        Dest { to: Cursor::new(vec![]), bad, ops: 0, writes: 0, delivered: false }
    }
    fn op(&mut self) -> std::io::Result<()> {
        let n = self.ops;
        self.ops += 1;
        match self.bad {
            Bad::Once(k, e) if n == k => self.refuse(e),
            Bad::Twice(k, m) if n == k || n == k + m => self.refuse(ErrorKind::TimedOut),
            Bad::From(k, e) if n >= k => self.refuse(e),
            _ => Ok(()),
        }
    }
    fn refuse(&mut self, e: ErrorKind) -> std::io::Result<()> {
        self.delivered = true;
        Err(Error::new(e, "refused"))
    }
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.op()?;
        let n = self.writes;
        self.writes += 1;
        let mut take = b.len();
        match self.bad {
            Bad::Zero(k) if n == k && !b.is_empty() => {
                self.delivered = true;
                return Ok(0);
            }
            Bad::Room(r) => {
                let room = r.saturating_sub(self.to.position());
                if !b.is_empty() && room == 0 {
                    self.delivered = true;
                }
                take = take.min(room as usize);
            }
            Bad::Short(k) => take = take.min(k),
            Bad::Interrupted(k) if n == k => return Err(ErrorKind::Interrupted.into()),
            Bad::Interrupts if n % 2 == 0 => return Err(ErrorKind::Interrupted.into()),
            Bad::Both if n % 3 == 0 => return Err(ErrorKind::Interrupted.into()),
            Bad::Both => take = take.div_ceil(2),
            _ => {}
        }
        self.to.write(&b[..take])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.op()
    }
}
impl Seek for Dest {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.op()?;
        self.to.seek(p)
    }
}
fn txt<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<(), String> {
    r.map(|_| ()).map_err(|e| e.to_string())
}
fn pic() -> Image {
    let mut i = Image::from_bytes(png(1), 9, 9, "PNG");
    i.filename = "p.png".into();
    i
}
fn slides() -> Vec<SlideContent> {
    vec![
        SlideContent::new("one").add_bullet("b").add_image(pic()).notes("n"),
        SlideContent::new("two").table(table("t")).add_chart(chart(ChartType::Pie, "c")),
    ]
}
fn small() -> Vec<SlideContent> {
    vec![SlideContent::new("one").add_bullet("b").add_image(pic())]
}
fn package() -> &'static Package {
    static P: std::sync::OnceLock<Package> = std::sync::OnceLock::new();
    P.get_or_init(|| Package::open_reader(Cursor::new(create_pptx_with_content("P", slides()).unwrap())).unwrap())
}
fn large() -> &'static Package {
    static P: std::sync::OnceLock<Package> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut p = Package::new();
        // does not compress
        let mut x = 1u32;
        p.add_part("a.bin".into(), (0..150_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect());
        p.add_part("b.xml".into(), vec![b' '; 100_000]);
        p.add_part("c".into(), vec![]);
        p
    })
}
type Call = (&'static str, fn(&mut Dest) -> Result<(), String>);
const CALLS: [Call; 7] = [
    ("create_pptx_to_writer", |d| txt(create_pptx_to_writer(d, "T", 2))),
    ("create_pptx_with_content_to_writer", |d| txt(create_pptx_with_content_to_writer(d, "T", &slides(), None))),
    ("create_pptx_lazy_to_writer", |d| txt(create_pptx_lazy_to_writer(d, "T", Box::new(Plain(slides())), None))),
    ("create_pptx_lazy_to_writer with settings", |d| {
        let s = SETTINGS.iter().fold(PresentationSettings::new(), |s, (n, f)| if *n == "template" { s } else { f(s) });
        txt(create_pptx_lazy_to_writer(d, "T", Box::new(Plain(small())), Some(s)))
    }),
    ("Package::save_writer", |d| txt(package().save_writer(d))),
    ("Package::save_writer of a buffer", |d| txt(package().save_writer(std::io::BufWriter::with_capacity(1 << 20, d)))),
    ("Package::save_writer of large parts", |d| txt(large().save_writer(d))),
];
fn run(i: usize, bad: Bad) -> Result<(Result<(), String>, Dest), Fail> {
    let mut d = Dest::new(bad);
    let r = match guarded(|| (CALLS[i].1)(&mut d)) {
        Ok(r) => r,
        Err(p) => return Err(panic_fail(p)),
    };
    Ok((r, d))
}
/// Operations, writes, bytes and content of a call to a good destination.
type Good = (u64, u64, u64, BTreeMap<String, Vec<u8>>);
fn good(i: usize) -> &'static Good {
    static V: std::sync::OnceLock<Vec<Good>> = std::sync::OnceLock::new();
    &V.get_or_init(|| {
        (0..CALLS.len())
            .map(|i| {
                let (r, d) = run(i, Bad::No).unwrap_or_else(|f| panic!("{}", f.msg));
                r.unwrap();
                (d.ops, d.writes, d.to.get_ref().len() as u64, comparable(&Pkg::from_bytes(d.to.get_ref()).unwrap()).into_iter().collect())
            })
            .collect()
    })[i]
}
fn judge(ch: &mut Ch, i: usize, bad: Bad) -> Res {
    let (r, d) = run(i, bad)?;
    let name = CALLS[i].0;
    ch.step();
    let what = format!("{name}, {bad:?}");
    let whole = || Pkg::from_bytes(d.to.get_ref()).is_ok_and(|p| p.dups.is_empty() && comparable(&p).into_iter().collect::<BTreeMap<_, _>>() == good(i).3);
    match bad {
        Bad::Once(..) | Bad::Twice(..) | Bad::From(..) | Bad::Zero(_) | Bad::Room(_) => {
            ch.check(!(d.delivered && r.is_ok()), format!("unreported:{name}"), || format!("{what}: the destination refused, the call succeeded"));
            if !d.delivered {
                ch.check(r.is_ok() && whole(), format!("harmless:{name}"), || format!("{what}: nothing was refused: {r:?}"));
            }
        }
        _ => {
            ch.check(r.is_ok(), format!("gave-up:{name}"), || format!("{what}: {r:?}"));
            ch.check(r.is_err() || whole(), format!("other-bytes:{name}"), || format!("{what}: another package was written"));
        }
    }
    ch.state(hash_str(&what));
    ch.outcome(hash_str(&format!("{name} {} {}", r.is_ok(), d.delivered)));
    if d.delivered || !matches!(bad, Bad::Once(..) | Bad::Twice(..) | Bad::From(..)) {
        ch.nontrivial(hash_str(&what));
    }
    Ok(())
}
/// All values of 0..n in parts of 16, every `step`th.
fn each(ch: &mut Ch, n: u64, step: u64, mut f: impl FnMut(&mut Ch, u64) -> Res) -> Res {
    let parts = n.div_ceil(16 * step).max(1);
    let c = ch.pick(parts as usize) as u64;
    let mut k = c * 16 * step;
    while k < n.min((c + 1) * 16 * step) {
        f(ch, k)?;
        k += step;
    }
    Ok(())
}

// ---- files ----
fn deck(s: Vec<SlideContent>) -> Presentation {
    s.into_iter().fold(Presentation::with_title("P"), |p, s| p.add_slide(s))
}
fn bytes() -> &'static Vec<u8> {
    static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    B.get_or_init(|| create_pptx_with_content("B", slides()).unwrap())
}
/// A call that saves to the second path; the first is a file it may read. What it prepares happens outside.
type Prepared = Box<dyn FnOnce() -> Result<(), String>>;
type Save = (&'static str, fn(&Path, &Path) -> Prepared);
fn own(p: &Path) -> std::path::PathBuf {
    p.to_path_buf()
}
const SAVES: &[Save] = &[
    ("Presentation::save", |_, o| { let (p, o) = (deck(slides()), own(o)); Box::new(move || txt(p.save(o))) }),
    ("save_as_html", |_, o| { let (p, o) = (deck(slides()), own(o)); Box::new(move || txt(p.save_as_html(o))) }),
    ("save_as_markdown", |_, o| { let (p, o) = (deck(slides()), own(o)); Box::new(move || txt(p.save_as_markdown(o))) }),
    ("save_as_markdown_with_options", |_, o| { let (p, o) = (deck(slides()), own(o)); Box::new(move || txt(p.save_as_markdown_with_options(o, &ppt_rs::export::MarkdownOptions::new()))) }),
    ("save_as_pdf", |_, o| { let (p, o) = (deck(slides()), own(o)); Box::new(move || txt(p.save_as_pdf(o))) }),
    ("Package::save", |_, o| { let o = own(o); Box::new(move || txt(package().save(o))) }),
    ("Package::save of large parts", |_, o| { let o = own(o); Box::new(move || txt(large().save(o))) }),
    ("create_pptx_with_content_to_writer to a file", |_, o| { let o = own(o); Box::new(move || { let f = std::fs::File::create(o).map_err(|e| e.to_string())?; txt(create_pptx_with_content_to_writer(f, "F", &small(), None)) }) }),
    ("PresentationEditor", |i, o| {
        let (i, o) = (own(i), own(o));
        Box::new(move || {
            let mut e = PresentationEditor::open(i.to_str().unwrap()).map_err(|e| e.to_string())?;
            txt(e.add_slide(SlideContent::new("x")))?;
            txt(e.save(o.to_str().unwrap()))
        })
    }),
    ("PresentationEditor over its file", |i, o| {
        let o = own(o);
        std::fs::copy(i, &o).unwrap();
        Box::new(move || {
            let mut e = PresentationEditor::open(o.to_str().unwrap()).map_err(|e| e.to_string())?;
            txt(e.remove_slide(0))?;
            txt(e.save(o.to_str().unwrap()))
        })
    }),
    ("PptxRepair", |i, o| {
        let (i, o) = (own(i), own(o));
        Box::new(move || {
            let mut r = PptxRepair::open(i.to_str().unwrap()).map_err(|e| e.to_string())?;
            r.repair();
            txt(r.save(o))
        })
    }),
    ("compress_pptx", |i, o| { let (i, o) = (own(i), own(o)); Box::new(move || txt(compress_pptx(i, o, &CompressionOptions::web()))) }),
    ("Presentation::compress", |_, o| { let (p, o) = (deck(small()), own(o)); Box::new(move || txt(p.compress(o, &CompressionOptions::new()))) }),
    ("QuickPptx::save", |_, o| { let o = own(o); Box::new(move || txt(ppt_rs::prelude::QuickPptx::new("Q").slide("a", &["b"]).save(o.to_str().unwrap()))) }),
];
fn content(p: &Path) -> u64 {
    let b = match std::fs::read(p) {
        Ok(b) => b,
        Err(_) => return 1,
    };
    match Pkg::from_bytes(&b) {
        Ok(p) if b.starts_with(b"PK") => {
            let m: BTreeMap<String, Vec<u8>> = comparable(&p).into_iter().collect();
            hash_str(&format!("{:?} {:?}", m.iter().map(|(n, b)| (n, hash_bytes(b))).collect::<Vec<_>>(), p.dups))
        }
        _ => hash_bytes(&b),
    }
}
fn save(ch: &Ch, i: usize, f: Fault, mask: u32) -> Result<(Result<(), String>, u64, u64), Fail> {
    let d = scratch().join(format!("g07-{}", ch.worker));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    let (a, b) = (d.join("in.pptx"), d.join("out.bin"));
    std::fs::write(&a, bytes()).unwrap();
    // saving goes over an older, longer file
    std::fs::write(&b, vec![b'x'; 300_000]).unwrap();
    let call = (SAVES[i].1)(&a, &b);
    let (r, n) = sched::faulty(f, mask, || guarded(call));
    let r = match r {
        Ok(r) => r,
        Err(p) => return Err(panic_fail(p)),
    };
    Ok((r, n, content(&b)))
}
fn expected(ch: &Ch, i: usize, mask: u32) -> Result<(u64, u64), Fail> {
    let (r, n, c) = save(ch, i, Fault::None, mask)?;
    match r {
        Ok(()) => Ok((n, c)),
        Err(e) => fail("save", format!("{} fails without a fault: {e}", SAVES[i].0)),
    }
}
fn judge_save(ch: &mut Ch, i: usize, f: Fault, mask: u32, want: u64) -> Res {
    let (r, _, c) = save(ch, i, f, mask)?;
    let name = SAVES[i].0;
    let what = format!("{name}, {f:?} of kinds {mask:#x}");
    ch.step();
    ch.check(r.is_err() || c == want, format!("incomplete:{name}"), || format!("{what}: success, but the file is not what was to be saved"));
    if matches!(f, Fault::Short(_) | Fault::Interrupt) {
        ch.check(r.is_ok(), format!("gave-up:{name}"), || format!("{what}: {r:?}"));
    }
    ch.state(hash_str(&what));
    ch.nontrivial(hash_str(&what));
    ch.outcome(hash_str(&format!("{name} {}", r.is_ok())));
    Ok(())
}
const KINDS: [u32; 5] = [sched::OPEN, sched::WRITE, sched::READ, sched::SEEK, sched::SYNC];

pub fn prop() -> Prop {
    Prop {
        id: "G07",
        level: "fault_enumeration",
        rule: "every fault of the stated kinds at every operation of the destination (the caller's own writer, and files through replaced system calls): a refused operation gives an error, success means the complete file; partial and interrupted writes give the same parts",
        assumptions: &[
            "the oracle's own XML parser and zip 0.6 reader are correct",
            "file faults are injected at open, read, write, lseek, fsync of the C library; errors that only close reports are not injected",
            "bounds as stated per scenario; nothing is claimed beyond them",
        ],
        scenarios: |t| {
            let q = t == Tier::Quick;
            // the archive writer tells of every failure there
            unsafe { libc::dup2(libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY), 2) };
            let mut v = vec![
                Scenario::new("writer-once", "7 calls that write to the caller's destination: every operation (write, flush, seek) refused once, in 3 kinds", 0, |ch| {
                    let i = ch.pick(CALLS.len());
                    let e = [ErrorKind::Other, ErrorKind::StorageFull, ErrorKind::WouldBlock][ch.pick(3)];
                    each(ch, good(i).0 + 1, 1, |ch, k| judge(ch, i, Bad::Once(k, e)))
                }),
                Scenario::new("writer-from", "the same: refused from every operation on", 0, |ch| {
                    let i = ch.pick(CALLS.len());
                    each(ch, good(i).0 + 1, 1, |ch, k| judge(ch, i, Bad::From(k, ErrorKind::BrokenPipe)))
                }),
                Scenario::new("writer-zero", "the same: every write takes nothing, once", 0, |ch| {
                    let i = ch.pick(CALLS.len());
                    each(ch, good(i).1 + 1, 1, |ch, k| judge(ch, i, Bad::Zero(k)))
                }),
                Scenario::new("writer-room", if q { "the same: room for n bytes, for every 61st n up to the size" } else { "the same: room for n bytes, for every n up to the size" }, 0, move |ch| {
                    let i = ch.pick(CALLS.len());
                    each(ch, good(i).2 + 1, if q { 61 } else { 1 }, |ch, k| judge(ch, i, Bad::Room(k)))
                }),
                Scenario::new("writer-short", "the same: partial writes of every size up to 40 and some larger, interruptions", 0, |ch| {
                    let i = ch.pick(CALLS.len());
                    let b = match ch.pick(46) {
                        0 => Bad::Interrupts,
                        1 => Bad::Both,
                        n @ 2..=41 => Bad::Short(n - 1),
                        n => Bad::Short([511, 4095, 4097, 65536][n - 42]),
                    };
                    judge(ch, i, b)
                }),
                Scenario::new("writer-interrupted", "the same: every write interrupted once", 0, |ch| {
                    let i = ch.pick(CALLS.len());
                    each(ch, good(i).1, 1, |ch, k| judge(ch, i, Bad::Interrupted(k)))
                }),
                Scenario::new("files", format!("{} calls that save to a file: every open, write, read, seek and sync {} fails, in 2 ways", SAVES.len(), if q { "(of more than 256, 256 evenly spread)" } else { "" }), 0, move |ch| {
                    let i = ch.pick(SAVES.len());
                    let mask = KINDS[ch.pick(KINDS.len())];
                    let (n, want) = expected(ch, i, mask)?;
                    let step = if q { n.div_ceil(256).max(1) } else { 1 };
                    let sticky = ch.flag();
                    each(ch, n, step, |ch, k| judge_save(ch, i, if sticky { Fault::FailFrom(k, libc::ENOSPC) } else { Fault::Fail(k, libc::EIO) }, mask, want))
                }),
                Scenario::new("file-short", "the same calls: partial and interrupted writes and reads", 0, |ch| {
                    let i = ch.pick(SAVES.len());
                    let f = [Fault::Short(1), Fault::Short(7), Fault::Short(100), Fault::Short(4096), Fault::Interrupt][ch.pick(5)];
                    let mask = [sched::WRITE, sched::READ, sched::WRITE | sched::READ][ch.pick(3)];
                    let (_, want) = expected(ch, i, mask)?;
                    judge_save(ch, i, f, mask, want)
                }),
            ];
            if !q {
                v.push(Scenario::new("writer-pairs", "two refusals: operation k and the n-th after it, for every k and n up to 3", 0, |ch| {
                    let i = ch.pick(CALLS.len());
                    let n = 1 + ch.pick(3) as u64;
                    each(ch, good(i).0 + 1, 1, |ch, k| judge(ch, i, Bad::Twice(k, n)))
                }));
            }
            v
        },
        must_cover: || vec![],
    }
}
