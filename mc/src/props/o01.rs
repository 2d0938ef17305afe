use super::*;
use crate::decks;
use ppt_rs::opc::Package;
use std::collections::BTreeMap;
use std::io::Cursor;

type Map = BTreeMap<String, Vec<u8>>;
fn contents() -> Vec<Vec<u8>> {
    vec![vec![], b"<a>\r\n&amp; \xc3\xa4</a>".to_vec(), (0..=255u8).cycle().take(70_000).collect()]
}
const NAMES: &[&str] = &["a.xml", "ppt/Ä b.bin", "A.xml"];
fn check(p: &Package, w: &Map, ctx: &str) -> Vec<Fail> {
    let mut out = vec![];
    let mut bad = |s: &str, t: String| out.push(Fail { sig: s.into(), msg: format!("{ctx}: {t}") });
    let mut names: Vec<String> = p.part_paths().into_iter().map(|s| s.to_string()).collect();
    names.sort();
    let want: Vec<String> = w.keys().cloned().collect();
    if names != want || p.part_count() != want.len() {
        bad("names", format!("{names:?} ({}), wanted {want:?}", p.part_count()));
    }
    for n in NAMES.iter().chain(&["absent"]) {
        if p.has_part(n) != w.contains_key(*n) {
            bad("has", format!("{n}: {}", p.has_part(n)));
        }
        if p.get_part(n) != w.get(*n).map(|v| v.as_slice()) {
            bad("get", format!("{n}: {:?} bytes, wanted {:?}", p.get_part(n).map(|v| v.len()), w.get(*n).map(|v| v.len())));
        }
        let s = w.get(*n).map(|v| String::from_utf8_lossy(v).into_owned());
        if p.get_part_string(n) != s {
            bad("get-string", n.to_string());
        }
    }
    out
}
fn run(ch: &mut Ch, depth: usize, conts: &[Vec<u8>]) -> Res {
    let mut p = Package::new();
    let mut w: Map = Map::new();
    let mut log = vec![];
    for _ in 0..depth {
        match ch.pick(6) {
            0 => {
                let n = *ch.of(NAMES);
                let c = ch.pick(conts.len());
                log.push(format!("add {n} {c}"));
                p.add_part(n.to_string(), conts[c].clone());
                w.insert(n.into(), conts[c].clone());
            }
            1 => {
                let n = *ch.of(NAMES);
                log.push(format!("remove {n}"));
                let r = p.remove_part(n);
                let e = w.remove(n);
                ch.check(r == e, "remove", || format!("{log:?}: removed {:?} bytes", r.as_ref().map(|x| x.len())));
            }
            2 => {
                let n = *ch.of(NAMES);
                log.push(format!("mutate {n}"));
                match (p.get_part_mut(n), w.get_mut(n)) {
                    (Some(a), Some(b)) => {
                        a.push(b'!');
                        b.push(b'!');
                    }
                    (None, None) => {}
                    (a, _) => return fail("get-mut", format!("{log:?}: {}", a.is_some())),
                }
            }
            3 => {
                log.push("memory".into());
                let mut c = Cursor::new(vec![]);
                p.save_writer(&mut c).map_err(|e| Fail { sig: "save".into(), msg: e.to_string() })?;
                let b = c.into_inner();
                let q = pkg_of(&b)?;
                ch.check(q.parts == w && q.dups.is_empty(), "archive", || format!("{log:?}: archive holds {:?}", q.order));
                p = Package::open_reader(Cursor::new(b)).map_err(|e| Fail { sig: "open".into(), msg: e.to_string() })?;
            }
            4 => {
                log.push("file".into());
                let f = decks::scratch().join(format!("o01-{}.pptx", ch.worker));
                p.save(&f).map_err(|e| Fail { sig: "save".into(), msg: e.to_string() })?;
                p = Package::open(&f).map_err(|e| Fail { sig: "open".into(), msg: e.to_string() })?;
            }
            _ => {
                // overwrite a longer file with this package
                log.push("overwrite".into());
                let f = decks::scratch().join(format!("o01-{}-long.pptx", ch.worker));
                std::fs::write(&f, vec![b'x'; 200_000]).map_err(|e| Fail { sig: "io".into(), msg: e.to_string() })?;
                p.save(&f).map_err(|e| Fail { sig: "save".into(), msg: e.to_string() })?;
                p = Package::open(&f).map_err(|e| Fail { sig: "open".into(), msg: e.to_string() })?;
            }
        }
        ch.step();
        ch.state(hash_str(&format!("{:?}", w.iter().map(|(k, v)| (k, hash_bytes(v))).collect::<Vec<_>>())));
        ch.report_all(check(&p, &w, &format!("{log:?}")));
    }
    ch.note(|| log.join(", "));
    ch.nontrivial(hash_str(&format!("{log:?}")));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "O01",
        level: "model_checking",
        rule: "every operation history over add/replace, remove, in-place change, save+reopen (memory, file, over a longer file) on the real container compared after every step with a reference map; archives read by the oracle's own zip reader; generated decks reopened and saved again",
        assumptions: STD,
        scenarios: |t| {
            let depth = if t == Tier::Quick { 4 } else { 5 };
            vec![
                Scenario::new("histories", format!("all histories of {depth} operations over {} names x 2 contents", NAMES.len()), 0, move |ch| {
                    let c = contents();
                    run(ch, depth, &c[..2])
                }),
                Scenario::new("large", "all histories of 3 operations with a 70000-byte part among 3 contents", 0, |ch| run(ch, 3, &contents())),
                Scenario::new("decks", "generated decks of 1..2 slides with one feature: open, save, reopen twice through memory and file", 1, |ch| {
                    let d = decks::deck(ch, 1, 2, true, true);
                    let b = bytes_of(d.build(), &d.describe())?;
                    let w = pkg_of(&b)?.parts;
                    let mut p = Package::open_reader(Cursor::new(b)).map_err(|e| Fail { sig: "open".into(), msg: e.to_string() })?;
                    for k in 0..2 {
                        let names: Vec<String> = p.part_paths().into_iter().map(|s| s.to_string()).collect();
                        let got: Map = names.into_iter().map(|n| { let v = p.get_part(&n).unwrap_or(&[]).to_vec(); (n, v) }).collect();
                        ch.check(got == w, "deck-parts", || format!("{} after {k} reopens: parts differ", d.describe()));
                        if k == 0 {
                            let mut c = Cursor::new(vec![]);
                            p.save_writer(&mut c).map_err(|e| Fail { sig: "save".into(), msg: e.to_string() })?;
                            p = Package::open_reader(Cursor::new(c.into_inner())).map_err(|e| Fail { sig: "open".into(), msg: e.to_string() })?;
                        } else {
                            let f = decks::scratch().join(format!("o01-d{}.pptx", ch.worker));
                            p.save(&f).map_err(|e| Fail { sig: "save".into(), msg: e.to_string() })?;
                            let q = pkg_of(&std::fs::read(&f).unwrap_or_default())?;
                            ch.check(q.parts == w, "deck-file", || d.describe());
                        }
                        ch.step();
                    }
                    ch.nontrivial(hash_str(&d.describe()));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
