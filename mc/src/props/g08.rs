use super::*;
use crate::decks::{self, *};
use crate::pkg::{self, Pkg};
use ppt_rs::generator::*;
use std::collections::{BTreeMap, BTreeSet};

/// A picture on a slide as found in a package.
#[derive(Debug, Clone)]
pub struct Pic {
    pub name: String,
    pub descr: Option<String>,
    pub part: String,
    pub off: (String, String),
    pub ext: (String, String),
    pub crop: Option<[i64; 4]>,
}
pub fn pics(p: &Pkg, slide: &str) -> Vec<Pic> {
    let rels = p.rels(slide);
    p.with_doc(slide, |e| {
        e.all("pic")
            .into_iter()
            .map(|g| {
                let rid = g.all("blip").first().and_then(|b| b.attr_ns(crate::xml::NS_R, "embed")).unwrap_or("").to_string();
                let nv = g.path(&["nvPicPr", "cNvPr"]);
                let a = |el: &str, n: &str| g.path(&["spPr", "xfrm", el]).and_then(|e| e.attr(n)).unwrap_or("").to_string();
                Pic {
                    name: nv.and_then(|n| n.attr("name")).unwrap_or("").to_string(),
                    descr: nv.and_then(|n| n.attr("descr")).map(|s| s.to_string()),
                    part: rels.iter().find(|r| r.id == rid && r.ty.ends_with("/image")).map(|r| r.part.clone()).unwrap_or_default(),
                    off: (a("off", "x"), a("off", "y")),
                    ext: (a("ext", "cx"), a("ext", "cy")),
                    crop: g.all("srcRect").first().map(|s| ["l", "t", "r", "b"].map(|k| s.attr(k).and_then(|v| v.parse().ok()).unwrap_or(0))),
                }
            })
            .collect()
    })
    .unwrap_or_default()
}
pub fn media_type(format: &str) -> &'static str {
    match format {
        "PNG" => "image/png",
        "JPG" | "JPEG" => "image/jpeg",
        "GIF" => "image/gif",
        "BMP" => "image/bmp",
        "TIFF" => "image/tiff",
        "SVG" => "image/svg+xml",
        "WEBP" => "image/webp",
        _ => "?",
    }
}
pub fn b64(b: &[u8], pad: bool, wrap: usize) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else if pad {
                s.push('=');
            }
        }
    }
    if wrap == 0 {
        return s;
    }
    s.as_bytes().chunks(wrap).map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>().join("\n")
}

/// (label, format, bytes if obtainable, constructor)
type Src = (&'static str, &'static str, Option<u8>, fn() -> Image);
const SRCS: &[Src] = &[
    ("png1", "PNG", Some(1), || Image::from_bytes(png(1), 10, 20, "PNG")),
    ("png2", "PNG", Some(2), || Image::from_bytes(png(2), 10, 20, "PNG")),
    ("png1-b64", "PNG", Some(1), || Image::from_base64(&b64(&png(1), true, 0), 10, 20, "PNG")),
    ("png3-file", "PNG", Some(3), || Image::new(&picture_file("g08.png", &png(3)), 10, 20, "PNG")),
    ("png1-file", "PNG", Some(1), || Image::new(&picture_file("g08b.png", &png(1)), 10, 20, "PNG")),
    ("png-gone", "PNG", None, || Image::new("/nonexistent/mc/g08.png", 10, 20, "PNG")),
    ("png-nosource", "PNG", None, || Image { source: None, ..Image::from_bytes(png(1), 10, 20, "PNG") }),
    ("png-badb64", "PNG", None, || Image::from_base64("!!!!", 10, 20, "PNG")),
    ("jpg1", "JPG", Some(11), || Image::from_bytes(jpeg(1), 10, 20, "JPG")),
    ("jpeg1-builder", "JPEG", Some(11), || ImageBuilder::from_bytes(jpeg(1), 10, 20, "jpeg").build()),
    ("jpg-auto2", "JPEG", Some(12), || ImageBuilder::auto(jpeg(2)).build()),
    ("gif1", "GIF", Some(21), || Image::from_bytes(gif(1), 10, 20, "gif")),
    ("gif-auto2", "GIF", Some(22), || ImageBuilder::auto(gif(2)).build()),
    ("png-auto1", "PNG", Some(1), || ImageBuilder::auto(png(1)).build()),
    ("bmp1", "BMP", Some(31), || Image::from_bytes(bmp(1), 10, 20, "BMP")),
    ("svg1", "SVG", Some(41), || Image::from_bytes(svg(1), 10, 20, "SVG")),
];
fn bytes(n: u8) -> Vec<u8> {
    match n / 10 {
        0 => png(n),
        1 => jpeg(n % 10),
        2 => gif(n % 10),
        3 => bmp(n % 10),
        _ => svg(n % 10),
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "G08",
        level: "exploration",
        rule: "every sequence of up to 4 pictures over a source alphabet (bytes, base64, file, builder, auto-detected, unavailable; equal and different contents and formats) in every distribution over slides, with notes and charts shifting relationship ids, in memory and lazily; base64 and format detection on every short byte string",
        assumptions: STD,
        scenarios: |t| {
            let max = if t == Tier::Quick { 3 } else { 4 };
            vec![
                Scenario::new("sequences", format!("all sequences of 1..{max} pictures of {} sources x slide breaks x notes/chart on the first slide", SRCS.len()), 0, move |ch| {
                    let n = 1 + ch.pick(max);
                    let extra = ch.pick(3);
                    let mut slides: Vec<Vec<usize>> = vec![vec![]];
                    for i in 0..n {
                        if i > 0 && ch.pick(2) == 1 {
                            slides.push(vec![]);
                        }
                        slides.last_mut().unwrap().push(ch.pick(SRCS.len()));
                    }
                    let mut content: Vec<SlideContent> = slides
                        .iter()
                        .enumerate()
                        .map(|(i, v)| v.iter().fold(SlideContent::new(&format!("S{i}")), |s, k| s.add_image((SRCS[*k].3)())))
                        .collect();
                    if extra == 1 {
                        content[0] = content[0].clone().notes("n");
                    } else if extra == 2 {
                        content[0] = content[0].clone().add_chart(decks::chart(ChartType::Pie, "x"));
                    }
                    let what: Vec<Vec<&str>> = slides.iter().map(|v| v.iter().map(|k| SRCS[*k].0).collect()).collect();
                    ch.note(|| format!("{what:?} extra {extra}"));
                    let eager = bytes_of(create_pptx_with_content("D", content.clone()), "pictures")?;
                    let lazy = create_pptx_lazy_to_writer(std::io::Cursor::new(vec![]), "D", Box::new(super::g05::Plain(content)), None).map(|c| c.into_inner());
                    for (way, b) in [("memory", eager), ("lazy", bytes_of(lazy, "lazy pictures")?)] {
                        let p = pkg_of(&b)?;
                        let names = p.slides();
                        ch.check(names.len() == slides.len(), "slides", || format!("{names:?}"));
                        let mut where_is: BTreeMap<(u8, &str), BTreeSet<String>> = BTreeMap::new();
                        let mut used: BTreeSet<String> = BTreeSet::new();
                        for (s, v) in names.iter().zip(&slides) {
                            let got = pics(&p, s);
                            let want: Vec<&Src> = v.iter().map(|k| &SRCS[*k]).filter(|s| s.2.is_some()).collect();
                            ch.check(got.len() == want.len(), format!("{way}:count"), || format!("{what:?}: {s} has {} pictures, wanted {}", got.len(), want.len()));
                            for (g, w) in got.iter().zip(&want) {
                                let exp = bytes(w.2.unwrap());
                                ch.check(p.get(&g.part) == Some(&exp[..]), format!("{way}:bytes"), || format!("{what:?}: picture {} on {s} resolves to {:?}, which is not its data", w.0, g.part));
                                let ct = p.content_type(&g.part).unwrap_or_default();
                                ch.check(ct == media_type(w.1), format!("{way}:type:{}", w.1), || format!("{what:?}: picture {} has content type {ct:?}", w.0));
                                used.insert(g.part.clone());
                                where_is.entry((w.2.unwrap(), media_type(w.1))).or_default().insert(g.part.clone());
                            }
                        }
                        // equal bytes under equal extensions are stored once
                        for (k, parts) in &where_is {
                            let exts: BTreeSet<&str> = parts.iter().map(|p| p.rsplit('.').next().unwrap_or("")).collect();
                            ch.check(parts.len() == exts.len(), format!("{way}:stored-once"), || format!("{what:?}: picture {k:?} stored as {parts:?}"));
                        }
                        let media: Vec<&String> = p.parts.keys().filter(|n| n.starts_with("ppt/media/")).collect();
                        ch.check(media.iter().all(|m| used.contains(*m)), format!("{way}:unused-media"), || format!("{what:?}: {media:?} but only {used:?} used"));
                        let (_, fs) = pkg::check(&p);
                        ch.report_all(fs);
                        ch.step();
                    }
                    ch.nontrivial(hash_str(&format!("{what:?}{extra}")));
                    Ok(())
                }),
                Scenario::new("near-equal", "pairs of pictures of 7 lengths up to 200000 bytes that differ in one byte (every position up to 130, then around every multiple of 1024 and the end) or in length only, on one or two slides", 0, |ch| {
                    let len = *ch.of(&[1usize, 8, 64, 130, 1024, 5000, 200_000]);
                    let mut at: Vec<usize> = (0..len.min(131)).collect();
                    at.extend((1..=len / 1024).step_by(if len > 10_000 { 16 } else { 1 }).flat_map(|k| [k * 1024 - 1, k * 1024]).filter(|p| *p < len));
                    at.extend([len / 2, len - 1]);
                    let mode = ch.pick(3);
                    let a: Vec<u8> = png(1).into_iter().chain((0..).map(|i: u32| (i * 7 % 251) as u8)).take(len).collect();
                    let mut b = a.clone();
                    let mut what = String::new();
                    match mode {
                        0 => {
                            let p = at[ch.pick(at.len())];
                            b[p] ^= *ch.of(&[1u8, 0x80]);
                            what = format!("{len} bytes differing at {p}");
                        }
                        1 => b.push(0),
                        _ => {
                            b.pop();
                        }
                    }
                    ch.note(|| what.clone());
                    let f = |v: &Vec<u8>| Image::from_bytes(v.clone(), 10, 20, "PNG");
                    let one = ch.pick(2) == 0;
                    let slides = if one { vec![SlideContent::new("A").add_image(f(&a)).add_image(f(&b))] } else { vec![SlideContent::new("A").add_image(f(&a)), SlideContent::new("B").add_image(f(&b))] };
                    let bytes = bytes_of(create_pptx_with_content("D", slides), "near-equal pictures")?;
                    let p = pkg_of(&bytes)?;
                    let got: Vec<Pic> = p.slides().iter().flat_map(|s| pics(&p, s)).collect();
                    let ok = got.len() == 2 && p.get(&got[0].part) == Some(&a[..]) && p.get(&got[1].part) == Some(&b[..]);
                    ch.check(ok, "near-equal", || format!("{what} ({mode}): pictures resolve to {:?}", got.iter().map(|g| &g.part).collect::<Vec<_>>()));
                    ch.nontrivial(hash_str(&format!("{len}{mode}{what}")));
                    Ok(())
                }),
                Scenario::new("base64", "all byte strings of length 0..3 over {0,1,0x3e,0x7f,0xff,0xfb} encoded padded / wrapped at 1..5 / spaced", 0, |ch| {
                    let n = ch.pick(4);
                    let d: Vec<u8> = (0..n).map(|_| *ch.of(&[0u8, 1, 0x3e, 0x7f, 0xff, 0xfb])).collect();
                    let w = ch.pick(6);
                    let s = b64(&d, true, w);
                    let s = if ch.pick(2) == 1 { format!(" \r\n{} ", s.replace('\n', "\r\n ")) } else { s };
                    let got = Image::from_base64(&s, 1, 1, "PNG").get_bytes();
                    ch.check(got.as_deref() == Some(&d[..]), "base64", || format!("{s:?} decodes to {got:?}, wanted {d:?}"));
                    ch.nontrivial(hash_str(&s));
                    Ok(())
                }),
                Scenario::new("base64-any", "all strings of length 0..5 over {A,Q,/,=,!,newline,e-acute}: decoding never panics, and what it accepts re-encodes to the same symbols", 0, |ch| {
                    let n = ch.pick(6);
                    let s: String = (0..n).map(|_| *ch.of(&['A', 'Q', '/', '=', '!', '\n', 'é'])).collect();
                    let got = Image::from_base64(&s, 1, 1, "PNG").get_bytes();
                    if let Some(b) = got {
                        let sym: String = s.chars().filter(|c| !c.is_whitespace() && *c != '=').collect();
                        // unused low bits of the last symbol are free
                        let back = b64(&b, false, 0);
                        let same = back.len() == sym.len() && (back == sym || back[..back.len() - 1] == sym[..sym.len() - 1]);
                        ch.check(same, "base64-accepts", || format!("{s:?} decodes to {b:?}"));
                    }
                    ch.nontrivial(hash_str(&s));
                    Ok(())
                }),
                Scenario::new("auto", "format detection on every prefix (0..12 bytes) of 8 signatures and every string of length 0..6 over their bytes", 0, |ch| {
                    let d: Vec<u8> = if ch.pick(2) == 0 {
                        let s = [png(1), jpeg(1), gif(1), b"GIF87a\x01\x00".to_vec(), bmp(1), tiff(1), webp(1), svg(1)];
                        let s = ch.of(&s);
                        s[..ch.pick(13).min(s.len())].to_vec()
                    } else {
                        let n = ch.pick(7);
                        (0..n).map(|_| *ch.of(&[0x89u8, b'P', 0xff, 0xd8, b'G', b'I'])).collect()
                    };
                    let i = ImageBuilder::auto(d.clone()).build();
                    ch.check(i.get_bytes().as_deref() == Some(&d[..]), "auto-bytes", || format!("{d:?}"));
                    if d.starts_with(&[0xff, 0xd8]) && d.len() >= 4 {
                        ch.check(i.format.starts_with("JP"), "auto-jpeg", || format!("{d:?} detected as {}", i.format));
                    }
                    if d.starts_with(b"GIF89a") || d.starts_with(b"GIF87a") {
                        ch.check(i.format == "GIF", "auto-gif", || format!("{d:?} detected as {}", i.format));
                    }
                    if d.starts_with(b"\x89PNG") {
                        ch.check(i.format == "PNG", "auto-png", || format!("{d:?} detected as {}", i.format));
                    }
                    ch.nontrivial(hash_bytes(&d));
                    Ok(())
                }),
                Scenario::new("dimensions", "from_path on headers: 5 formats x widths/heights {0,1,2,300,65535,2^31,2^32-1} x truncations", 0, |ch| {
                    let f = ch.pick(5);
                    let sizes = [0u32, 1, 2, 300, 65535, 1 << 31, u32::MAX];
                    let (w, h) = (*ch.of(&sizes), *ch.of(&sizes));
                    let (d, ow, oh) = header(f, w, h);
                    let cut = ch.pick(3);
                    let d2 = match cut {
                        1 => d[..d.len() - 1].to_vec(),
                        2 => d[..d.len() / 2].to_vec(),
                        _ => d.clone(),
                    };
                    let p = decks::scratch().join(format!("dim-{}.bin", ch.worker));
                    std::fs::write(&p, &d2).map_err(|e| Fail { sig: "io".into(), msg: e.to_string() })?;
                    ch.note(|| format!("format {f} {w}x{h} cut {cut}"));
                    let r = Image::from_path(&p);
                    if cut == 0 && (1..=65535).contains(&ow) && (1..=65535).contains(&oh) {
                        match r {
                            Ok(i) => ch.check((i.width, i.height) == (ow * 9525, oh * 9525), format!("dimension:{f}"), || format!("format {f} {ow}x{oh} read as {}x{} EMU", i.width, i.height)),
                            Err(e) => ch.report(Fail { sig: format!("dimension-reject:{f}"), msg: format!("format {f} {ow}x{oh}: {e}") }),
                        }
                    }
                    ch.nontrivial(hash_bytes(&d2));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
/// Header bytes of format f announcing w x h, and the size it can express.
fn header(f: usize, w: u32, h: u32) -> (Vec<u8>, u32, u32) {
    match f {
        0 => {
            let mut v = vec![0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, 0, 0, 0, 13, b'I', b'H', b'D', b'R'];
            v.extend(w.to_be_bytes());
            v.extend(h.to_be_bytes());
            v.extend([8, 2, 0, 0, 0]);
            (v, w, h)
        }
        1 => {
            let (a, b) = (w as u16, h as u16);
            let mut v = vec![0xff, 0xd8, 0xff, 0xe0, 0, 16];
            v.extend(b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
            v.extend([0xff, 0xc0, 0, 17, 8]);
            v.extend(b.to_be_bytes());
            v.extend(a.to_be_bytes());
            v.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1, 0xff, 0xd9]);
            (v, a as u32, b as u32)
        }
        2 => {
            let (a, b) = (w as u16, h as u16);
            let mut v = b"GIF89a".to_vec();
            v.extend(a.to_le_bytes());
            v.extend(b.to_le_bytes());
            v.extend([0, 0, 0, 0x3b]);
            (v, a as u32, b as u32)
        }
        3 => {
            // BMP heights may be negative (top-down)
            let mut v = b"BM".to_vec();
            v.extend([54, 0, 0, 0, 0, 0, 0, 0, 54, 0, 0, 0, 40, 0, 0, 0]);
            v.extend(w.to_le_bytes());
            v.extend(h.to_le_bytes());
            v.extend([1, 0, 24, 0]);
            v.extend([0u8; 24]);
            (v, w, h)
        }
        _ => {
            // WebP lossy: 14-bit dimensions
            let (a, b) = (w & 0x3fff, h & 0x3fff);
            let mut v = b"RIFF".to_vec();
            v.extend(40u32.to_le_bytes());
            v.extend(b"WEBPVP8 ");
            v.extend(28u32.to_le_bytes());
            v.extend([0x10, 0x32, 0, 0x9d, 0x01, 0x2a]);
            v.extend((a as u16).to_le_bytes());
            v.extend((b as u16).to_le_bytes());
            v.extend([0u8; 18]);
            (v, a, b)
        }
    }
}
