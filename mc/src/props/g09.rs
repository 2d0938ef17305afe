//! G09: Presentation-wide settings are written as asked, each independently of the others.
use super::*;
use crate::decks::*;
use crate::pkg::Pkg;
use crate::xml::{Elem, NS_R};
use ppt_rs::generator::*;
use std::collections::BTreeSet;

fn make(slides: &[SlideContent], s: PresentationSettings) -> Result<Pkg, Fail> {
    let b = match guarded(|| create_pptx_with_settings("T", slides, Some(s))) {
        Err(p) => return Err(panic_fail(p)),
        Ok(r) => bytes_of(r, "generation")?,
    };
    pkg_of(&b)
}
fn one() -> Vec<SlideContent> {
    vec![SlideContent::new("S")]
}
fn doc(p: &Pkg, part: &str) -> Result<Elem, Fail> {
    p.doc(part).map_err(|e| Fail { sig: "part".into(), msg: format!("{part}: {e}") })
}
/// The one part of a kind the presentation refers to.
fn of_kind(p: &Pkg, from: &str, kind: &str) -> Result<String, Fail> {
    let r = p.rel_of_type(from, kind);
    match &r[..] {
        [one] => Ok(one.part.clone()),
        _ => Err(Fail { sig: "part".into(), msg: format!("{} relationships of kind {kind} from {from}", r.len()) }),
    }
}
const PRES: &str = "ppt/presentation.xml";

// ---- slide show ----
const SHOWS: [(ShowType, &str); 3] = [(ShowType::Speaker, "present"), (ShowType::Kiosk, "kiosk"), (ShowType::Browsed, "browse")];
fn show(ch: &mut Ch) -> Res {
    let (ty, want_ty) = SHOWS[ch.pick(3)];
    let (looping, silent, still, timings, media) = (ch.flag(), ch.flag(), ch.flag(), ch.flag(), ch.flag());
    let ranges: [(SlideRange, Vec<&str>); 5] = [
        (SlideRange::All, vec!["sldAll"]),
        (SlideRange::Range { start: 1, end: 1 }, vec!["sldRg", "1", "1"]),
        (SlideRange::Range { start: 2, end: 17 }, vec!["sldRg", "2", "17"]),
        (SlideRange::Range { start: 3, end: u32::MAX }, vec!["sldRg", "3", "4294967295"]),
        (SlideRange::Custom(vec![256, 258]), vec!["custShow"]),
    ];
    let (range, want_range) = ranges[ch.pick(5)].clone();
    let (pen, want_pen) = [(PenColor::red(), "FF0000"), (PenColor::blue(), "0000FF"), (PenColor::black(), "000000"), (PenColor::new("#a1b2c3"), "A1B2C3")][ch.pick(4)].clone();
    let kiosk = ch.flag();
    let mut s = if kiosk { SlideShowSettings::kiosk() } else { SlideShowSettings::new() };
    // what is set last counts
    s = s.show_type(ty).loop_continuously(looping).without_narration(silent).without_animation(still).use_timings(timings).show_media_controls(media).slide_range(range.clone()).pen_color(pen);
    let spec = format!("{s:?}");
    let p = make(&one(), PresentationSettings::new().slide_show(s))?;
    let root = doc(&p, &of_kind(&p, PRES, "presProps")?)?;
    let shows = root.all("showPr");
    ch.check(shows.len() == 1, "show", || format!("{spec}: {} showPr", shows.len()));
    let e = shows[0];
    // what is left out has the value of the schema
    let flag = |n: &str, absent: bool| e.attr(n).map_or(absent, |v| v == "1" || v == "true");
    ch.check(flag("loop", false) == looping, "show-loop", || format!("{spec}: {:?}", e.attrs));
    ch.check(flag("showNarration", false) != silent, "show-narration", || format!("{spec}: {:?}", e.attrs));
    ch.check(flag("showAnimation", true) != still, "show-animation", || format!("{spec}: {:?}", e.attrs));
    ch.check(flag("useTimings", true) == timings, "show-timings", || format!("{spec}: {:?}", e.attrs));
    let kids: Vec<&str> = e.elems().map(|k| &*k.local).collect();
    ch.check(kids == [want_ty, want_range[0], "penClr", "extLst"], "show-order", || format!("{spec}: {kids:?}"));
    if kids.len() == 4 {
        let r = e.elems().nth(1).unwrap();
        if want_range.len() == 3 {
            ch.check(r.attr("st") == Some(want_range[1]) && r.attr("end") == Some(want_range[2]), "show-range", || format!("{spec}: {}", r.canon()));
        }
        if want_range[0] == "custShow" {
            // a custom show is one of the list in the presentation, with the slides asked for
            let id = r.attr("id").map(str::to_string);
            let list = doc(&p, PRES)?;
            let known = list.all("custShow").into_iter().any(|c| c.attr("id") == id.as_deref() && id.is_some());
            let ids: Vec<&str> = r.elems().filter_map(|s| s.attr("id")).collect();
            ch.check(known || ids == ["256", "258"], "custom-ids", || format!("{spec}: {}", r.canon()));
            ch.check(known, "custom-show", || format!("{spec}: {}", r.canon()));
        }
        let clr = e.path(&["penClr", "srgbClr"]).and_then(|c| c.attr("val"));
        ch.check(clr == Some(want_pen), "show-pen", || format!("{spec}: {clr:?}"));
        let m: Vec<&str> = e.all("showMediaCtrls").into_iter().filter_map(|x| x.attr("val")).collect();
        ch.check(if media { m == ["1"] } else { m.is_empty() || m == ["0"] }, "show-media", || format!("{spec}: {m:?}"));
    }
    ch.state(hash_str(&spec));
    ch.outcome(hash_str(&e.canon()));
    ch.nontrivial(hash_str(&spec));
    Ok(())
}

// ---- theme ----
const SLOTS: [&str; 12] = ["dk1", "lt1", "dk2", "lt2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6", "hlink", "folHlink"];
#[derive(Debug, PartialEq, Clone)]
struct Look {
    name: String,
    colors: Vec<String>,
    major: String,
    minor: String,
}
fn look(p: &Pkg, master: &str) -> Result<Look, Fail> {
    let root = doc(p, &of_kind(p, master, "theme")?)?;
    let scheme = root.path(&["themeElements", "clrScheme"]);
    let val = |c: &Elem| c.elems().next().and_then(|v| v.attr("val").filter(|_| &*v.local == "srgbClr").or(v.attr("lastClr"))).unwrap_or("?").to_string();
    let slots: Vec<(String, String)> = scheme.into_iter().flat_map(|s| s.elems()).map(|c| (c.local.to_string(), val(c))).collect();
    if slots.iter().map(|s| &s.0[..]).ne(SLOTS) {
        return Err(Fail { sig: "theme-slots".into(), msg: format!("{slots:?}") });
    }
    let font = |k: &str| root.path(&["themeElements", "fontScheme", k, "latin"]).and_then(|l| l.attr("typeface")).unwrap_or("?").to_string();
    Ok(Look { name: root.attr("name").unwrap_or("?").into(), colors: slots.into_iter().map(|s| s.1).collect(), major: font("majorFont"), minor: font("minorFont") })
}
fn wanted(t: &PresentationTheme) -> Look {
    let c = &t.colors;
    let colors = [&c.dk1, &c.lt1, &c.dk2, &c.lt2, &c.accent1, &c.accent2, &c.accent3, &c.accent4, &c.accent5, &c.accent6, &c.hlink, &c.fol_hlink];
    Look { name: t.name.clone(), colors: colors.map(|c| c.to_string()).to_vec(), major: t.fonts.major.clone(), minor: t.fonts.minor.clone() }
}
/// Palettes as published, roles: primary, secondary, accent, background, text, light, dark.
const PALETTES: [(&str, fn() -> PresentationTheme, [&str; 7]); 7] = [
    ("Corporate", PresentationTheme::corporate, ["1565C0", "1976D2", "FF6F00", "FFFFFF", "212121", "E3F2FD", "0D47A1"]),
    ("Modern", PresentationTheme::modern, ["212121", "757575", "00BCD4", "FAFAFA", "212121", "F5F5F5", "424242"]),
    ("Vibrant", PresentationTheme::vibrant, ["E91E63", "9C27B0", "FF9800", "FFFFFF", "212121", "FCE4EC", "880E4F"]),
    ("Dark", PresentationTheme::dark, ["BB86FC", "03DAC6", "CF6679", "121212", "FFFFFF", "1E1E1E", "000000"]),
    ("Nature", PresentationTheme::nature, ["2E7D32", "4CAF50", "8BC34A", "FFFFFF", "1B5E20", "E8F5E9", "1B5E20"]),
    ("Tech", PresentationTheme::tech, ["0D47A1", "1976D2", "00E676", "FAFAFA", "263238", "E3F2FD", "01579B"]),
    ("Carbon", PresentationTheme::carbon, ["0043CE", "4589FF", "24A148", "FFFFFF", "161616", "E0E0E0", "161616"]),
];
fn theme(ch: &mut Ch) -> Res {
    let mut own = None;
    let (t, want) = match ch.pick(4) {
        // one slot or all of them, over the office colours or none
        0 => {
            let name = *ch.of(&["Office Theme", "Mine", "A & \"B\" <c>", "é😀"]);
            let mut c = ThemeColorScheme::office();
            let which = ch.pick(15);
            let v = |k: usize| format!("{:02X}A0{:02X}", k * 16 + 1, 255 - k);
            {
                let slots = [&mut c.dk1, &mut c.lt1, &mut c.dk2, &mut c.lt2, &mut c.accent1, &mut c.accent2, &mut c.accent3, &mut c.accent4, &mut c.accent5, &mut c.accent6, &mut c.hlink, &mut c.fol_hlink];
                for (k, s) in slots.into_iter().enumerate() {
                    if which == k || which == 12 {
                        *s = v(k);
                    }
                }
            }
            let mut t = PresentationTheme::new(name);
            if which < 14 {
                t = t.colors(c);
            }
            let mut w = wanted(&t);
            let fonts = ch.pick(6);
            match fonts {
                0 => {}
                1 => (t, w.major) = (t.major_font("Arial"), "Arial".into()),
                2 => (t, w.minor) = (t.minor_font("Georgia & Co"), "Georgia & Co".into()),
                3 => (t, w.major, w.minor) = (t.fonts(ThemeFonts::new("Ma\"j", "M<in")), "Ma\"j".into(), "M<in".into()),
                4 => (t, w.major, w.minor) = (t.minor_font("x").fonts(ThemeFonts::office()), ThemeFonts::office().major, ThemeFonts::office().minor),
                _ => (t, w.major, w.minor) = (t.fonts(ThemeFonts::new("P", "Q")).major_font("R"), "R".into(), "Q".into()),
            }
            // the office theme as such is that of a deck without one
            if name == "Office Theme" && which >= 13 && (fonts == 0 || fonts == 4) {
                own = Some(look(&make(&one(), PresentationSettings::new())?, "ppt/slideMasters/slideMaster1.xml")?);
            }
            (t, w)
        }
        1 => {
            let c = *ch.of(&["#0a0b0c", "0A0B0C", " 0a0B0c ", " #0A0B0C"]);
            let o = ThemeColorScheme::office();
            let k = ch.pick(4);
            let c = match k {
                0 => o.accent1(c),
                1 => o.accent2(c),
                2 => o.accent3(c),
                _ => o.hyperlink(c),
            };
            let t = PresentationTheme::new("N").colors(c);
            let mut w = wanted(&PresentationTheme::new("N"));
            w.colors[[4, 5, 6, 10][k]] = "0A0B0C".into();
            (t, w)
        }
        k => {
            let (name, f, roles) = PALETTES[ch.pick(7)];
            let [p, s, a, bg, text, light, dark] = roles;
            let t = if k == 2 { f() } else { PresentationTheme::from_palette(name, &format!("#{}", p.to_lowercase()), s, a, &format!(" {bg}"), text, light, dark) };
            let mut w = wanted(&t);
            w.name = name.into();
            w.colors[..7].clone_from_slice(&[text, bg, dark, light, p, s, a].map(String::from));
            w.colors[10] = p.into();
            (t, w)
        }
    };
    let by = ch.pick(2);
    let spec = format!("{t:?} {by}");
    let p = if by == 0 {
        make(&one(), PresentationSettings::new().theme(t))?
    } else {
        let r = guarded(|| ppt_rs::api::Presentation::with_title("T").add_slide(SlideContent::new("S")).with_theme(t).build()).map_err(panic_fail)?;
        pkg_of(&bytes_of(r, "build")?)?
    };
    let got = look(&p, "ppt/slideMasters/slideMaster1.xml")?;
    let want = own.unwrap_or(want);
    ch.check(got.colors == want.colors, "theme-colors", || format!("{spec}: {got:?} instead of {want:?}"));
    ch.check(got.major == want.major && got.minor == want.minor, "theme-fonts", || format!("{spec}: {got:?} instead of {want:?}"));
    ch.check(got.name == want.name, "theme-name", || format!("{spec}: {got:?} instead of {want:?}"));
    ch.state(hash_str(&spec));
    ch.outcome(hash_str(&format!("{got:?}")));
    ch.nontrivial(hash_str(&spec));
    Ok(())
}

// ---- print ----
fn placeholders(e: &Elem) -> Vec<(String, String)> {
    e.all("sp").into_iter().filter_map(|s| Some((s.path(&["nvSpPr", "nvPr", "ph"])?.attr("type").unwrap_or("obj").to_string(), s.child("txBody").map(|t| t.all("r").into_iter().map(|t| t.deep_text()).collect()).unwrap_or_default()))).collect()
}
fn print(ch: &mut Ch) -> Res {
    let what = [PrintWhat::Slides, PrintWhat::Handouts, PrintWhat::Notes, PrintWhat::Outline][ch.pick(4)];
    let texts: [Option<&str>; 4] = [None, Some("Head"), Some("a < b & \"c\""), Some("")];
    let (h, f) = (texts[ch.pick(4)], texts[ch.pick(4)]);
    let (date, pages) = (ch.flag(), ch.flag());
    let extra = ch.pick(4);
    let mut s = PrintSettings::new().print_what(what).print_date(date).print_page_numbers(pages);
    if let Some(t) = h {
        s = s.header(t);
    }
    if let Some(t) = f {
        s = s.footer(t);
    }
    s = match extra {
        0 => s,
        1 => s.color_mode(PrintColorMode::BlackAndWhite).handout_layout(HandoutLayout::SlidesPerPage9),
        2 => s.frame_slides(true).include_hidden_slides(true).scale_to_fit(false),
        _ => s.orientation(Orientation::Portrait),
    };
    let spec = format!("{s:?}");
    let notes = ch.flag();
    let slides = vec![if notes { SlideContent::new("S").notes("n") } else { SlideContent::new("S") }];
    let p = make(&slides, PresentationSettings::new().print(s))?;
    let mut want: Vec<(&str, Option<&str>)> = vec![];
    if h.is_some() {
        want.push(("hdr", h));
    }
    if f.is_some() {
        want.push(("ftr", f));
    }
    if date {
        want.push(("dt", None));
    }
    if pages {
        want.push(("sldNum", None));
    }
    let plain = make(&slides, PresentationSettings::new())?;
    // on the slide master; its header has no text of its own
    const MASTER: &str = "ppt/slideMasters/slideMaster1.xml";
    let kinds = ["hdr", "ftr", "dt", "sldNum"];
    let own = |v: Vec<(String, String)>| v.into_iter().filter(|x| kinds.contains(&&x.0[..])).collect::<Vec<_>>();
    let got = own(placeholders(&doc(&p, MASTER)?));
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && (w.0 != "ftr" || Some(&g.1[..]) == w.1));
    ch.check(same, "print-master", || format!("{spec}: {got:?}"));
    if want.is_empty() {
        ch.check(p.get(MASTER) == plain.get(MASTER), "print-master-else", || format!("{spec}: another slide master"));
    }
    // the handout master, if handouts are printed
    let hand = p.rel_of_type(PRES, "handoutMaster");
    ch.check(hand.len() == (what == PrintWhat::Handouts) as usize, "print-handout", || format!("{spec}: {} handout masters", hand.len()));
    for r in &hand {
        let got = own(placeholders(&doc(&p, &r.part)?));
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.0 == w.0 && (w.1.is_none() || Some(&g.1[..]) == w.1));
        ch.check(same, "print-handout-shapes", || format!("{spec}: {got:?}"));
    }
    // nothing else
    for (n, b) in &plain.parts {
        if n.contains("slideMaster") || n.starts_with("docProps/core") || (what == PrintWhat::Handouts && (n.ends_with("presentation.xml") || n.ends_with("presentation.xml.rels") || n.starts_with("[Content"))) {
            continue;
        }
        ch.check(p.parts.get(n) == Some(b), "print-else", || format!("{spec}: {n} is another one"));
    }
    ch.state(hash_str(&spec));
    ch.outcome(hash_str(&format!("{got:?}{}", hand.len())));
    ch.nontrivial(hash_str(&format!("{spec}{notes}")));
    Ok(())
}

// ---- fonts ----
const FACES: [&str; 4] = ["My Font", "Other", "a & <b>", "MyFont"];
const STYLES: [(FontStyle, &str); 4] = [(FontStyle::Regular, "regular"), (FontStyle::Bold, "bold"), (FontStyle::Italic, "italic"), (FontStyle::BoldItalic, "boldItalic")];
const CHARSETS: [(FontCharset, &str); 14] = [
    (FontCharset::Ansi, "0"), (FontCharset::Symbol, "2"), (FontCharset::ShiftJis, "128"), (FontCharset::Hangul, "129"), (FontCharset::Gb2312, "134"), (FontCharset::ChineseBig5, "136"), (FontCharset::Greek, "161"),
    (FontCharset::Turkish, "162"), (FontCharset::Hebrew, "177"), (FontCharset::Arabic, "178"), (FontCharset::Baltic, "186"), (FontCharset::Russian, "204"), (FontCharset::Thai, "222"), (FontCharset::EastEurope, "238"),
];
fn judge_fonts(ch: &mut Ch, list: &[EmbeddedFont], spec: &str) -> Res {
    let mut l = EmbeddedFontList::new();
    for f in list {
        l.add(f.clone());
    }
    let p = make(&one(), PresentationSettings::new().embedded_fonts(l))?;
    let root = doc(&p, PRES)?;
    // faces in the order they first appear, of each face and style the first
    let mut want: Vec<(String, Vec<(&str, &[u8])>)> = vec![];
    for f in list {
        let st = STYLES.iter().find(|s| s.0 == f.style).unwrap().1;
        let at = match want.iter().position(|w| w.0 == f.typeface) {
            Some(k) => k,
            None => {
                want.push((f.typeface.clone(), vec![]));
                want.len() - 1
            }
        };
        if want[at].1.iter().all(|v| v.0 != st) {
            want[at].1.push((st, &f.data));
        }
    }
    let rels = p.rels(PRES);
    let mut got = vec![];
    for e in root.path(&["embeddedFontLst"]).into_iter().flat_map(|l| l.elems()) {
        let face = e.child("font").and_then(|f| f.attr("typeface")).unwrap_or("?").to_string();
        let v: Vec<(&str, &[u8])> = e
            .elems()
            .filter(|x| &*x.local != "font")
            .map(|x| {
                let id = x.attr_ns(NS_R, "id").unwrap_or("");
                let part = rels.iter().find(|r| r.id == id && r.ty.ends_with("/font")).map(|r| r.part.as_str()).unwrap_or("");
                (&*x.local, p.get(part).unwrap_or(b"?"))
            })
            .collect();
        got.push((face, v));
    }
    let sorted = |v: &[(String, Vec<(&str, &[u8])>)]| v.iter().map(|(f, s)| (f.clone(), s.iter().map(|x| (x.0.to_string(), x.1.to_vec())).collect::<BTreeSet<_>>(), s.len())).collect::<Vec<_>>();
    ch.check(sorted(&got) == sorted(&want), "fonts", || format!("{spec}: {got:?} instead of {want:?}"));
    if let (Some(e), Some(f)) = (root.all("embeddedFont").first().and_then(|e| e.child("font")), list.first()) {
        let cs = CHARSETS.iter().find(|c| c.0 == f.charset).unwrap().1;
        let ok = e.attr("charset") == Some(cs) && e.attr("pitchFamily") == Some(&f.pitch_family.to_string()) && e.attr("panose") == f.panose.as_deref();
        ch.check(ok, "font-descriptor", || format!("{spec}: {}", e.canon()));
    }
    ch.check(list.is_empty() == root.child("embeddedFontLst").is_none(), "fonts-list", || format!("{spec}: {}", root.canon()));
    let n = p.parts.keys().filter(|n| n.starts_with("ppt/fonts/")).count();
    ch.check(n == want.iter().map(|w| w.1.len()).sum::<usize>(), "font-parts", || format!("{spec}: {n} font parts"));
    ch.outcome(hash_str(&format!("{got:?}")));
    ch.state(hash_str(spec));
    ch.nontrivial(hash_str(spec));
    Ok(())
}
fn fonts(ch: &mut Ch, max: usize) -> Res {
    let n = ch.pick(max + 1);
    let mut v = vec![];
    for k in 0..n {
        let face = *ch.of(&FACES);
        let (style, _) = STYLES[ch.pick(4)];
        let id = *ch.of(&["", "rId3", "rIdFont"]);
        v.push(EmbeddedFont::new(face, style, vec![0, 1, k as u8 + 65, face.len() as u8], id));
    }
    let spec = v.iter().map(|f| format!("{} {:?} {:?}", f.typeface, f.style, f.relationship_id)).collect::<Vec<_>>().join(", ");
    ch.note(|| spec.clone());
    judge_fonts(ch, &v, &spec)
}
fn descriptors(ch: &mut Ch) -> Res {
    let (c, _) = CHARSETS[ch.pick(14)];
    let mut f = EmbeddedFont::new("F", FontStyle::Regular, vec![7; 9], "").charset(c);
    let pitch = [None, Some(0u8), Some(0x31), Some(255)][ch.pick(4)];
    if let Some(p) = pitch {
        f = f.pitch_family(p);
    }
    if ch.flag() {
        f = f.panose("020B0604020202020204");
    }
    let spec = format!("{c:?} {pitch:?} {:?}", f.panose);
    judge_fonts(ch, &[f], &spec)
}

// ---- signature ----
fn signature(ch: &mut Ch) -> Res {
    let name = *ch.of(&["Ann", "A & <B>", ""]);
    let (algo, uri) = [(HashAlgorithm::Sha256, "http://www.w3.org/2001/04/xmlenc#sha256"), (HashAlgorithm::Sha384, "http://www.w3.org/2001/04/xmldsig-more#sha384"), (HashAlgorithm::Sha512, "http://www.w3.org/2001/04/xmlenc#sha512"), (HashAlgorithm::Sha1, "http://www.w3.org/2000/09/xmldsig#sha1")][ch.pick(4)];
    let (commit, proof, label) = [(SignatureCommitment::Created, "Creation", "Created"), (SignatureCommitment::Approved, "Approval", "Approved"), (SignatureCommitment::Reviewed, "Review", "Reviewed")][ch.pick(3)];
    let date = [None, Some("2024-02-29T23:59:59Z"), Some("<now>")][ch.pick(3)];
    let comment = [None, Some("ok"), Some("a & b")][ch.pick(3)];
    let mut s = DigitalSignature::new(SignerInfo::new(name).email("a@b").organization("o").title("t")).hash_algorithm(algo).commitment(commit);
    if let Some(d) = date {
        s = s.sign_date(d);
    }
    if let Some(c) = comment {
        s = s.comments(c);
    }
    let spec = format!("{s:?}");
    let p = make(&one(), PresentationSettings::new().digital_signature(s))?;
    let origin = of_kind(&p, "", "origin")?;
    let root = doc(&p, &of_kind(&p, &origin, "signature")?)?;
    let text = |n: &str| root.all(n).first().map(|e| e.deep_text());
    ch.check(text("KeyName").as_deref() == Some(name) && text("SignatureText").as_deref() == Some(name), "signer", || format!("{spec}: {}", root.canon()));
    ch.check(text("SignatureComments").as_deref() == comment, "signature-comments", || format!("{spec}: {}", root.canon()));
    ch.check(text("ManifestHashAlgorithm").as_deref() == Some(uri) && root.all("SignatureMethod").first().and_then(|m| m.attr("Algorithm")) == Some(uri), "signature-hash", || format!("{spec}: {}", root.canon()));
    ch.check(text("CommitmentTypeId").is_some_and(|t| t.ends_with(&format!("#ProofOf{proof}"))) && text("CommitmentTypeQualifier").as_deref() == Some(label), "signature-commitment", || format!("{spec}: {}", root.canon()));
    if date.is_some() {
        ch.check(text("SigningTime").as_deref() == date, "signature-date", || format!("{spec}: {}", root.canon()));
    }
    ch.outcome(hash_str(&root.canon()));
    ch.nontrivial(hash_str(&spec));
    Ok(())
}

// ---- together ----
/// The settings a part may depend on: theme, show, print, fonts, signature, template.
fn depends(part: &str) -> [bool; 6] {
    const T: bool = true;
    const F: bool = false;
    match part {
        "ppt/theme/theme1.xml" => [T, F, F, F, F, T],
        "ppt/presProps.xml" => [F, T, F, F, F, F],
        p if p.contains("handoutMaster") => [F, F, T, F, F, F],
        p if p.starts_with("ppt/slideMasters/") || p.starts_with("ppt/slideLayouts/") => [F, F, T, F, F, T],
        p if p.starts_with("ppt/fonts/") => [F, F, F, T, F, F],
        p if p.starts_with("_xmlsignatures/") => [F, F, F, F, T, F],
        "_rels/.rels" => [F, F, F, F, T, F],
        "ppt/presentation.xml" | "ppt/_rels/presentation.xml.rels" => [F, F, T, T, F, F],
        "[Content_Types].xml" => [F, F, T, T, T, T],
        // the theme of a notes or handout master
        p if p.starts_with("ppt/theme/") => [F, F, T, F, F, F],
        _ => [F; 6],
    }
}
fn together(ch: &mut Ch) -> Res {
    let deck = ch.pick(4);
    let slides: Vec<SlideContent> = match deck {
        0 => one(),
        1 => vec![SlideContent::new("a").notes("n"), SlideContent::new("b").add_bullet("x")],
        2 => vec![SlideContent::new("a").with_chart().add_chart(ChartBuilder::new("C", ChartType::Bar).categories(vec!["k"]).add_series(ChartSeries::new("s", vec![1.0])).build()), SlideContent::new("b").notes("m")],
        _ => vec![SlideContent::new("a").add_image(Image::from_bytes(png(3), 9, 9, "PNG"))],
    };
    let set: [usize; 6] = [ch.pick(2), ch.pick(2), ch.pick(4), ch.pick(2), ch.pick(2), ch.pick(2)];
    let settings = |on: [bool; 6]| {
        let mut s = PresentationSettings::new();
        if on[0] && set[0] > 0 {
            s = s.theme(PresentationTheme::tech());
        }
        if on[1] && set[1] > 0 {
            s = s.slide_show(SlideShowSettings::kiosk());
        }
        if on[2] && set[2] > 0 {
            s = s.print(match set[2] {
                1 => PrintSettings::new().header("H").print_date(true),
                2 => PrintSettings::new().print_what(PrintWhat::Handouts),
                _ => PrintSettings::new().print_what(PrintWhat::Handouts).footer("F").print_page_numbers(true),
            });
        }
        if on[3] && set[3] > 0 {
            let mut l = EmbeddedFontList::new();
            l.add(font("My Font", FontStyle::Regular, ""));
            l.add(font("My Font", FontStyle::Bold, ""));
            s = s.embedded_fonts(l);
        }
        if on[4] && set[4] > 0 {
            s = s.digital_signature(DigitalSignature::new(SignerInfo::new("Ann")));
        }
        if on[5] && set[5] > 0 {
            s = s.template(template_file());
        }
        s
    };
    ch.note(|| format!("deck {deck}, settings {set:?}"));
    let p = make(&slides, settings([true; 6]))?;
    let mut made: Vec<([bool; 6], Pkg)> = vec![];
    for (n, b) in &p.parts {
        if n == "docProps/core.xml" {
            continue;
        }
        let mut d = depends(n);
        // whether an unset one is left out makes no difference
        for k in 0..6 {
            d[k] &= set[k] > 0;
        }
        if made.iter().all(|m| m.0 != d) {
            let q = make(&slides, settings(d))?;
            made.push((d, q));
        }
        let q = &made.iter().find(|m| m.0 == d).unwrap().1;
        ch.check(q.parts.get(n) == Some(b), "depends", || format!("deck {deck}, settings {set:?}: {n} is another one than with only those of the settings that concern it ({d:?})"));
        ch.step();
    }
    let mut names: BTreeSet<&String> = BTreeSet::new();
    for (_, q) in &made {
        names.extend(q.parts.keys());
    }
    let all: BTreeSet<&String> = p.parts.keys().collect();
    ch.check(names.is_subset(&all), "missing", || format!("deck {deck}, settings {set:?}: no {:?}", names.difference(&all).collect::<Vec<_>>()));
    ch.state(hash_str(&format!("{deck}{set:?}")));
    ch.outcome(all.len() as u64);
    ch.nontrivial(hash_str(&format!("{deck}{set:?}")));
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "G09",
        level: "model_checking",
        rule: "every combination of settings through the real generator; what the package says (read with an independent parser) is compared with what was asked, and every part with the same part of a deck that has only the settings concerning it",
        assumptions: STD,
        scenarios: |t| {
            let n = if t == Tier::Quick { 2 } else { 3 };
            vec![
                Scenario::new("show", "all slide shows: 3 types x 5 switches x 5 ranges x 4 pens, over the defaults and over the kiosk preset", 0, show),
                Scenario::new("theme", "4 names x each colour slot, all, none x 6 ways to set fonts; ways to write a colour; 7 presets and palettes; through the generator and the presentation", 0, theme),
                Scenario::new("print", "4 kinds of printing x 4 headers x 4 footers x date x numbers x 4 others, with and without notes", 0, print),
                Scenario::new("fonts", format!("all lists of up to {n} fonts over 4 names x 4 styles x 3 relationship ids"), 0, move |ch| fonts(ch, n)),
                Scenario::new("descriptors", "14 character sets x 4 pitches x panose", 0, descriptors),
                Scenario::new("signature", "3 signers x 4 hashes x 3 commitments x 3 dates x 3 comments", 0, signature),
                Scenario::new("together", "4 decks x all 128 combinations of 6 kinds of settings", 0, together),
            ]
        },
        must_cover: || vec![],
    }
}
