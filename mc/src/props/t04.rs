//! T04: unit and colour helpers are exact within rounding and total.
use super::*;
use crate::decks::*;
use crate::pkg::Pkg;
use crate::xml::*;
use ppt_rs::core::{Dimension, FlexPosition, FlexSize, SLIDE_HEIGHT_EMU, SLIDE_WIDTH_EMU};
use ppt_rs::elements::{Color, Position, RgbColor, Size, Transform};
use ppt_rs::generator::*;
use ppt_rs::helpers::{self, ColorValue, QuickTable, ShapeExt};
use ppt_rs::parts::CellBorder;
use ppt_rs::prelude::{self, font_sizes, layouts};

/// Run f; a panic is a violation with the given signature.
fn total<T>(ch: &mut Ch, sig: &str, what: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
    ch.step();
    match guarded(f) {
        Ok(v) => Some(v),
        Err((m, l)) => {
            ch.check(false, format!("{sig}-panic"), || format!("{} panicked: {m} at {l}", what()));
            None
        }
    }
}
/// v units of `per` each, as a whole number within the type's range: off by less than one.
fn close(got: i128, v: f64, per: f64, min: i128, max: i128) -> bool {
    if v.is_nan() {
        return true;
    }
    let x = v * per;
    if x >= max as f64 {
        return got == max || (got as f64 - x).abs() < 1.0;
    }
    if x <= min as f64 {
        return got == min;
    }
    (got as f64 - x).abs() < 1.0 + x.abs() * 1e-12
}
fn edges() -> Vec<f64> {
    let mut v = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -0.0, 1e-9, 1e300, -1e300];
    for per in [1.0, 914400.0, 360000.0, 12700.0, 60000.0] {
        for m in [u32::MAX as f64, i32::MAX as f64, i64::MAX as f64, u16::MAX as f64, i32::MIN as f64] {
            v.extend([-1.0, -0.5, 0.0, 0.5, 1.0].map(|d| (m + d) / per));
        }
    }
    v
}
/// Values of a block: 0 holds the edges, the others a dense part of the line.
fn values(block: usize) -> Vec<f64> {
    if block == 0 {
        return edges();
    }
    let mut v = vec![];
    for k in (block - 1) * 400..block * 400 {
        for d in [1.0, 7.0, 72.0, 100.0, 254.0, 360.0, 12700.0] {
            v.push(k as f64 / d);
            v.push(-(k as f64) / d);
        }
    }
    v
}
type ToU32 = (&'static str, f64, fn(f64) -> u32);
const UNITS: [ToU32; 13] = [
    ("Dimension::Inches", 914400.0, |v| Dimension::inches(v).to_emu(7)),
    ("Dimension::Cm", 360000.0, |v| Dimension::cm(v).to_emu(7)),
    ("Dimension::Pt", 12700.0, |v| Dimension::pt(v).to_emu(7)),
    ("prelude::inches", 914400.0, prelude::inches),
    ("prelude::cm", 360000.0, prelude::cm),
    ("prelude::pt", 12700.0, prelude::pt),
    ("inches_to_emu", 914400.0, inches_to_emu),
    ("cm_to_emu", 360000.0, cm_to_emu),
    ("table_with_widths", 914400.0, |v| helpers::table_with_widths(&[v]).build().column_widths[0]),
    ("QuickTable::with_widths", 914400.0, |v| QuickTable::with_widths(&[v]).build().column_widths[0]),
    ("table_from_data", 914400.0, |v| helpers::table_from_data(&[vec!["a"]], Some(vec![v])).build().column_widths[0]),
    ("QuickTable::at", 914400.0, |v| {
        let t = QuickTable::new(1).at(v, v).build();
        assert_eq!(t.x, t.y);
        t.x
    }),
    ("ShapeExt::stroke", 12700.0, |v| helpers::rect(0.0, 0.0, 1.0, 1.0).stroke(helpers::rgb(1, 2, 3), v).line.unwrap().width),
];
type ToI64 = (&'static str, f64, i128, i128, fn(f64) -> [i64; 2]);
const SIGNED: [ToI64; 9] = [
    ("Position::from_inches", 914400.0, i64::MIN as i128, i64::MAX as i128, |v| { let p = Position::from_inches(v, v); [p.x, p.y] }),
    ("Position::from_cm", 360000.0, i64::MIN as i128, i64::MAX as i128, |v| { let p = Position::from_cm(v, v); [p.x, p.y] }),
    ("Size::from_inches", 914400.0, i64::MIN as i128, i64::MAX as i128, |v| { let p = Size::from_inches(v, v); [p.width, p.height] }),
    ("Size::from_cm", 360000.0, i64::MIN as i128, i64::MAX as i128, |v| { let p = Size::from_cm(v, v); [p.width, p.height] }),
    ("Transform position", 914400.0, i64::MIN as i128, i64::MAX as i128, |v| { let p = Transform::from_inches(v, v, 1.0, 1.0); [p.position.x, p.position.y] }),
    ("Transform size", 914400.0, i64::MIN as i128, i64::MAX as i128, |v| { let p = Transform::from_inches(1.0, 1.0, v, v); [p.size.width, p.size.height] }),
    ("Transform rotation", 60000.0, i32::MIN as i128, i32::MAX as i128, |v| { let p = Transform::from_inches(1.0, 1.0, 1.0, 1.0).with_rotation(v); [p.rotation as i64; 2] }),
    ("CellBorder::new", 12700.0, i32::MIN as i128, i32::MAX as i128, |v| [CellBorder::new(v as f32, "000000").width as i64; 2]),
    ("Position there and back", 1.0, i64::MIN as i128, i64::MAX as i128, |v| {
        let p = Position::new(v as i64, v as i64);
        let back = |x: f64| (x * 914400.0).round() as i64;
        [back(p.x_inches()), back(p.y_inches())]
    }),
];
fn units(ch: &mut Ch, block: usize) {
    for v in values(block) {
        ch.state(v.to_bits());
        for (n, per, f) in UNITS {
            if let Some(g) = total(ch, n, || format!("{n}({v})"), || f(v)) {
                ch.check(close(g as i128, v, per, 0, u32::MAX as i128), n, || format!("{n}({v}) = {g}, expected {}", v * per));
            }
        }
        for (n, per, lo, hi, f) in SIGNED {
            // the value a border receives is a 32-bit float: as precise as that, no more
            let slack = if n == "CellBorder::new" { (v * per).abs() * 3e-7 } else if n.ends_with("back") { 1e-9 * v.abs() } else { 0.0 };
            if let Some(g) = total(ch, n, || format!("{n}({v})"), || f(v)) {
                for g in g {
                    let near = close(g as i128, v, per, lo, hi) || (g as f64 - v * per).abs() <= slack + 1.0;
                    ch.check(near, n, || format!("{n}({v}) = {g}, expected {}", v * per));
                }
            }
        }
    }
}
const REFS: [u32; 11] = [0, 1, 2, 999, 6858000, 9144000, 12192000, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX - 1, u32::MAX];
fn ratios(ch: &mut Ch, block: usize) {
    let mut vs: Vec<f64> = if block == 0 { edges() } else { (0..=200).map(|k| k as f64 / 200.0 + (block - 1) as f64 / 2000.0).collect() };
    vs.extend([-0.5, -1.0, 1.5, 2.0]);
    for v in vs {
        ch.state(v.to_bits());
        for r in REFS {
            let want = v.clamp(0.0, 1.0);
            for (n, d) in [("ratio", Dimension::ratio(v)), ("percent", Dimension::percent(v * 100.0))] {
                if let Some(g) = total(ch, n, || format!("{n}({v}) of {r}"), || d.to_emu(r)) {
                    ch.check(g <= r, format!("{n}-over"), || format!("{n}({v}) of {r} is {g}"));
                    ch.check(close(g as i128, want, r as f64, 0, u32::MAX as i128), n, || format!("{n}({v}) of {r} is {g}"));
                }
            }
        }
        // which reference belongs to which axis
        let d = || Dimension::ratio(v);
        let i = || Dimension::inches(v);
        let (w, h) = (d().to_emu(SLIDE_WIDTH_EMU), d().to_emu(SLIDE_HEIGHT_EMU));
        let e = i().to_emu(0);
        let (a, b) = (1234567, 7654321);
        let (wa, hb) = (d().to_emu(a), d().to_emu(b));
        let st = ShapeType::Rectangle;
        let sh = |s: &Shape| [s.x, s.y, s.width, s.height];
        let got: Vec<(&str, Vec<u32>, Vec<u32>)> = vec![
            ("to_emu_x/y", vec![d().to_emu_x(), d().to_emu_y(), i().to_emu_x(), i().to_emu_y()], vec![w, h, e, e]),
            ("FlexPosition", { let p = FlexPosition::new(d(), d()); let (x, y) = p.to_emu(); let (z, u) = p.to_emu_with(a, b); vec![x, y, z, u] }, vec![w, h, wa, hb]),
            ("FlexSize", { let p = FlexSize::new(d(), d()); let (x, y) = p.to_emu(); let (z, u) = p.to_emu_with(a, b); vec![x, y, z, u] }, vec![w, h, wa, hb]),
            ("from_dimensions", sh(&Shape::from_dimensions(st, d(), d(), d(), d())).to_vec(), vec![w, h, w, h]),
            ("at, with_dimensions", sh(&Shape::new(st, 1, 2, 3, 4).at(d(), i()).with_dimensions(i(), d())).to_vec(), vec![w, e, e, h]),
            ("at", sh(&Shape::new(st, 1, 2, 3, 4).at(i(), d())).to_vec(), vec![e, h, 3, 4]),
            ("rect", sh(&helpers::rect(v, 1.0, 2.0, 3.0)).to_vec(), vec![e, 914400, 1828800, 2743200]),
            ("ellipse", sh(&helpers::ellipse(1.0, v, 2.0, 3.0)).to_vec(), vec![914400, e, 1828800, 2743200]),
            ("rounded_rect", sh(&helpers::rounded_rect(1.0, 2.0, v, 3.0)).to_vec(), vec![914400, 1828800, e, 2743200]),
            ("triangle", sh(&helpers::triangle(1.0, 2.0, 3.0, v)).to_vec(), vec![914400, 1828800, 2743200, e]),
            ("diamond", sh(&helpers::diamond(v, 2.0, 3.0, v)).to_vec(), vec![e, 1828800, 2743200, e]),
            ("circle", sh(&helpers::circle(1.0, 2.0, v)).to_vec(), vec![914400, 1828800, e, e]),
            ("shapes", [prelude::shapes::rect(v, 1.0, 2.0, 3.0), prelude::shapes::rect(1.0, v, 2.0, 3.0), prelude::shapes::circle(v, 1.0, 2.0)].iter().flat_map(sh).collect(), [[e, 914400, 1828800, 2743200], [914400, e, 1828800, 2743200], [e, 914400, 1828800, 1828800]].concat()),
        ];
        for (n, g, want) in got {
            ch.step();
            ch.check(g == want, n, || format!("{n} with {v}: {g:?}, expected {want:?}"));
        }
    }
}
const SIZES: [u32; 14] = [0, 1, 2, 3, 457200, 914400, 3429000, 6857999, 6858000, 6858001, 9143999, 9144000, 9144001, u32::MAX];
const COUNTS: [usize; 8] = [0, 1, 2, 3, 4, 7, 20, 5000];
/// One line of a layout: positions of n things of size `s`, `gap` apart, meant to be centred in `all`.
fn line(ch: &mut Ch, what: &str, got: &[u32], n: usize, s: u32, gap: u32, all: u32) {
    let (n, s, gap, all) = (n as i128, s as i128, gap as i128, all as i128);
    let totalw = s * n + gap * (n - 1).max(0);
    ch.check(got.len() as i128 == n, format!("{what}-count"), || format!("{what}: {} positions for {n}", got.len()));
    for (i, g) in got.iter().enumerate() {
        let i = i as i128;
        if totalw <= all {
            let want = (all - totalw) / 2 + i * (s + gap);
            ch.check((*g as i128 - want).abs() <= 1, what, || format!("{what}: {n} of {s} spaced {gap}: position {i} is {g}, expected {want}"));
        } else {
            // does not fit: still in order, not wrapped around
            let want = ((got[0] as i128) + i * (s + gap)).min(u32::MAX as i128);
            ch.check(got[0] as i128 <= all && *g as i128 == want, format!("{what}-wide"), || format!("{what}: {n} of {s} spaced {gap}: position {i} is {g}, first {}", got[0]));
        }
    }
}
fn placing(ch: &mut Ch) {
    let (s, g) = (*ch.of(&SIZES), *ch.of(&SIZES));
    ch.nontrivial(s as u64 * 31 + g as u64);
    ch.outcome(s as u64 * 31 + g as u64);
    for (n, all, f) in [("center_x", layouts::SLIDE_WIDTH, layouts::center_x as fn(u32) -> u32), ("center_y", layouts::SLIDE_HEIGHT, layouts::center_y)] {
        if let Some(x) = total(ch, n, || format!("{n}({s})"), || f(s)) {
            line(ch, n, &[x], 1, s, 0, all);
        }
    }
    if let Some((x, y)) = total(ch, "center", || format!("center({s}, {g})"), || layouts::center(s, g)) {
        line(ch, "center-x", &[x], 1, s, 0, layouts::SLIDE_WIDTH);
        line(ch, "center-y", &[y], 1, g, 0, layouts::SLIDE_HEIGHT);
    }
    for n in COUNTS {
        ch.state(n as u64 ^ (s as u64) << 16 ^ (g as u64) << 32);
        let y = 4321;
        if let Some(p) = total(ch, "stack_horizontal", || format!("stack_horizontal({n}, {s}, {g})"), || layouts::stack_horizontal(n, s, g, y)) {
            line(ch, "stack_horizontal", &p.iter().map(|p| p.0).collect::<Vec<_>>(), n, s, g, layouts::SLIDE_WIDTH);
            ch.check(p.iter().all(|p| p.1 == y), "stack_horizontal-y", || format!("{p:?}"));
        }
        if let Some(p) = total(ch, "stack_vertical", || format!("stack_vertical({n}, {s}, {g})"), || layouts::stack_vertical(n, s, g, y)) {
            line(ch, "stack_vertical", &p.iter().map(|p| p.1).collect::<Vec<_>>(), n, s, g, layouts::SLIDE_HEIGHT);
            ch.check(p.iter().all(|p| p.0 == y), "stack_vertical-x", || format!("{p:?}"));
        }
        if let Some(p) = total(ch, "distribute_horizontal", || format!("distribute_horizontal({n}, {s})"), || layouts::distribute_horizontal(n, s, y)) {
            let sig = "distribute_horizontal";
            ch.check(p.len() == n && p.iter().all(|p| p.1 == y), sig, || format!("{sig}({n}, {s}): {p:?}"));
            let room = layouts::SLIDE_WIDTH as i128 - 2 * layouts::MARGIN as i128;
            let used = s as i128 * n as i128;
            for (i, q) in p.iter().enumerate() {
                if n == 1 {
                    line(ch, "distribute-one", &[q.0], 1, s, 0, layouts::SLIDE_WIDTH);
                } else if used <= room {
                    let want = layouts::MARGIN as f64 + i as f64 * (s as f64 + (room - used) as f64 / (n - 1) as f64);
                    ch.check((q.0 as f64 - want).abs() < n as f64 + 1.0, sig, || format!("{sig}({n}, {s}): position {i} is {}, expected {want}", q.0));
                } else {
                    // too many to fit: not wrapped around
                    ch.check(i == 0 || q.0 >= p[i - 1].0, sig, || format!("{sig}({n}, {s}): position {i} is {}, the one before {}", q.0, p[i - 1].0));
                    ch.check(p[0].0 <= layouts::SLIDE_WIDTH, sig, || format!("{sig}({n}, {s}): begins at {}", p[0].0));
                }
            }
        }
        for m in &COUNTS[..5] {
            if n > 20 {
                continue;
            }
            let sig = "grid";
            if let Some(p) = total(ch, sig, || format!("grid({m}, {n}, {s}, {g})"), || layouts::grid(*m, n, s, g)) {
                ch.check(p.len() == n * m, "grid-count", || format!("grid({m}, {n}, {s}, {g}): {p:?}"));
                if p.len() == n * m && n * m > 0 {
                    let (xs, ys): (Vec<u32>, Vec<u32>) = (p[..n].iter().map(|p| p.0).collect(), p.iter().step_by(n).map(|p| p.1).collect());
                    line(ch, "grid-columns", &xs, n, s, 0, layouts::SLIDE_WIDTH);
                    line(ch, "grid-rows", &ys, *m, g, 0, layouts::SLIDE_HEIGHT);
                    ch.check(p.iter().enumerate().all(|(i, q)| *q == (xs[i % n], ys[i / n])), "grid-order", || format!("grid({m}, {n}, {s}, {g}): {p:?}"));
                }
            }
        }
    }
    let v = total(ch, "font_sizes", || format!("font_sizes::to_emu({s})"), || font_sizes::to_emu(s));
    ch.check(v.is_none() || v == Some(s.saturating_mul(100)), "font_sizes", || format!("{s} points are {v:?}"));
    ch.check(emu_to_inches(s) == s as f64 / 914400.0, "emu_to_inches", || format!("{s}: {}", emu_to_inches(s)));
}
/// What a colour written in hexadecimal is: some colour, none, or left open.
fn colour(s: &str) -> Option<Option<[u8; 4]>> {
    let t = s.strip_prefix('#').unwrap_or(s);
    if t.starts_with('#') {
        return None;
    }
    let d: Option<Vec<u8>> = t.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect();
    Some(d.and_then(|d| {
        let b: Vec<u8> = d.chunks(2).map(|c| c[0] << 4 | c.get(1).unwrap_or(&0)).collect();
        match d.len() {
            6 => Some([b[0], b[1], b[2], 255]),
            8 => Some([b[0], b[1], b[2], b[3]]),
            _ => None,
        }
    }))
}
fn rgb_of(c: &Color) -> [u8; 3] {
    match c {
        Color::Rgb(c) => [c.r, c.g, c.b],
        _ => [1, 2, 3],
    }
}
fn hexes(ch: &mut Ch, s: &str) {
    let want = colour(s);
    let six = want.map(|w| w.filter(|_| s.trim_start_matches('#').len() == 6).map(|w| [w[0], w[1], w[2]]));
    let w = || format!("{s:?}");
    if let Some(g) = total(ch, "RgbColor::from_hex", w, || RgbColor::from_hex(s)) {
        let g = g.map(|c| [c.r, c.g, c.b]);
        ch.check(six.is_none() || six == Some(g), "RgbColor::from_hex", || format!("{s:?} is {g:?}"));
    }
    if let Some(g) = total(ch, "Color::from_hex", w, || Color::from_hex(s)) {
        let g = g.as_ref().map(rgb_of);
        ch.check(six.is_none() || six == Some(g), "Color::from_hex", || format!("{s:?} is {g:?}"));
    }
    if let Some(g) = total(ch, "hex", w, || helpers::hex(s)) {
        let g = rgb_of(&g);
        if let Some(Some(want)) = six {
            ch.check(g == want, "hex", || format!("{s:?} is {g:?}"));
        }
    }
    if let Some(g) = total(ch, "ColorValue::from_hex", w, || ColorValue::from_hex(s)) {
        let g = [g.r, g.g, g.b, g.a];
        if let Some(Some(want)) = want {
            ch.check(g == want, "ColorValue::from_hex", || format!("{s:?} is {g:?}"));
        }
    }
}
/// As the fill of a shape with text: the text stays readable whatever was given.
fn fills(ch: &mut Ch, s: &str) {
    let w = || format!("{s:?} as a fill");
    let b = total(ch, "fill", w, || {
        let sh = Shape::new(ShapeType::Rectangle, 0, 0, 914400, 914400).with_fill(ShapeFill::new(s)).with_text("word");
        create_pptx_with_content("T", vec![SlideContent::new("a").add_shape(sh)])
    });
    let Some(Ok(b)) = b else { return };
    let Some(Some(c)) = colour(s) else { return };
    if s.trim_start_matches('#').len() != 6 {
        return;
    }
    let x = Pkg::from_bytes(&b).ok().and_then(|p| p.doc("ppt/slides/slide1.xml").ok());
    let lum = 0.299 * c[0] as f64 + 0.587 * c[1] as f64 + 0.114 * c[2] as f64;
    // the colour of the run that holds the word
    let run: Vec<String> = x.iter().flat_map(|x| x.all("r")).filter(|r| r.deep_text().contains("word")).flat_map(|r| r.all("srgbClr")).filter_map(|e| e.attr("val").map(|s| s.to_uppercase())).collect();
    let run = run.join(" ");
    let white = run == "FFFFFF";
    if lum < 120.0 || lum > 136.0 {
        ch.check(white == (lum < 128.0), "contrast", || format!("fill {s:?} with text {run}"));
    }
}
const ALPHABET: [&str; 10] = ["0", "F", "9", "a", "g", "#", "+", "é", " ", "-"];
fn amounts() -> Vec<f32> {
    let mut v: Vec<f32> = (0..=20).map(|k| k as f32 / 20.0).collect();
    v.extend([1e-6, 0.999_999, 0.3333333, -0.5, -1e30, 1.5, 300.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]);
    v
}
fn near(got: u8, want: f64) -> bool {
    (got as f64 - want).abs() <= 1.001
}
/// All 256 values of a channel against b.
fn adjust(ch: &mut Ch, b: u8) {
    for a in 0..=255u8 {
        ch.state((a as u64) << 8 | b as u64);
        let (c, d) = (ColorValue::rgba(a, b, a ^ 0x55, b), ColorValue::rgba(b, a, 255 - b, a));
        let l = [c.r, c.g, c.b, c.a];
        let m = [d.r, d.g, d.b, d.a];
        let arr = |c: ColorValue| [c.r, c.g, c.b, c.a];
        for t in amounts() {
            let k = t.clamp(0.0, 1.0) as f64;
            let ops: [(&str, fn(&ColorValue, &ColorValue, f32) -> ColorValue); 4] = [("lighter", |c, _, t| c.lighter(t)), ("darker", |c, _, t| c.darker(t)), ("mix", |c, d, t| c.mix(d, t)), ("opacity", |c, _, t| c.opacity(t))];
            for (n, f) in ops {
                let Some(g) = total(ch, n, || format!("{l:?} {n} {t}"), || f(&c, &d, t)) else { continue };
                if t.is_nan() {
                    continue;
                }
                let g = arr(g);
                for i in 0..4 {
                    let x = l[i] as f64;
                    let want = match (n, i) {
                        ("mix", _) => x * (1.0 - k) + m[i] as f64 * k,
                        ("opacity", 3) => 255.0 * k,
                        (_, 3) | ("opacity", _) => x,
                        ("lighter", _) => x + (255.0 - x) * k,
                        _ => x * (1.0 - k),
                    };
                    let exact = k == 0.0 || k == 1.0 || want == x && n != "mix";
                    ch.check(near(g[i], want) && (!exact || g[i] as f64 == want), n, || format!("{l:?} {n} {t} ({m:?}): channel {i} is {}, expected {want}", g[i]));
                }
            }
        }
        // b as a percentage
        let k = b.min(100) as f64 / 100.0;
        if let Some(g) = total(ch, "transparent", || format!("transparent({b})"), || c.transparent(b)) {
            let exact = k == 0.0 || k == 1.0;
            let want = 255.0 * (1.0 - k);
            ch.check([g.r, g.g, g.b] == [c.r, c.g, c.b] && near(g.a, want) && (!exact || g.a as f64 == want), "transparent", || format!("transparent({b}): {g:?}"));
        }
        if let Some(g) = total(ch, "invert", || format!("{c:?} inverted"), || c.invert()) {
            ch.check(g.r == 255 - c.r && g.g == 255 - c.g && g.b == 255 - c.b && g.a == c.a && g.invert() == c, "invert", || format!("{c:?} inverted: {g:?}"));
        }
    }
}
/// All colours with the given red: written and read again, grey, as a colour of the library.
fn cube(ch: &mut Ch, r: u8) {
    for g in 0..=255u8 {
        for b in 0..=255u8 {
            let c = ColorValue::rgba(r, g, b, g ^ b);
            let want = 0.299 * r as f64 + 0.587 * g as f64 + 0.114 * b as f64;
            let y = c.grayscale();
            ch.check(y.r == y.g && y.g == y.b && y.a == c.a && near(y.r, want), "grayscale", || format!("{c:?} is {y:?}, expected {want}"));
            let (h, ha) = (c.to_hex(), c.to_hex_alpha());
            ch.check(h.len() == 6 && colour(&h) == Some(Some([r, g, b, 255])), "to_hex", || format!("{c:?}: {h}"));
            ch.check(ha.len() == 8 && colour(&ha) == Some(Some([r, g, b, c.a])), "to_hex_alpha", || format!("{c:?}: {ha}"));
            let back = ColorValue::from_hex(&ha);
            ch.check(back == c, "from_hex", || format!("{ha}: {back:?}"));
            let k = c.to_color();
            ch.check(k == Color::rgb(r, g, b) && rgb_of(&k) == [r, g, b], "to_color", || format!("{c:?}: {k:?}"));
            let h2 = RgbColor::new(r, g, b).to_hex();
            ch.check(h2 == h && RgbColor::from_hex(&h2.to_lowercase()) == Some(RgbColor::new(r, g, b)), "RgbColor::to_hex", || format!("{c:?}: {h2}"));
        }
        ch.steps(256);
        ch.state((r as u64) << 8 | g as u64);
    }
}
fn tables(ch: &mut Ch) {
    let cols = *ch.of(&[0usize, 1, 2, 3, 7, 13, 100, 1000]);
    let rows = *ch.of(&[0usize, 1, 2, 9]);
    let kind = ch.pick(6);
    let text: Vec<String> = (0..cols).map(|i| format!("h{i}")).collect();
    let head: Vec<&str> = text.iter().map(|s| s.as_str()).collect();
    let what = ["simple_table", "table_from_data", "table_with_header", "QuickTable", "table_from_data-widths", "table_from_string_rows"][kind];
    let t = total(ch, what, || format!("{what} of {rows} rows, {cols} columns"), || match kind {
        0 => helpers::simple_table(rows, cols).build(),
        1 => helpers::table_from_data(&vec![head.clone(); rows], None).build(),
        2 => helpers::table_with_header(&head, rows).build(),
        3 => (0..rows).fold(QuickTable::new(cols), |t, _| t.row(&head)).build(),
        4 => helpers::table_from_data(&vec![head.clone(); rows], Some(vec![0.5; cols])).build(),
        _ => ppt_rs::generator::table::table_from_string_rows(vec![text.clone(); rows], true),
    });
    let Some(t) = t else { return };
    let none = rows == 0 && matches!(kind, 1 | 4 | 5);
    let n = if none { t.column_widths.len() } else { cols };
    let w: u64 = t.column_widths.iter().map(|w| *w as u64).sum();
    ch.check(t.column_widths.len() == n, format!("{what}-columns"), || format!("{what} of {rows} x {cols}: {} columns", t.column_widths.len()));
    ch.check(t.rows.len() == rows + (kind == 2) as usize && t.rows.iter().all(|r| r.cells.len() == cols), format!("{what}-cells"), || format!("{what} of {rows} x {cols}: rows {:?}", t.rows.iter().map(|r| r.cells.len()).collect::<Vec<_>>()));
    let all = match kind {
        4 => 457200 * n as u64,
        5 => 8_000_000,
        _ => 9_144_000,
    };
    ch.check(n == 0 || (w <= all && all - w <= n as u64 && t.column_widths.iter().all(|w| *w == t.column_widths[0])), format!("{what}-widths"), || format!("{what} of {rows} x {cols}: widths {:?}", t.column_widths));
    ch.nontrivial((cols * 100 + rows * 10 + kind) as u64);
    ch.outcome(w);
    if cols <= 13 {
        // and a deck can hold it
        let b = total(ch, &format!("{what}-deck"), || format!("a deck with {what} of {rows} x {cols}"), || create_pptx_with_content("T", vec![SlideContent::new("a").table(t.clone())]));
        if let Some(Ok(b)) = b {
            let p = Pkg::from_bytes(&b);
            ch.check(p.is_ok(), format!("{what}-package"), || format!("{what} of {rows} x {cols}"));
        }
    }
}
const PX: [u32; 11] = [0, 1, 2, 3, 1080, 1920, 914400, 9144000, i32::MAX as u32, u32::MAX - 1, u32::MAX];
fn scaling(ch: &mut Ch) {
    let (w, h) = (*ch.of(&PX), *ch.of(&PX));
    ch.nontrivial(w as u64 * 7 + h as u64);
    for n in PX {
        ch.state(w as u64 ^ (h as u64) << 20 ^ (n as u64) << 40);
        let what = |f: &str| format!("{f} {n} of {w} x {h}");
        let mk = || Image::new("a.png", w, h, "PNG");
        let bd = || ImageBuilder::new("a.png", w, h);
        let dims = |i: Image| (i.width, i.height);
        let got = [
            total(ch, "scale_to_width", || what("scale_to_width"), || dims(mk().scale_to_width(n))),
            total(ch, "builder-scale_to_width", || what("builder's scale_to_width"), || dims(bd().scale_to_width(n).build())),
            total(ch, "scale_to_height", || what("scale_to_height"), || dims(mk().scale_to_height(n))),
            total(ch, "builder-scale_to_height", || what("builder's scale_to_height"), || dims(bd().scale_to_height(n).build())),
        ];
        for (i, g) in got.into_iter().enumerate() {
            let Some(g) = g else { continue };
            let name = ["scale_to_width", "builder-scale_to_width", "scale_to_height", "builder-scale_to_height"][i];
            let (kept, other, from, to) = if i < 2 { (g.0, g.1, w, h) } else { (g.1, g.0, h, w) };
            ch.check(kept == n, name, || format!("{name} {n} of {w} x {h}: {g:?}"));
            ch.outcome(other as u64);
            // (a picture without an extent has no shape to keep)
            if from != 0 && to != 0 {
                let want = n as f64 * to as f64 / from as f64;
                let ok = (other as f64 - want).abs() < 1.001 || want >= u32::MAX as f64 && other == u32::MAX;
                ch.check(ok, name, || format!("{name} {n} of {w} x {h}: {g:?}, expected {want}"));
            }
        }
    }
}
/// Headers of pictures of every format: the size read is the size written.
fn headers(ch: &mut Ch) {
    const D: [u32; 12] = [1, 2, 3, 127, 128, 255, 256, 257, 4095, 8191, 16383, 1];
    let kind = ch.pick(8);
    let (mut w, mut h) = (*ch.of(&D), *ch.of(&D));
    if matches!(kind, 0 | 2 | 3) {
        // sizes beyond 16 bits where the format has room for them
        let big = [65535, 65536, 450920, 450921, 0x7FFF_FFFF];
        w = if w < 4 { w } else { big[w as usize % 5] };
        h = if h < 4 { h } else { big[h as usize % 5] };
    }
    let (ew, eh) = (w.saturating_mul(9525), h.saturating_mul(9525));
    let cut = if kind >= 4 { ch.pick(4) } else { 0 };
    let (le, be) = (|v: u32| (v as u16).to_le_bytes(), |v: u32| (v as u16).to_be_bytes());
    let mut b = vec![];
    let fmt = match kind {
        0 => {
            b.extend(b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR");
            b.extend(w.to_be_bytes());
            b.extend(h.to_be_bytes());
            b.extend([8, 6, 0, 0, 0, 0, 0, 0, 0]);
            "PNG"
        }
        1 => {
            b.extend(b"GIF89a");
            b.extend(le(w));
            b.extend(le(h));
            b.extend([0xF0, 0, 0, 0, 0, 0]);
            "GIF"
        }
        2 => {
            b.extend(b"BM\x46\0\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0");
            b.extend(w.to_le_bytes());
            b.extend(h.to_le_bytes());
            b.extend([1, 0, 24, 0]);
            "BMP"
        }
        3 => {
            // rows from the top
            b.extend(b"BM\x46\0\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0");
            b.extend(w.to_le_bytes());
            b.extend((-(h as i32)).to_le_bytes());
            b.extend([1, 0, 24, 0]);
            "BMP"
        }
        4 => {
            // a JPEG file with other segments before the frame, some of which hold bytes like a frame's
            b.extend([0xFF, 0xD8, 0xFF, 0xE0, 0, 16]);
            b.extend(b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0");
            if cut & 1 == 1 {
                b.extend([0xFF, 0xE1, 0, 12, 0xFF, 0xC0, 0, 17, 8, 0, 9, 0, 9, 3]);
            }
            if cut & 2 == 2 {
                b.extend([0xFF, 0xDB, 0, 4, 1, 2]);
            }
            b.extend([0xFF, 0xC0, 0, 17, 8]);
            b.extend(be(h));
            b.extend(be(w));
            b.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
            "JPEG"
        }
        5 => {
            b.extend([0xFF, 0xD8]);
            for _ in 0..cut {
                b.extend([0xFF, 0xFE, 0, 5, b'a', b'b', b'c']);
            }
            b.extend([0xFF, 0xC2, 0, 17, 8]);
            b.extend(be(h));
            b.extend(be(w));
            b.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
            "JPEG"
        }
        6 => {
            b.extend(b"RIFF\x40\0\0\0WEBPVP8 \x30\0\0\0");
            b.extend([0x10, 0, 0, 0x9d, 1, 0x2a]);
            // the upper two bits are a scale
            b.extend(le(w & 0x3FFF | (cut as u32) << 14));
            b.extend(le(h & 0x3FFF | (cut as u32) << 14));
            "WEBP"
        }
        _ => {
            b.extend(b"RIFF\x40\0\0\0WEBPVP8L\x30\0\0\0\x2f");
            b.extend(((w - 1) | (h - 1) << 14 | (cut as u32) << 28).to_le_bytes());
            "WEBP"
        }
    };
    b.extend([0; 16]);
    let dir = scratch();
    let path = std::path::Path::new(&dir).join(format!("t04-{}.dat", ch.worker));
    std::fs::write(&path, &b).unwrap();
    let img = total(ch, "from_path", || format!("a {fmt} picture of {w} x {h}"), || Image::from_path(&path).map_err(|e| e.to_string()));
    if let Some(img) = img {
        match img {
            Ok(i) => ch.check((i.width, i.height) == (ew, eh) && i.format == fmt, format!("{fmt}-size"), || format!("a {fmt} picture (kind {kind}, {cut}) of {w} x {h} is read as {} {} x {}", i.format, i.width, i.height)),
            Err(e) => ch.check(false, format!("{fmt}-read"), || format!("a {fmt} picture (kind {kind}, {cut}) of {w} x {h}: {e}")),
        }
    }
    ch.state(hash_bytes(&b));
    ch.nontrivial(kind as u64);
    ch.outcome(hash_bytes(&b));
}
const PERCENTS: [u32; 6] = [101, 255, 1000, i32::MAX as u32, u32::MAX - 1, u32::MAX];
/// Percentages, angles and line widths as written.
fn written(ch: &mut Ch, k: u32) {
    let p = if k <= 100 { k } else { PERCENTS[k as usize - 101] };
    let alpha = (100 - p.min(100)) * 1000;
    ch.state(p as u64);
    let st = |f: fn(Shape, u32) -> Shape| f(Shape::new(ShapeType::Rectangle, 0, 0, 914400, 914400), p);
    let turn = p.wrapping_mul(7) % 1000;
    // what is written, element by element: (element, attribute, value)
    let cases: [(&str, fn(Shape, u32) -> Shape, &str, &str, u32); 4] = [
        ("fill", |s, p| s.with_fill(ShapeFill::new("112233").with_transparency(p)), "alpha", "val", alpha),
        ("stop", |s, p| s.with_gradient(ShapeGradientFill { stops: vec![ShapeGradientStop::new("112233", 30).with_transparency(p)], direction: ShapeGradientDirection::Angle(p) }), "alpha", "val", alpha),
        ("position", |s, p| s.with_gradient(ShapeGradientFill { stops: vec![ShapeGradientStop::new("112233", p)], direction: ShapeGradientDirection::Horizontal }), "gs", "pos", p.min(100) * 1000),
        ("angle", |s, p| s.with_gradient(ShapeGradientFill { stops: vec![ShapeGradientStop::new("112233", p)], direction: ShapeGradientDirection::Angle(p.wrapping_mul(7) % 1000) }), "lin", "ang", turn % 360 * 60000),
    ];
    for (n, f, el, at, want) in cases {
        let Some(b) = total(ch, n, || format!("{n} {p}"), || create_pptx_with_content("T", vec![SlideContent::new("a").add_shape(st(f))])) else { continue };
        let x = b.ok().and_then(|b| Pkg::from_bytes(&b).ok()).and_then(|p| p.doc("ppt/slides/slide1.xml").ok());
        let got: Vec<String> = x.iter().flat_map(|x| x.all(el)).filter_map(|e| e.attr(at).map(|s| s.to_string())).collect();
        // (an opaque colour may be written without saying so)
        let plain = el == "alpha" && want == 100_000 && got.is_empty();
        ch.check(plain || got == [want.to_string()], n, || format!("{n} {p}: {el} {at} is {got:?}, expected {want}"));
    }
    let g = total(ch, "gradient", || format!("gradient {p}"), || {
        use ppt_rs::generator::gradients::*;
        generate_gradient_fill_xml(&GradientFill::linear(GradientDirection::Custom(p)).add_stop(GradientStop::new(p, "#112233").with_transparency(p)))
    });
    if let Some(g) = g {
        let x = parse_str(&format!("<r xmlns:a=\"a\">{g}</r>"));
        for (el, at, want) in [("gs", "pos", p.min(100000)), ("alpha", "val", alpha), ("lin", "ang", p % 360 * 60000)] {
            let got: Vec<String> = x.iter().flat_map(|x| x.all(el)).filter_map(|e| e.attr(at).map(|s| s.to_string())).collect();
            ch.check(got == [want.to_string()], format!("gradient-{el}"), || format!("gradient {p}: {el} {at} is {got:?}, expected {want}"));
        }
    }
}
/// Rotation of a shape as written: the same angle.
fn turning(ch: &mut Ch, d: i32) {
    let s = Shape::new(ShapeType::Rectangle, 0, 0, 914400, 914400).with_rotation(d);
    ch.state(d as u32 as u64);
    let Some(b) = total(ch, "rotation", || format!("rotation {d}"), || create_pptx_with_content("T", vec![SlideContent::new("a").add_shape(s)])) else { return };
    let x = b.ok().and_then(|b| Pkg::from_bytes(&b).ok()).and_then(|p| p.doc("ppt/slides/slide1.xml").ok());
    let got = x.iter().flat_map(|x| x.all("xfrm")).find_map(|e| e.attr("rot")?.parse::<i64>().ok()).unwrap_or(0);
    ch.check((got - d as i64 * 60000).rem_euclid(21_600_000) == 0 && got.abs() <= i32::MAX as i64, "rotation", || format!("{d} degrees are written as {got}"));
}

pub fn prop() -> Prop {
    Prop {
        id: "T04",
        level: "exploration",
        rule: "every helper is called with every input of the stated sets; its result equals the exact value within one unit (within the type's range), and no call panics",
        assumptions: &["overflow checks are on, so wrapping around is a panic", "rounding of either kind is accepted; the bounds of amounts (0, 1) must be exact", "what a colour that is not hexadecimal becomes is left open where the function has no way to refuse it", "bounds as stated per scenario; nothing is claimed beyond them"],
        scenarios: |t| {
            let q = t == Tier::Quick;
            let blocks = if q { 40 } else { 2000 };
            vec![
                Scenario::new("units", format!("22 conversions of lengths and angles x the boundaries of each type and all multiples of 1/1 to 1/12700 up to {}", blocks * 400), 0, move |ch| {
                    let b = ch.pick(blocks + 1);
                    units(ch, b);
                    ch.nontrivial(b as u64);
                    ch.outcome(b as u64);
                    Ok(())
                }),
                Scenario::new("ratios", "fractions of the slide: the boundaries and every 1/2000, of 11 reference sizes; which axis refers to which side", 0, |ch| {
                    let b = ch.pick(11);
                    ratios(ch, b);
                    ch.nontrivial(b as u64);
                    ch.outcome(b as u64);
                    Ok(())
                }),
                Scenario::new("placing", "centring, stacking, distributing and grids: 14 sizes x 14 spacings x 8 counts", 0, |ch| {
                    placing(ch);
                    Ok(())
                }),
                Scenario::new("hexes", format!("all texts of up to 6{} characters over an alphabet of 10, of 7 and 8 over its first {}", if q { "" } else { " (and 7)" }, if q { 6 } else { 8 }), 0, move |ch| {
                    let a = ALPHABET;
                    let len = ch.pick(9);
                    let k = if len <= 6 || !q && len == 7 { 10 } else if q { 6 } else { 8 };
                    let (fixed, free) = if len > 3 { (3, len - 3) } else { (0, len) };
                    let pre: String = (0..fixed).map(|_| a[ch.pick(k)]).collect();
                    for i in 0..(k as u64).pow(free as u32) {
                        let (mut s, mut i) = (pre.clone(), i);
                        for _ in 0..free {
                            s.push_str(a[(i % k as u64) as usize]);
                            i /= k as u64;
                        }
                        hexes(ch, &s);
                    }
                    ch.state(hash_str(&pre) ^ len as u64);
                    ch.nontrivial(hash_str(&pre) ^ len as u64);
                    ch.outcome(hash_str(&pre));
                    Ok(())
                }),
                Scenario::new("fills", "shapes with text filled with every text of up to 4 characters over an alphabet of 10, then 0 to 3 more", 0, move |ch| {
                    let len = ch.pick(5);
                    let mut s: String = (0..len).map(|_| ALPHABET[ch.pick(if q && len == 4 { 8 } else { 10 })]).collect();
                    s.push_str(["", "0", "0F", "é9"][ch.pick(4)]);
                    fills(ch, &s);
                    ch.state(hash_str(&s));
                    ch.nontrivial(hash_str(&s));
                    ch.outcome(hash_str(&s));
                    Ok(())
                }),
                Scenario::new("contrast", "shapes with text filled with every colour whose channels are multiples of 17 or 1 beside", 0, move |ch| {
                    let step: Vec<u8> = if q { (0..=15).map(|k| k * 17).collect() } else { (0..=50).map(|k| k * 5).chain([1, 127, 128, 129, 254]).collect() };
                    let s = format!("{:02x}{:02X}{:02X}", ch.of(&step), ch.of(&step), ch.of(&step));
                    fills(ch, &s);
                    ch.state(hash_str(&s));
                    ch.nontrivial(hash_str(&s));
                    ch.outcome(hash_str(&s));
                    Ok(())
                }),
                Scenario::new("adjust", "lighter, darker, mix and opacity: all 65536 pairs of channel values x 31 amounts; transparency and inversion", 0, |ch| {
                    let b = ch.pick(256);
                    adjust(ch, b as u8);
                    ch.nontrivial(b as u64);
                    ch.outcome(b as u64);
                    Ok(())
                }),
                Scenario::new("cube", "all 16777216 colours: grey, written and read again", 0, |ch| {
                    let b = ch.pick(256);
                    cube(ch, b as u8);
                    ch.nontrivial(b as u64);
                    ch.outcome(b as u64);
                    Ok(())
                }),
                Scenario::new("tables", "6 ways to make a table x 8 numbers of columns x 4 of rows, none included", 0, |ch| {
                    tables(ch);
                    Ok(())
                }),
                Scenario::new("scaling", "pictures of 11 x 11 sizes scaled to 11 widths and heights", 0, |ch| {
                    scaling(ch);
                    Ok(())
                }),
                Scenario::new("headers", "headers of PNG, GIF, BMP, JPEG and WebP pictures x 12 x 12 sizes x what precedes the size; at 96 pixels to the inch", 0, |ch| {
                    headers(ch);
                    Ok(())
                }),
                Scenario::new("written", "all percentages (and beyond) as transparency, position and angle of fills, as written", 0, |ch| {
                    let k = ch.pick(101 + PERCENTS.len());
                    written(ch, k as u32);
                    ch.nontrivial(k as u64);
                    ch.outcome(k as u64);
                    Ok(())
                }),
                Scenario::new("turning", "all rotations from -1080 to 1080 degrees and the boundaries, as written", 0, |ch| {
                    let k = ch.pick(2165) as i32;
                    let d = if k <= 2160 { k - 1080 } else { [i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1][k as usize - 2161] };
                    turning(ch, d);
                    ch.nontrivial(k as u64);
                    ch.outcome(k as u64);
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
