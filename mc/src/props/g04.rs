use super::*;
use crate::pkg::{self, Pkg};
use crate::xml::Elem;
use ppt_rs::generator::*;

pub const KINDS: &[ChartType] = &[
    ChartType::Bar,
    ChartType::BarHorizontal,
    ChartType::BarStacked,
    ChartType::BarStacked100,
    ChartType::Line,
    ChartType::LineMarkers,
    ChartType::LineStacked,
    ChartType::Pie,
    ChartType::Doughnut,
    ChartType::Area,
    ChartType::AreaStacked,
    ChartType::AreaStacked100,
    ChartType::Scatter,
    ChartType::ScatterLines,
    ChartType::ScatterSmooth,
    ChartType::Bubble,
    ChartType::Radar,
    ChartType::RadarFilled,
    ChartType::StockHLC,
    ChartType::StockOHLC,
    ChartType::Combo,
];
const VALUES: &[f64] = &[1.0, -2.5, 0.0, 1e300, 1e-9, 123456789.125, -0.1, f64::MAX];
const LABELS: &[&str] = &["Q1", "A & B", "", " <x> ", "ä漢"];

fn first_text(e: &Elem) -> String {
    let v = e.all("v");
    if let Some(x) = v.first() {
        return x.text();
    }
    e.all("t").into_iter().map(|x| x.text()).collect()
}
/// (index, text) of the points of a cache, with ptCount.
fn cache(e: &Elem) -> (Option<usize>, Vec<(usize, String)>) {
    let n = e.all("ptCount").first().and_then(|x| x.attr("val")).and_then(|v| v.parse().ok());
    let p = e
        .all("pt")
        .into_iter()
        .map(|p| (p.attr("idx").and_then(|v| v.parse().ok()).unwrap_or(usize::MAX), p.child("v").map(|v| v.text()).unwrap_or_default()))
        .collect();
    (n, p)
}
/// "Sheet1!$B$2:$B$4" -> (B, 2, B, 4)
fn range(f: &str) -> Option<(String, u32, String, u32)> {
    let (_, r) = f.rsplit_once('!')?;
    let (a, b) = r.split_once(':').unwrap_or((r, r));
    let cell = |s: &str| -> Option<(String, u32)> {
        let s = s.replace('$', "");
        let c: String = s.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
        Some((c.clone(), s[c.len()..].parse().ok()?))
    };
    let (c1, r1) = cell(a)?;
    let (c2, r2) = cell(b)?;
    Some((c1, r1, c2, r2))
}
fn groups(k: ChartType) -> &'static [&'static str] {
    use ChartType::*;
    match k {
        Bar | BarHorizontal | BarStacked | BarStacked100 => &["barChart"],
        Line | LineMarkers | LineStacked => &["lineChart"],
        Pie => &["pieChart"],
        Doughnut => &["doughnutChart"],
        Area | AreaStacked | AreaStacked100 => &["areaChart"],
        Scatter | ScatterLines | ScatterSmooth => &["scatterChart"],
        Bubble => &["bubbleChart"],
        Radar | RadarFilled => &["radarChart"],
        StockHLC | StockOHLC => &["stockChart"],
        Combo => &["barChart", "lineChart"],
    }
}
/// Settings of the group that the requested kind fixes: (element, value).
fn fixed(k: ChartType) -> &'static [(&'static str, &'static str)] {
    use ChartType::*;
    match k {
        Bar => &[("barDir", "col"), ("grouping", "clustered")],
        BarHorizontal => &[("barDir", "bar"), ("grouping", "clustered")],
        BarStacked => &[("barDir", "col"), ("grouping", "stacked")],
        BarStacked100 => &[("barDir", "col"), ("grouping", "percentStacked")],
        Line | LineMarkers | Area => &[("grouping", "standard")],
        LineStacked | AreaStacked => &[("grouping", "stacked")],
        AreaStacked100 => &[("grouping", "percentStacked")],
        RadarFilled => &[("radarStyle", "filled")],
        ScatterSmooth => &[("scatterStyle", "smoothMarker")],
        _ => &[],
    }
}

pub fn check_chart(root: &Elem, c: &Chart) -> Vec<Fail> {
    let mut out = vec![];
    let k = format!("{:?}", c.chart_type);
    let mut bad = |s: &str, m: String| out.push(Fail { sig: format!("{k}:{s}"), msg: m });
    let pie = matches!(c.chart_type, ChartType::Pie | ChartType::Doughnut);
    let xy = matches!(c.chart_type, ChartType::Scatter | ChartType::ScatterLines | ChartType::ScatterSmooth | ChartType::Bubble);
    let title: String = root.path(&["chart", "title"]).map(|t| t.all("t").into_iter().map(|x| x.text()).collect()).unwrap_or_default();
    if title != c.title {
        bad("title", format!("title {title:?}, wanted {:?}", c.title));
    }
    let Some(plot) = root.path(&["chart", "plotArea"]) else {
        bad("no-plot", "no plot area".into());
        return out;
    };
    let gs: Vec<&Elem> = plot.elems().filter(|e| e.local.ends_with("Chart")).collect();
    let names: Vec<&str> = gs.iter().map(|g| &*g.local).collect();
    let want = groups(c.chart_type);
    if !(names == want || (c.series.len() < 2 && names == want[..1])) {
        bad("group", format!("groups {names:?}, wanted {want:?}"));
    }
    for (e, v) in fixed(c.chart_type) {
        let got = gs.first().and_then(|g| g.child(e)).and_then(|x| x.attr("val"));
        if got != Some(v) {
            bad(e, format!("{e} is {got:?}, wanted {v}"));
        }
    }
    // axes
    let axes: Vec<&Elem> = plot.elems().filter(|e| matches!(&*e.local, "catAx" | "valAx" | "serAx" | "dateAx")).collect();
    let id = |e: &Elem, n: &str| e.child(n).and_then(|x| x.attr("val")).unwrap_or("").to_string();
    let ids: Vec<String> = axes.iter().map(|a| id(a, "axId")).collect();
    for (i, a) in axes.iter().enumerate() {
        if ids[..i].contains(&ids[i]) {
            bad("axis-id", format!("axis id {} twice", ids[i]));
        }
        let x = id(a, "crossAx");
        if x == ids[i] || !ids.contains(&x) {
            bad("axis-cross", format!("axis {} crosses {x:?}", ids[i]));
        }
    }
    for g in &gs {
        let refs: Vec<String> = g.children("axId").filter_map(|x| x.attr("val").map(|s| s.to_string())).collect();
        if !pie && (refs.len() != 2 || refs.iter().any(|r| !ids.contains(r))) {
            bad("axis-ref", format!("{} refers to axes {refs:?} of {ids:?}", g.local));
        }
    }
    // series
    let sers: Vec<&Elem> = gs.iter().flat_map(|g| g.children("ser")).collect();
    let wanted: Vec<&ChartSeries> = if pie { c.series.iter().take(1).collect() } else { c.series.iter().collect() };
    if sers.len() != wanted.len() {
        bad("series-count", format!("{} series, wanted {}", sers.len(), wanted.len()));
        return out;
    }
    let mut value_ranges: Vec<String> = vec![];
    for (i, (e, s)) in sers.iter().zip(&wanted).enumerate() {
        for tag in ["idx", "order"] {
            if id(e, tag) != i.to_string() {
                bad(tag, format!("series {i} has {tag} {:?}", id(e, tag)));
            }
        }
        let name = e.child("tx").map(first_text).unwrap_or_default();
        if name != s.name {
            bad("series-name", format!("series {i} is named {name:?}, wanted {:?}", s.name));
        }
        let Some(v) = e.child(if xy { "yVal" } else { "val" }) else {
            bad("no-values", format!("series {i} has no values"));
            continue;
        };
        let (n, pts) = cache(v);
        if n != Some(s.values.len()) {
            bad("value-count", format!("series {i} announces {n:?} points, wanted {}", s.values.len()));
        }
        let got: Vec<(usize, Option<u64>)> = pts.iter().map(|(i, t)| (*i, t.parse::<f64>().ok().map(|x| x.to_bits()))).collect();
        let exp: Vec<(usize, Option<u64>)> = s.values.iter().enumerate().map(|(i, x)| (i, Some(x.to_bits()))).collect();
        if got != exp {
            bad("values", format!("series {i} has points {pts:?}, wanted {:?}", s.values));
        }
        if !s.values.is_empty() {
            let f = v.all("f").first().map(|f| f.text()).unwrap_or_default();
            match range(&f) {
                Some((a, r1, b, r2)) if a == b && (r2 + 1 - r1) as usize == s.values.len() => {}
                _ => bad("value-range", format!("series {i} of {} values refers to {f}", s.values.len())),
            }
            if value_ranges.contains(&f) {
                bad("value-range-shared", format!("two series refer to {f}"));
            }
            value_ranges.push(f);
        }
        if xy {
            let (n, pts) = e.child("xVal").map(cache).unwrap_or((None, vec![]));
            let ok = pts.iter().enumerate().all(|(i, p)| p.0 == i && p.1.parse::<f64>().is_ok());
            if n != Some(s.values.len()) || pts.len() != s.values.len() || !ok {
                bad("x-values", format!("series {i} has x values {pts:?} ({n:?})"));
            }
            if c.chart_type == ChartType::Bubble {
                let (n, pts) = e.child("bubbleSize").map(cache).unwrap_or((None, vec![]));
                if n != Some(s.values.len()) || pts.len() != s.values.len() || pts.iter().enumerate().any(|(i, p)| p.0 != i) {
                    bad("sizes", format!("series {i} has sizes {pts:?} ({n:?})"));
                }
            }
        } else if !c.categories.is_empty() {
            let (n, pts) = e.child("cat").map(cache).unwrap_or((None, vec![]));
            let exp: Vec<(usize, String)> = c.categories.iter().cloned().enumerate().collect();
            if pts != exp || n != Some(exp.len()) {
                bad("categories", format!("series {i} has categories {pts:?} ({n:?}), wanted {exp:?}"));
            }
            let f = e.child("cat").and_then(|x| x.all("f").first().map(|f| f.text())).unwrap_or_default();
            match range(&f) {
                Some((a, r1, b, r2)) if a == b && (r2 + 1 - r1) as usize == exp.len() => {}
                _ => bad("category-range", format!("{} categories refer to {f}", exp.len())),
            }
        }
    }
    out
}
/// Chart frames of a slide in order: (x, y, cx, cy, chart part).
pub fn frames(p: &Pkg, slide: &str) -> Vec<(String, String, String, String, String)> {
    let rels = p.rels(slide);
    p.with_doc(slide, |e| {
        e.all("graphicFrame")
            .into_iter()
            .filter_map(|g| {
                let c = g.all("chart");
                let rid = c.first()?.attr_ns(crate::xml::NS_R, "id")?.to_string();
                let part = rels.iter().find(|r| r.id == rid).map(|r| r.part.clone()).unwrap_or_default();
                let off = g.path(&["xfrm", "off"])?;
                let ext = g.path(&["xfrm", "ext"])?;
                let a = |e: &Elem, n: &str| e.attr(n).unwrap_or("").to_string();
                Some((a(off, "x"), a(off, "y"), a(ext, "cx"), a(ext, "cy"), part))
            })
            .collect()
    })
    .unwrap_or_default()
}
fn check_deck(ch: &mut Ch, slides: &[Vec<Chart>], p: &Pkg) {
    let names = p.slides();
    ch.check(names.len() == slides.len(), "slides", || format!("{names:?}"));
    let mut seen: Vec<String> = vec![];
    for (n, cs) in names.iter().zip(slides) {
        let fr = frames(p, n);
        ch.check(fr.len() == cs.len(), "frame-count", || format!("{n} has {} chart frames, wanted {}", fr.len(), cs.len()));
        for (f, c) in fr.iter().zip(cs) {
            let want = (c.x.to_string(), c.y.to_string(), c.width.to_string(), c.height.to_string());
            ch.check((f.0.clone(), f.1.clone(), f.2.clone(), f.3.clone()) == want, "frame-place", || format!("{f:?}, wanted {want:?}"));
            ch.check(!seen.contains(&f.4), "shared-part", || format!("{} used by two charts", f.4));
            seen.push(f.4.clone());
            match p.with_doc(&f.4, |e| check_chart(e, c)) {
                Ok(fs) => ch.report_all(fs),
                Err(e) => ch.report(Fail { sig: "chart-part".into(), msg: format!("{}: {e}", f.4) }),
            }
            let wb = p.rel_of_type(&f.4, "package");
            ch.check(wb.len() == 1 && p.get(&wb[0].part).is_some_and(|b| b.starts_with(b"PK")), "workbook", || format!("{} has workbooks {wb:?}", f.4));
            ch.step();
        }
    }
}
fn deck(slides: &[Vec<Chart>]) -> Vec<SlideContent> {
    slides
        .iter()
        .enumerate()
        .map(|(i, cs)| cs.iter().fold(SlideContent::new(&format!("S{i}")), |s, c| s.add_chart(c.clone())))
        .collect()
}

pub fn prop() -> Prop {
    Prop {
        id: "G04",
        level: "exploration",
        rule: "every chart kind x series counts x point counts x category counts x value and label alphabets, generated in a deck and read back from the chart part by an independent parser: series, names, values by index, categories, references, kind, direction, grouping, axes, frame and workbook link",
        assumptions: STD,
        scenarios: |t| {
            let maxs = if t == Tier::Quick { 3 } else { 4 };
            let maxp = if t == Tier::Quick { 3 } else { 5 };
            vec![
                Scenario::new("shapes", format!("21 kinds x 0..{maxs} series x 0..{maxp} points per series (ragged) x 0..{maxp} categories"), 0, move |ch| {
                    let k = *ch.of(KINDS);
                    let ns = ch.pick(maxs + 1);
                    let nc = ch.pick(maxp + 1);
                    let mut c = Chart::new("C & 1", k, (0..nc).map(|i| format!("cat {i}")).collect(), 11, 22, 333, 444);
                    for i in 0..ns {
                        let np = ch.pick(maxp + 1);
                        c = c.add_series(ChartSeries::new(&format!("ser {i}"), (0..np).map(|j| (i * 10 + j) as f64 + 0.5).collect()));
                    }
                    ch.note(|| format!("{k:?} {ns} series {nc} categories"));
                    let sl = vec![vec![c]];
                    let p = pkg_of(&bytes_of(create_pptx_with_content("D", deck(&sl)), "chart deck")?)?;
                    check_deck(ch, &sl, &p);
                    ch.nontrivial(hash_str(&format!("{:?}", sl)));
                    Ok(())
                }),
                Scenario::new("values", "21 kinds x all triples of 8 values in one series + rotated second series; all pairs of labels as categories and names", 0, |ch| {
                    let k = *ch.of(KINDS);
                    let idx: Vec<usize> = (0..3).map(|_| ch.pick(VALUES.len())).collect();
                    let v: Vec<f64> = idx.iter().map(|i| VALUES[*i]).collect();
                    let w: Vec<f64> = idx.iter().map(|i| VALUES[(*i + 3) % VALUES.len()]).collect();
                    let (a, b) = (LABELS[idx[0] % LABELS.len()], LABELS[idx[1] % LABELS.len()]);
                    let c = ChartBuilder::new(a, k).categories(vec![a, b, a]).add_series(ChartSeries::new(b, v)).add_series(ChartSeries::new(a, w)).position(1, 2).size(3, 4).build();
                    ch.note(|| format!("{c:?}"));
                    let sl = vec![vec![c]];
                    let p = pkg_of(&bytes_of(create_pptx_with_content("D", deck(&sl)), "chart deck")?)?;
                    check_deck(ch, &sl, &p);
                    ch.nontrivial(hash_str(&format!("{:?}", sl)));
                    Ok(())
                }),
                Scenario::new("many", "0..2 charts of 2 kinds on each of 1..3 slides, with notes, pictures or ink on the same slides; in memory and lazy", 0, |ch| {
                    let n = 1 + ch.pick(3);
                    let mut sl: Vec<Vec<Chart>> = vec![];
                    let mut content = vec![];
                    let mut tag = 0;
                    for i in 0..n {
                        let m = ch.pick(3);
                        let mut cs = vec![];
                        for _ in 0..m {
                            tag += 1;
                            let k = if ch.pick(2) == 0 { ChartType::BarStacked } else { ChartType::Pie };
                            cs.push(Chart::new(&format!("chart {tag}"), k, vec!["a".into(), format!("b{tag}")], tag, tag + 1, tag + 2, tag + 3).add_series(ChartSeries::new(&format!("s{tag}"), vec![tag as f64, 2.0])));
                        }
                        let mut s = cs.iter().fold(SlideContent::new(&format!("S{i}")), |s, c| s.add_chart(c.clone()));
                        s = match ch.pick(4) {
                            1 => s.notes("note"),
                            2 => s.add_image(Image::from_bytes(crate::decks::png(i as u8), 1, 1, "PNG")),
                            3 => s.with_ink(crate::decks::ink()),
                            _ => s,
                        };
                        content.push(s);
                        sl.push(cs);
                    }
                    ch.note(|| format!("{:?}", sl.iter().map(|c| c.len()).collect::<Vec<_>>()));
                    let p = pkg_of(&bytes_of(create_pptx_with_content("D", content.clone()), "chart deck")?)?;
                    check_deck(ch, &sl, &p);
                    let (_, fs) = pkg::check(&p);
                    ch.report_all(fs);
                    let l = create_pptx_lazy_to_writer(std::io::Cursor::new(vec![]), "D", Box::new(super::g05::Plain(content)), None).map(|c| c.into_inner());
                    let p = pkg_of(&bytes_of(l, "lazy chart deck")?)?;
                    check_deck(ch, &sl, &p);
                    ch.nontrivial(hash_str(&format!("{:?}", ch.path)));
                    Ok(())
                }),
                Scenario::new("wide", "21 kinds x 25..30 series (columns past Z)", 0, |ch| {
                    let k = *ch.of(KINDS);
                    let n = 25 + ch.pick(6);
                    let mut c = Chart::new("W", k, vec!["a".into()], 0, 0, 1, 1);
                    for i in 0..n {
                        c = c.add_series(ChartSeries::new(&format!("s{i}"), vec![i as f64]));
                    }
                    let sl = vec![vec![c]];
                    let p = pkg_of(&bytes_of(create_pptx_with_content("D", deck(&sl)), "chart deck")?)?;
                    check_deck(ch, &sl, &p);
                    ch.nontrivial(hash_str(&format!("{k:?}{n}")));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
