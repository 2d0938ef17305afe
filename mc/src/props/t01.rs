use super::*;
use ppt_rs::generator::*;

type Reg = (usize, usize, usize, usize);
fn covers(r: &Reg, i: usize, j: usize) -> bool {
    i >= r.0 && i - r.0 < r.2 && j >= r.1 && j - r.1 < r.3
}
/// What a request must do to a grid of the given size with the given accepted regions.
fn acceptable(rows: usize, cols: usize, have: &[Reg], r: &Reg) -> bool {
    let inside = r.2 > 0 && r.3 > 0 && r.0.checked_add(r.2).is_some_and(|e| e <= rows) && r.1.checked_add(r.3).is_some_and(|e| e <= cols);
    inside && (0..rows).all(|i| (0..cols).all(|j| !(covers(r, i, j) && have.iter().any(|h| covers(h, i, j)))))
}
fn want_state(have: &[Reg], i: usize, j: usize) -> CellMergeState {
    match have.iter().find(|r| covers(r, i, j)) {
        None => CellMergeState::Normal,
        Some(r) if (r.0, r.1) == (i, j) => CellMergeState::Anchor { row_span: r.2, col_span: r.3 },
        Some(r) if r.0 == i => CellMergeState::HMerge,
        Some(_) => CellMergeState::VMerge,
    }
}
fn check_map(m: &TableMergeMap, rows: usize, cols: usize, have: &[Reg]) -> Vec<Fail> {
    let mut out = vec![];
    let mut bad = |s: &str, t: String| out.push(Fail { sig: s.into(), msg: t });
    for i in 0..rows + 1 {
        for j in 0..cols + 1 {
            let (g, w) = (m.cell_state(i, j), want_state(have, i, j));
            if g != w {
                bad("cell-state", format!("{rows}x{cols} {have:?}: cell ({i},{j}) is {g:?}, wanted {w:?}"));
            }
            if g.is_merged_away() != matches!(w, CellMergeState::HMerge | CellMergeState::VMerge) {
                bad("merged-away", format!("{have:?}: cell ({i},{j})"));
            }
            let x = g.to_xml_attrs();
            let e = crate::xml::parse_str(&format!("<tc{x}/>"));
            match (e, &w) {
                (Ok(e), CellMergeState::Anchor { row_span, col_span }) => {
                    let n = |k: &str| e.attr(k).map_or(Some(1), |v| v.parse::<usize>().ok());
                    if n("gridSpan") != Some(*col_span) || n("rowSpan") != Some(*row_span) || e.attr("hMerge").is_some() || e.attr("vMerge").is_some() {
                        bad("attrs-anchor", format!("{have:?}: ({i},{j}) writes {x:?}"));
                    }
                }
                (Ok(e), w) => {
                    let f = |k: &str| matches!(e.attr(k), Some("1") | Some("true"));
                    if f("hMerge") != (*w == CellMergeState::HMerge) || f("vMerge") != (*w == CellMergeState::VMerge) || e.attr("gridSpan").is_some() || e.attr("rowSpan").is_some() {
                        bad("attrs", format!("{have:?}: ({i},{j}) writes {x:?}"));
                    }
                }
                (Err(e), _) => bad("attrs-malformed", format!("{x:?}: {e}")),
            }
        }
    }
    let got: Vec<Reg> = m.regions().iter().map(|r| (r.row, r.col, r.row_span, r.col_span)).collect();
    let (mut a, mut b) = (got.clone(), have.to_vec());
    a.sort();
    b.sort();
    if a != b || m.len() != have.len() || m.is_empty() != have.is_empty() || m.dimensions() != (rows, cols) {
        bad("regions", format!("regions {got:?}, wanted {have:?}"));
    }
    out
}

pub fn prop() -> Prop {
    Prop {
        id: "T01",
        level: "model_checking",
        rule: "every sequence of merge requests (all regions in and just outside the grid, plus extreme numbers) replayed on the real merge map and a reference grid; states are the sets of accepted regions; the markup of a generated table is read back for every sequence",
        assumptions: STD,
        scenarios: |t| {
            let (g, depth) = if t == Tier::Quick { (3, 3) } else { (4, 3) };
            vec![
                Scenario::new("requests", format!("grids 1x1..{g}x{g}, all sequences of {depth} requests over regions with start 0..n and span 0..n+1"), 0, move |ch| {
                    let rows = 1 + ch.pick(g);
                    let cols = 1 + ch.pick(g);
                    let mut m = TableMergeMap::new(rows, cols);
                    let mut have: Vec<Reg> = vec![];
                    for k in 0..depth {
                        // thorough: full alphabet everywhere; quick: zero spans only first
                        let lo = if k == 0 { 0 } else { 1 };
                        let r = (ch.pick(rows + if k == 0 { 1 } else { 0 }), ch.pick(cols), lo + ch.pick(rows + 2 - lo), lo + ch.pick(cols + 2 - lo));
                        let ok = acceptable(rows, cols, &have, &r);
                        let got = m.merge_cells(r.0, r.1, r.2, r.3);
                        ch.check(got.is_ok() == ok, "accept", || format!("{rows}x{cols} with {have:?}: request {r:?} gave {got:?}"));
                        if got.is_ok() {
                            have.push(r);
                        }
                        ch.step();
                        let mut s = have.clone();
                        s.sort();
                        ch.state(hash_str(&format!("{rows}x{cols}{s:?}")));
                    }
                    ch.report_all(check_map(&m, rows, cols, &have));
                    ch.nontrivial(hash_str(&format!("{rows}x{cols}{have:?}")));
                    ch.note(|| format!("{rows}x{cols} {have:?}"));
                    Ok(())
                }),
                Scenario::new("extremes", "2x2 grid, all requests over {0,1,2,usize::MAX-1,usize::MAX}^4 after 0..1 accepted regions", 0, |ch| {
                    const N: &[usize] = &[0, 1, 2, usize::MAX - 1, usize::MAX];
                    let mut m = TableMergeMap::new(2, 2);
                    let mut have = vec![];
                    if ch.pick(2) == 1 {
                        m.merge_cells(0, 0, 1, 2).map_err(|e| Fail { sig: "accept".into(), msg: e })?;
                        have.push((0, 0, 1, 2));
                    }
                    let r = (*ch.of(N), *ch.of(N), *ch.of(N), *ch.of(N));
                    let ok = acceptable(2, 2, &have, &r);
                    let got = m.merge_cells(r.0, r.1, r.2, r.3);
                    ch.check(got.is_ok() == ok, "accept-extreme", || format!("2x2 with {have:?}: request {r:?} gave {got:?}"));
                    if got.is_ok() {
                        have.push(r);
                    }
                    ch.report_all(check_map(&m, 2, 2, &have));
                    ch.nontrivial(hash_str(&format!("{have:?}{r:?}")));
                    Ok(())
                }),
                Scenario::new("markup", "tables of 1x1..3x3 with every sequence of up to 2 accepted regions applied to the cells, generated and read back", 0, |ch| {
                    let rows = 1 + ch.pick(3);
                    let cols = 1 + ch.pick(3);
                    let mut m = TableMergeMap::new(rows, cols);
                    let mut have: Vec<Reg> = vec![];
                    for _ in 0..2 {
                        let r = (ch.pick(rows), ch.pick(cols), 1 + ch.pick(rows), 1 + ch.pick(cols));
                        if m.merge_cells(r.0, r.1, r.2, r.3).is_ok() {
                            have.push(r);
                        }
                    }
                    let mut tb = TableBuilder::new(vec![1000; cols]);
                    for i in 0..rows {
                        let mut cells = vec![];
                        for j in 0..cols {
                            let c = TableCell::new(&format!("{i}.{j}"));
                            cells.push(match m.cell_state(i, j) {
                                CellMergeState::Normal => c,
                                CellMergeState::Anchor { row_span, col_span } => c.grid_span(col_span as u32).row_span(row_span as u32),
                                CellMergeState::HMerge => c.h_merge(),
                                CellMergeState::VMerge => c.v_merge(),
                            });
                        }
                        tb = tb.add_row(TableRow::new(cells));
                    }
                    let b = bytes_of(create_pptx_with_content("D", vec![SlideContent::new("T").table(tb.build())]), "table")?;
                    let p = pkg_of(&b)?;
                    let s = p.slides().first().cloned().unwrap_or_default();
                    let d = p.doc(&s).map_err(|e| Fail { sig: "slide".into(), msg: e })?;
                    let trs = d.all("tr");
                    ch.check(trs.len() == rows, "rows", || format!("{} rows, wanted {rows}", trs.len()));
                    for (i, tr) in trs.iter().enumerate() {
                        let tcs: Vec<_> = tr.children("tc").collect();
                        ch.check(tcs.len() == cols, "cols", || format!("{have:?}: row {i} has {} cells, wanted {cols}", tcs.len()));
                        for (j, tc) in tcs.iter().enumerate() {
                            let w = want_state(&have, i, j);
                            let n = |k: &str| tc.attr(k).map_or(Some(1usize), |v| v.parse().ok());
                            let f = |k: &str| matches!(tc.attr(k), Some("1") | Some("true"));
                            let (rs, cs) = if let CellMergeState::Anchor { row_span, col_span } = w { (row_span, col_span) } else { (1, 1) };
                            let ok = n("gridSpan") == Some(cs) && n("rowSpan") == Some(rs) && f("hMerge") == (w == CellMergeState::HMerge) && f("vMerge") == (w == CellMergeState::VMerge);
                            ch.check(ok, "cell-markup", || format!("{have:?}: cell ({i},{j}) should be {w:?}, markup {:?}", tc.canon().chars().take(80).collect::<String>()));
                            let text = tc.deep_text();
                            if !w.is_merged_away() {
                                ch.check(text == format!("{i}.{j}"), "cell-text", || format!("cell ({i},{j}) shows {text:?}"));
                            }
                        }
                    }
                    ch.step();
                    ch.nontrivial(hash_str(&format!("{rows}{cols}{have:?}")));
                    Ok(())
                }),
            ]
        },
        must_cover: || vec![],
    }
}
