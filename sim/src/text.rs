//! Oracle for the printed / exported table: parses the text back and compares it with the book.
use crate::chart::*;
use crate::model::*;
use chrono::{Datelike, NaiveDate as NDt};
use financelib::Period;

fn ym(d: &NDt) -> String {
    format!("{}-{:02}", d.year(), d.month())
}
struct Section<'a> {
    title: &'static str,
    kind: usize,
    /// statement of each column, if the book has it
    cols: Vec<Option<&'a Stmt>>,
    rates: Vec<Option<&'a Stmt>>,
    heads: Vec<(&'static str, Vec<String>)>,
}
fn cell_ok(c: &str, v: f64, mult: f64) -> bool {
    let maybe_pct = v > 0.0001 - 1e-12 && v < 1.0 + 1e-12;
    let must_pct = v > 0.0001 + 1e-12 && v < 1.0 - 1e-12;
    if let Some(p) = c.strip_suffix('%') {
        return maybe_pct && p.trim().parse::<f64>().is_ok_and(|x| (x - v * 100.0).abs() <= 0.0501);
    }
    if must_pct {
        return false;
    }
    c.parse::<f64>().is_ok_and(|x| (x - v / mult).abs() <= 0.5 + 1e-6 + 1e-12 * (v / mult).abs())
}
/// Checks the whole table; returns the stated scale.
pub fn check(text: &str, sep: &str, b: &Book) -> Result<f64, String> {
    let ann: Vec<Period> = b.pl.keys().filter(|p| is_annual(p)).cloned().collect();
    let qtr: Vec<Period> = b.pl.keys().filter(|p| !is_annual(p)).cloned().collect();
    let mk = |title, kind: usize, ps: &[Period]| {
        let src = if kind == 1 { &b.pl } else { &b.cf };
        Section {
            title,
            kind,
            cols: ps.iter().map(|p| src.get(p)).collect(),
            rates: ps.iter().map(|p| b.oth.get(p)).collect(),
            heads: vec![("Begin Date", ps.iter().map(|p| ym(&p.0)).collect()), ("End Date", ps.iter().map(|p| ym(&p.1)).collect())],
        }
    };
    let mut secs = vec![
        Section { title: "BALANCE SHEETS", kind: 0, cols: b.bs.values().map(Some).collect(), rates: vec![], heads: vec![("Date", b.bs.keys().map(ym).collect())] },
        mk("PROFIT LOSS - ANNUAL", 1, &ann),
        mk("CASH FLOW - ANNUAL", 2, &ann),
    ];
    if !qtr.is_empty() {
        secs.push(mk("PROFIT LOSS - QUARTERLY", 1, &qtr));
        secs.push(mk("CASH FLOW - QUARTERLY", 2, &qtr));
    }
    let all_titles = ["BALANCE SHEETS", "PROFIT LOSS - ANNUAL", "CASH FLOW - ANNUAL", "PROFIT LOSS - QUARTERLY", "CASH FLOW - QUARTERLY"];
    // stated scale
    let head = text.lines().find(|l| l.contains("multiples of")).ok_or("no line states the scale")?;
    let hc: Vec<&str> = head.split(sep).map(str::trim).collect();
    if hc.len() < 3 || hc[1] != CUR_NAMES[b.currency] {
        return Err(format!("header line {head:?} does not state currency {}", CUR_NAMES[b.currency]));
    }
    let mult: f64 = hc[2].parse().map_err(|_| format!("scale {:?} is not a number", hc[2]))?;
    if !(mult.is_finite() && mult > 0.0) {
        return Err(format!("scale {mult} is not a finite positive number"));
    }
    let mut cur: Option<usize> = None;
    let mut seen: Vec<Vec<bool>> = secs.iter().map(|s| vec![false; nm(s.kind).len() + OT.len()]).collect();
    let mut heads_seen: Vec<Vec<bool>> = secs.iter().map(|s| vec![false; s.heads.len()]).collect();
    let mut titles_seen = vec![0; secs.len()];
    for l in text.lines() {
        let t = l.trim();
        if let Some(k) = all_titles.iter().position(|x| *x == t) {
            match secs.iter().position(|s| s.title == all_titles[k]) {
                Some(i) => {
                    cur = Some(i);
                    titles_seen[i] += 1;
                }
                None => return Err(format!("section {t} without such periods")),
            }
            continue;
        }
        let Some(si) = cur else { continue };
        if t.is_empty() {
            continue;
        }
        let s = &secs[si];
        let cells: Vec<&str> = l.split(sep).map(str::trim).collect();
        if let Some(h) = s.heads.iter().position(|h| h.0 == cells[0]) {
            if cells[1..].iter().map(|c| c.to_string()).collect::<Vec<_>>() != s.heads[h].1 {
                return Err(format!("{}: {} columns are {:?}, expected {:?}", s.title, cells[0], &cells[1..], s.heads[h].1));
            }
            heads_seen[si][h] = true;
            continue;
        }
        let (item, israte) = match nm(s.kind).iter().position(|n| *n == cells[0]) {
            Some(i) => (i, false),
            None => match OT_NAMES.iter().position(|n| *n == cells[0]) {
                Some(i) if !s.rates.is_empty() || s.kind > 0 => (i, true),
                _ => return Err(format!("{}: unknown row {:?}", s.title, cells[0])),
            },
        };
        let cols = if israte { &s.rates } else { &s.cols };
        if cells.len() - 1 != cols.len() {
            return Err(format!("{}: row {} has {} columns, expected {}", s.title, cells[0], cells.len() - 1, cols.len()));
        }
        for (j, (c, st)) in cells[1..].iter().zip(cols).enumerate() {
            let ok = match st {
                None => c.is_empty(),
                Some(st) => cell_ok(c, val(st, item), if israte { 1.0 } else { mult }),
            };
            if !ok {
                return Err(format!("{}: {} in column {} shows {c:?}, the book has {:?} (scale {mult})", s.title, cells[0], s.heads[0].1[j], st.map(|s| val(s, item))));
            }
        }
        seen[si][if israte { nm(s.kind).len() + item } else { item }] = true;
    }
    let ch = Chart::get();
    for (si, s) in secs.iter().enumerate() {
        if titles_seen[si] != 1 {
            return Err(format!("section {} appears {} times", s.title, titles_seen[si]));
        }
        for (h, ok) in heads_seen[si].iter().enumerate() {
            if !ok {
                return Err(format!("section {} has no line {}", s.title, s.heads[h].0));
            }
        }
        for i in 0..nm(s.kind).len() {
            if ch.shown[s.kind][i] && !seen[si][i] {
                if let Some(st) = s.cols.iter().flatten().find(|st| val(st, i).abs() >= 0.001) {
                    return Err(format!("{}: no row for {} although it is {:?}", s.title, nm(s.kind)[i], val(st, i)));
                }
            }
        }
        if s.kind == 1 {
            for r in 0..3 {
                if !seen[si][nm(1).len() + r] {
                    if let Some(st) = s.rates.iter().flatten().find(|st| val(st, r).abs() >= 0.001) {
                        return Err(format!("{}: no row for {} although it is {:?}", s.title, OT_NAMES[r], val(st, r)));
                    }
                }
            }
        }
    }
    Ok(mult)
}
