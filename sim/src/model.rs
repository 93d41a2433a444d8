//! Executable reference model of a book of accounts, and comparison with the real thing.
use crate::chart::*;
use chrono::{Datelike, NaiveDate as NDt};
use financelib::Period;
use financelib::statements::{Accounts, BsMap, CfMap, FinOthersMap, FinancialReport, PlMap};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Stmt = BTreeMap<usize, f64>;

/// How values compare: all generated values are small dyadic numbers (exact sums in any order) or not.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    Exact,
    Messy,
    /// around the negligible size and some way above it
    Tiny,
    /// any magnitude, awkward fractions
    Wild,
    /// like Wild, and infinities, NaN, negative zero (entries only)
    Odd,
}
impl Mode {
    pub fn tol(self, scale: f64) -> f64 {
        match self {
            Mode::Exact => 1e-9 + 1e-12 * scale,
            // totals build on subtotals that count as zero when negligible
            Mode::Tiny => 2e-4 + 1e-12 * scale,
            Mode::Messy | Mode::Wild | Mode::Odd => 2e-4 + 1e-10 * scale,
        }
    }
}
pub const NEGL: f64 = 1e-5;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Book {
    pub currency: usize,
    pub consolidated: bool,
    pub dates: BTreeSet<NDt>,
    pub bs: BTreeMap<NDt, Stmt>,
    pub pl: BTreeMap<Period, Stmt>,
    pub cf: BTreeMap<Period, Stmt>,
    pub oth: BTreeMap<Period, Stmt>,
}
pub fn val(s: &Stmt, k: usize) -> f64 {
    *s.get(&k).unwrap_or(&0.0)
}
pub fn eval(s: &Stmt, v: &[(usize, f64)]) -> f64 {
    v.iter().map(|&(k, c)| c * val(s, k)).sum()
}
pub fn scale(s: &Stmt) -> f64 {
    s.values().filter(|x| x.is_finite()).map(|x| x.abs()).sum()
}
pub fn calc(k: Kind, s: &mut Stmt) {
    let ch = Chart::get();
    let mut upd = Vec::new();
    for (i, d) in ch.defs(k) {
        upd.push((*i, eval(s, d)));
    }
    for (i, v) in upd {
        if v.abs() > NEGL {
            s.insert(i, v);
        } else {
            s.remove(&i);
        }
    }
}
pub fn clean(s: &mut Stmt) {
    s.retain(|_, v| v.abs() > NEGL);
}
pub fn remove_calc_clean(k: Kind, s: &mut Stmt) {
    let ch = Chart::get();
    s.retain(|i, v| !ch.is_calc(k, *i) && v.abs() > NEGL);
}
pub const CT: usize = 0;
pub const GT: usize = 1;
pub const MT: usize = 2;

pub fn dep_adjust(p: &Stmt) -> f64 {
    match p.get(&pl("TaxDepreciation")) {
        Some(x) => val(p, pl("Depreciation")) - x,
        None => 0.0,
    }
}
/// Cash flow of a period from its two balance sheets, P&L and rates (None: a rate is missing).
pub fn cash_flow(b0: &Stmt, b1: &Stmt, p: &Stmt, oth: &Stmt) -> Option<Stmt> {
    let (ct, gt, mt) = (*oth.get(&CT)?, *oth.get(&GT)?, *oth.get(&MT)?);
    let ch = Chart::get();
    let mut c = Stmt::new();
    for (k, d) in &ch.cf_pl {
        c.insert(*k, eval(p, d));
    }
    for (k, d) in &ch.cf_bs {
        c.insert(*k, eval(b1, d) - eval(b0, d));
    }
    c.retain(|_, v| v.abs() > NEGL);
    let i = val(&c, cf("CashFlowInterests"));
    let profit_tax = ct * (val(p, pl("EBT")) + i + dep_adjust(p)) + gt * val(p, pl("GrossProfit"));
    let rev_tax = mt * val(p, pl("Revenue"));
    c.insert(cf("CashFlowTaxShield"), f64::min(ct * i, f64::max(0.0, profit_tax - rev_tax)));
    calc(Kind::Cf, &mut c);
    Some(c)
}
pub fn tax(p: &Stmt, oth: &Stmt) -> f64 {
    let (ct, gt, mt) = (val(oth, CT), val(oth, GT), val(oth, MT));
    let ebt = val(p, pl("EBT")) + dep_adjust(p);
    f64::max(ebt * ct + val(p, pl("EBITDA")) * gt, val(p, pl("Revenue")) * mt)
}
impl Book {
    pub fn calc_all(&mut self) {
        self.bs.values_mut().for_each(|s| calc(Kind::Bs, s));
        self.pl.values_mut().for_each(|s| calc(Kind::Pl, s));
        self.cf.values_mut().for_each(|s| calc(Kind::Cf, s));
    }
    pub fn rcc_all(&mut self) {
        self.bs.values_mut().for_each(|s| remove_calc_clean(Kind::Bs, s));
        self.pl.values_mut().for_each(|s| remove_calc_clean(Kind::Pl, s));
        self.cf.values_mut().for_each(|s| remove_calc_clean(Kind::Cf, s));
    }
    pub fn from_periods(&self, ps: &BTreeSet<Period>) -> Book {
        let mut b = Book { currency: self.currency, consolidated: self.consolidated, ..Default::default() };
        for p in ps {
            b.dates.insert(p.0);
            b.dates.insert(p.1);
        }
        for d in &b.dates {
            if let Some(s) = self.bs.get(d) {
                b.bs.insert(*d, s.clone());
            }
        }
        for p in ps {
            for (from, to) in [(&self.pl, &mut b.pl), (&self.cf, &mut b.cf), (&self.oth, &mut b.oth)] {
                if let Some(s) = from.get(p) {
                    to.insert(*p, s.clone());
                }
            }
        }
        b
    }
}
pub fn last_day(y: i32, m: u32) -> u32 {
    (28..=31).rev().find(|d| NDt::from_ymd_opt(y, m, *d).is_some()).unwrap()
}
pub fn months_back(dt: NDt, n: i32, day: u32) -> NDt {
    let t = dt.year() * 12 + dt.month() as i32 - 1 - n;
    let (y, m) = (t.div_euclid(12), t.rem_euclid(12) as u32 + 1);
    NDt::from_ymd_opt(y, m, day.min(last_day(y, m))).unwrap()
}
pub fn consecutive(ps: &BTreeSet<Period>) -> BTreeSet<Period> {
    let mut out = BTreeSet::new();
    let Some(mut e) = ps.iter().map(|p| p.1).max() else { return out };
    let day = e.day();
    while out.len() < 100 {
        let q = (months_back(e, 3, day), e);
        let a = (months_back(e, 12, day), e);
        let p = if ps.contains(&q) {
            q
        } else if ps.contains(&a) {
            a
        } else {
            break;
        };
        out.insert(p);
        e = p.0;
    }
    out
}
pub fn is_annual(p: &Period) -> bool {
    (p.1 - p.0).num_days() >= 120
}

// ------------------------------------------------------------------ real <-> model
pub fn m_bs(h: &BsMap) -> Stmt {
    h.iter().map(|(k, v)| (bs_ix(*k), *v)).collect()
}
pub fn m_pl(h: &PlMap) -> Stmt {
    h.iter().map(|(k, v)| (pl_ix(*k), *v)).collect()
}
pub fn m_cf(h: &CfMap) -> Stmt {
    h.iter().map(|(k, v)| (cf_ix(*k), *v)).collect()
}
pub fn m_ot(h: &FinOthersMap) -> Stmt {
    h.iter().map(|(k, v)| (ot_ix(*k), *v)).collect()
}
pub fn r_bs(s: &Stmt) -> BsMap {
    s.iter().map(|(k, v)| (BS[*k], *v)).collect()
}
pub fn r_pl(s: &Stmt) -> PlMap {
    s.iter().map(|(k, v)| (PL[*k], *v)).collect()
}
pub fn r_cf(s: &Stmt) -> CfMap {
    s.iter().map(|(k, v)| (CF[*k], *v)).collect()
}
pub fn r_ot(s: &Stmt) -> FinOthersMap {
    s.iter().map(|(k, v)| (OT[*k], *v)).collect()
}
pub fn from_real(a: &Accounts) -> Book {
    Book {
        currency: CUR.iter().position(|c| *c == a.currency).unwrap(),
        consolidated: a.consolidated,
        dates: a.dates.clone(),
        bs: a.balance_sheet.iter().map(|(k, v)| (*k, m_bs(v))).collect(),
        pl: a.profit_loss.iter().map(|(k, v)| (*k, m_pl(v))).collect(),
        cf: a.cash_flow.iter().map(|(k, v)| (*k, m_cf(v))).collect(),
        oth: a.others.iter().map(|(k, v)| (*k, m_ot(v))).collect(),
    }
}
pub fn to_real(b: &Book) -> Accounts {
    Accounts {
        currency: CUR[b.currency],
        consolidated: b.consolidated,
        dates: b.dates.clone(),
        balance_sheet: b.bs.iter().map(|(k, v)| (*k, r_bs(v))).collect(),
        profit_loss: b.pl.iter().map(|(k, v)| (*k, r_pl(v))).collect(),
        cash_flow: b.cf.iter().map(|(k, v)| (*k, r_cf(v))).collect(),
        others: b.oth.iter().map(|(k, v)| (*k, r_ot(v))).collect(),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Report {
    pub period: Period,
    pub b0: Option<Stmt>,
    pub b1: Option<Stmt>,
    pub pl: Option<Stmt>,
    pub cf: Option<Stmt>,
    pub oth: Option<Stmt>,
}
pub fn rep_real(r: &FinancialReport) -> Report {
    Report {
        period: r.period,
        b0: r.balance_sheet_beg.as_ref().map(m_bs),
        b1: r.balance_sheet_end.as_ref().map(m_bs),
        pl: r.profit_loss.as_ref().map(m_pl),
        cf: r.cash_flow.as_ref().map(m_cf),
        oth: r.others.as_ref().map(m_ot),
    }
}
pub fn rep_model(b: &Book, p: Period) -> Option<Report> {
    Some(Report {
        period: p,
        pl: Some(b.pl.get(&p)?.clone()),
        b0: b.bs.get(&p.0).cloned(),
        b1: b.bs.get(&p.1).cloned(),
        cf: b.cf.get(&p).cloned(),
        oth: b.oth.get(&p).cloned(),
    })
}

// ------------------------------------------------------------------ comparison
/// How one item is compared.
#[derive(Clone, Copy, PartialEq)]
pub enum T {
    /// exactly
    Bit,
    /// within the rounding of a sum
    Tol,
    /// within the rounding of a few additions of amounts of this size in all
    Near(f64),
    Skip,
}
pub type How<'a> = &'a dyn Fn(usize, usize) -> T;
pub fn all_bit(_: usize, _: usize) -> T {
    T::Bit
}
/// Entered items exactly, calculated ones within rounding.
pub fn calc_tol(k: usize, i: usize) -> T {
    let c = Chart::get();
    let is = match k {
        0 => c.bs_calc[i],
        1 => c.pl_calc[i],
        2 => c.cf_calc[i],
        _ => false,
    };
    if is { T::Tol } else { T::Bit }
}
/// Amounts were added to these items: rounding may depend on the order of the additions, except where
/// every sum is exact.
pub fn added(m: Mode, k: Kind, xs: Vec<(usize, f64)>) -> impl Fn(usize, usize) -> T {
    move |kk, i| {
        let v: f64 = xs.iter().filter(|x| x.0 == i).map(|x| x.1.abs()).sum();
        if m != Mode::Exact && kk == k as usize && v > 0.0 { T::Near(v) } else { T::Bit }
    }
}
pub fn nm(k: usize) -> &'static [&'static str] {
    [BS_NAMES, PL_NAMES, CF_NAMES, OT_NAMES][k]
}
/// Value-level comparison of two statements (absent = zero).
pub fn diff_stmt(m: Mode, k: usize, got: &Stmt, exp: &Stmt, how: How) -> Option<String> {
    let t = m.tol(scale(got) + scale(exp));
    for i in got.keys().chain(exp.keys()) {
        let (x, y) = (val(got, *i), val(exp, *i));
        let same = x == y || x.is_nan() && y.is_nan();
        let ok = match how(k, *i) {
            T::Skip => true,
            T::Bit => same,
            T::Tol => same || (x - y).abs() <= t,
            T::Near(v) => same || (x - y).abs() <= 1e-12 * (x.abs() + y.abs() + v),
        };
        if !ok {
            return Some(format!("{} is {x:?}, expected {y:?}", nm(k)[*i]));
        }
    }
    // "entered" is observable for tax depreciation
    let td = pl("TaxDepreciation");
    if k == 1 && how(1, td) == T::Bit && got.contains_key(&td) != exp.contains_key(&td) && got.values().chain(exp.values()).all(|v| v.is_finite()) {
        return Some(format!("TaxDepreciation {}", if got.contains_key(&td) { "entered, expected not" } else { "not entered, expected entered" }));
    }
    None
}
fn diff_map<K: Ord + std::fmt::Debug>(m: Mode, k: usize, a: &BTreeMap<K, Stmt>, b: &BTreeMap<K, Stmt>, how: How) -> Option<String> {
    let what = ["balance sheet", "profit and loss", "cash flow", "parameters"][k];
    for d in a.keys().chain(b.keys()) {
        match (a.get(d), b.get(d)) {
            (Some(x), Some(y)) => {
                if let Some(e) = diff_stmt(m, k, x, y, how) {
                    return Some(format!("{what} {d:?}: {e}"));
                }
            }
            (x, _) => return Some(format!("{what} {d:?} {}", if x.is_some() { "present, expected absent" } else { "absent, expected present" })),
        }
    }
    None
}
pub fn diff_book(m: Mode, got: &Book, exp: &Book, how: How) -> Option<String> {
    if got.currency != exp.currency {
        return Some(format!("currency {} expected {}", CUR_NAMES[got.currency], CUR_NAMES[exp.currency]));
    }
    if got.consolidated != exp.consolidated {
        return Some(format!("consolidated {} expected {}", got.consolidated, exp.consolidated));
    }
    if got.dates != exp.dates {
        return Some(format!("dates {:?} expected {:?}", got.dates, exp.dates));
    }
    diff_map(m, 0, &got.bs, &exp.bs, how)
        .or_else(|| diff_map(m, 1, &got.pl, &exp.pl, how))
        .or_else(|| diff_map(m, 2, &got.cf, &exp.cf, how))
        .or_else(|| diff_map(m, 3, &got.oth, &exp.oth, how))
}
fn diff_opt(m: Mode, what: &str, k: usize, a: &Option<Stmt>, b: &Option<Stmt>, how: How) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(x), Some(y)) => diff_stmt(m, k, x, y, how).map(|e| format!("{what}: {e}")),
        (x, _) => Some(format!("{what} {}", if x.is_some() { "present, expected absent" } else { "absent, expected present" })),
    }
}
pub fn diff_report(m: Mode, a: &Report, b: &Report, how: How) -> Option<String> {
    if a.period != b.period {
        return Some(format!("period {:?} expected {:?}", a.period, b.period));
    }
    diff_opt(m, "opening sheet", 0, &a.b0, &b.b0, how)
        .or_else(|| diff_opt(m, "closing sheet", 0, &a.b1, &b.b1, how))
        .or_else(|| diff_opt(m, "profit and loss", 1, &a.pl, &b.pl, how))
        .or_else(|| diff_opt(m, "cash flow", 2, &a.cf, &b.cf, how))
        .or_else(|| diff_opt(m, "parameters", 3, &a.oth, &b.oth, how))
}
/// Exact canonical text of a book (values as bits, stored zeros included).
pub fn canon(b: &Book) -> String {
    let mut s = format!("{} {} {:?}\n", b.currency, b.consolidated, b.dates);
    let mut put = |h: &str, st: &Stmt| {
        s.push_str(h);
        for (k, v) in st {
            s.push_str(&format!(" {k}:{:x}", v.to_bits()));
        }
        s.push('\n');
    };
    b.bs.iter().for_each(|(k, v)| put(&format!("B{k}"), v));
    b.pl.iter().for_each(|(k, v)| put(&format!("P{k:?}"), v));
    b.cf.iter().for_each(|(k, v)| put(&format!("C{k:?}"), v));
    b.oth.iter().for_each(|(k, v)| put(&format!("O{k:?}"), v));
    s
}
pub fn digest(b: &Book) -> u64 {
    crate::sched::hash_bytes(canon(b).as_bytes())
}
/// The published image format, written by the harness itself (an image from another version of the program).
pub fn foreign_ron(b: &Book, style: u64) -> String {
    fn st(s: &Stmt, nm: &[&str]) -> String {
        let v: Vec<String> = s.iter().map(|(k, v)| format!("{}: {:?}", nm[*k], v)).collect();
        format!("{{{}}}", v.join(","))
    }
    let sp = if style & 1 == 0 { "" } else { "\n  " };
    let mut o = format!(
        "{}(currency: {},{sp}consolidated:{},{sp}dates: [{}],{sp}",
        if style & 2 == 0 { "Accounts " } else { "" },
        CUR_NAMES[b.currency],
        b.consolidated,
        b.dates.iter().map(|d| format!("\"{d}\"")).collect::<Vec<_>>().join(",")
    );
    let per = |p: &Period| format!("(\"{}\",\"{}\")", p.0, p.1);
    let body = |m: &BTreeMap<Period, Stmt>, nm: &[&str]| m.iter().map(|(p, s)| format!("{}:{}", per(p), st(s, nm))).collect::<Vec<_>>().join(",");
    o += &format!("balance_sheet : {{{}}},{sp}", b.bs.iter().map(|(d, s)| format!("\"{d}\" : {}", st(s, BS_NAMES))).collect::<Vec<_>>().join(","));
    o += &format!("profit_loss:{{{}}},{sp}cash_flow:{{{}}},{sp}others:{{{}}},)", body(&b.pl, PL_NAMES), body(&b.cf, CF_NAMES), body(&b.oth, OT_NAMES));
    o
}

// ------------------------------------------------------------------ ledger codec
pub fn encode(b: &Book, seq: u32) -> Vec<u8> {
    fn st(o: &mut Vec<u8>, s: &Stmt) {
        o.extend((s.len() as u32).to_le_bytes());
        for (k, v) in s {
            o.extend((*k as u32).to_le_bytes());
            o.extend(v.to_bits().to_le_bytes());
        }
    }
    fn dt(o: &mut Vec<u8>, d: &NDt) {
        o.extend(d.num_days_from_ce().to_le_bytes());
    }
    let mut o = Vec::new();
    o.extend(seq.to_le_bytes());
    o.push(b.currency as u8);
    o.push(b.consolidated as u8);
    o.extend((b.dates.len() as u32).to_le_bytes());
    b.dates.iter().for_each(|d| dt(&mut o, d));
    o.extend((b.bs.len() as u32).to_le_bytes());
    for (d, s) in &b.bs {
        dt(&mut o, d);
        st(&mut o, s);
    }
    for m in [&b.pl, &b.cf, &b.oth] {
        o.extend((m.len() as u32).to_le_bytes());
        for (p, s) in m {
            dt(&mut o, &p.0);
            dt(&mut o, &p.1);
            st(&mut o, s);
        }
    }
    o
}
pub fn decode(x: &[u8]) -> (Book, u32) {
    struct R<'a>(&'a [u8]);
    impl R<'_> {
        fn take<const N: usize>(&mut self) -> [u8; N] {
            let (a, b) = self.0.split_at(N);
            self.0 = b;
            a.try_into().unwrap()
        }
        fn u(&mut self) -> u32 {
            u32::from_le_bytes(self.take())
        }
        fn d(&mut self) -> NDt {
            NDt::from_num_days_from_ce_opt(i32::from_le_bytes(self.take())).unwrap()
        }
        fn st(&mut self) -> Stmt {
            let n = self.u();
            (0..n).map(|_| (self.u() as usize, f64::from_bits(u64::from_le_bytes(self.take())))).collect()
        }
    }
    let mut r = R(x);
    let seq = r.u();
    let mut b = Book { currency: r.take::<1>()[0] as usize, consolidated: r.take::<1>()[0] == 1, ..Default::default() };
    let n = r.u();
    b.dates = (0..n).map(|_| r.d()).collect();
    let n = r.u();
    b.bs = (0..n).map(|_| (r.d(), r.st())).collect();
    let n = r.u();
    b.pl = (0..n).map(|_| ((r.d(), r.d()), r.st())).collect();
    let n = r.u();
    b.cf = (0..n).map(|_| ((r.d(), r.d()), r.st())).collect();
    let n = r.u();
    b.oth = (0..n).map(|_| ((r.d(), r.d()), r.st())).collect();
    (b, seq)
}
