//! The book world: client tasks share one book of accounts (a reader/writer lock around the
//! library's Accounts), keep it durable through saved images, and live through crashes.
use crate::chart::*;
use crate::model::*;
use crate::rng::{F, Rng};
use crate::sched::*;
use crate::world::*;
use chrono::NaiveDate as NDt;
use financelib::Period;
use financelib::statements::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::{Mutex, RwLock};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    // entries (C04)
    Add { k: Kind, d: u8, i: u16, v: F },
    Upsert { k: Kind, d: u8, i: u16, v: F },
    AddVec { k: Kind, d: u8, xs: Vec<(u16, F)> },
    UpsertVec { k: Kind, d: u8, xs: Vec<(u16, F)> },
    Put { k: Kind, d: u8, i: u16, v: F },
    Get { k: Kind, d: u8, i: u16 },
    GetAll { k: Kind, d: u8 },
    // postings (C01)
    Debit { d: u8, i: u16, v: F },
    Credit { d: u8, i: u16, v: F },
    Transact { d: u8, a: u16, b: u16, v: F },
    Series { d: u8, xs: Vec<(u16, u16, F)> },
    // recalculation (C03)
    CalcStmt { k: Kind, d: u8 },
    CleanStmt { k: Kind, d: u8 },
    RccStmt { k: Kind, d: u8 },
    CalcAll,
    RccAll,
    // tax (C06)
    SetRates { c: F, g: F, r: F },
    CalcTax,
    // cash flow (C05)
    CashFlow,
    FreeCashFlow { d0: u8, d1: u8, p: u8, c: F, g: F, r: F },
    // views (C12)
    Account { d0: u8, d1: u8 },
    Reports,
    FromPeriods { mask: u32 },
    CommonSize { k: Kind, d: u8 },
    ReportCalc { p: u8, drop: u8 },
    StmtRound { p: u8, wrong: u8, shift: i8 },
    EditSnap { n: u8, i: u16, v: F },
    // periods (C21)
    ConsecPl,
    ConsecCf,
    Split,
    CheckDates,
    SetDates,
    ValidDate { d: u8 },
    // rendering (C09)
    Render { sep: u8, mult: F },
    Display,
    Sink { at: u32, io: bool, display: bool, seed: u64 },
    // export (C08)
    Export { file: u8, pre: u8, io: IoPlan },
    // persistence (C07)
    Save { style: u8, seed: u64, io: IoPlan },
    Reload { seed: u64, io: IoPlan, adopt: bool },
    Round { what: u8, d: u8, style: u8, seed: u64 },
    Torn { what: u8, d: u8, style: u8, seed: u64 },
    Flip { what: u8, d: u8, style: u8, seed: u64, n: u8 },
    Sample { seed: u64 },
    // edits of the application itself (public fields)
    AppAdd { k: Kind, d: u8 },
    AppRemove { k: Kind, d: u8 },
    AppDate { d: u8, on: bool },
    AppParam { p: u8, i: u8, v: Option<F> },
    AppParams { p: u8, on: bool },
    AppBook { cur: u8, cons: bool },
    /// the same on the same book, time and again
    Again {
        n: u32,
        /// ... or on the same book but for one figure, another each time
        drift: bool,
        op: Box<Op>,
    },
}

type Ent = Vec<(u16, F)>;
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Init {
    pub currency: u8,
    pub consolidated: bool,
    pub dates: Vec<u8>,
    pub bs: Vec<(u8, Ent)>,
    pub pl: Vec<(u8, Ent)>,
    pub cf: Vec<(u8, Ent)>,
    pub oth: Vec<(u8, Ent)>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Inc {
    pub env: Env,
    /// bit t: task t works on a copy of the book of its own
    #[serde(default)]
    pub own: u8,
    pub tasks: Vec<Vec<Op>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct BPlan {
    pub prop: String,
    pub mode: Mode,
    pub dates: Vec<NDt>,
    pub periods: Vec<(u8, u8)>,
    pub init: Init,
    /// the initial book comes from an image written elsewhere
    pub foreign: Option<u64>,
    pub incs: Vec<Inc>,
}

// ------------------------------------------------------------------ probes
macro_rules! probes { ($($n:ident)*) => { #[allow(non_camel_case_types, dead_code)] #[derive(Clone, Copy)] pub enum P { $($n),* } pub const PROBES: &[&str] = &[$(stringify!($n)),*]; } }
probes! {
    op_entry op_refused_calc op_refused_unknown op_batch_refused op_posting op_posting_refused op_series_refused_midway
    op_calc op_clean total_is_zero stale_total_replaced negligible_dropped op_tax tax_adjusted_for_depreciation tax_revenue_floor
    tax_refused op_cashflow cashflow_refused cashflow_kept_without_sheets shield_capped shield_zero op_view op_report_calc
    report_calc_refused op_join_refused op_consecutive consecutive_over_two clamped_month_end op_split period_120_days
    op_render render_empty_book render_not_recalculated sink_failed op_again op_again_256 op_again_4096 op_export export_series export_relative export_failed export_absorbed_transient
    export_over_longer_file concurrent_export op_save save_failed op_load load_torn_refused load_complete torn_refused
    flip_refused flip_accepted round_trip restart restart_from_image restart_from_torn_slot crash_in_save crash_in_export
    foreign_image two_readers hundred_periods own_books huge_books sink_renders long_histories
}
fn hit(p: P) {
    probe(p as usize)
}

// ------------------------------------------------------------------ generation
fn leafs(k: Kind) -> Vec<usize> {
    (0..names(k).len()).filter(|i| !Chart::get().is_calc(k, *i)).collect()
}
fn calcs(k: Kind) -> Vec<usize> {
    (0..names(k).len()).filter(|i| Chart::get().is_calc(k, *i)).collect()
}
struct G {
    mode: Mode,
    pool: Vec<f64>,
    nd: usize,
    np: usize,
    act: [Vec<usize>; 3],
    calc: [Vec<usize>; 3],
    rates: Vec<f64>,
    pub iofaults: bool,
    heavy_io: bool,
    /// one in so many batches is a long one
    long: u32,
}
fn ymd(y: i32, m: u32, d: u32) -> NDt {
    NDt::from_ymd_opt(y, m, d.min(last_day(y, m))).unwrap()
}
fn gen_dates(r: &mut Rng, n: usize, quarters: bool) -> Vec<NDt> {
    let long = n > 100;
    let y0 = *r.pick(&[1899, 1996, 1999, 2000, 2003, 2007, 2011, 2019, 2023, 2096]);
    // far from today now and then
    let y0 = if r.chance(1, 12) { *r.pick(&[1001, 1599, 1751, 1799, 1968, 1969, 2037, 2261, 2399, 3999, 9990, 9998]) } else { y0 };
    let style = match r.below(6) {
        4 if long => 5,
        x => x,
    };
    let mut v = Vec::new();
    if style == 4 {
        // spacing around the annual/quarterly edge
        let mut d = ymd(y0, 1 + r.below(12) as u32, 1 + r.below(28) as u32);
        for _ in 0..n {
            v.push(d);
            d += chrono::Duration::days(*r.pick(&[1, 30, 91, 119, 120, 121, 122, 365, 366]));
        }
    } else {
        let day = match style {
            0 => 1,
            1 => 31,
            2 => 29,
            3 => 30,
            _ => *r.pick(&[15, 15, 28, 5, 20]),
        };
        let m0 = if style == 2 { 2 } else { *r.pick(&[3, 3, 1, 12, 6, 2, 8]) };
        let step = if quarters { 3 } else { 12 };
        for i in 0..n {
            let t = y0 * 12 + m0 as i32 - 1 + (i as i32) * step;
            v.push(ymd(t.div_euclid(12), t.rem_euclid(12) as u32 + 1, day));
        }
    }
    v
}
/// Around the negligible size, 1e-5, which lies between 10 and 11 times 2^-20.
fn tiny(r: &mut Rng) -> f64 {
    if r.chance(1, 4) {
        return *r.pick(&[1e-5, -1e-5, 0.9e-5, 1.1e-5, 2e-5, -1.1e-5, 1e-7]);
    }
    let n = *r.pick(&[0, 1, 5, 9, 10, 10, 11, 11, 12, 20, 21, 105, 300, 1000, 5000, 100_000, 1 << 18, 1 << 20]);
    n as f64 * *r.pick(&[1.0, 1.0, -1.0]) / (1u32 << 20) as f64
}
fn wild(r: &mut Rng) -> f64 {
    let x = match r.below(6) {
        0 => *r.pick(&[0.1 + 0.2, 1.0 / 3.0, 2.0 / 3.0, 1e15 + 0.3, 123456789.12345679, 4503599627370497.5, 9007199254740993.0, 1e22, 1e23, 8.41e21, 5e-324, 2.2250738585072014e-308, 1e-300, 1e100, 0.30000000000000004, 1e-5, 99999.99999999999]),
        1 => f64::from_bits((r.next() & 0x000f_ffff_ffff_ffff) | 0x3ff0_0000_0000_0000),
        2 => r.unit() * 10f64.powi(r.range(-12, 18) as i32),
        3 => r.range(1, 1 << 53) as f64,
        4 => (r.unit() * 1e9).round() / 100.0,
        _ => r.unit(),
    };
    if r.chance(1, 3) { -x } else { x }
}
fn odd(r: &mut Rng) -> f64 {
    if r.chance(1, 2) { *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324]) } else { wild(r) }
}
fn long_batch(r: &mut Rng) -> usize {
    if r.chance(1, 12) { 100 + r.below(400) } else { 6 + r.below(80) }
}
impl G {
    fn value(&self, r: &mut Rng) -> f64 {
        if r.chance(3, 4) {
            return *r.pick(&self.pool);
        }
        match self.mode {
            Mode::Exact => {
                let m = *r.pick(&[1i64, 4, 100, 10_000, 4_000_000]);
                r.range(-m * 4, m * 4) as f64 * 0.25
            }
            Mode::Messy => {
                let e = r.range(-3, 9) as i32;
                (r.unit() * 2.0 - 0.7) * 10f64.powi(e)
            }
            Mode::Tiny => tiny(r),
            Mode::Wild => wild(r),
            Mode::Odd => odd(r),
        }
    }
    fn rate(&self, r: &mut Rng) -> f64 {
        *r.pick(&self.rates)
    }
    fn item(&self, r: &mut Rng, k: Kind) -> usize {
        if r.chance(5, 6) { *r.pick(&self.act[k as usize]) } else { r.below(names(k).len()) }
    }
    fn leaf(&self, r: &mut Rng, k: Kind) -> usize {
        *r.pick(&self.act[k as usize])
    }
    fn kind(&self, r: &mut Rng) -> Kind {
        *r.pick(&[Kind::Bs, Kind::Bs, Kind::Pl, Kind::Pl, Kind::Cf])
    }
    fn ix(&self, r: &mut Rng, k: Kind) -> u8 {
        r.below(if k == Kind::Bs { self.nd } else { self.np }) as u8
    }
    fn ents(&self, r: &mut Rng, k: Kind) -> Ent {
        let a = &self.act[k as usize];
        let n = if r.chance(1, 4) { a.len() } else { r.below(a.len() + 1) };
        let mut v: BTreeMap<u16, F> = BTreeMap::new();
        for j in 0..n {
            v.insert(if n == a.len() { a[j] } else { *r.pick(a) } as u16, F(self.value(r)));
        }
        if r.chance(1, 3) {
            // stale totals, as in an image saved before the last edits
            for _ in 0..r.below(4) + 1 {
                v.insert(*r.pick(&self.calc[k as usize]) as u16, F(self.value(r)));
            }
        }
        v.into_iter().collect()
    }
    fn params(&self, r: &mut Rng) -> Ent {
        let mut v: Ent = Vec::new();
        let full = r.chance(5, 6);
        for i in 0..3 {
            if full || r.chance(1, 2) {
                v.push((i, F(self.rate(r))));
            }
        }
        if r.chance(1, 4) {
            v.push((3 + r.below(4) as u16, F(self.value(r))));
        }
        v
    }
    fn io_write(&self, r: &mut Rng) -> IoPlan {
        let mut p = IoPlan::default();
        if !self.iofaults || r.chance(1, if self.heavy_io { 4 } else { 2 }) {
            return p;
        }
        let n = r.below(3) + 1;
        for _ in 0..n {
            let f = match r.below(11) {
                10 => (IoOp::Meta, r.below(3) as u32 + 1, *r.pick(&[IoFault::Eio, IoFault::Enospc, IoFault::Edquot, IoFault::Eacces])),
                0 | 1 => (IoOp::Write, r.below(4) as u32 + 1, IoFault::Eintr),
                2 | 3 => (IoOp::Write, r.below(4) as u32 + 1, IoFault::Short),
                4 => (IoOp::Write, r.below(4) as u32 + 1, IoFault::Short1),
                5 => (IoOp::Open, 1, IoFault::Eintr),
                6 => (IoOp::Open, 1, *r.pick(&[IoFault::Eacces, IoFault::Enospc, IoFault::Erofs, IoFault::Emfile, IoFault::Eio])),
                7 => (IoOp::Write, r.below(3) as u32 + 1, *r.pick(&[IoFault::Enospc, IoFault::Edquot])),
                8 => (IoOp::Write, r.below(3) as u32 + 1, IoFault::Eio),
                _ => (IoOp::Write, r.below(2) as u32 + 1, IoFault::Short),
            };
            p.faults.push(f);
        }
        if r.chance(1, 6) {
            p.quota = Some(r.below(6000) as u64);
        }
        p
    }
    fn io_read(&self, r: &mut Rng) -> IoPlan {
        let mut p = IoPlan::default();
        if !self.iofaults || r.chance(1, 2) {
            return p;
        }
        for _ in 0..r.below(3) + 1 {
            p.faults.push(match r.below(6) {
                0 | 1 => (IoOp::Read, r.below(4) as u32 + 1, IoFault::Eintr),
                2 | 3 => (IoOp::Read, r.below(4) as u32 + 1, IoFault::Short),
                4 => (IoOp::Read, r.below(4) as u32 + 1, IoFault::Short1),
                _ => (IoOp::Read, r.below(3) as u32 + 1, IoFault::Eio),
            });
        }
        p
    }
    fn op(&self, r: &mut Rng, tag: usize) -> Op {
        let k = self.kind(r);
        let bad = |r: &mut Rng| r.chance(1, 10);
        match tag {
            1 => {
                let d = self.ix(r, Kind::Bs);
                let any = |g: &G, r: &mut Rng| if bad(r) { *r.pick(&g.calc[0]) } else { g.leaf(r, Kind::Bs) } as u16;
                match r.below(8) {
                    0 => Op::Debit { d, i: any(self, r), v: F(self.value(r)) },
                    1 => Op::Credit { d, i: any(self, r), v: F(self.value(r)) },
                    2 | 3 | 4 => Op::Transact { d, a: any(self, r), b: any(self, r), v: F(self.value(r)) },
                    _ => {
                        let n = if r.chance(1, self.long) { long_batch(r) } else { r.below(6) };
                        let bad = |r: &mut Rng| r.chance(1, if n > 6 { 100 + n as u32 } else { 10 });
                        let any = |g: &G, r: &mut Rng| if bad(r) { *r.pick(&g.calc[0]) } else { g.leaf(r, Kind::Bs) } as u16;
                        let xs = (0..n).map(|_| (any(self, r), any(self, r), F(self.value(r)))).collect();
                        Op::Series { d, xs }
                    }
                }
            }
            3 => match r.below(9) {
                0 | 1 => Op::CalcStmt { k, d: self.ix(r, k) },
                2 => Op::CleanStmt { k, d: self.ix(r, k) },
                3 => Op::RccStmt { k, d: self.ix(r, k) },
                4 | 5 | 6 => Op::CalcAll,
                _ => Op::RccAll,
            },
            4 => {
                let d = self.ix(r, k);
                let i = if bad(r) { *r.pick(&self.calc[k as usize]) } else { self.item_leaf(r, k) } as u16;
                let v = F(self.value(r));
                let batch = |g: &G, r: &mut Rng| -> Ent {
                    let n = if r.chance(1, g.long) { long_batch(r) } else { r.below(6) };
                    (0..n)
                        .map(|_| (if r.chance(1, if n > 6 { 100 + n as u32 } else { 14 }) { *r.pick(&g.calc[k as usize]) } else { g.item_leaf(r, k) } as u16, F(g.value(r))))
                        .collect()
                };
                match r.below(12) {
                    0 | 1 => Op::Add { k, d, i, v },
                    2 | 3 => Op::Upsert { k, d, i, v },
                    4 => Op::AddVec { k, d, xs: batch(self, r) },
                    5 => Op::UpsertVec { k, d, xs: batch(self, r) },
                    6 | 7 | 8 => Op::Put { k, d, i, v },
                    9 => Op::GetAll { k, d },
                    _ => Op::Get { k, d, i: self.item(r, k) as u16 },
                }
            }
            5 => {
                if r.chance(3, 4) {
                    Op::CashFlow
                } else {
                    Op::FreeCashFlow {
                        d0: self.ix(r, Kind::Bs),
                        d1: self.ix(r, Kind::Bs),
                        p: self.ix(r, Kind::Pl),
                        c: F(self.rate(r)),
                        g: F(self.rate(r)),
                        r: F(self.rate(r)),
                    }
                }
            }
            6 => {
                if r.chance(2, 3) {
                    Op::CalcTax
                } else {
                    Op::SetRates { c: F(self.rate(r)), g: F(self.rate(r)), r: F(self.rate(r)) }
                }
            }
            7 => {
                let (what, d, style, seed) = (r.below(9) as u8, r.below(16) as u8, r.below(4) as u8, r.next());
                match r.below(12) {
                    0 | 1 | 2 => Op::Save { style, seed, io: self.io_write(r) },
                    3 | 4 => Op::Reload { seed, io: self.io_read(r), adopt: r.chance(1, 2) },
                    5 | 6 | 7 => Op::Round { what, d, style, seed },
                    8 | 9 => Op::Torn { what, d, style, seed },
                    10 => Op::Flip { what, d, style, seed, n: r.below(3) as u8 + 1 },
                    _ => {
                        if r.chance(1, 12) {
                            Op::Sample { seed }
                        } else {
                            Op::Round { what: 0, d, style, seed }
                        }
                    }
                }
            }
            8 => {
                let names = if r.chance(1, 3) { 11 } else { 3 };
                Op::Export { file: r.below(names) as u8, pre: r.below(9) as u8, io: self.io_write(r) }
            }
            9 => match r.below(6) {
                0 | 1 => Op::Render { sep: r.below(5) as u8, mult: F(*r.pick(&[1.0, 1.0, 1000.0, 1e6, 0.001, 0.25, 1e9])) },
                2 | 3 => Op::Display,
                _ => Op::Sink { at: { let n = if r.chance(1, 2) { 300 } else { 9000 }; r.below(n) as u32 }, io: r.chance(1, 2), display: r.chance(1, 2), seed: r.next() },
            },
            12 => match r.below(10) {
                0 => Op::Account { d0: self.ix(r, Kind::Bs), d1: self.ix(r, Kind::Bs) },
                1 | 2 => Op::Reports,
                3 | 4 => Op::FromPeriods { mask: r.next() as u32 },
                5 => Op::CommonSize { k, d: self.ix(r, k) },
                6 | 7 => Op::ReportCalc { p: self.ix(r, Kind::Pl), drop: if r.chance(1, 2) { 0 } else { 1 << r.below(6) } },
                8 => Op::StmtRound { p: self.ix(r, Kind::Pl), wrong: r.below(6) as u8, shift: *r.pick(&[0, 0, 1, -1, 30]) },
                _ => Op::EditSnap { n: r.below(8) as u8, i: self.leaf(r, Kind::Pl) as u16, v: F(self.value(r)) },
            },
            21 => match r.below(9) {
                0 | 1 => Op::ConsecPl,
                2 | 3 => Op::ConsecCf,
                4 | 5 => Op::Split,
                6 => Op::CheckDates,
                7 => Op::SetDates,
                _ => Op::ValidDate { d: self.ix(r, Kind::Bs) },
            },
            _ => match r.below(10) {
                0 | 1 | 2 => Op::AppAdd { k, d: self.ix(r, k) },
                3 | 4 => Op::AppRemove { k, d: self.ix(r, k) },
                5 => Op::AppDate { d: self.ix(r, Kind::Bs), on: r.chance(2, 3) },
                6 => Op::AppParam { p: self.ix(r, Kind::Pl), i: r.below(7) as u8, v: if r.chance(2, 3) { Some(F(self.rate(r))) } else { None } },
                7 => Op::AppParams { p: self.ix(r, Kind::Pl), on: r.chance(3, 4) },
                8 => Op::AppBook { cur: r.below(8) as u8, cons: r.chance(1, 2) },
                _ => Op::SetRates { c: F(self.rate(r)), g: F(self.rate(r)), r: F(self.rate(r)) },
            },
        }
    }
    fn item_leaf(&self, r: &mut Rng, k: Kind) -> usize {
        if r.chance(7, 8) { self.leaf(r, k) } else { *r.pick(&leafs(k)) }
    }
}
fn weights(prop: &str, r: &mut Rng) -> Vec<(usize, u32)> {
    // groups: 0 application edits, then by property
    let focus: usize = prop[1..].parse().unwrap();
    let mut w = vec![(0, 4), (1, 6), (3, 8), (4, 14), (5, 5), (6, 5), (7, 2), (8, 2), (9, 2), (12, 3), (21, 2)];
    for x in &mut w {
        // swarm: each run leaves some groups out
        if x.0 != focus && r.chance(1, 3) {
            x.1 = 0;
        }
        if x.0 == focus {
            x.1 = *r.pick(&[20, 40, 80]);
        }
    }
    w
}
impl BPlan {
    pub fn generate(prop: &str, seed: u64) -> BPlan {
        let mut r = Rng::new(seed);
        let mode = match prop {
            "C03" => *r.pick(&[Mode::Exact, Mode::Exact, Mode::Exact, Mode::Messy, Mode::Tiny, Mode::Tiny, Mode::Wild]),
            "C04" if r.chance(1, 8) => Mode::Odd,
            "C04" | "C07" => *r.pick(&[Mode::Exact, Mode::Messy, Mode::Tiny, Mode::Wild]),
            "C08" | "C09" => *r.pick(&[Mode::Exact, Mode::Exact, Mode::Messy, Mode::Tiny, Mode::Wild]),
            "C01" => *r.pick(&[Mode::Exact, Mode::Exact, Mode::Messy, Mode::Tiny]),
            "C21" => Mode::Exact,
            _ => *r.pick(&[Mode::Exact, Mode::Exact, Mode::Exact, Mode::Messy, Mode::Messy]),
        };
        let periodic = prop == "C21";
        let huge = !periodic && r.chance(1, 150);
        let nd = match (periodic, r.below(16)) {
            (true, _) => 2 + r.below(9),
            _ if huge => 30 + r.below(40),
            (false, 0) => 6 + r.below(12),
            _ => 1 + r.below(5),
        };
        let hundred = periodic && r.chance(1, 60);
        let quarters = r.chance(1, 2);
        let mut dates = gen_dates(&mut r, if hundred { 106 } else { nd }, quarters);
        if r.chance(1, 3) && !hundred {
            dates.extend(gen_dates(&mut r, 2, false));
        }
        dates.sort();
        dates.dedup();
        dates.truncate(200);
        let n = dates.len();
        let mut periods: Vec<(u8, u8)> = (1..n).map(|i| (i as u8 - 1, i as u8)).collect();
        for j in 4..n {
            if r.chance(2, 3) {
                periods.push((j as u8 - 4, j as u8));
            }
        }
        for _ in 0..r.below(3) {
            let (a, b) = (r.below(n), r.below(n));
            if a < b || (a != b && r.chance(1, 8)) {
                periods.push((a as u8, b as u8));
            }
        }
        let zero = periodic && r.chance(1, 6);
        if n == 1 || zero {
            let a = r.below(n) as u8;
            periods.push((a, a));
        }
        let reversed = periodic && n > 1 && r.chance(1, 8);
        if reversed {
            let (a, b) = *r.pick(&periods);
            periods.push((b, a));
        }
        periods.sort();
        periods.dedup();
        let mut pool: Vec<f64> = Vec::new();
        let scale = *r.pick(&[1i64, 50, 2000, 1_000_000, 1_000_000_000]);
        for _ in 0..4 {
            let v = match mode {
                Mode::Exact => r.range(1, scale * 4) as f64 * 0.25,
                Mode::Messy => r.unit() * scale as f64,
                Mode::Tiny => tiny(&mut r),
                Mode::Wild => wild(&mut r),
                Mode::Odd => odd(&mut r),
            };
            pool.push(v);
            pool.push(-v);
            if r.chance(2, 3) {
                pool.push(v);
            }
        }
        let must = [
            vec![bs("Cash"), bs("RetainedEarnings"), bs("AccumulatedDepreciation")],
            vec![pl("OperatingRevenue"), pl("InterestExpense"), pl("Depreciation"), pl("CostMaterial")],
            vec![cf("ChangeDebt"), cf("DonorContribution")],
        ];
        let mut act: [Vec<usize>; 3] = Default::default();
        for k in [Kind::Bs, Kind::Pl, Kind::Cf] {
            let l = leafs(k);
            let mut s: BTreeSet<usize> = BTreeSet::new();
            if r.chance(1, 3) {
                s.extend(&l);
            } else {
                for _ in 0..2 + r.below(9) {
                    s.insert(*r.pick(&l));
                }
                if r.chance(2, 3) {
                    s.extend(&must[k as usize]);
                }
            }
            if k == Kind::Pl && r.chance(1, 2) {
                s.insert(pl("TaxDepreciation"));
            }
            act[k as usize] = s.into_iter().collect();
        }
        let rates = match mode {
            Mode::Exact | Mode::Tiny => vec![0.0, 0.25, 0.5, 0.125, 0.0625, 0.03125, 1.0],
            _ => vec![0.0, 0.25, 0.3, 0.02, 0.005, 0.35, 0.1],
        };
        let g = G {
            mode,
            pool,
            nd: n,
            np: periods.len(),
            act,
            calc: [calcs(Kind::Bs), calcs(Kind::Pl), calcs(Kind::Cf)],
            rates,
            iofaults: r.chance(3, 4),
            heavy_io: prop == "C08",
            long: *r.pick(&[12, 60, 1000]),
        };
        let mut init = Init { currency: r.below(8) as u8, consolidated: r.chance(1, 2), ..Default::default() };
        let dense = r.chance(3, 4);
        let gap = if r.chance(1, 3) { r.below(106) as u8 } else { 255 };
        let few = |mut e: Ent, r: &mut Rng| {
            while huge && e.len() > 7 {
                e.remove(r.below(e.len()));
            }
            e
        };
        let keep = |r: &mut Rng| if dense { r.chance(9, 10) } else { r.chance(1, 2) };
        if !r.chance(1, 25) {
            for i in 0..n as u8 {
                if keep(&mut r) {
                    init.dates.push(i);
                }
                if keep(&mut r) {
                    init.bs.push((i, if hundred { vec![] } else { few(g.ents(&mut r, Kind::Bs), &mut r) }));
                }
            }
            for i in 0..periods.len() as u8 {
                let rev = { let (a, b) = periods[i as usize]; a > b && !(reversed && r.chance(1, 2)) };
                if (if hundred { periods[i as usize].1 != gap } else { keep(&mut r) }) && !rev {
                    init.pl.push((i, if hundred { vec![] } else { few(g.ents(&mut r, Kind::Pl), &mut r) }));
                }
                if (if hundred { periods[i as usize].1 != gap } else { r.chance(1, 2) }) && !rev {
                    init.cf.push((i, if hundred { vec![] } else { few(g.ents(&mut r, Kind::Cf), &mut r) }));
                }
                if keep(&mut r) {
                    init.oth.push((i, g.params(&mut r)));
                }
            }
        }
        let mut w = weights(prop, &mut r);
        if matches!(mode, Mode::Wild | Mode::Tiny) {
            // figures that are compared after further arithmetic
            w.retain(|x| !matches!(x.0, 5 | 6 | 12) && !(x.0 == 1 && mode == Mode::Wild));
        }
        if mode == Mode::Odd {
            w.retain(|x| matches!(x.0, 0 | 4));
        }
        let total: u32 = w.iter().map(|x| x.1).sum();
        let ninc = *r.pick(&[1, 1, 1, 2, 2, 3]);
        let mut incs = Vec::new();
        for _ in 0..ninc {
            let nt = *r.pick(&[1, 2, 2, 2, 3]);
            let mut env = Env::random(&mut r);
            if r.chance(1, 4) || ((prop == "C07" || prop == "C08") && r.chance(1, 3)) {
                env.crash = match r.below(4) {
                    0 => Crash::At { kind: K_ALLOC, nth: r.geo(800) },
                    1 | 2 => Crash::At { kind: K_SYS, nth: r.geo(8) },
                    _ => Crash::AllocFail { nth: r.geo(800) },
                };
            }
            let long = if matches!(prop, "C07" | "C08" | "C09") { 60 } else { 250 };
            let len = if !huge && dates.len() < 7 && r.chance(1, 150) { long } else { *r.pick(&[3, 6, 6, 12, 24]) };
            let mut tasks = Vec::new();
            for _ in 0..nt {
                let mut ops = Vec::new();
                for _ in 0..1 + r.below(len) {
                    let mut x = r.below(total as usize) as u32;
                    let tag = w.iter().find(|y| if x < y.1 { true } else { x -= y.1; false }).unwrap().0;
                    ops.push(g.op(&mut r, tag));
                }
                if r.chance(1, 50) {
                    let k = r.below(ops.len());
                    if !matches!(ops[k], Op::Save { .. } | Op::Reload { .. } | Op::Sample { .. } | Op::EditSnap { .. }) {
                        let n = *r.pick(&[20, 130, 130, 300, 300, 520, 1030, 2060, 4100, 70_000]);
                        ops[k] = Op::Again { n, drift: mode != Mode::Odd && r.chance(1, 2), op: Box::new(ops[k].clone()) };
                    }
                }
                tasks.push(ops);
            }
            let own = if nt > 1 && r.chance(1, 2) { r.below(1 << nt) as u8 } else { 0 };
            incs.push(Inc { env, own, tasks });
        }
        BPlan { prop: prop.into(), mode, dates, periods, init, foreign: if r.chance(1, 3) { Some(r.next() & 3) } else { None }, incs }
    }
    fn per(&self, p: usize) -> Period {
        let (a, b) = self.periods[p % self.periods.len()];
        (self.dates[a as usize % self.dates.len()], self.dates[b as usize % self.dates.len()])
    }
    fn date(&self, d: usize) -> NDt {
        self.dates[d % self.dates.len()]
    }
    pub fn init_book(&self) -> Book {
        let st = |e: &Ent| -> Stmt { e.iter().map(|(k, v)| (*k as usize, v.0)).collect() };
        Book {
            currency: self.init.currency as usize,
            consolidated: self.init.consolidated,
            dates: self.init.dates.iter().map(|d| self.date(*d as usize)).collect(),
            bs: self.init.bs.iter().map(|(d, e)| (self.date(*d as usize), st(e))).collect(),
            pl: self.init.pl.iter().map(|(p, e)| (self.per(*p as usize), st(e))).collect(),
            cf: self.init.cf.iter().map(|(p, e)| (self.per(*p as usize), st(e))).collect(),
            oth: self.init.oth.iter().map(|(p, e)| (self.per(*p as usize), st(e))).collect(),
        }
    }
    pub fn freeze(&mut self, t: &[Vec<(u32, u8)>]) {
        for (i, x) in self.incs.iter_mut().enumerate() {
            if let Some(tr) = t.get(i) {
                x.env.freeze(tr);
            }
        }
    }
    pub fn shrinks(&self) -> Vec<BPlan> {
        let mut v: Vec<BPlan> = Vec::new();
        let with = |f: &dyn Fn(&mut BPlan)| {
            let mut p = self.clone();
            f(&mut p);
            p
        };
        for i in 0..self.incs.len() {
            if self.incs.len() > 1 {
                v.push(with(&|p| {
                    p.incs.remove(i);
                }));
            }
        }
        for i in 0..self.incs.len() {
            if self.incs[i].own != 0 {
                v.push(with(&|p| p.incs[i].own = 0));
            }
            for t in 0..self.incs[i].tasks.len() {
                if self.incs[i].tasks.len() > 1 {
                    v.push(with(&|p| {
                        p.incs[i].tasks.remove(t);
                        let o = p.incs[i].own;
                        p.incs[i].own = (o & ((1 << t) - 1)) | (o >> (t + 1) << t);
                        p.incs[i].env.sched = Sched::Fixed { switches: vec![] };
                    }));
                }
                for ops in drops(&self.incs[i].tasks[t]) {
                    v.push(with(&|p| p.incs[i].tasks[t] = ops.clone()));
                    if self.incs[i].tasks.len() > 1 {
                        v.push(with(&|p| {
                            p.incs[i].tasks[t] = ops.clone();
                            p.incs[i].env.sched = Sched::Fixed { switches: vec![] };
                        }));
                    }
                }
            }
            for e in self.incs[i].env.shrinks() {
                v.push(with(&|p| p.incs[i].env = e.clone()));
            }
        }
        if self.foreign.is_some() {
            v.push(with(&|p| p.foreign = None));
        }
        for l in drops(&self.init.bs) {
            v.push(with(&|p| p.init.bs = l.clone()));
        }
        for l in drops(&self.init.pl) {
            v.push(with(&|p| p.init.pl = l.clone()));
        }
        for l in drops(&self.init.cf) {
            v.push(with(&|p| p.init.cf = l.clone()));
        }
        for l in drops(&self.init.oth) {
            v.push(with(&|p| p.init.oth = l.clone()));
        }
        for l in drops(&self.init.dates) {
            v.push(with(&|p| p.init.dates = l.clone()));
        }
        macro_rules! inner {
            ($f:ident) => {
                for j in 0..self.init.$f.len() {
                    for l in drops(&self.init.$f[j].1) {
                        v.push(with(&|p| p.init.$f[j].1 = l.clone()));
                    }
                }
            };
        }
        inner!(bs);
        inner!(pl);
        inner!(cf);
        inner!(oth);
        for i in 0..self.incs.len() {
            for t in 0..self.incs[i].tasks.len() {
                for o in 0..self.incs[i].tasks[t].len() {
                    for s in simpler(&self.incs[i].tasks[t][o]) {
                        v.push(with(&|p| p.incs[i].tasks[t][o] = s.clone()));
                    }
                }
            }
        }
        v
    }
}
fn simpler(o: &Op) -> Vec<Op> {
    let mut v = Vec::new();
    match o {
        Op::Again { n, drift, op } => {
            v.push((**op).clone());
            if *drift {
                v.push(Op::Again { n: *n, drift: false, op: op.clone() });
            }
            if *n > 1 {
                v.push(Op::Again { n: n / 2, drift: *drift, op: op.clone() });
                v.push(Op::Again { n: n - n / 10 - 1, drift: *drift, op: op.clone() });
            }
            v.extend(simpler(op).into_iter().map(|x| Op::Again { n: *n, drift: *drift, op: Box::new(x) }));
        }
        Op::AddVec { k, d, xs } => drops(xs).into_iter().for_each(|xs| v.push(Op::AddVec { k: *k, d: *d, xs })),
        Op::UpsertVec { k, d, xs } => drops(xs).into_iter().for_each(|xs| v.push(Op::UpsertVec { k: *k, d: *d, xs })),
        Op::Series { d, xs } => drops(xs).into_iter().for_each(|xs| v.push(Op::Series { d: *d, xs })),
        Op::Export { file, pre, io } if !io.is_empty() => {
            drops(&io.faults).into_iter().for_each(|f| v.push(Op::Export { file: *file, pre: *pre, io: IoPlan { faults: f, quota: io.quota } }));
            v.push(Op::Export { file: *file, pre: *pre, io: IoPlan { faults: io.faults.clone(), quota: None } });
        }
        Op::Save { style, seed, io } if !io.is_empty() => {
            drops(&io.faults).into_iter().for_each(|f| v.push(Op::Save { style: *style, seed: *seed, io: IoPlan { faults: f, quota: io.quota } }));
            v.push(Op::Save { style: *style, seed: *seed, io: IoPlan { faults: io.faults.clone(), quota: None } });
        }
        _ => {}
    }
    v.retain(|x| x != o);
    v
}

// ------------------------------------------------------------------ streams of the application
/// A reader or writer that moves data in arbitrary pieces and gets interrupted.
struct Chunky<T> {
    t: T,
    r: Rng,
    max: usize,
    eintr: bool,
}
impl<T> Chunky<T> {
    fn new(t: T, seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let max = *r.pick(&[1, 2, 7, 64, 700, 100_000]);
        let eintr = r.chance(1, 2);
        Chunky { t, r, max, eintr }
    }
    fn n(&mut self, len: usize) -> std::io::Result<usize> {
        yield_point(K_SINK);
        if self.eintr && self.r.chance(1, 8) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        Ok(if len == 0 { 0 } else { 1 + self.r.below(self.max.min(len)) })
    }
}
impl<T: Write> Write for Chunky<T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.n(b.len())?;
        self.t.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.t.flush()
    }
}
impl<T: Read> Read for Chunky<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.n(b.len())?;
        self.t.read(&mut b[..n])
    }
}
/// A sink that takes `left` bytes and then fails.
struct Failing<'a> {
    got: Vec<u8>,
    left: usize,
    fired: bool,
    part: bool,
    r: Rng,
    /// a book the sink renders itself while it is being written to, and its text
    nested: Option<(&'a Accounts, &'a str)>,
}
impl Failing<'_> {
    fn busy(&mut self) {
        yield_point(K_SINK);
        if self.nested.is_some() && self.r.chance(1, 2) {
            let (a, want) = self.nested.take().unwrap();
            hit(P::sink_renders);
            let got = format!("{a}");
            if got != want {
                violation("C09", "nested-render", "a book rendered by the sink of another rendering comes out differently");
            }
        }
    }
}
impl std::fmt::Write for Failing<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.busy();
        let b = s.as_bytes();
        if b.len() > self.left {
            if self.part {
                let n = self.left;
                self.got.extend(&b[..n]);
            }
            self.left = 0;
            self.fired = true;
            return Err(std::fmt::Error);
        }
        self.left -= b.len();
        self.got.extend(b);
        Ok(())
    }
}
impl Write for Failing<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.busy();
        if self.r.chance(1, 9) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            self.fired = true;
            return Err(std::io::ErrorKind::StorageFull.into());
        }
        let n = if self.part { 1 + self.r.below(b.len()) } else { b.len() }.min(self.left);
        self.left -= n;
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn pretty(seed: u64) -> ron::ser::PrettyConfig {
    let mut r = Rng::new(seed ^ 77);
    ron::ser::PrettyConfig::new().struct_names(r.chance(1, 2)).compact_maps(r.chance(1, 2)).depth_limit(r.below(4)).separate_tuple_members(r.chance(1, 2))
}
fn put_ron<T: Serialize, W: Write>(w: W, x: &T, style: u8, seed: u64) -> Result<(), String> {
    let o = ron::Options::default();
    if style & 1 == 0 { o.to_io_writer(w, x) } else { o.to_io_writer_pretty(w, x, pretty(seed)) }.map_err(|e| e.to_string())
}
fn get_ron<T: serde::de::DeserializeOwned, R: Read>(r: R) -> Result<T, String> {
    ron::Options::default().from_reader(r).map_err(|e| e.to_string())
}
fn put_json<T: Serialize, W: Write>(w: W, x: &T, style: u8) -> Result<(), String> {
    if style & 1 == 0 { serde_json::to_writer(w, x) } else { serde_json::to_writer_pretty(w, x) }.map_err(|e| e.to_string())
}
fn get_json<T: serde::de::DeserializeOwned, R: Read>(r: R) -> Result<T, String> {
    serde_json::from_reader(r).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------ execution
struct W {
    a: Accounts,
    m: Book,
}
struct Shared {
    w: RwLock<W>,
    saver: Mutex<u32>,
    readers: std::sync::atomic::AtomicU32,
}
struct Ctx<'a> {
    p: &'a BPlan,
    t: usize,
    dir: &'a str,
    sh: &'a Shared,
    /// the book the task works on: the shared one, or its own copy
    w: &'a RwLock<W>,
    snaps: Vec<(FinancialReport, Report)>,
    subs: Vec<(Accounts, Book)>,
}
/// What a write operation is expected to do.
enum Exp {
    Ok(Book),
    /// refused, leaving one of these
    Refused(Vec<Book>),
}
fn slot_path(dir: &str, s: u32) -> String {
    format!("{dir}/book{s}.ron")
}
fn how_name(h: bool) -> &'static str {
    if h { "accepted" } else { "refused" }
}
fn key(k: Kind, i: usize) -> String {
    names(k)[i].to_string()
}
fn write_op(c: &Ctx, tag: &str, name: &str, mode: Mode, how: How, exp: impl FnOnce(&Book) -> Exp, f: impl FnOnce(&mut Accounts)) {
    let mut g = c.w.write().unwrap();
    let W { a, m } = &mut *g;
    let e = exp(m);
    set_tag(tag);
    let ok = lib(|| f(a)).is_ok();
    let got = from_real(a);
    let (want_ok, allowed) = match &e {
        Exp::Ok(b) => (true, std::slice::from_ref(b)),
        Exp::Refused(v) => (false, &v[..]),
    };
    if ok != want_ok {
        violation(tag, &format!("{name}-{}", how_name(ok)), &format!("{name} was {}, expected {}", how_name(ok), how_name(want_ok)));
    } else {
        let d: Vec<String> = allowed.iter().filter_map(|b| diff_book(mode, &got, b, how)).collect();
        if d.len() == allowed.len() {
            violation(tag, &format!("{name}-state"), &format!("after {name}{}: {}", if want_ok { "" } else { " was refused" }, d[0]));
        }
    }
    set_tag("");
    let h = digest(&got);
    fold(h);
    state_seen(h);
    *m = got;
}
fn unchanged(tag: &str, name: &str, w: &W) {
    let got = from_real(&w.a);
    if let Some(d) = diff_book(Mode::Exact, &got, &w.m, &all_bit) {
        violation(tag, &format!("{name}-changed-the-book"), &format!("{name} changed the book: {d}"));
    }
}
fn st_mut<'b>(b: &'b mut Book, p: &BPlan, k: Kind, d: usize) -> Option<&'b mut Stmt> {
    match k {
        Kind::Bs => b.bs.get_mut(&p.date(d)),
        Kind::Pl => b.pl.get_mut(&p.per(d)),
        Kind::Cf => b.cf.get_mut(&p.per(d)),
    }
}
fn st<'b>(b: &'b Book, p: &BPlan, k: Kind, d: usize) -> Option<&'b Stmt> {
    match k {
        Kind::Bs => b.bs.get(&p.date(d)),
        Kind::Pl => b.pl.get(&p.per(d)),
        Kind::Cf => b.cf.get(&p.per(d)),
    }
}
/// Apply a list of entries one by one: Ok if all are enterable, else every prefix before the offender.
fn batch(m: &Book, p: &BPlan, k: Kind, d: usize, xs: &[(u16, F)], add: bool) -> Exp {
    let mut b = m.clone();
    let mut pre = vec![m.clone()];
    let refused = xs.iter().any(|x| Chart::get().is_calc(k, x.0 as usize));
    for (i, v) in xs {
        if Chart::get().is_calc(k, *i as usize) {
            hit(P::op_batch_refused);
            pre.reverse();
            return Exp::Refused(pre);
        }
        let s = st_mut(&mut b, p, k, d).unwrap();
        if add {
            *s.entry(*i as usize).or_insert(0.0) += v.0;
        } else {
            s.insert(*i as usize, v.0);
        }
        if refused {
            pre.push(b.clone());
        }
    }
    Exp::Ok(b)
}
macro_rules! on_stmt {
    ($a:expr, $p:expr, $k:expr, $d:expr, |$s:ident, $n:ident| $e:expr) => {
        match $k {
            Kind::Bs => {
                #[allow(unused)]
                let $n = |i: u16| BS[i as usize];
                let $s = $a.balance_sheet.get_mut(&$p.date($d)).unwrap();
                $e;
            }
            Kind::Pl => {
                #[allow(unused)]
                let $n = |i: u16| PL[i as usize];
                let $s = $a.profit_loss.get_mut(&$p.per($d)).unwrap();
                $e;
            }
            Kind::Cf => {
                #[allow(unused)]
                let $n = |i: u16| CF[i as usize];
                let $s = $a.cash_flow.get_mut(&$p.per($d)).unwrap();
                $e;
            }
        }
    };
}
fn imbalance(s: &Stmt) -> f64 {
    Chart::get().debit.iter().enumerate().map(|(i, c)| c * val(s, i)).sum()
}
fn post(s: &mut Stmt, i: usize, v: f64) -> bool {
    let d = Chart::get().debit[i];
    if d == 0.0 {
        return false;
    }
    *s.entry(i).or_insert(0.0) += d * v;
    true
}

fn bump(s: &mut Stmt, i: usize, by: f64) -> f64 {
    let v = s.get_mut(&i).unwrap();
    *v += by;
    *v
}

impl<'a> Ctx<'a> {
    /// Repeat an operation: each time on the book as it was, with the same outcome.
    fn again(&mut self, n: u32, drift: bool, op: &Op) {
        let (a, m) = {
            let g = self.w.read().unwrap();
            (g.a.clone(), g.m.clone())
        };
        let work = 60 + m.bs.values().chain(m.pl.values()).chain(m.cf.values()).chain(m.oth.values()).map(|s| 12 + s.len()).sum::<usize>();
        let slow = match op {
            Op::Export { .. } | Op::Render { .. } | Op::Display | Op::Sink { .. } | Op::CheckDates => 40,
            Op::Round { .. } | Op::Torn { .. } | Op::Flip { .. } => 20,
            Op::Reports | Op::Account { .. } | Op::FromPeriods { .. } | Op::ReportCalc { .. } | Op::StmtRound { .. } | Op::ConsecPl | Op::ConsecCf => 4,
            Op::CalcAll | Op::CalcTax | Op::CashFlow => 5,
            Op::CalcStmt { .. } => 2,
            _ => 1,
        };
        let all = if n > 5000 { 4_000_000 } else { 500_000 };
        let n = n.min((all / (work * slow)) as u32);
        let bad = shm().ntext;
        hit(P::op_again);
        let ch = Chart::get();
        let mut places: Vec<(NDt, Period, Kind, usize)> = Vec::new();
        let no = (NDt::MIN, NDt::MIN);
        if drift {
            m.bs.iter().for_each(|(d, s)| places.extend(s.keys().filter(|i| !ch.is_calc(Kind::Bs, **i)).map(|i| (*d, no, Kind::Bs, *i))));
            m.pl.iter().for_each(|(y, s)| places.extend(s.keys().filter(|i| !ch.is_calc(Kind::Pl, **i)).map(|i| (no.0, *y, Kind::Pl, *i))));
            m.cf.iter().for_each(|(y, s)| places.extend(s.keys().filter(|i| !ch.is_calc(Kind::Cf, **i)).map(|i| (no.0, *y, Kind::Cf, *i))));
        }
        for k in 0..n {
            if k > 0 {
                let mut g = self.w.write().unwrap();
                g.a.clone_from(&a);
                g.m.clone_from(&m);
                if !places.is_empty() {
                    let (d, y, kind, i) = places[(k as usize / 8) * 7919 % places.len()];
                    let by = (k % 3000) as f64 * 0.25;
                    let W { a, m } = &mut *g;
                    match kind {
                        Kind::Bs => a.balance_sheet.get_mut(&d).unwrap().insert(BS[i], bump(m.bs.get_mut(&d).unwrap(), i, by)),
                        Kind::Pl => a.profit_loss.get_mut(&y).unwrap().insert(PL[i], bump(m.pl.get_mut(&y).unwrap(), i, by)),
                        Kind::Cf => a.cash_flow.get_mut(&y).unwrap().insert(CF[i], bump(m.cf.get_mut(&y).unwrap(), i, by)),
                    };
                }
            }
            self.exec(op);
            if k == 255 {
                hit(P::op_again_256);
            }
            if k == 4095 {
                hit(P::op_again_4096);
            }
            if shm().ntext != bad {
                return;
            }
        }
    }
    fn exec(&mut self, op: &Op) {
        if let Op::Again { n, drift, op } = op {
            return self.again(*n, *drift, op);
        }
        op_boundary();
        let p = self.p;
        let mode = p.mode;
        let ch = Chart::get();
        match op {
            // ---------------------------------------------------------- entries
            Op::Add { k, d, i, v } | Op::Upsert { k, d, i, v } => {
                let add = matches!(op, Op::Add { .. });
                let (k, d, i, v) = (*k, *d as usize, *i, v.0);
                if st(&self.w.read().unwrap().m, p, k, d).is_none() {
                    return;
                }
                hit(P::op_entry);
                if ch.is_calc(k, i as usize) {
                    hit(P::op_refused_calc);
                }
                let name = if add { "adding to an item" } else { "storing an item" };
                write_op(
                    self,
                    "C04",
                    name,
                    mode,
                    &added(mode, k, if add { vec![(i as usize, v)] } else { vec![] }),
                    |m| match st(m, p, k, d) {
                        None => Exp::Ok(m.clone()),
                        Some(_) => match batch(m, p, k, d, &[(i, F(v))], add) {
                            Exp::Refused(_) => Exp::Refused(vec![m.clone()]),
                            e => e,
                        },
                    },
                    |a| {
                        if !has(a, p, k, d) {
                            return;
                        }
                        on_stmt!(a, p, k, d, |s, n| if add { s.add(n(i), v) } else { s.upsert(n(i), v) })
                    },
                );
            }
            Op::AddVec { k, d, xs } | Op::UpsertVec { k, d, xs } => {
                let add = matches!(op, Op::AddVec { .. });
                let (k, d) = (*k, *d as usize);
                hit(P::op_entry);
                write_op(
                    self,
                    "C04",
                    if add { "adding a batch" } else { "storing a batch" },
                    mode,
                    &added(mode, k, if add { xs.iter().map(|x| (x.0 as usize, x.1.0)).collect() } else { vec![] }),
                    |m| match st(m, p, k, d) {
                        None => Exp::Ok(m.clone()),
                        Some(_) => batch(m, p, k, d, xs, add),
                    },
                    |a| {
                        if !has(a, p, k, d) {
                            return;
                        }
                        on_stmt!(a, p, k, d, |s, n| {
                            let v = xs.iter().map(|(i, v)| (n(*i), v.0)).collect();
                            if add { s.add_vec(&v) } else { s.upsert_vec(&v) }
                        })
                    },
                );
            }
            Op::Put { k, d, i, v } => {
                let (k, d, i, v) = (*k, *d as usize, *i as usize, v.0);
                write_op(
                    self,
                    "C04",
                    "storing an item by date",
                    mode,
                    &all_bit,
                    |m| {
                        let mut b = m.clone();
                        match st_mut(&mut b, p, k, d) {
                            Some(s) if !ch.is_calc(k, i) => {
                                hit(P::op_entry);
                                s.insert(i, v);
                                Exp::Ok(b)
                            }
                            s => {
                                hit(if s.is_none() { P::op_refused_unknown } else { P::op_refused_calc });
                                Exp::Refused(vec![m.clone()])
                            }
                        }
                    },
                    |a| match k {
                        Kind::Bs => drop(a.put_balance_sheet(p.date(d), BS[i], v)),
                        Kind::Pl => drop(a.put_profit_loss(p.per(d), PL[i], v)),
                        Kind::Cf => drop(a.put_cash_flow(p.per(d), CF[i], v)),
                    },
                );
            }
            Op::Get { k, d, i } => self.read("C04", |w| {
                let (k, d, i) = (*k, *d as usize, *i as usize);
                let a = &w.a;
                let r = lib(|| match k {
                    Kind::Bs => a.get_balance_sheet(p.date(d), BS[i]),
                    Kind::Pl => a.get_profit_loss(p.per(d), PL[i]),
                    Kind::Cf => a.get_cash_flow(p.per(d), CF[i]),
                });
                match (st(&w.m, p, k, d), r) {
                    (None, Err(_)) => hit(P::op_refused_unknown),
                    (None, Ok(x)) => violation("C04", "get-unknown-accepted", &format!("reading {} of an unknown date gave {x}", key(k, i))),
                    (Some(_), Err(_)) => violation("C04", "get-refused", &format!("reading {} of a held date was refused", key(k, i))),
                    (Some(s), Ok(x)) => {
                        if x != val(s, i) && !(x.is_nan() && val(s, i).is_nan()) {
                            violation("C04", "get-value", &format!("{} reads {x:?}, expected {:?}", key(k, i), val(s, i)));
                        }
                    }
                }
            }),
            Op::GetAll { k, d } => self.read("C04", |w| {
                let (k, d) = (*k, *d as usize);
                let Some(s) = st(&w.m, p, k, d) else { return };
                let a = &w.a;
                for i in 0..names(k).len() {
                    let r = lib(|| match k {
                        Kind::Bs => a.balance_sheet[&p.date(d)].value(BS[i]),
                        Kind::Pl => a.profit_loss[&p.per(d)].value(PL[i]),
                        Kind::Cf => a.cash_flow[&p.per(d)].value(CF[i]),
                    });
                    let same = |x: f64| x == val(s, i) || x.is_nan() && val(s, i).is_nan();
                    if !r.clone().is_ok_and(same) {
                        violation("C04", "value", &format!("value of {} is {r:?}, expected {:?}", key(k, i), val(s, i)));
                        return;
                    }
                }
            }),
            // ---------------------------------------------------------- postings
            Op::Debit { .. } | Op::Credit { .. } | Op::Transact { .. } | Op::Series { .. } => self.posting(op),
            // ---------------------------------------------------------- recalculation
            Op::CalcStmt { k, d } => {
                let (k, d) = (*k, *d as usize);
                write_op(
                    self,
                    "C03",
                    "recalculating a statement",
                    mode,
                    &calc_tol,
                    |m| {
                        let mut b = m.clone();
                        if let Some(s) = st_mut(&mut b, p, k, d) {
                            calc_probe(k, s);
                            calc(k, s);
                        }
                        Exp::Ok(b)
                    },
                    |a| {
                        if has(a, p, k, d) {
                            on_stmt!(a, p, k, d, |s, n| s.calc_elements())
                        }
                    },
                );
            }
            Op::CleanStmt { k, d } | Op::RccStmt { k, d } => {
                let all = matches!(op, Op::RccStmt { .. });
                let (k, d) = (*k, *d as usize);
                self.cleaning(
                    if all { "removing calculated items" } else { "cleaning" },
                    |b| {
                        if let Some(s) = st_mut(b, p, k, d) {
                            if all { remove_calc_clean(k, s) } else { clean(s) }
                        }
                    },
                    |a| {
                        if has(a, p, k, d) {
                            on_stmt!(a, p, k, d, |s, n| if all { s.remove_calc_clean() } else { s.clean() })
                        }
                    },
                );
            }
            Op::RccAll => self.cleaning("removing calculated items of the book", |b| b.rcc_all(), |a| {
                a.remove_calc_clean();
            }),
            Op::CalcAll => {
                write_op(
                    self,
                    "C03",
                    "recalculating the book",
                    mode,
                    &calc_tol,
                    |m| {
                        let mut b = m.clone();
                        b.bs.values().for_each(|s| calc_probe(Kind::Bs, s));
                        b.pl.values().for_each(|s| calc_probe(Kind::Pl, s));
                        b.calc_all();
                        Exp::Ok(b)
                    },
                    |a| {
                        a.calc_elements();
                    },
                );
            }
            // ---------------------------------------------------------- tax
            Op::SetRates { c, g, r } => {
                write_op(
                    self,
                    "C06",
                    "setting rates",
                    mode,
                    &all_bit,
                    |m| {
                        let mut b = m.clone();
                        for y in m.pl.keys() {
                            let o = b.oth.entry(*y).or_default();
                            o.insert(CT, c.0);
                            o.insert(GT, g.0);
                            o.insert(MT, r.0);
                        }
                        Exp::Ok(b)
                    },
                    |a| {
                        a.set_tax_rates(c.0, g.0, r.0);
                    },
                );
            }
            Op::CalcTax => self.tax(),
            Op::CashFlow => self.cashflow(),
            Op::FreeCashFlow { d0, d1, p: q, c, g, r } => self.read("C05", |w| {
                let (d0, d1, q) = (p.date(*d0 as usize), p.date(*d1 as usize), p.per(*q as usize));
                let (Some(b0), Some(b1), Some(y)) = (w.a.balance_sheet.get(&d0), w.a.balance_sheet.get(&d1), w.a.profit_loss.get(&q)) else { return };
                let oth: Stmt = [(CT, c.0), (GT, g.0), (MT, r.0)].into();
                let got = lib(|| {
                    let mut x = calc_cash_flow(b0, b1, y, c.0, g.0, r.0);
                    x.calc_elements();
                    x
                });
                match got {
                    Err(_) => violation("C05", "derivation-refused", "deriving a cash flow from two sheets and a profit and loss was refused"),
                    Ok(x) => {
                        let e = cash_flow(&w.m.bs[&d0], &w.m.bs[&d1], &w.m.pl[&q], &oth).unwrap();
                        if let Some(d) = diff_stmt(mode, 2, &m_cf(&x), &e, &|_, _| T::Tol) {
                            violation("C05", "derived-cash-flow", &format!("derived cash flow: {d}"));
                        }
                        hit(P::op_cashflow);
                    }
                }
            }),
            // ---------------------------------------------------------- views
            Op::Account { .. } | Op::Reports | Op::FromPeriods { .. } | Op::CommonSize { .. } | Op::ReportCalc { .. } | Op::StmtRound { .. } | Op::EditSnap { .. } => {
                self.views(op)
            }
            Op::ConsecPl | Op::ConsecCf | Op::Split | Op::CheckDates | Op::SetDates | Op::ValidDate { .. } => self.periods(op),
            Op::Render { .. } | Op::Display | Op::Sink { .. } => self.render(op),
            Op::Export { file, pre, io } => self.export(*file, *pre, io),
            Op::Save { style, seed, io } => self.save(*style, *seed, io),
            Op::Reload { seed, io, adopt } => self.reload(*seed, io, *adopt),
            Op::Round { .. } | Op::Torn { .. } | Op::Flip { .. } | Op::Sample { .. } => self.images(op),
            // ---------------------------------------------------------- the application's own edits
            Op::AppAdd { k, d } => self.app(|a, m| match k {
                Kind::Bs => {
                    a.balance_sheet.entry(p.date(*d as usize)).or_default();
                    m.bs.entry(p.date(*d as usize)).or_default();
                }
                Kind::Pl => {
                    let y = p.per(*d as usize);
                    if y.0 <= y.1 || p.prop == "C21" {
                        a.profit_loss.entry(y).or_default();
                        m.pl.entry(y).or_default();
                    }
                }
                Kind::Cf => {
                    a.cash_flow.entry(p.per(*d as usize)).or_default();
                    m.cf.entry(p.per(*d as usize)).or_default();
                }
            }),
            Op::AppRemove { k, d } => self.app(|a, m| match k {
                Kind::Bs => {
                    a.balance_sheet.remove(&p.date(*d as usize));
                    m.bs.remove(&p.date(*d as usize));
                }
                Kind::Pl => {
                    a.profit_loss.remove(&p.per(*d as usize));
                    m.pl.remove(&p.per(*d as usize));
                }
                Kind::Cf => {
                    a.cash_flow.remove(&p.per(*d as usize));
                    m.cf.remove(&p.per(*d as usize));
                }
            }),
            Op::AppDate { d, on } => self.app(|a, m| {
                let x = p.date(*d as usize);
                if *on {
                    a.dates.insert(x);
                    m.dates.insert(x);
                } else {
                    a.dates.remove(&x);
                    m.dates.remove(&x);
                }
            }),
            Op::AppParam { p: q, i, v } => self.app(|a, m| {
                let y = p.per(*q as usize);
                if let (Some(o), Some(mo)) = (a.others.get_mut(&y), m.oth.get_mut(&y)) {
                    match v {
                        Some(v) => {
                            o.insert(OT[*i as usize % 7], v.0);
                            mo.insert(*i as usize % 7, v.0);
                        }
                        None => {
                            o.remove(&OT[*i as usize % 7]);
                            mo.remove(&(*i as usize % 7));
                        }
                    }
                }
            }),
            Op::AppParams { p: q, on } => self.app(|a, m| {
                let y = p.per(*q as usize);
                if *on {
                    a.others.entry(y).or_default();
                    m.oth.entry(y).or_default();
                } else {
                    a.others.remove(&y);
                    m.oth.remove(&y);
                }
            }),
            Op::AppBook { cur, cons } => self.app(|a, m| {
                a.currency = CUR[*cur as usize % 8];
                m.currency = *cur as usize % 8;
                a.consolidated = *cons;
                m.consolidated = *cons;
            }),
            Op::Again { .. } => unreachable!(),
        }
    }
    fn app(&self, f: impl FnOnce(&mut Accounts, &mut Book)) {
        let mut g = self.w.write().unwrap();
        let W { a, m } = &mut *g;
        f(a, m);
    }
    /// A read operation: readers share the lock, so several tasks can be inside the library at once.
    fn read(&self, tag: &str, f: impl FnOnce(&W)) {
        let g = self.w.read().unwrap();
        let n = self.sh.readers.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if n > 0 {
            hit(P::two_readers);
        }
        set_tag(tag);
        f(&g);
        set_tag("");
        self.sh.readers.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        unchanged(tag, "a read-only operation", &g);
    }
    fn cleaning(&self, name: &str, f: impl FnOnce(&mut Book), l: impl FnOnce(&mut Accounts)) {
        hit(P::op_clean);
        let mut before = 0;
        let mut want = Book::default();
        write_op(
            self,
            "C03",
            name,
            self.p.mode,
            &all_bit,
            |m| {
                before = count_items(m);
                let mut b = m.clone();
                f(&mut b);
                want = b.clone();
                if count_items(&b) < before {
                    hit(P::negligible_dropped);
                }
                Exp::Ok(b)
            },
            l,
        );
        // also which entries are still there
        let g = self.w.read().unwrap();
        if self.p.incs.iter().all(|i| i.tasks.len() == 1) {
            let (k1, k2) = (keys(&g.m), keys(&want));
            if k1 != k2 {
                let x: Vec<_> = k1.symmetric_difference(&k2).take(3).collect();
                violation("C03", &format!("{name}-entries"), &format!("after {name} the entries present differ from those expected: {x:?}"));
            }
        }
    }
    fn posting(&self, op: &Op) {
        let (p, mode) = (self.p, self.p.mode);
        let mut imb: Option<(f64, f64, Stmt)> = None;
        let mut pair = false;
        let dd = match op {
            Op::Debit { d, .. } | Op::Credit { d, .. } | Op::Transact { d, .. } | Op::Series { d, .. } => *d as usize,
            _ => unreachable!(),
        };
        hit(P::op_posting);
        let amounts: Vec<(usize, f64)> = match op {
            Op::Debit { i, v, .. } | Op::Credit { i, v, .. } => vec![(*i as usize, v.0)],
            Op::Transact { a, b, v, .. } => vec![(*a as usize, v.0), (*b as usize, v.0)],
            Op::Series { xs, .. } => xs.iter().flat_map(|(a, b, v)| [(*a as usize, v.0), (*b as usize, v.0)]).collect(),
            _ => unreachable!(),
        };
        let moved: f64 = amounts.iter().map(|x| x.1.abs()).sum();
        write_op(
            self,
            "C01",
            match op {
                Op::Debit { .. } => "a debit",
                Op::Credit { .. } => "a credit",
                Op::Transact { .. } => "a posting",
                _ => "a series of postings",
            },
            mode,
            &added(mode, Kind::Bs, amounts),
            |m| {
                let mut b = m.clone();
                let Some(s) = b.bs.get_mut(&p.date(dd)) else { return Exp::Ok(b) };
                imb = Some((imbalance(s), scale(s), s.clone()));
                let ok = match op {
                    Op::Debit { i, v, .. } => post(s, *i as usize, v.0),
                    Op::Credit { i, v, .. } => post(s, *i as usize, -v.0),
                    Op::Transact { a, b: c, v, .. } => {
                        pair = true;
                        transact(s, *a as usize, *c as usize, v.0)
                    }
                    Op::Series { xs, .. } => {
                        pair = true;
                        let mut ok = true;
                        for (n, (a, c, v)) in xs.iter().enumerate() {
                            if !transact(s, *a as usize, *c as usize, v.0) {
                                if n > 0 {
                                    hit(P::op_series_refused_midway);
                                }
                                ok = false;
                                break;
                            }
                        }
                        ok
                    }
                    _ => unreachable!(),
                };
                if ok {
                    Exp::Ok(b)
                } else {
                    hit(P::op_posting_refused);
                    Exp::Refused(vec![b])
                }
            },
            |a| {
                let Some(s) = a.balance_sheet.get_mut(&p.date(dd)) else { return };
                match op {
                    Op::Debit { i, v, .. } => drop(s.debit(BS[*i as usize], v.0)),
                    Op::Credit { i, v, .. } => drop(s.credit(BS[*i as usize], v.0)),
                    Op::Transact { a, b, v, .. } => drop(s.transact((BS[*a as usize], BS[*b as usize], v.0))),
                    Op::Series { xs, .. } => drop(s.transact_series(xs.iter().map(|(a, b, v)| (BS[*a as usize], BS[*b as usize], v.0)).collect())),
                    _ => unreachable!(),
                }
            },
        );
        if let (true, Some((x, sc, _))) = (pair, imb) {
            if self.p.incs.iter().all(|i| i.tasks.len() == 1) {
                let g = self.w.read().unwrap();
                if let Some(s) = g.m.bs.get(&p.date(dd)) {
                    let y = imbalance(s);
                    if (x - y).abs() > mode.tol(sc + scale(s) + moved) {
                        violation("C01", "accounting-equation", &format!("assets - (liabilities + equity) of the entered accounts moved from {x} to {y}"));
                    }
                }
            }
        }
    }
    fn tax(&self) {
        let mut g = self.w.write().unwrap();
        let W { a, m } = &mut *g;
        // expected tax per period, from totals recalculated from the entered items now
        let mut want: BTreeMap<Period, f64> = BTreeMap::new();
        let mut refused = false;
        for (y, s) in &m.pl {
            match m.oth.get(y) {
                None => refused = true,
                Some(o) => {
                    let mut f = s.clone();
                    calc(Kind::Pl, &mut f);
                    let t = tax(&f, o);
                    if dep_adjust(&f) != 0.0 {
                        hit(P::tax_adjusted_for_depreciation);
                    }
                    if t > 0.0 && t == val(&f, pl("Revenue")) * val(o, MT) {
                        hit(P::tax_revenue_floor);
                    }
                    want.insert(*y, t);
                }
            }
        }
        set_tag("C06");
        let ok = lib(|| drop(a.calc_tax())).is_ok();
        let got = from_real(a);
        hit(P::op_tax);
        if refused {
            hit(P::tax_refused);
        }
        let tc = pl("TaxesCurrent");
        if ok == refused {
            violation("C06", &format!("tax-{}", how_name(ok)), &format!("computing tax was {} although {}", how_name(ok), if refused { "a period has no rates" } else { "every period has rates" }));
        } else {
            // entered items other than current tax stay; totals are those of before, or recalculated
            let how = |k: usize, i: usize| if calc_tol(k, i) == T::Tol || (k == 1 && i == tc) { T::Skip } else { T::Bit };
            if let Some(d) = diff_book(self.p.mode, &got, m, &how) {
                violation("C06", "tax-touched-others", &format!("computing tax changed something else: {d}"));
            } else {
                for (y, s) in &got.pl {
                    let old = val(&m.pl[y], tc);
                    let t = val(s, tc);
                    let tol = self.p.mode.tol(scale(&m.pl[y]) * 8.0);
                    let fine = |e: f64| (t - e).abs() <= tol;
                    let w = want.get(y);
                    if !(w.is_some_and(|w| fine(*w)) || refused && t == old) {
                        violation("C06", "tax-value", &format!("current tax of {y:?} is {t:?}, expected {w:?}"));
                        break;
                    }
                    // totals
                    let mut r0 = m.pl[y].clone();
                    calc(Kind::Pl, &mut r0);
                    let mut r1 = r0.clone();
                    r1.insert(tc, t);
                    calc(Kind::Pl, &mut r1);
                    for i in calcs(Kind::Pl) {
                        let x = val(s, i);
                        let (e0, e1, e2) = (val(&m.pl[y], i), val(&r0, i), val(&r1, i));
                        if ![e0, e1, e2].iter().any(|e| (x - e).abs() <= tol) {
                            violation("C06", "tax-totals", &format!("after computing tax, {} of {y:?} is {x:?}, neither {e0:?} (before) nor {e1:?} nor {e2:?} (recalculated)", PL_NAMES[i]));
                        }
                    }
                }
            }
        }
        set_tag("");
        fold(digest(&got));
        state_seen(digest(&got));
        *m = got;
    }
    fn cashflow(&self) {
        let mode = self.p.mode;
        let mut g = self.w.write().unwrap();
        let W { a, m } = &mut *g;
        let mut want: BTreeMap<Period, Option<Stmt>> = BTreeMap::new();
        let mut refused = false;
        for (y, s) in &m.pl {
            if let (Some(b0), Some(b1)) = (m.bs.get(&y.0), m.bs.get(&y.1)) {
                let e = m.oth.get(y).and_then(|o| cash_flow(b0, b1, s, o));
                refused |= e.is_none();
                if let Some(e) = &e {
                    let (sh, o) = (val(e, cf("CashFlowTaxShield")), &m.oth[y]);
                    if sh == 0.0 && val(o, CT) != 0.0 && val(e, cf("CashFlowInterests")) > 0.0 {
                        hit(P::shield_zero);
                    } else if sh > 0.0 && sh < val(o, CT) * val(e, cf("CashFlowInterests")) {
                        hit(P::shield_capped);
                    }
                }
                want.insert(*y, e);
            } else if m.cf.contains_key(y) {
                hit(P::cashflow_kept_without_sheets);
            }
        }
        set_tag("C05");
        let ok = lib(|| drop(a.calc_cash_flow())).is_ok();
        let got = from_real(a);
        hit(P::op_cashflow);
        if refused {
            hit(P::cashflow_refused);
        }
        if ok == refused {
            violation("C05", &format!("derivation-{}", how_name(ok)), &format!("deriving cash flows was {} although {}", how_name(ok), if refused { "a period with both sheets lacks a rate" } else { "every period with both sheets has its rates" }));
        } else {
            let mut e = m.clone();
            for (y, w) in &want {
                match w {
                    Some(w) => {
                        // when refused part-way, each period has its old or its new cash flow
                        let old = refused && got.cf.get(y) == m.cf.get(y);
                        if !old {
                            e.cf.insert(*y, w.clone());
                        }
                    }
                    None => {}
                }
            }
            if let Some(d) = diff_book(mode, &got, &e, &|k, _| if k == 2 { T::Tol } else { T::Bit }) {
                violation("C05", "derived-cash-flow", &format!("after deriving cash flows: {d}"));
            } else if !refused {
                // reconciliation to cash, straight from the entered items
                for (y, _) in &want {
                    let (b0, b1, c) = (&m.bs[&y.0], &m.bs[&y.1], &got.cf[y]);
                    let net = val(c, cf("NetCashFlow"));
                    let cash = val(b1, bs("Cash")) - val(b0, bs("Cash"));
                    let imb = imbalance(b1) - imbalance(b0);
                    if (net - (cash - imb)).abs() > mode.tol(4.0 * (scale(b0) + scale(b1) + scale(&m.pl[y]))) {
                        violation("C05", "reconcile", &format!("net cash flow of {y:?} is {net}, change in cash {cash}, change in imbalance {imb}"));
                    }
                }
            }
        }
        set_tag("");
        fold(digest(&got));
        state_seen(digest(&got));
        *m = got;
    }
}
fn has(a: &Accounts, p: &BPlan, k: Kind, d: usize) -> bool {
    match k {
        Kind::Bs => a.balance_sheet.contains_key(&p.date(d)),
        Kind::Pl => a.profit_loss.contains_key(&p.per(d)),
        Kind::Cf => a.cash_flow.contains_key(&p.per(d)),
    }
}
fn count_items(b: &Book) -> usize {
    keys(b).len()
}
fn keys(b: &Book) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    b.bs.iter().for_each(|(d, s)| s.keys().for_each(|k| drop(v.insert(format!("{d} {}", BS_NAMES[*k])))));
    b.pl.iter().for_each(|(d, s)| s.keys().for_each(|k| drop(v.insert(format!("{d:?} {}", PL_NAMES[*k])))));
    b.cf.iter().for_each(|(d, s)| s.keys().for_each(|k| drop(v.insert(format!("{d:?} {}", CF_NAMES[*k])))));
    v
}
fn transact(s: &mut Stmt, a: usize, b: usize, v: f64) -> bool {
    let ch = Chart::get();
    if ch.debit[a] == 0.0 || ch.debit[b] == 0.0 {
        return false;
    }
    post(s, a, v);
    post(s, b, -v);
    true
}
fn calc_probe(k: Kind, s: &Stmt) {
    hit(P::op_calc);
    for (i, d) in Chart::get().defs(k) {
        let v = eval(s, d);
        if v.abs() <= NEGL && d.iter().any(|x| val(s, x.0) != 0.0) {
            hit(P::total_is_zero);
        }
        if s.get(i).is_some_and(|x| (x - v).abs() > 1e-3) {
            hit(P::stale_total_replaced);
        }
    }
}
include!("book2.rs");
