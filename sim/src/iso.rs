//! C10: calls from several tasks, with shared values, failing neighbours, bursts and clock jumps,
//! against every distinct call made alone in a fresh process with another hash seed, clock and
//! environment.
use crate::chart::*;
use crate::model::*;
use crate::rng::{F, Rng};
use crate::sched::*;
use crate::world::*;
use chrono::NaiveDate as NDt;
use financelib as fl;
use financelib::fixedincomes::bonds::rates::{RateCurve, Rates};
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use financelib::fixedincomes::moneymarkets as mm;
use financelib::statements::*;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;

type Ent = Vec<(u16, F)>;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Obj {
    None,
    Curve { kind: u8, v: Vec<F>, m: F },
    Bond { par: F, c: F, m: F, t: F },
    Stm { b0: Ent, b1: Ent, p: Ent, c: Ent },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Call {
    pub f: String,
    /// scalars, by the letters of the signature
    pub a: Vec<F>,
    /// dates as days from the common era
    pub d: Vec<i32>,
    pub v: Vec<F>,
    pub w: Vec<F>,
    pub o: Obj,
    /// use the one object of this content that all tasks share
    pub shared: bool,
    /// make the call this many times, keep the last result; meanwhile all its numbers drift (1), or
    /// just the one at place `drift - 2`
    pub times: u32,
    pub drift: u8,
}
/// Signature letters: r rate, t time, m frequency, x amount, b basis, y year; D two dates,
/// d one date; V a vector of times and one of flows; E a list of dates and flows;
/// C curve, B bond, S statements.
const FNS: &[(&str, &str)] = &[
    ("is_leap_year", "y"),
    ("days_in_year", "y"),
    ("date_to_float", "d"),
    ("date_from_float", "q"),
    ("yearfrac", "Db"),
    ("yearfrac", "Db"),
    ("yrfrac", "D"),
    ("dis_fact_annual", "r"),
    ("dis_fact", "rt"),
    ("xdis_fact", "Dr"),
    ("fwd_dis_fact", "rtrt"),
    ("pv", "rtx"),
    ("xpv", "Drx"),
    ("pvm", "rtmx"),
    ("pvc", "rtx"),
    ("fv", "rtx"),
    ("xfv", "Drx"),
    ("fvm", "rtmx"),
    ("fvc", "rtx"),
    ("pv_annuity", "rtmxx"),
    ("pmt", "rtmxx"),
    ("nom_eff_rate", "rm"),
    ("eff_nom_rate", "rm"),
    ("exp_eff_rate", "r"),
    ("eff_exp_rate", "r"),
    ("nom_exp_rate", "rm"),
    ("exp_nom_rate", "rm"),
    ("approx", "xx"),
    ("is_zero", "x"),
    ("npv_t0", "Vr"),
    ("npv", "Vrt"),
    ("xnpv", "Erd"),
    ("irr", "V"),
    ("irr", "V"),
    ("xirr", "E"),
    ("xirr", "E"),
    ("newt_raph", "rx"),
    ("t_bill_r", "txx"),
    ("t_bill_d", "rtx"),
    ("holding_per_yield", "xxx"),
    ("eff_ann_yield", "txxx"),
    ("money_mkt_yield", "txxx"),
    ("twrr_n", "Vt"),
    ("twrr", "V"),
    ("curve.rate_estim", "Ct"),
    ("curve.pv", "Cxt"),
    ("curve.to_nominal", "C"),
    ("curve.to_effective", "C"),
    ("curve.to_exponential", "C"),
    ("rates.to_spot", "C"),
    ("rates.to_par", "C"),
    ("rates.rate_estim", "Ct"),
    ("rates.forward_rate", "Ctt"),
    ("bond.price", "Br"),
    ("bond.ytm", "Bx"),
    ("bond.price_ratecurve", "BV"),
    ("bond.generate_cashflow", "B"),
    ("bond.accrued_interest", "Bt"),
    ("bond.pv_full", "Brt"),
    ("bond.pv_flat", "Brt"),
    ("note.price", "Brr"),
    ("note.discount_margin", "Bxr"),
    ("bs.calc_elements", "S"),
    ("pl.calc_elements", "S"),
    ("cf.calc_elements", "S"),
    ("common_size", "S"),
    ("clean", "S"),
    ("remove_calc_clean", "S"),
    ("transact", "Sx"),
    ("value", "S"),
    ("calc_cash_flow", "Srrr"),
    ("depreciation_tax_adjust", "S"),
    ("book.calc_elements", "S"),
    ("book.calc_tax", "Srrr"),
    ("book.calc_cash_flow", "Srrr"),
    ("book.format_table", "Sx"),
    ("book.display", "S"),
    ("book.queries", "S"),
    ("report.calc_elements", "Srrr"),
    ("report.statements", "S"),
    ("check_dates", "E"),
    ("consecutive_periods", "E"),
];
pub const PROBES: &[&str] = &["calls", "calls_on_shared_values", "failed_calls", "bursts", "distinct_calls_rerun_alone", "clock_jumps", "environment_changed", "statement_calls"];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct IPlan {
    pub env: Env,
    pub alt_hash: u64,
    pub alt_clock: u64,
    pub vars: bool,
    /// simulated clock jumps, nanoseconds, taken in turn at operation boundaries
    pub jumps: Vec<i64>,
    pub tasks: Vec<Vec<Call>>,
}
fn scalar(r: &mut Rng, k: char) -> f64 {
    match k {
        'r' => match r.below(12) {
            0 => 0.0,
            1 => *r.pick(&[-1.0, -0.999, -2.0, 1e6, f64::NAN, f64::INFINITY]),
            _ => r.range(-200, 400) as f64 * *r.pick(&[0.001, 0.0001, 0.00125]),
        },
        't' => match r.below(10) {
            0 => *r.pick(&[0.0, -1.0, 1e5, f64::NAN]),
            1 => 1.0,
            2 | 3 => r.range(1, 40) as f64 * 0.5,
            _ => r.unit() * 30.0,
        },
        'm' => *r.pick(&[1.0, 2.0, 4.0, 12.0, 365.0, 2.0, 0.0, 0.5]),
        'x' => match r.below(10) {
            0 => *r.pick(&[0.0, 1e-9, 1e300, f64::INFINITY, f64::NAN]),
            _ => r.range(-3000, 30000) as f64 * *r.pick(&[0.01, 1.0, 0.1]),
        },
        'b' => r.below(5) as f64,
        'y' => r.range(1890, 2110) as f64,
        _ => r.range(1890, 2110) as f64 + r.unit(),
    }
}
fn date(r: &mut Rng) -> i32 {
    use chrono::Datelike;
    let (y, m) = (r.range(1895, 2105) as i32, 1 + r.below(12) as u32);
    let d = *r.pick(&[1, 28, 29, 30, 31, 15, 2, 27]);
    let d = (1..=d).rev().find_map(|d| NDt::from_ymd_opt(y, m, d)).unwrap();
    d.num_days_from_ce()
}
fn flows(r: &mut Rng, n: usize) -> Vec<F> {
    (0..n).map(|i| F(if i == 0 { -(r.range(50, 500) as f64) } else { r.range(-100, 400) as f64 * 0.37 })).collect()
}
fn entries(r: &mut Rng, k: Kind) -> Ent {
    let ch = Chart::get();
    let p = *r.pick(&[2u32, 5, 9]);
    (0..names(k).len())
        .filter(|i| if ch.is_calc(k, *i) { r.chance(1, 8) } else { r.chance(p, 10) })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|i| {
            // awkward magnitudes: the order of additions shows in the last bits
            let v = r.range(-9999, 9999) as f64 * *r.pick(&[0.1, 0.01, 1e-3, 1e4, 3.3e-7, 1.0]);
            (i as u16, F(if r.chance(1, 10) { 1e-6 * r.unit() } else { v }))
        })
        .collect()
}
fn gen_call(r: &mut Rng) -> Call {
    let (f, sig) = *r.pick(FNS);
    let mut c = Call { f: f.into(), a: vec![], d: vec![], v: vec![], w: vec![], o: Obj::None, shared: r.chance(1, 2), times: 1, drift: 0 };
    for k in sig.chars() {
        match k {
            'D' => {
                c.d.push(date(r));
                c.d.push(date(r));
            }
            'd' => c.d.push(date(r)),
            'V' => {
                let n = if r.chance(1, 16) { *r.pick(&[16, 33, 65, 130, 300]) } else { *r.pick(&[1, 2, 3, 4, 5, 5, 8, 0]) };
                c.v = (0..n).map(|i| F(i as f64 * 0.5 + if r.chance(1, 3) { r.unit() } else { 0.0 })).collect();
                let short = r.chance(1, 10);
                c.w = flows(r, if short { n / 2 } else { n });
            }
            'E' => {
                let n = if r.chance(1, 16) { *r.pick(&[16, 33, 65, 130, 300]) } else { *r.pick(&[2, 3, 4, 5, 6, 1, 0]) };
                let mut d = date(r);
                for _ in 0..n {
                    c.d.push(d);
                    d += *r.pick(&[30, 31, 91, 90, 92, 365, 366, 180, 1]);
                }
                c.w = flows(r, n);
            }
            'C' => {
                let n = if r.chance(1, 16) { 9 + r.below(56) } else { 1 + r.below(8) };
                let kind = r.below(3) as u8;
                c.o = Obj::Curve { kind: if f.starts_with("rates") && r.chance(3, 4) { 0 } else { kind }, v: (0..n).map(|_| F(r.range(10, 120) as f64 * 0.00125)).collect(), m: F(*r.pick(&[1.0, 2.0, 4.0, 1.0])) };
            }
            'B' => {
                c.o = Obj::Bond { par: F(*r.pick(&[100.0, 1000.0, 1.0])), c: F(r.range(0, 120) as f64 * 0.00125), m: F(*r.pick(&[1.0, 2.0, 4.0])), t: F(if r.chance(1, 16) { r.range(20, 101) } else { r.range(0, 20) } as f64 * 0.5) };
            }
            'S' => c.o = Obj::Stm { b0: entries(r, Kind::Bs), b1: entries(r, Kind::Bs), p: entries(r, Kind::Pl), c: if r.chance(1, 3) { vec![] } else { entries(r, Kind::Cf) } },
            k => c.a.push(F(scalar(r, k))),
        }
    }
    // arguments that make sense together
    match (f, &c.o) {
        ("curve.rate_estim" | "curve.pv" | "rates.rate_estim" | "rates.forward_rate", Obj::Curve { v, m, .. }) if r.chance(5, 6) => {
            let n = (v.len() as f64 - 1.0).max(0.0);
            let (v, m) = (1.0 + n * r.unit(), m.0);
            let k = if f == "curve.pv" { 1 } else { 0 };
            c.a[k] = F(v / m);
            if f == "rates.forward_rate" {
                c.a[1] = F(((n + 1.0 - v) * r.unit() / m).max(0.25));
            }
        }
        ("bond.ytm" | "note.discount_margin", Obj::Bond { par, .. }) if r.chance(5, 6) => c.a[0] = F(par.0 * (0.7 + 0.6 * r.unit())),
        _ => {}
    }
    c
}
/// Roughly the steps a call may take.
fn work(c: &Call) -> u32 {
    let n = c.v.len() + c.d.len() + match &c.o {
        Obj::Curve { v, .. } => v.len() * v.len(),
        Obj::Bond { m, t, .. } => (m.0 * t.0) as usize,
        _ => 0,
    };
    let search = matches!(c.f.as_str(), "irr" | "xirr" | "newt_raph") || c.f.ends_with("ytm") || c.f.ends_with("discount_margin");
    (n as u32 + 1) * if search { 200 } else { 1 }
}
/// The same call with one thing slightly different: what a cache with a careless key mixes up.
fn twin(r: &mut Rng, c: &Call) -> Call {
    let mut c = c.clone();
    let nudge = |r: &mut Rng, x: &mut F| {
        x.0 = match r.below(8) {
            0 => x.0 + 1e-9,
            1 => x.0 * (1.0 + 1e-12),
            2 => x.0 + 1e-6,
            3 => x.0 + 1e-4,
            4 => x.0 * 1.01,
            5 => x.0 + 1.0,
            6 => -x.0,
            _ => f64::from_bits(x.0.to_bits() ^ 1),
        }
    };
    for _ in 0..20 {
        match r.below(11) {
            0 if !c.a.is_empty() => {
                let i = r.below(c.a.len());
                nudge(r, &mut c.a[i]);
            }
            1 if !c.d.is_empty() => {
                let i = r.below(c.d.len());
                c.d[i] += *r.pick(&[1, -1, 2, 30, 365, 366, 1461, -365]);
            }
            2 if !c.v.is_empty() => {
                let i = r.below(c.v.len());
                nudge(r, &mut c.v[i]);
            }
            3 if c.w.len() > 1 => {
                let i = r.below(c.w.len() - 1);
                if r.chance(1, 2) { c.w.swap(i, i + 1) } else { nudge(r, &mut c.w[i]) }
            }
            // the same length, the same sum, the same ends, the same ratios, the same intervals
            7 if c.w.len() > 1 => {
                let (i, j) = (r.below(c.w.len()), r.below(c.w.len()));
                match r.below(6) {
                    0 => c.w.swap(i, j),
                    1 => {
                        c.w[i].0 += 8.0;
                        c.w[j].0 -= 8.0;
                    }
                    2 => {
                        let k = *r.pick(&[2.0, 10.0, -1.0, 0.5]);
                        c.w.iter_mut().for_each(|x| x.0 *= k);
                    }
                    3 => {
                        let m = c.w.len() / 2;
                        nudge(r, &mut c.w[m]);
                    }
                    4 => c.w.iter_mut().for_each(|x| x.0 = x.0.trunc()),
                    _ => {
                        let n = c.w.len() - 1;
                        c.w[1..n.max(2)].reverse();
                    }
                }
            }
            8 if c.d.len() > 1 => {
                let k = *r.pick(&[1, 7, 365, 366, 1461, -1461]);
                match r.below(3) {
                    0 => c.d.iter_mut().for_each(|x| *x += k),
                    1 => {
                        let n = c.d.len() - 1;
                        c.d[1..n.max(1)].iter_mut().for_each(|x| *x += 1);
                    }
                    _ => {
                        let n = c.d.len();
                        c.d[n - 1] += k;
                    }
                }
            }
            9 if c.a.len() > 1 => {
                let (i, j) = (r.below(c.a.len()), r.below(c.a.len()));
                match r.below(3) {
                    0 => c.a.swap(i, j),
                    1 => {
                        c.a[i].0 += 0.25;
                        c.a[j].0 -= 0.25;
                    }
                    _ => {
                        c.a[i].0 *= 2.0;
                        c.a[j].0 *= 0.5;
                    }
                }
            }
            10 => match &mut c.o {
                Obj::Curve { v, .. } if v.len() > 1 => {
                    let (i, j) = (r.below(v.len()), r.below(v.len()));
                    match r.below(4) {
                        0 => v.swap(i, j),
                        1 => {
                            v[i].0 += 0.00125;
                            v[j].0 -= 0.00125;
                        }
                        2 => v.reverse(),
                        _ => {
                            v.pop();
                        }
                    }
                }
                Obj::Bond { par, c, m, t } => match r.below(3) {
                    0 => {
                        par.0 *= 2.0;
                        c.0 *= 0.5;
                    }
                    1 => {
                        m.0 *= 2.0;
                        t.0 *= 0.5;
                    }
                    _ => t.0 = (t.0 * m.0).ceil() / m.0 + 0.25,
                },
                Obj::Stm { b0, b1, p, c: _ } => {
                    let e = *r.pick(&[0, 1, 2]);
                    if e == 2 && r.chance(1, 3) {
                        std::mem::swap(b0, b1);
                        return c;
                    }
                    let e = [b0, b1, p].into_iter().nth(e).unwrap();
                    if e.len() < 2 {
                        continue;
                    }
                    let (i, j) = (r.below(e.len()), r.below(e.len()));
                    match r.below(3) {
                        0 => {
                            e[i].1.0 += 16.0;
                            e[j].1.0 -= 16.0;
                        }
                        1 => {
                            let (x, y) = (e[i].1, e[j].1);
                            e[i].1 = y;
                            e[j].1 = x;
                        }
                        _ => e.iter_mut().for_each(|x| x.1.0 *= 2.0),
                    }
                }
                _ => continue,
            },
            4 => match &mut c.o {
                Obj::Curve { kind, v, m } => {
                    let i = r.below(v.len());
                    match r.below(4) {
                        0 => *kind = (*kind + 1) % 3,
                        1 => m.0 = if m.0 == 1.0 { 2.0 } else { 1.0 },
                        _ => v[i].0 += *r.pick(&[1e-9, 1e-5, 0.01]),
                    }
                }
                Obj::Bond { par, c, m, t } => match r.below(4) {
                    0 => nudge(r, par),
                    1 => c.0 += *r.pick(&[1e-9, 1e-5, 0.01]),
                    2 => m.0 = if m.0 == 1.0 { 2.0 } else { 1.0 },
                    _ => t.0 += 0.5,
                },
                Obj::Stm { b0, b1, p, c } => {
                    let e = *r.pick(&[0, 1, 2, 3]);
                    let e = [b0, b1, p, c].into_iter().nth(e).unwrap();
                    if e.is_empty() {
                        continue;
                    }
                    let i = r.below(e.len());
                    if r.chance(1, 3) {
                        e.remove(i);
                    } else {
                        e[i].1.0 += *r.pick(&[0.1, 1.0, -100.0]);
                    }
                }
                Obj::None => continue,
            },
            5 if r.chance(1, 2) => {
                // another function of the same shape on the same arguments
                let sig = FNS.iter().find(|x| x.0 == c.f).unwrap().1;
                let f: Vec<&str> = FNS.iter().filter(|x| x.1 == sig && x.0 != c.f).map(|x| x.0).collect();
                if f.is_empty() {
                    continue;
                }
                c.f = r.pick(&f).to_string();
            }
            6 if r.chance(1, 3) => c.shared = !c.shared,
            _ => continue,
        }
        break;
    }
    c
}
impl IPlan {
    pub fn generate(seed: u64) -> IPlan {
        let mut r = Rng::new(seed);
        let mut env = Env::random(&mut r);
        if let Sched::Random { num, .. } = &mut env.sched {
            *num = *r.pick(&[60, 600, 3000, 12_000, 40_000]);
        }
        // a duel: a few tasks making one call and its near-twins over and over, closely interleaved
        let duel = r.chance(1, 4);
        if duel {
            if let Sched::Random { gap, .. } = &mut env.sched {
                *gap = *r.pick(&[6, 30, 120, 1000]);
            }
        }
        let base: Vec<Call> = (0..if duel { 1 } else { 1 + r.below(4) }).map(|_| gen_call(&mut r)).collect();
        let mut pool = base.clone();
        if duel {
            for c in &mut pool {
                c.shared = false;
            }
            for _ in 0..1 + r.below(2) {
                let t = twin(&mut r, &pool[0]);
                pool.push(t);
            }
            let nt = *r.pick(&[2, 2, 2, 3]);
            let tasks = (0..nt).map(|_| (0..6 + r.below(30)).map(|_| r.pick(&pool).clone()).collect()).collect();
            return IPlan { env, alt_hash: r.next(), alt_clock: 0, vars: false, jumps: vec![], tasks };
        }
        // a call, another one a certain number of times (around the widths of counters), the first with another number
        if r.chance(1, 12) {
            let mut v = Vec::new();
            for _ in 0..3 {
                let mut c = gen_call(&mut r);
                while !matches!(c.o, Obj::None) || c.a.len() < 2 || !c.v.is_empty() || c.f == "newt_raph" {
                    c = gen_call(&mut r);
                }
                let n = c.a.len();
                let i = r.below(n);
                let j = (i + 1 + r.below(n - 1)) % n;
                let (mut b, mut again) = (c.clone(), c.clone());
                b.a[j].0 = b.a[j].0 * 1.25 + 0.5;
                b.drift = 2 + i as u8;
                b.times = (*r.pick(&[16, 64, 256, 256, 256, 1024, 4096, 65_536])as i64 + *r.pick(&[-2, -1, -1, 0, 1])) as u32;
                again.a[i].0 = again.a[i].0 * 0.75 + 0.125;
                v.extend([c, b, again]);
            }
            return IPlan { env, alt_hash: r.next(), alt_clock: 0, vars: false, jumps: vec![], tasks: vec![v] };
        }
        for c in &base {
            for _ in 0..r.below(4) {
                pool.push(twin(&mut r, c));
            }
        }
        let nt = 1 + r.below(4);
        let mut tasks = Vec::new();
        for _ in 0..nt {
            let mut v = Vec::new();
            for _ in 0..2 + r.below(8) {
                let mut c = r.pick(&pool).clone();
                if r.chance(1, 14) {
                    c.times = *r.pick(&[3, 20, 150, 600]);
                    if matches!(c.o, Obj::None) && c.v.is_empty() && c.w.is_empty() && c.f != "newt_raph" && r.chance(1, 12) {
                        c.times = *r.pick(&[2000, 5000, 20_000, 70_000]);
                    }
                    c.drift = *r.pick(&[0, 1, 2, 2]);
                    if c.drift == 2 {
                        c.drift = 2 + r.below((c.a.len() + c.v.len() + c.w.len() + c.d.len()).max(1)) as u8;
                    }
                    if c.f.starts_with("book") || c.f.starts_with("report") {
                        c.times = c.times.min(20);
                    }
                    c.times = c.times.min(300_000 / work(&c)).max(1);
                }
                v.push(c);
            }
            tasks.push(v);
        }
        let jumps = if r.chance(1, 2) { vec![] } else { (0..1 + r.below(4)).map(|_| *r.pick(&[1_000_000_000i64, 61_000_000_000, 86_400_000_000_000, 31_622_400_000_000_000, -3_600_000_000_000, 0])).collect() };
        IPlan { env, alt_hash: r.next(), alt_clock: *r.pick(&[0, 1_000_000_000_000_000_000, 4_000_000_000_000_000_000]), vars: r.chance(1, 3), jumps, tasks }
    }
    pub fn shrinks(&self) -> Vec<IPlan> {
        let mut v = Vec::new();
        let still = |p: &mut IPlan| p.env.sched = Sched::Fixed { switches: vec![] };
        for t in 0..self.tasks.len() {
            if self.tasks.len() > 1 {
                let mut p = self.clone();
                p.tasks.remove(t);
                still(&mut p);
                v.push(p);
            }
            for ops in drops(&self.tasks[t]) {
                let mut p = self.clone();
                p.tasks[t] = ops;
                v.push(p.clone());
                still(&mut p);
                v.push(p);
            }
        }
        if self.tasks.len() > 1 {
            // everything on one task
            let mut p = self.clone();
            p.tasks = vec![self.tasks.concat()];
            still(&mut p);
            v.push(p);
        }
        if !self.jumps.is_empty() {
            v.push(IPlan { jumps: vec![], ..self.clone() });
        }
        if self.vars {
            v.push(IPlan { vars: false, ..self.clone() });
        }
        if self.alt_clock != self.env.clock {
            v.push(IPlan { alt_clock: self.env.clock, ..self.clone() });
        }
        if self.alt_hash != self.env.hash_seed {
            v.push(IPlan { alt_hash: self.env.hash_seed, ..self.clone() });
        }
        for e in self.env.shrinks() {
            v.push(IPlan { env: e, ..self.clone() });
        }
        for t in 0..self.tasks.len() {
            for o in 0..self.tasks[t].len() {
                let c = &self.tasks[t][o];
                let mut put = |x: Call| {
                    let mut p = self.clone();
                    p.tasks[t][o] = x;
                    v.push(p);
                };
                if c.times > 1 {
                    put(Call { times: c.times / 2, ..c.clone() });
                }
                if c.shared {
                    put(Call { shared: false, ..c.clone() });
                }
            }
        }
        v
    }
    pub fn exec(&self, cx: &mut RunCtx) {
        for (name, ok) in shareable() {
            if !ok {
                cx.viol("C10", "not-shareable", &format!("values of {name} cannot be shared between threads"));
            }
        }
        let dir = cx.dir.clone();
        let end = cx.child(|| {
            if self.vars {
                set_vars();
            }
            let out: &'static std::sync::Mutex<Vec<Vec<String>>> = Box::leak(Box::new(std::sync::Mutex::new(vec![vec![]; self.tasks.len()])));
            let bodies = self
                .tasks
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    let ops: &'static [Call] = Box::leak(ops.clone().into_boxed_slice());
                    let jumps = self.jumps.clone();
                    Box::new(move || {
                        let mut res = Vec::new();
                        for (n, c) in ops.iter().enumerate() {
                            op_boundary();
                            if !jumps.is_empty() {
                                let j = jumps[(n + t) % jumps.len()];
                                if j != 0 {
                                    probe(5);
                                    jump(j);
                                }
                            }
                            set_tag("C10");
                            let x = perform(c, true);
                            set_tag("");
                            fold(hash_bytes(x.as_bytes()));
                            res.push(x);
                        }
                        out.lock().unwrap()[t] = res;
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            run(self.env.cfg(&dir), bodies);
            let o = out.lock().unwrap();
            let mut b = Vec::new();
            for x in o.iter().flatten() {
                b.extend((x.len() as u32).to_le_bytes());
                b.extend(x.as_bytes());
            }
            blob_put(0, &b);
        });
        if self.vars {
            probe(6);
        }
        if end != ChildEnd::Done {
            return;
        }
        let mut got = split(blob(0).unwrap_or(&[])).into_iter();
        let mut alone: Vec<(&Call, String)> = Vec::new();
        let alt = Env { hash_seed: self.alt_hash, clock: self.alt_clock, sched: Sched::Fixed { switches: vec![] }, crash: Crash::None };
        for (t, ops) in self.tasks.iter().enumerate() {
            for (n, c) in ops.iter().enumerate() {
                let Some(g) = got.next() else { return cx.out.harness = Some("results lost".into()) };
                let i = match alone.iter().position(|x| same(x.0, c)) {
                    Some(i) => i,
                    None => {
                        probe(4);
                        blob_clear(1);
                        let end = cx.child(|| {
                            let c = c.clone();
                            let body = Box::new(move || {
                                set_tag("C10");
                                let x = perform(&Call { times: 1, drift: 0, ..c }, false);
                                set_tag("");
                                blob_put(1, x.as_bytes());
                            });
                            run(alt.cfg(&dir), vec![body]);
                        });
                        if end != ChildEnd::Done {
                            return;
                        }
                        alone.push((c, String::from_utf8_lossy(blob(1).unwrap_or(&[])).to_string()));
                        alone.len() - 1
                    }
                };
                if g != alone[i].1 {
                    let show = |s: &str| s.chars().take(400).collect::<String>();
                    cx.viol("C10", &format!("not-isolated-{}", c.f), &format!("task {t}, call {n}: {} gave {}; alone in a fresh process it gives {}", brief(c), show(&g), show(&alone[i].1)));
                    return;
                }
            }
        }
    }
}
/// Same call, apart from how the object reaches it and how often it is made.
fn same(a: &Call, b: &Call) -> bool {
    format!("{:?}", key(a)) == format!("{:?}", key(b))
}
fn key(a: &Call) -> Call {
    Call { shared: false, times: 1, drift: 0, ..a.clone() }
}
fn brief(c: &Call) -> String {
    let s = format!("{c:?}");
    s.chars().take(500).collect()
}
fn split(mut b: &[u8]) -> Vec<String> {
    let mut v = Vec::new();
    while b.len() >= 4 {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        v.push(String::from_utf8_lossy(&b[4..4 + n]).to_string());
        b = &b[4 + n..];
    }
    v
}
fn set_vars() {
    unsafe {
        for (k, v) in [(c"TZ", c"Asia/Kolkata"), (c"LANG", c"de_DE.UTF-8"), (c"LC_ALL", c"fr_FR.UTF-8"), (c"HOME", c"/nonexistent"), (c"RUST_BACKTRACE", c"0"), (c"DEBUG", c"1"), (c"FINANCELIB", c"1")] {
            libc::setenv(k.as_ptr(), v.as_ptr(), 1);
        }
    }
}
fn jump(ns: i64) {
    let s = sim();
    s.clock = if ns < 0 { s.clock.saturating_sub((-ns) as u64) } else { s.clock.saturating_add(ns as u64).min(i64::MAX as u64) };
}
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait No {
    fn ok(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
trait Yes {
    fn ok(&self) -> bool {
        true
    }
}
impl<T: Send + Sync> Yes for Probe<T> {}
macro_rules! share {
    ($($t:ty),* $(,)?) => { vec![$((stringify!($t), (&Probe::<$t>(PhantomData)).ok())),*] };
}
fn shareable() -> Vec<(&'static str, bool)> {
    share!(
        RateCurve, Rates, CouponBond, FloatingRateNotes, Accounts, FinancialReport, BalanceSheet, ProfitLoss, CashFlow, FinOthers, Param, BsMap, PlMap, CfMap, FinOthersMap, fl::Currency,
        fl::valuations::CompanyReports, fl::valuations::ValuationModel, fl::derivatives::forwards::Forward, fl::derivatives::forwards::XForward,
    )
}

// ------------------------------------------------------------------ making a call
enum Built {
    None,
    Curve(RateCurve),
    Bond(CouponBond, FloatingRateNotes),
    Stm { b0: BsMap, b1: BsMap, p: PlMap, c: CfMap, book: Accounts },
}
struct Own(Option<*mut Built>);
impl Drop for Own {
    fn drop(&mut self) {
        if let Some(p) = self.0 {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}
static mut REG: Vec<(String, &'static Built)> = Vec::new();
fn vf(v: &[F]) -> Vec<f64> {
    v.iter().map(|x| x.0).collect()
}
fn stm(e: &Ent) -> Stmt {
    e.iter().map(|(k, v)| (*k as usize, v.0)).collect()
}
fn build(o: &Obj) -> Built {
    match o {
        Obj::None => Built::None,
        Obj::Curve { kind, v, m } => {
            let (rate, freq) = (vf(v), m.0);
            Built::Curve(match kind {
                0 => RateCurve::NominalRateCurve { rate, freq },
                1 => RateCurve::EffectiveRateCurve { rate, freq },
                _ => RateCurve::ExponentialRateCurve { rate, freq },
            })
        }
        Obj::Bond { par, c, m, t } => Built::Bond(CouponBond { par: par.0, c: c.0, freq: m.0, t_life: t.0 }, FloatingRateNotes { par: par.0, quoted_margin: c.0, freq: m.0, t_life: t.0 }),
        Obj::Stm { b0, b1, p, c } => {
            let d = |y| NDt::from_ymd_opt(y, 12, 31).unwrap();
            let (d0, d1, d2) = (d(2019), d(2020), d(2021));
            let m = Book {
                dates: [d0, d1, d2].into(),
                bs: [(d0, stm(b0)), (d1, stm(b1)), (d2, stm(b0))].into(),
                pl: [((d0, d1), stm(p)), ((d1, d2), stm(p))].into(),
                cf: [((d0, d1), stm(c))].into(),
                oth: [((d0, d1), [(CT, 0.25), (GT, 0.0625), (MT, 0.125)].into()), ((d1, d2), [(CT, 0.3), (GT, 0.0), (MT, 0.01)].into())].into(),
                ..Default::default()
            };
            Built::Stm { b0: r_bs(&stm(b0)), b1: r_bs(&stm(b1)), p: r_pl(&stm(p)), c: r_cf(&stm(c)), book: to_real(&m) }
        }
    }
}
fn object(c: &Call, share: bool) -> &'static Built {
    if !(share && c.shared) {
        return Box::leak(Box::new(build(&c.o)));
    }
    let k = format!("{:?}", c.o);
    #[allow(static_mut_refs)]
    let reg = unsafe { &mut REG };
    if let Some(x) = reg.iter().find(|x| x.0 == k) {
        probe(1);
        return x.1;
    }
    let b: &'static Built = Box::leak(Box::new(build(&c.o)));
    reg.push((k, b));
    b
}
fn perform(c: &Call, main: bool) -> String {
    if main {
        probe(0);
        if c.times > 1 {
            probe(3);
        }
        if matches!(c.o, Obj::Stm { .. }) {
            probe(7);
        }
    }
    let o = object(c, main);
    // a value of this call alone is dropped after it: the next one may well get its address
    let _own = Own((!(main && c.shared)).then_some(o as *const Built as *mut Built));
    // the drifting calls first, the call itself last
    let mut first = None;
    for k in 0..c.times - 1 {
        let mut x = c.clone();
        if c.drift > 0 {
            let by = 1.0 + (k % 1000 + 1) as f64 * 0.013 + k as f64 * 1e-7;
            let one = |i: usize| c.drift == 1 || c.drift as usize == i + 2;
            let n = x.a.len() + x.v.len() + x.w.len();
            for (i, v) in x.a.iter_mut().chain(x.v.iter_mut()).chain(x.w.iter_mut()).enumerate() {
                if one(i) {
                    v.0 *= by;
                }
            }
            for (i, d) in x.d.iter_mut().enumerate() {
                if one(n + i) {
                    *d += k as i32;
                }
            }
        }
        let y = one(&x, o);
        if c.drift == 0 && *first.get_or_insert_with(|| y.clone()) != y {
            return format!("{} at first, {y} on call {}", first.unwrap(), k + 1);
        }
    }
    let r = one(c, o);
    if let Some(y) = first.filter(|y| *y != r) {
        return format!("{y} at first, {r} on call {}", c.times);
    }
    if main && r == "fail" {
        probe(2);
    }
    if r.len() > 600 {
        let h = hash_bytes(r.as_bytes());
        return format!("{}.. {} bytes, hash {h:016x}", r.chars().take(60).collect::<String>(), r.len());
    }
    r
}
fn s(x: f64) -> String {
    if x.is_nan() { "nan".into() } else { format!("{x:?}#{:x}", x.to_bits()) }
}
fn so(x: Option<f64>) -> String {
    x.map_or("none".into(), s)
}
fn sv(v: &[f64]) -> String {
    v.iter().map(|x| s(*x)).collect::<Vec<_>>().join(",")
}
fn sm(m: &Stmt) -> String {
    m.iter().map(|(k, v)| format!("{k}={}", s(*v))).collect::<Vec<_>>().join(",")
}
fn curve_s(c: &RateCurve) -> String {
    match c {
        RateCurve::NominalRateCurve { rate, freq } => format!("nominal {} {}", s(*freq), sv(rate)),
        RateCurve::EffectiveRateCurve { rate, freq } => format!("effective {} {}", s(*freq), sv(rate)),
        RateCurve::ExponentialRateCurve { rate, freq } => format!("exponential {} {}", s(*freq), sv(rate)),
    }
}
fn rates_s(r: &Rates) -> String {
    match r {
        Rates::SpotRates { rate } => format!("spot {}", curve_s(rate)),
        Rates::ParRates { rate } => format!("par {}", curve_s(rate)),
        Rates::ForwardRates { rate } => format!("forward {}", curve_s(rate)),
    }
}
fn book_s(a: &Accounts) -> String {
    let m = from_real(a);
    let mut t = String::new();
    for (k, v) in &m.bs {
        t += &format!("{k}:{};", sm(v));
    }
    for (k, v) in &m.pl {
        t += &format!("{k:?}:{};", sm(v));
    }
    for (k, v) in &m.cf {
        t += &format!("{k:?}:{};", sm(v));
    }
    for (k, v) in &m.oth {
        t += &format!("{k:?}:{};", sm(v));
    }
    t
}
fn one(c: &Call, o: &'static Built) -> String {
    use chrono::Datelike;
    let _ = Datelike::year(&NDt::MIN);
    let a = |i: usize| c.a[i].0;
    let d = |i: usize| NDt::from_num_days_from_ce_opt(c.d[i]).unwrap_or(NDt::MIN);
    let pr = || (d(0), d(1));
    let (v, w) = (vf(&c.v), vf(&c.w));
    let ds: Vec<NDt> = (0..c.d.len()).map(d).collect();
    let basis = |k: f64| match k as i32 {
        0 => fl::DayCountConvention::US30360,
        1 => fl::DayCountConvention::EU30360,
        2 => fl::DayCountConvention::ACTACT,
        3 => fl::DayCountConvention::ACT360,
        _ => fl::DayCountConvention::ACT365,
    };
    // number-valued functions
    let num = |f: &dyn Fn() -> f64| lib(f).map(s);
    let r: Result<String, ()> = match (c.f.as_str(), o) {
        ("is_leap_year", _) => lib(|| fl::is_leap_year(a(0) as i32)).map(|x| x.to_string()),
        ("days_in_year", _) => lib(|| fl::days_in_year(a(0) as i32)).map(|x| x.to_string()),
        ("date_to_float", _) => num(&|| fl::date_to_float(d(0))),
        ("date_from_float", _) => lib(|| fl::date_from_float(a(0))).map(|x| x.to_string()),
        ("yearfrac", _) => num(&|| fl::yearfrac(d(0), d(1), basis(a(0)))),
        ("yrfrac", _) => num(&|| fl::yrfrac(pr())),
        ("dis_fact_annual", _) => num(&|| fl::dis_fact_annual(a(0))),
        ("dis_fact", _) => num(&|| fl::dis_fact(a(0), a(1))),
        ("xdis_fact", _) => num(&|| fl::xdis_fact(a(0), pr())),
        ("fwd_dis_fact", _) => num(&|| fl::fwd_dis_fact((a(0), a(1)), (a(2), a(3)))),
        ("pv", _) => num(&|| fl::pv(a(0), a(1), a(2))),
        ("xpv", _) => num(&|| fl::xpv(a(0), pr(), a(1))),
        ("pvm", _) => num(&|| fl::pvm(a(0), a(1), a(2), a(3))),
        ("pvc", _) => num(&|| fl::pvc(a(0), a(1), a(2))),
        ("fv", _) => num(&|| fl::fv(a(0), a(1), a(2))),
        ("xfv", _) => num(&|| fl::xfv(a(0), pr(), a(1))),
        ("fvm", _) => num(&|| fl::fvm(a(0), a(1), a(2), a(3))),
        ("fvc", _) => num(&|| fl::fvc(a(0), a(1), a(2))),
        ("pv_annuity", _) => num(&|| fl::pv_annuity(a(0), a(1), a(2), a(3), a(4))),
        ("pmt", _) => num(&|| fl::pmt(a(0), a(1), a(2), a(3), a(4))),
        ("nom_eff_rate", _) => num(&|| fl::nom_eff_rate(a(0), a(1))),
        ("eff_nom_rate", _) => num(&|| fl::eff_nom_rate(a(0), a(1))),
        ("exp_eff_rate", _) => num(&|| fl::exp_eff_rate(a(0))),
        ("eff_exp_rate", _) => num(&|| fl::eff_exp_rate(a(0))),
        ("nom_exp_rate", _) => num(&|| fl::nom_exp_rate(a(0), a(1))),
        ("exp_nom_rate", _) => num(&|| fl::exp_nom_rate(a(0), a(1))),
        ("approx", _) => lib(|| fl::approx(a(0), a(1))).map(|x| x.to_string()),
        ("is_zero", _) => lib(|| fl::is_zero(a(0))).map(|x| x.to_string()),
        ("npv_t0", _) => num(&|| fl::npv_t0(a(0), &v, &w)),
        ("npv", _) => num(&|| fl::npv(a(0), &v, a(1), &w)),
        ("xnpv", _) => num(&|| fl::xnpv(a(0), &ds[..ds.len() - 1].to_vec(), ds[ds.len() - 1], &w)),
        ("irr", _) => lib(|| fl::irr(&v, &w)).map(so),
        ("xirr", _) => lib(|| fl::xirr(&ds, &w)).map(so),
        ("newt_raph", _) => lib(|| fl::newt_raph(|x| (x - a(0)) * (1.0 + x * x) + a(1) * 1e-3, 0.1, 1e-6)).map(so),
        ("t_bill_r", _) => num(&|| mm::t_bill_r(a(0), a(1), a(2))),
        ("t_bill_d", _) => num(&|| mm::t_bill_d(a(0), a(1), a(2))),
        ("holding_per_yield", _) => num(&|| mm::holding_per_yield(a(0), a(1), a(2))),
        ("eff_ann_yield", _) => num(&|| mm::eff_ann_yield(a(0), a(1), a(2), a(3))),
        ("money_mkt_yield", _) => num(&|| mm::money_mkt_yield(a(0), a(1), a(2), a(3))),
        ("twrr_n", _) => num(&|| mm::twrr_n(a(0), &w, &v)),
        ("twrr", _) => num(&|| mm::twrr(&w, &v)),
        ("curve.rate_estim", Built::Curve(x)) => num(&|| x.rate_estim(a(0))),
        ("curve.pv", Built::Curve(x)) => num(&|| x.pv(a(0), a(1))),
        ("curve.to_nominal", Built::Curve(x)) => lib(|| x.to_nominal()).map(|x| curve_s(&x)),
        ("curve.to_effective", Built::Curve(x)) => lib(|| x.to_effective()).map(|x| curve_s(&x)),
        ("curve.to_exponential", Built::Curve(x)) => lib(|| x.to_exponential()).map(|x| curve_s(&x)),
        ("rates.to_spot", Built::Curve(x)) => {
            let p = Rates::ParRates { rate: x.clone() };
            lib(|| p.to_spot()).map(|x| rates_s(&x))
        }
        ("rates.to_par", Built::Curve(x)) => {
            let p = Rates::SpotRates { rate: x.clone() };
            lib(|| p.to_par()).map(|x| rates_s(&x))
        }
        ("rates.rate_estim", Built::Curve(x)) => {
            let p = [Rates::SpotRates { rate: x.clone() }, Rates::ParRates { rate: x.clone() }, Rates::ForwardRates { rate: x.clone() }];
            lib(|| sv(&[p[0].rate_estim(a(0)), p[1].rate_estim(a(0)), p[2].rate_estim(a(0))]))
        }
        ("rates.forward_rate", Built::Curve(x)) => {
            let p = Rates::SpotRates { rate: x.clone() };
            num(&|| p.forward_rate(a(0), a(1)))
        }
        ("bond.price", Built::Bond(b, _)) => num(&|| b.price(a(0))),
        ("bond.ytm", Built::Bond(b, _)) => num(&|| b.ytm(a(0))),
        ("bond.price_ratecurve", Built::Bond(b, _)) => {
            let rc = RateCurve::NominalRateCurve { rate: (0..60).map(|i| 0.02 + 0.0005 * i as f64 + v.get(i).map_or(0.0, |x| x * 1e-3)).collect(), freq: b.freq };
            num(&|| b.price_ratecurve(&rc))
        }
        ("bond.generate_cashflow", Built::Bond(b, _)) => lib(|| b.generate_cashflow()).map(|x| sv(&x)),
        ("bond.accrued_interest", Built::Bond(b, _)) => num(&|| b.accrued_interest(a(0))),
        ("bond.pv_full", Built::Bond(b, _)) => num(&|| b.pv_full(a(0), a(1))),
        ("bond.pv_flat", Built::Bond(b, _)) => num(&|| b.pv_flat(a(0), a(1))),
        ("note.price", Built::Bond(_, n)) => num(&|| n.price(a(0), a(1))),
        ("note.discount_margin", Built::Bond(_, n)) => num(&|| n.discount_margin(a(0), a(1))),
        ("bs.calc_elements", Built::Stm { b0, .. }) => {
            let mut x = b0.clone();
            lib(|| drop(x.calc_elements())).map(|_| sm(&m_bs(&x)))
        }
        ("pl.calc_elements", Built::Stm { p, .. }) => {
            let mut x = p.clone();
            lib(|| drop(x.calc_elements())).map(|_| sm(&m_pl(&x)))
        }
        ("cf.calc_elements", Built::Stm { c, .. }) => {
            let mut x = c.clone();
            lib(|| drop(x.calc_elements())).map(|_| sm(&m_cf(&x)))
        }
        ("common_size", Built::Stm { b0, p, c, .. }) => {
            let x = lib(|| b0.common_size()).map_or("fail".into(), |x| sm(&m_bs(&x)));
            let y = lib(|| p.common_size()).map_or("fail".into(), |x| sm(&m_pl(&x)));
            let z = lib(|| c.common_size()).map_or("fail".into(), |x| sm(&m_cf(&x)));
            Ok(format!("{x}|{y}|{z}"))
        }
        ("clean", Built::Stm { b0, p, c, .. }) => {
            let (mut x, mut y, mut z) = (b0.clone(), p.clone(), c.clone());
            lib(|| {
                x.clean();
                y.clean();
                z.clean();
            })
            .map(|_| format!("{}|{}|{}", sm(&m_bs(&x)), sm(&m_pl(&y)), sm(&m_cf(&z))))
        }
        ("remove_calc_clean", Built::Stm { b0, p, c, .. }) => {
            let (mut x, mut y, mut z) = (b0.clone(), p.clone(), c.clone());
            lib(|| {
                x.remove_calc_clean();
                y.remove_calc_clean();
                z.remove_calc_clean();
            })
            .map(|_| format!("{}|{}|{}", sm(&m_bs(&x)), sm(&m_pl(&y)), sm(&m_cf(&z))))
        }
        ("transact", Built::Stm { b0, .. }) => {
            let mut x = b0.clone();
            let k = b0.len();
            lib(|| drop(x.transact((BS[k % BS.len()], BS[(k * 7 + 3) % BS.len()], a(0))))).map(|_| sm(&m_bs(&x)))
        }
        ("value", Built::Stm { b0, p, c, .. }) => lib(|| format!("{}|{}|{}", sv(&BS.iter().map(|k| b0.value(*k)).collect::<Vec<_>>()), sv(&PL.iter().map(|k| p.value(*k)).collect::<Vec<_>>()), sv(&CF.iter().map(|k| c.value(*k)).collect::<Vec<_>>()))),
        ("calc_cash_flow", Built::Stm { b0, b1, p, .. }) => lib(|| calc_cash_flow(b0, b1, p, a(0), a(1), a(2))).map(|x| sm(&m_cf(&x))),
        ("depreciation_tax_adjust", Built::Stm { p, .. }) => num(&|| depreciation_tax_adjust(p)),
        ("book.calc_elements", Built::Stm { book, .. }) => {
            let mut x = book.clone();
            lib(|| drop(x.calc_elements())).map(|_| book_s(&x))
        }
        ("book.calc_tax", Built::Stm { book, .. }) => {
            let mut x = book.clone();
            lib(|| drop(x.set_tax_rates(a(0), a(1), a(2)).calc_tax())).map(|_| book_s(&x))
        }
        ("book.calc_cash_flow", Built::Stm { book, .. }) => {
            let mut x = book.clone();
            lib(|| drop(x.set_tax_rates(a(0), a(1), a(2)).calc_cash_flow())).map(|_| book_s(&x))
        }
        ("book.format_table", Built::Stm { book, .. }) => lib(|| book.format_table(",", a(0))),
        ("book.display", Built::Stm { book, .. }) => lib(|| format!("{book}")),
        ("book.queries", Built::Stm { book, .. }) => lib(|| format!("{:?} {:?} {}", book.split_periods(), book.consecutive_profit_loss().profit_loss.keys().collect::<Vec<_>>(), book.check_dates())),
        ("report.calc_elements", Built::Stm { book, .. }) => {
            let d = |y| NDt::from_ymd_opt(y, 12, 31).unwrap();
            let mut r = book.get_account(d(2019), d(2020)).unwrap();
            r.others = Some([(FinOthersTyp::CorporateTaxRate, a(0)), (FinOthersTyp::GrossProfitTaxRate, a(1)), (FinOthersTyp::RevenueTaxRate, a(2))].into());
            lib(|| drop(r.calc_elements())).map(|_| report_s(&r))
        }
        ("report.statements", Built::Stm { book, .. }) => lib(|| book.to_financial_reports()).map(|v| v.iter().map(report_s).collect::<Vec<_>>().join("/")),
        ("check_dates", _) => {
            let p: Vec<fl::Period> = ds.windows(2).map(|x| (x[0], x[1])).collect();
            lib(|| check_dates(&p)).map(|x| x.to_string())
        }
        ("consecutive_periods", _) => {
            let p = ds.windows(2).map(|x| (x[0], x[1])).collect();
            lib(|| consecutive_periods(&p)).map(|x| format!("{x:?}"))
        }
        (f, _) => {
            violation("HARNESS", "unknown-call", f);
            Err(())
        }
    };
    r.unwrap_or_else(|_| "fail".into())
}
fn report_s(r: &FinancialReport) -> String {
    let m = rep_real(r);
    format!("{m:?}")
}
