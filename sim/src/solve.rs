//! C11: root searches whose objective misbehaves under the simulator's control.
use crate::rng::{F, Rng};
use crate::sched::*;
use crate::world::*;
use chrono::NaiveDate as NDt;
use financelib::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fun {
    /// a (x - r)
    Line { a: F, r: F },
    Quad { a: F, r: F, s: F },
    Cubic { a: F, r: F, s: F, t: F },
    /// a (exp(k (x - r)) - 1)
    Exp { a: F, k: F, r: F },
    /// atan(k (x - r)): the derivative dies out far away
    Atan { k: F, r: F },
    /// x^2 + c: no root
    None { c: F },
    Flat { c: F },
}
impl Fun {
    fn at(&self, x: f64) -> f64 {
        match self {
            Fun::Line { a, r } => a.0 * (x - r.0),
            Fun::Quad { a, r, s } => a.0 * (x - r.0) * (x - s.0),
            Fun::Cubic { a, r, s, t } => a.0 * (x - r.0) * (x - s.0) * (x - t.0),
            Fun::Exp { a, k, r } => a.0 * ((k.0 * (x - r.0)).exp() - 1.0),
            Fun::Atan { k, r } => (k.0 * (x - r.0)).atan(),
            Fun::None { c } => x * x + c.0,
            Fun::Flat { c } => c.0,
        }
    }
    fn roots(&self) -> Vec<f64> {
        match self {
            Fun::Line { r, .. } | Fun::Exp { r, .. } | Fun::Atan { r, .. } => vec![r.0],
            Fun::Quad { r, s, .. } => vec![r.0, s.0],
            Fun::Cubic { r, s, t, .. } => vec![r.0, s.0, t.0],
            _ => vec![],
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Gl {
    Nan,
    Inf,
    NegInf,
    Huge(F),
    Zero,
    Scale(F),
    Offset(F),
    Stuck,
    Panic,
}
impl Gl {
    fn idx(self) -> usize {
        match self {
            Gl::Nan => 0,
            Gl::Inf => 1,
            Gl::NegInf => 2,
            Gl::Huge(_) => 3,
            Gl::Zero => 4,
            Gl::Scale(_) => 5,
            Gl::Offset(_) => 6,
            Gl::Stuck => 7,
            Gl::Panic => 8,
        }
    }
}
pub const GLITCHES: [&str; 9] = ["objective_nan", "objective_inf", "objective_neg_inf", "objective_huge", "objective_zero", "objective_scaled", "objective_offset", "objective_stuck", "objective_failure"];
pub const PROBES: &[&str] = &[
    "searches", "root_found", "no_root_reported", "root_after_recovery", "liveness_judged", "failure_propagated", "cash_flow_search_found", "cash_flow_searches", "bond_searches", "bond_search_gave_up", "long_search_over_100_evaluations",
    "nested_searches", "searches_repeated_alone", "searches_in_long_series", "series_of_over_256_searches", "series_of_over_4096_searches", "long_cash_flows",
];
const P_GL: usize = 20;

/// From evaluation `from` (1-based) to `to` inclusive, every `every`-th.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Window {
    pub from: u32,
    pub to: u32,
    pub every: u32,
    pub g: Gl,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SOp {
    /// `nest`: every so many evaluations the objective runs a search of its own (0: never)
    Search { f: Fun, x0: F, xtol: F, w: Vec<Window>, nest: u32 },
    Irr { tim: Vec<F>, cf: Vec<F> },
    Xirr { days: Vec<i32>, cf: Vec<F> },
    Ytm { par: F, c: F, freq: F, t: F, price: F },
    Dm { par: F, c: F, freq: F, t: F, price: F, idx: F },
    /// the same `n` times; with `drift`, one number of it different each time
    Many { n: u32, drift: bool, op: Box<SOp> },
}
impl SOp {
    fn drifted(&self, i: u32) -> SOp {
        let d = (i % 50_000) as f64 * 1e-3;
        let mut o = self.clone();
        match &mut o {
            SOp::Search { f: Fun::Line { r, .. }, x0, .. } => {
                // root and start move together: the start stays as near as it was
                r.0 += d;
                x0.0 += d;
            }
            SOp::Search { f: Fun::None { c } | Fun::Flat { c }, .. } => c.0 += d,
            SOp::Search { f: Fun::Quad { a, .. } | Fun::Cubic { a, .. } | Fun::Exp { a, .. }, .. } => a.0 *= 1.0 + d * 1e-2,
            SOp::Search { f: Fun::Atan { .. }, .. } => {}
            SOp::Irr { cf, .. } | SOp::Xirr { cf, .. } => {
                if let Some(x) = cf.last_mut() {
                    x.0 += d
                }
            }
            SOp::Ytm { price, .. } | SOp::Dm { price, .. } => price.0 += d * 1e-3,
            SOp::Many { .. } => {}
        }
        o
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SPlan {
    pub env: Env,
    /// also make the last call of each task alone in a fresh process and compare
    pub alone: bool,
    pub tasks: Vec<Vec<SOp>>,
}
/// A series of searches ends after so many points even if more rounds were asked for.
const MANY_CAP: u64 = 100_000_000;
thread_local!(static ROUND: Cell<u32> = const { Cell::new(0) });
fn slope(r: &mut Rng) -> f64 {
    let e = r.range(-3, 5);
    let s = if r.chance(1, 3) { -1.0 } else { 1.0 };
    s * 10f64.powi(e as i32) * (1.0 + r.unit() * 9.0)
}
fn gen_glitch(r: &mut Rng, finite: bool) -> Gl {
    match r.below(if finite { 5 } else { 12 }) {
        0 => Gl::Scale(F(*r.pick(&[-1.0, 2.0, 0.5, 1e3, 1e-3, -10.0, 1.5]))),
        1 => Gl::Offset(F(*r.pick(&[1.0, -1.0, 0.01, 100.0, -1e4, 1e-3]))),
        2 => Gl::Stuck,
        3 => Gl::Huge(F(*r.pick(&[1e6, -1e6, 1e10, 1e100]))),
        4 => Gl::Scale(F(*r.pick(&[0.9, 1.1, 3.0]))),
        5 | 6 => Gl::Nan,
        7 => Gl::Inf,
        8 => Gl::NegInf,
        9 => Gl::Huge(F(*r.pick(&[1e308, -1e308, 1e200]))),
        10 => Gl::Zero,
        _ => Gl::Panic,
    }
}
impl SPlan {
    pub fn generate(seed: u64) -> SPlan {
        let mut r = Rng::new(seed);
        let mut env = Env::random(&mut r);
        if let Sched::Random { num, .. } = &mut env.sched {
            *num = (*num).max(300);
        }
        let nt = *r.pick(&[1, 2, 2, 3]);
        let mut tasks = Vec::new();
        for _ in 0..nt {
            let mut v = Vec::new();
            for _ in 0..1 + r.below(6) {
                let o = gen_op(&mut r);
                // now and then the same again several times
                for _ in 0..if r.chance(1, 12) { 1 + r.below(8) } else { 0 } {
                    v.push(o.clone());
                }
                v.push(o);
            }
            // or thousands of times
            if r.chance(1, 200) {
                let n = *r.pick(&[20, 130, 300, 300, 520, 1030, 2060, 4100, 70_000]);
                let k = r.below(v.len());
                v[k] = SOp::Many { n, drift: r.chance(1, 2), op: Box::new(v[k].clone()) };
            }
            tasks.push(v);
        }
        SPlan { env, alone: r.chance(1, 3), tasks }
    }
    pub fn shrinks(&self) -> Vec<SPlan> {
        let mut v = Vec::new();
        for t in 0..self.tasks.len() {
            if self.tasks.len() > 1 {
                let mut p = self.clone();
                p.tasks.remove(t);
                p.env.sched = Sched::Fixed { switches: vec![] };
                v.push(p);
            }
            for ops in drops(&self.tasks[t]) {
                let mut p = self.clone();
                p.tasks[t] = ops;
                p.env.sched = Sched::Fixed { switches: vec![] };
                v.push(p);
            }
        }
        for e in self.env.shrinks() {
            v.push(SPlan { env: e, ..self.clone() });
        }
        for t in 0..self.tasks.len() {
            for o in 0..self.tasks[t].len() {
                let mut put = |x: SOp| {
                    let mut p = self.clone();
                    p.tasks[t][o] = x;
                    v.push(p);
                };
                match &self.tasks[t][o] {
                    SOp::Search { f, x0, xtol, w, nest } => {
                        if *nest > 0 {
                            put(SOp::Search { f: f.clone(), x0: *x0, xtol: *xtol, w: w.clone(), nest: 0 });
                        }
                        for ws in drops(w) {
                            put(SOp::Search { f: f.clone(), x0: *x0, xtol: *xtol, w: ws, nest: *nest });
                        }
                        for k in 0..w.len() {
                            if w[k].to > w[k].from {
                                let mut ws = w.clone();
                                ws[k].to = (w[k].from + w[k].to) / 2;
                                put(SOp::Search { f: f.clone(), x0: *x0, xtol: *xtol, w: ws, nest: *nest });
                            }
                        }
                    }
                    SOp::Many { n, drift, op } => {
                        put((**op).clone());
                        for m in [n / 2, n - n / 4, n - 1] {
                            if m > 1 && m < *n {
                                put(SOp::Many { n: m, drift: *drift, op: op.clone() });
                            }
                        }
                        if *drift {
                            put(SOp::Many { n: *n, drift: false, op: op.clone() });
                        }
                    }
                    SOp::Irr { tim, cf } => {
                        for c in drops(cf) {
                            put(SOp::Irr { tim: tim.clone(), cf: c });
                        }
                    }
                    _ => {}
                }
            }
        }
        v
    }
    pub fn exec(&self, cx: &mut RunCtx) {
        let dir = cx.dir.clone();
        let end = cx.child(|| {
            let out: &'static std::sync::Mutex<Vec<(u64, u64)>> = Box::leak(Box::new(std::sync::Mutex::new(vec![(0, 0); self.tasks.len()])));
            let bodies = self
                .tasks
                .iter()
                .enumerate()
                .map(|(t, ops)| {
                    let ops: &'static [SOp] = Box::leak(ops.clone().into_boxed_slice());
                    Box::new(move || {
                        let mut last = 0;
                        for o in ops {
                            op_boundary();
                            set_tag("C11");
                            last = exec_op(o);
                            set_tag("");
                        }
                        out.lock().unwrap()[t] = (last, ROUND.get() as u64);
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            run(self.env.cfg(&dir), bodies);
            let b: Vec<u8> = out.lock().unwrap().iter().flat_map(|(x, i)| [x.to_le_bytes(), i.to_le_bytes()]).flatten().collect();
            blob_put(0, &b);
        });
        if !self.alone || end != ChildEnd::Done || !cx.out.viol.is_empty() {
            return;
        }
        let got: Vec<u64> = blob(0).unwrap_or(&[]).chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
        for (t, ops) in self.tasks.iter().enumerate() {
            let Some(op) = ops.last() else { continue };
            // the last of a series
            let op = match op {
                SOp::Many { drift: true, op, .. } => op.drifted(got.get(2 * t + 1).map_or(0, |i| *i as u32)),
                SOp::Many { op, .. } => (**op).clone(),
                o => o.clone(),
            };
            let op = match &op {
                SOp::Search { f, x0, xtol, w, .. } => SOp::Search { f: f.clone(), x0: *x0, xtol: *xtol, w: w.clone(), nest: 0 },
                o => o.clone(),
            };
            blob_clear(1);
            let end = cx.child(|| {
                let op = op.clone();
                let body = Box::new(move || {
                    probe(12);
                    set_tag("C11");
                    let h = exec_op(&op);
                    set_tag("");
                    blob_put(1, &h.to_le_bytes());
                });
                run(Env { sched: Sched::Fixed { switches: vec![] }, crash: Crash::None, ..self.env.clone() }.cfg(&dir), vec![body]);
            });
            if end != ChildEnd::Done {
                return;
            }
            let alone = blob(1).map(|x| u64::from_le_bytes(x[..8].try_into().unwrap()));
            if alone != got.get(2 * t).cloned() {
                cx.viol("C11", "search-affected", &format!("the last search of task {t} takes other points or ends otherwise than the same search made alone in a fresh process: {}", format!("{op:?}").chars().take(400).collect::<String>()));
                return;
            }
        }
    }
}
fn gen_op(r: &mut Rng) -> SOp {
    let rt = |r: &mut Rng| F((r.range(-1000, 1000) as f64) * *r.pick(&[0.001, 0.1, 0.01]));
    match r.below(10) {
        0 => {
            let n = if r.chance(1, 15) { r.below(500) } else { r.below(8) };
            let val = |r: &mut Rng| F(*r.pick(&[0.0, 1.0, -1.0, 100.0, -100.0, 1e9, -1e9, 1e308, f64::NAN, f64::INFINITY, 37.5, -62.5]));
            let tim = (0..n).map(|i| F(match r.below(8) { 0 => f64::NAN, 1 => -(i as f64), 2 => 1e6, _ => i as f64 * *r.pick(&[1.0, 0.5, 1.0]) })).collect();
            let m = if r.chance(1, 6) { n / 2 } else { n };
            SOp::Irr { tim, cf: (0..m).map(|_| if r.chance(1, 3) { val(r) } else { F(r.range(-400, 400) as f64) }).collect() }
        }
        1 => {
            let n = if r.chance(1, 15) { r.below(500) } else { r.below(7) };
            SOp::Xirr { days: (0..n).map(|_| r.range(-200_000, 400_000) as i32).collect(), cf: (0..n).map(|_| F(r.range(-400, 400) as f64)).collect() }
        }
        2 | 3 => {
            let (par, c, freq) = (*r.pick(&[100.0, 1000.0, 1.0, 0.0]), *r.pick(&[0.05, 0.0, 0.2, -0.05, 1e6]), *r.pick(&[1.0, 2.0, 4.0, 12.0, 0.5, 0.0]));
            let t = *r.pick(&[1.0, 3.0, 9.0, 30.0, 0.5, 0.0, 1000.0]);
            let price = match r.below(8) {
                0 => 0.0,
                1 => -50.0,
                2 => 1e300,
                3 => f64::NAN,
                _ => par * (0.3 + r.unit() * 1.5),
            };
            if r.chance(1, 2) {
                SOp::Ytm { par: F(par), c: F(c), freq: F(freq), t: F(t), price: F(price) }
            } else {
                SOp::Dm { par: F(par), c: F(c), freq: F(freq), t: F(t), price: F(price), idx: F(*r.pick(&[0.0, 0.0125, 0.05, -0.01, 5.0])) }
            }
        }
        k => {
            // ordinary sizes: the clause about straight lines asks for a near start
            let a = F(slope(r));
            let root = rt(r);
            let f = match if k < 7 { 0 } else { r.below(8) } {
                0 | 1 => Fun::Line { a, r: root },
                2 => Fun::Quad { a, r: root, s: F(root.0 + *r.pick(&[1.0, -3.0, 0.5, 50.0])) },
                3 => Fun::Cubic { a, r: root, s: F(root.0 + 1.0), t: F(root.0 - 2.0) },
                4 => Fun::Exp { a, k: F(*r.pick(&[0.1, 1.0, -2.0, 0.01])), r: root },
                5 => Fun::Atan { k: F(*r.pick(&[0.1, 1.0, 3.0])), r: root },
                6 => Fun::None { c: F(*r.pick(&[1.0, 1e-6, 100.0])) },
                _ => Fun::Flat { c: F(*r.pick(&[0.0, 1.0, -5.0])) },
            };
            let finite = r.chance(1, 2);
            let mut w = Vec::new();
            if r.chance(5, 6) {
                let n = 1 + r.below(3);
                for _ in 0..n {
                    let from = r.geo(*r.clone().pick(&[2, 6, 20, 80]));
                    let len = *r.pick(&[0u32, 0, 1, 1, 2, 5, 20, 100, 1_000_000]);
                    w.push(Window { from, to: (from + len).min(if finite { 120 } else { 2_000_000 }), every: *r.pick(&[1, 1, 1, 2, 3]), g: gen_glitch(r, finite) });
                }
            }
            SOp::Search { f, x0: rt(r), xtol: F(*r.pick(&[1e-6, 1e-5, 1e-4])), w, nest: if r.chance(1, 5) { 1 + r.below(6) as u32 } else { 0 } }
        }
    }
}
struct Failure;
#[derive(Clone, Copy)]
struct Ev {
    x: f64,
    y: f64,
    honest: bool,
}
/// A digest of what the search did and returned.
fn exec_op(o: &SOp) -> u64 {
    match o {
        SOp::Search { f, x0, xtol, w, nest } => search(f, x0.0, xtol.0, w, *nest),
        SOp::Irr { tim, cf } => {
            let (t, c): (Vec<f64>, Vec<f64>) = (tim.iter().map(|x| x.0).collect(), cf.iter().map(|x| x.0).collect());
            bounded("irr", t.len() + 2, false, || financelib::irr(&t, &c))
        }
        SOp::Xirr { days, cf } => {
            let b = NDt::from_ymd_opt(2000, 1, 1).unwrap();
            let d: Vec<NDt> = days.iter().map(|x| b + chrono::Duration::days(*x as i64)).collect();
            let c: Vec<f64> = cf.iter().map(|x| x.0).collect();
            bounded("xirr", d.len() + 2, false, || financelib::xirr(&d, &c))
        }
        SOp::Ytm { par, c, freq, t, price } => {
            let b = CouponBond { par: par.0, c: c.0, freq: freq.0, t_life: t.0 };
            bounded("yield-to-maturity", 4, true, || Some(b.ytm(price.0)))
        }
        SOp::Dm { par, c, freq, t, price, idx } => {
            let b = FloatingRateNotes { par: par.0, quoted_margin: c.0, freq: freq.0, t_life: t.0 };
            bounded("discount-margin", 4, true, || Some(b.discount_margin(price.0, idx.0)))
        }
        SOp::Many { n, drift, op } => {
            let mut last = 0;
            probe(13);
            if *n > 256 {
                probe(14)
            }
            if *n > 4096 {
                probe(15)
            }
            let end = pos() + MANY_CAP;
            for i in 0..*n {
                op_boundary();
                ROUND.set(i);
                last = if *drift { exec_op(&op.drifted(i)) } else { exec_op(op) };
                if shm().ntext > 0 || pos() > end {
                    break;
                }
            }
            last
        }
    }
}
fn bounded(name: &str, unit: usize, may_fail: bool, f: impl FnOnce() -> Option<f64>) -> u64 {
    probe(if may_fail { 8 } else { 7 });
    if unit > 50 {
        probe(16)
    }
    let n0 = task_points(K_LIBM);
    let r = lib(f);
    let n = task_points(K_LIBM) - n0;
    if n > 1000 * unit as u64 {
        violation("C11", "unbounded-work", &format!("{name} made {n} evaluations of powers for an input of size {}", unit - 2));
    }
    match r {
        Err(_) => {
            if may_fail {
                probe(9)
            } else {
                violation("C11", "search-panic", &format!("{name} panicked"))
            }
            7
        }
        Ok(x) => {
            if !may_fail && x.is_some() {
                probe(6);
            }
            if x.is_some_and(|x| !x.is_finite()) {
                violation("C11", "root-from-non-finite", &format!("{name} reported {x:?}"));
            }
            let h = x.map_or(1, |x| if x.is_nan() { 2 } else { x.to_bits() });
            fold(h);
            h
        }
    }
}
/// A search of the objective's own, while the outer one waits for its answer.
fn nested(k: u32) {
    probe(11);
    let r = match k % 3 {
        0 => financelib::irr(&vec![0.0, 1.0], &vec![-100.0, 110.0]).is_some_and(|x| (x - 0.1).abs() < 1e-4),
        1 => {
            let f = |x: f64| {
                yield_point(K_CALLBACK);
                2.0 * (x - 3.0)
            };
            financelib::newt_raph(&f, 2.0, 1e-6).is_some_and(|x| (x - 3.0).abs() < 1e-4)
        }
        _ => {
            let f = |x: f64| -> f64 {
                yield_point(K_CALLBACK);
                if x == 1.0 { 5.0 } else { std::panic::resume_unwind(Box::new(Failure)) }
            };
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| financelib::newt_raph(&f, 1.0, 1e-6))).is_err()
        }
    };
    if !r {
        violation("C11", "nested-search", "a search made by the objective of another search goes wrong");
    }
}
fn search(f: &Fun, x0: f64, xtol: f64, w: &[Window], nest: u32) -> u64 {
    probe(0);
    let n = Cell::new(0u32);
    let last = Cell::new(0.0f64);
    let ev: RefCell<Vec<Ev>> = RefCell::new(Vec::with_capacity(1200));
    let failed_at = Cell::new(0u32);
    let runaway = Cell::new(false);
    let obj = |x: f64| -> f64 {
        yield_point(K_CALLBACK);
        n.set(n.get() + 1);
        let k = n.get();
        if k > 1000 {
            runaway.set(true);
            std::panic::resume_unwind(Box::new(Failure));
        }
        if failed_at.get() > 0 {
            // evaluated again after it failed; noted by the count
            return 0.0;
        }
        if nest > 0 && k % nest == 0 {
            nested(k / nest);
        }
        let honest = f.at(x);
        let g = w.iter().find(|w| k >= w.from && k <= w.to && (k - w.from) % w.every == 0).map(|w| w.g);
        let y = match g {
            None => honest,
            Some(Gl::Nan) => f64::NAN,
            Some(Gl::Inf) => f64::INFINITY,
            Some(Gl::NegInf) => f64::NEG_INFINITY,
            Some(Gl::Huge(h)) => h.0,
            Some(Gl::Zero) => 0.0,
            Some(Gl::Scale(s)) => honest * s.0,
            Some(Gl::Offset(s)) => honest + s.0,
            Some(Gl::Stuck) => last.get(),
            Some(Gl::Panic) => {
                failed_at.set(k);
                probe(P_GL + Gl::Panic.idx());
                std::panic::resume_unwind(Box::new(Failure));
            }
        };
        if let Some(g) = g {
            probe(P_GL + g.idx());
        }
        last.set(y);
        fold(if y.is_nan() { 3 } else { y.to_bits() });
        ev.borrow_mut().push(Ev { x, y, honest: g.is_none() });
        y
    };
    let r = lib(|| financelib::newt_raph(&obj, x0, xtol));
    let n = n.get();
    let e = ev.borrow();
    let what = || format!("{f:?} from {x0:?}, faults {w:?}");
    if n > 100 {
        probe(10);
    }
    let trace = {
        let b: Vec<u8> = e.iter().flat_map(|v| v.x.to_bits().to_le_bytes()).chain((n as u64).to_le_bytes()).collect();
        let z = |x: f64| if x.is_nan() { 2 } else { x.to_bits() };
        hash_bytes(&b) ^ match &r { Err(_) => 7, Ok(None) => 1, Ok(Some(x)) => z(*x) }
    };
    if runaway.get() {
        violation("C11", "endless", &format!("the search went on after 1000 evaluations of {}", what()));
        return trace;
    }
    if failed_at.get() > 0 {
        probe(5);
        if r.is_ok() {
            violation("C11", "failure-swallowed", &format!("the objective failed at evaluation {}, the search returned {r:?}", failed_at.get()));
        } else if n > failed_at.get() {
            violation("C11", "evaluated-after-failure", &format!("the objective failed at evaluation {} and was evaluated {} times more", failed_at.get(), n - failed_at.get()));
        }
        return trace;
    }
    let Ok(res) = r else {
        violation("C11", "search-panic", &format!("the search panicked: {}", what()));
        return trace;
    };
    let near = |x: f64| f.roots().iter().any(|r| (x - r).abs() <= 1e-5 * (1.0 + r.abs()));
    match res {
        None => probe(2),
        Some(x) => {
            probe(1);
            let k = e.len();
            if k == 0 || !x.is_finite() || e[k.saturating_sub(2)..].iter().any(|v| !v.y.is_finite()) {
                violation("C11", "root-from-non-finite", &format!("root {x:?} reported from evaluations {:?}; {}", e[k.saturating_sub(2)..].iter().map(|v| v.y).collect::<Vec<_>>(), what()));
            } else if k >= 4 && e[k - 4..].iter().all(|v| v.honest) {
                if e.iter().any(|v| !v.honest) {
                    probe(3);
                }
                if !near(x) {
                    violation("C11", "false-root", &format!("{x:?} reported as a root, roots are {:?}, after {k} evaluations; {}", f.roots(), what()));
                }
            }
        }
    }
    // straight line, finite faults over by evaluation 120, still near and running
    if let Fun::Line { .. } = f {
        let end = e.iter().rposition(|v| !v.honest).map_or(0, |i| i + 1);
        let finite = e.iter().all(|v| v.y.is_finite());
        if finite && end <= 120 && e.len() >= end + 3 && e[end..end + 3].iter().all(|v| v.x.abs() <= 1e4) {
            probe(4);
            if n as usize > end + 40 || !res.is_some_and(near) {
                violation("C11", "no-recovery", &format!("the objective answered correctly from evaluation {} on, after {} evaluations the result is {res:?}; {}", end + 1, n, what()));
            }
        }
    }
    fold(res.map_or(1, |x| if x.is_nan() { 2 } else { x.to_bits() }));
    state_seen(hash_bytes(format!("{} {:?}", n, res.map(|x| x.to_bits())).as_bytes()));
    trace
}
