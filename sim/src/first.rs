//! C02: the first calls into the library of a fresh process, racing.
use crate::chart::*;
use crate::model::*;
use crate::rng::{F, Rng};
use crate::sched::*;
use crate::world::*;
use chrono::NaiveDate as NDt;
use financelib::statements::*;
use serde::{Deserialize, Serialize};

type Ent = Vec<(u16, F)>;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FOp {
    IsCalc { k: Kind, i: u16 },
    IsCalcAll { k: Kind },
    Debit { i: u16, v: F },
    Credit { i: u16, v: F },
    Transact { a: u16, b: u16, v: F },
    DebitAll,
    Add { k: Kind, i: u16, v: F },
    Upsert { k: Kind, i: u16, v: F },
    Calc { k: Kind, e: Ent },
    Rcc { k: Kind, e: Ent },
    CashFlow { b0: Ent, b1: Ent, p: Ent },
    Put { k: Kind, i: u16, v: F },
    BookCalc { b0: Ent, b1: Ent, p: Ent, c: Ent },
    BookTax { p: Ent },
    BookFlow { b0: Ent, b1: Ent, p: Ent },
    BookRcc { b0: Ent, p: Ent },
    Report { b0: Ent, b1: Ent, p: Ent },
    Render { b0: Ent, p: Ent },
    Display { b0: Ent, p: Ent },
}
pub const PROBES: &[&str] = &[
    "is_calc", "is_calc_all", "debit", "credit", "transact", "debit_all", "add", "upsert", "calc", "remove_calc", "cash_flow", "put", "book_calc", "book_tax", "book_flow", "book_remove_calc", "report_calc", "render", "display",
    "first_ops_overlapped",
];
impl FOp {
    fn idx(&self) -> usize {
        use FOp::*;
        match self {
            IsCalc { .. } => 0,
            IsCalcAll { .. } => 1,
            Debit { .. } => 2,
            Credit { .. } => 3,
            Transact { .. } => 4,
            DebitAll => 5,
            Add { .. } => 6,
            Upsert { .. } => 7,
            Calc { .. } => 8,
            Rcc { .. } => 9,
            CashFlow { .. } => 10,
            Put { .. } => 11,
            BookCalc { .. } => 12,
            BookTax { .. } => 13,
            BookFlow { .. } => 14,
            BookRcc { .. } => 15,
            Report { .. } => 16,
            Render { .. } => 17,
            Display { .. } => 18,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FPlan {
    pub env: Env,
    pub tasks: Vec<Vec<FOp>>,
}
fn ents(r: &mut Rng, k: Kind, stale: bool) -> Ent {
    let ch = Chart::get();
    let n = names(k).len();
    let dense = r.chance(1, 3);
    let mut v = Vec::new();
    for i in 0..n {
        if !ch.is_calc(k, i) && (dense || r.chance(1, 5)) || (stale && ch.is_calc(k, i) && r.chance(1, 6)) {
            v.push((i as u16, F(r.range(-4000, 4000) as f64 * 0.25)));
        }
    }
    v
}
fn gen_op(r: &mut Rng) -> FOp {
    let k = *r.pick(&[Kind::Bs, Kind::Pl, Kind::Cf]);
    let i = r.below(names(k).len()) as u16;
    let b = |r: &mut Rng| r.below(BS.len()) as u16;
    let v = F(r.range(1, 400) as f64 * 0.25);
    match r.below(19) {
        0 => FOp::IsCalc { k, i },
        1 => FOp::IsCalcAll { k },
        2 => FOp::Debit { i: b(r), v },
        3 => FOp::Credit { i: b(r), v },
        4 => FOp::Transact { a: b(r), b: b(r), v },
        5 => FOp::DebitAll,
        6 => FOp::Add { k, i, v },
        7 => FOp::Upsert { k, i, v },
        8 => FOp::Calc { k, e: ents(r, k, true) },
        9 => FOp::Rcc { k, e: ents(r, k, true) },
        10 => FOp::CashFlow { b0: ents(r, Kind::Bs, false), b1: ents(r, Kind::Bs, false), p: ents(r, Kind::Pl, true) },
        11 => FOp::Put { k, i, v },
        12 => FOp::BookCalc { b0: ents(r, Kind::Bs, true), b1: ents(r, Kind::Bs, true), p: ents(r, Kind::Pl, true), c: ents(r, Kind::Cf, true) },
        13 => FOp::BookTax { p: ents(r, Kind::Pl, true) },
        14 => FOp::BookFlow { b0: ents(r, Kind::Bs, true), b1: ents(r, Kind::Bs, true), p: ents(r, Kind::Pl, true) },
        15 => FOp::BookRcc { b0: ents(r, Kind::Bs, true), p: ents(r, Kind::Pl, true) },
        16 => FOp::Report { b0: ents(r, Kind::Bs, true), b1: ents(r, Kind::Bs, true), p: ents(r, Kind::Pl, true) },
        17 => FOp::Render { b0: ents(r, Kind::Bs, true), p: ents(r, Kind::Pl, true) },
        _ => FOp::Display { b0: ents(r, Kind::Bs, true), p: ents(r, Kind::Pl, true) },
    }
}
impl FPlan {
    pub fn generate(seed: u64) -> FPlan {
        let mut r = Rng::new(seed);
        let mut env = Env::random(&mut r);
        if let Sched::Random { num, .. } = &mut env.sched {
            *num = *r.pick(&[100, 600, 3000, 12_000, 30_000]);
        }
        let nt = 2 + r.below(4);
        let tasks = (0..nt).map(|_| (0..1 + r.below(3)).map(|_| gen_op(&mut r)).collect()).collect();
        FPlan { env, tasks }
    }
    pub fn shrinks(&self) -> Vec<FPlan> {
        let mut v = Vec::new();
        for t in 0..self.tasks.len() {
            if self.tasks.len() > 1 {
                let mut p = self.clone();
                p.tasks.remove(t);
                v.push(p.clone());
                p.env.sched = Sched::Fixed { switches: vec![] };
                v.push(p);
            }
            for ops in drops(&self.tasks[t]) {
                let mut p = self.clone();
                p.tasks[t] = ops;
                v.push(p);
            }
        }
        for e in self.env.shrinks() {
            v.push(FPlan { env: e, tasks: self.tasks.clone() });
        }
        v
    }
    pub fn exec(&self, cx: &mut RunCtx) {
        let dir = cx.dir.clone();
        cx.child(|| {
            let inside: &'static std::sync::atomic::AtomicU32 = Box::leak(Box::new(Default::default()));
            let bodies = self
                .tasks
                .iter()
                .map(|ops| {
                    let ops: &'static [FOp] = Box::leak(ops.clone().into_boxed_slice());
                    Box::new(move || {
                        for (n, o) in ops.iter().enumerate() {
                            op_boundary();
                            probe(o.idx());
                            set_tag("C02");
                            if inside.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 0 && n == 0 {
                                probe(19);
                            }
                            if let Err(e) = exec_op(o) {
                                violation("C02", e.0, &format!("{} ({o:?})", e.1));
                            }
                            inside.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                            set_tag("");
                        }
                        // every thread ends with the whole chart in view
                        set_tag("C02");
                        for o in [FOp::IsCalcAll { k: Kind::Bs }, FOp::IsCalcAll { k: Kind::Pl }, FOp::IsCalcAll { k: Kind::Cf }, FOp::DebitAll] {
                            if let Err(e) = exec_op(&o) {
                                violation("C02", e.0, &format!("afterwards: {}", e.1));
                            }
                        }
                        set_tag("");
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            run(self.env.cfg(&dir), bodies);
        });
    }
}
type E = (&'static str, String);
fn stmt(e: &Ent) -> Stmt {
    e.iter().map(|(k, v)| (*k as usize, v.0)).collect()
}
fn is_calc(k: Kind, i: usize) -> Result<bool, ()> {
    lib(|| match k {
        Kind::Bs => BS[i].is_calc(),
        Kind::Pl => PL[i].is_calc(),
        Kind::Cf => CF[i].is_calc(),
    })
}
fn chk_calc(k: Kind, i: usize) -> Result<(), E> {
    let r = is_calc(k, i);
    let e = Chart::get().is_calc(k, i);
    if r != Ok(e) { Err(("is-calc", format!("is_calc of {} says {r:?}, expected {e}", names(k)[i]))) } else { Ok(()) }
}
fn cmp(what: &'static str, k: usize, got: &Stmt, want: &Stmt) -> Result<(), E> {
    fold(hash_bytes(format!("{got:?}").as_bytes()));
    diff_stmt(Mode::Exact, k, got, want, &|_, _| T::Tol).map_or(Ok(()), |d| Err((what, d)))
}
fn day(n: i32) -> NDt {
    NDt::from_ymd_opt(2020 + n, 3, 31).unwrap()
}
fn a_book(b0: &Ent, b1: &Ent, p: &Ent, c: &Ent) -> Book {
    let y = (day(0), day(1));
    Book {
        dates: [day(0), day(1)].into(),
        bs: [(day(0), stmt(b0)), (day(1), stmt(b1))].into(),
        pl: [(y, stmt(p))].into(),
        cf: if c.is_empty() { Default::default() } else { [(y, stmt(c))].into() },
        oth: [(y, [(CT, 0.25), (GT, 0.0625), (MT, 0.125)].into())].into(),
        ..Default::default()
    }
}
fn cmp_book(what: &'static str, a: &Accounts, want: &Book) -> Result<(), E> {
    let got = from_real(a);
    fold(digest(&got));
    diff_book(Mode::Exact, &got, want, &|_, _| T::Tol).map_or(Ok(()), |d| Err((what, d)))
}
fn failed<T>(what: &'static str, r: Result<T, ()>) -> Result<T, E> {
    r.map_err(|_| (what, "the first use failed".to_string()))
}
fn refusal(what: &'static str, ok: bool, want: bool) -> Result<(), E> {
    if ok != want { Err((what, format!("was {}, expected {}", if ok { "accepted" } else { "refused" }, if want { "accepted" } else { "refused" }))) } else { Ok(()) }
}
fn exec_op(o: &FOp) -> Result<(), E> {
    let ch = Chart::get();
    match o {
        FOp::IsCalc { k, i } => chk_calc(*k, *i as usize),
        FOp::IsCalcAll { k } => (0..names(*k).len()).try_for_each(|i| chk_calc(*k, i)),
        FOp::Debit { i, v } | FOp::Credit { i, v } => {
            let (i, credit) = (*i as usize, matches!(o, FOp::Credit { .. }));
            let mut m = BsMap::new();
            let ok = lib(|| {
                if credit { m.credit(BS[i], v.0) } else { m.debit(BS[i], v.0) };
            })
            .is_ok();
            let d = ch.debit[i] * if credit { -1.0 } else { 1.0 };
            refusal("posting", ok, d != 0.0)?;
            let e: Stmt = if d == 0.0 { Stmt::new() } else { [(i, d * v.0)].into() };
            cmp("posting-direction", 0, &m_bs(&m), &e)
        }
        FOp::Transact { a, b, v } => {
            let (a, b) = (*a as usize, *b as usize);
            let mut m = BsMap::new();
            let ok = lib(|| {
                m.transact((BS[a], BS[b], v.0));
            })
            .is_ok();
            let can = ch.debit[a] != 0.0 && ch.debit[b] != 0.0;
            refusal("posting", ok, can)?;
            let mut e = Stmt::new();
            if can {
                *e.entry(a).or_insert(0.0) += ch.debit[a] * v.0;
                *e.entry(b).or_insert(0.0) -= ch.debit[b] * v.0;
            }
            cmp("posting-direction", 0, &m_bs(&m), &e)
        }
        FOp::DebitAll => {
            let mut m = BsMap::new();
            let mut e = Stmt::new();
            for i in (0..BS.len()).filter(|i| ch.debit[*i] != 0.0) {
                failed("posting", lib(|| drop(m.debit(BS[i], 1.0))))?;
                e.insert(i, ch.debit[i]);
            }
            cmp("posting-direction", 0, &m_bs(&m), &e)
        }
        FOp::Add { k, i, v } | FOp::Upsert { k, i, v } => {
            let (k, i, add) = (*k, *i as usize, matches!(o, FOp::Add { .. }));
            let (mut b, mut p, mut c) = (BsMap::new(), PlMap::new(), CfMap::new());
            let ok = lib(|| match (k, add) {
                (Kind::Bs, true) => drop(b.add(BS[i], v.0)),
                (Kind::Bs, false) => drop(b.upsert(BS[i], v.0)),
                (Kind::Pl, true) => drop(p.add(PL[i], v.0)),
                (Kind::Pl, false) => drop(p.upsert(PL[i], v.0)),
                (Kind::Cf, true) => drop(c.add(CF[i], v.0)),
                (Kind::Cf, false) => drop(c.upsert(CF[i], v.0)),
            })
            .is_ok();
            let can = !ch.is_calc(k, i);
            refusal("entry", ok, can)?;
            let got = [m_bs(&b), m_pl(&p), m_cf(&c)];
            let e: Stmt = if can { [(i, v.0)].into() } else { Stmt::new() };
            cmp("entry", k as usize, &got[k as usize], &e)
        }
        FOp::Calc { k, e } | FOp::Rcc { k, e } => {
            let rcc = matches!(o, FOp::Rcc { .. });
            let mut w = stmt(e);
            let (mut b, mut p, mut c) = (BsMap::new(), PlMap::new(), CfMap::new());
            match k {
                Kind::Bs => b = r_bs(&w),
                Kind::Pl => p = r_pl(&w),
                Kind::Cf => c = r_cf(&w),
            }
            let r = lib(|| match (k, rcc) {
                (Kind::Bs, false) => drop(b.calc_elements()),
                (Kind::Bs, true) => drop(b.remove_calc_clean()),
                (Kind::Pl, false) => drop(p.calc_elements()),
                (Kind::Pl, true) => drop(p.remove_calc_clean()),
                (Kind::Cf, false) => drop(c.calc_elements()),
                (Kind::Cf, true) => drop(c.remove_calc_clean()),
            });
            failed("recalculation", r)?;
            if rcc { remove_calc_clean(*k, &mut w) } else { calc(*k, &mut w) }
            let got = [m_bs(&b), m_pl(&p), m_cf(&c)];
            cmp("recalculation", *k as usize, &got[*k as usize], &w)
        }
        FOp::CashFlow { b0, b1, p } => {
            let (x0, x1, y) = (stmt(b0), stmt(b1), stmt(p));
            let (r0, r1, ry) = (r_bs(&x0), r_bs(&x1), r_pl(&y));
            let mut c = failed("derivation", lib(|| calc_cash_flow(&r0, &r1, &ry, 0.25, 0.0625, 0.125)))?;
            failed("derivation", lib(|| drop(c.calc_elements())))?;
            let e = cash_flow(&x0, &x1, &y, &[(CT, 0.25), (GT, 0.0625), (MT, 0.125)].into()).unwrap();
            cmp("derivation", 2, &m_cf(&c), &e)
        }
        FOp::Put { k, i, v } => {
            let (k, i) = (*k, *i as usize);
            let one = vec![((1 - (k as u16).min(1)), F(1.0))];
            let mut m = a_book(&one, &one, &one, &vec![(0, F(1.0))]);
            let mut a = to_real(&m);
            let y = (day(0), day(1));
            let ok = lib(|| match k {
                Kind::Bs => drop(a.put_balance_sheet(day(0), BS[i], v.0)),
                Kind::Pl => drop(a.put_profit_loss(y, PL[i], v.0)),
                Kind::Cf => drop(a.put_cash_flow(y, CF[i], v.0)),
            })
            .is_ok();
            let can = !ch.is_calc(k, i);
            refusal("entry", ok, can)?;
            if can {
                match k {
                    Kind::Bs => m.bs.get_mut(&day(0)).unwrap().insert(i, v.0),
                    Kind::Pl => m.pl.get_mut(&y).unwrap().insert(i, v.0),
                    Kind::Cf => m.cf.get_mut(&y).unwrap().insert(i, v.0),
                };
            }
            cmp_book("entry", &a, &m)
        }
        FOp::BookCalc { b0, b1, p, c } => {
            let mut m = a_book(b0, b1, p, c);
            let mut a = to_real(&m);
            failed("recalculation", lib(|| drop(a.calc_elements())))?;
            m.calc_all();
            cmp_book("recalculation", &a, &m)
        }
        FOp::BookTax { p } => {
            let m = a_book(&vec![], &vec![], p, &vec![]);
            let mut a = to_real(&m);
            failed("tax", lib(|| drop(a.calc_tax())))?;
            let y = (day(0), day(1));
            let mut s = m.pl[&y].clone();
            calc(Kind::Pl, &mut s);
            let (t, got) = (tax(&s, &m.oth[&y]), m_pl(&a.profit_loss[&y]));
            let x = val(&got, pl("TaxesCurrent"));
            fold(x.to_bits());
            if (x - t).abs() > 1e-6 { Err(("tax", format!("current tax is {x}, expected {t}"))) } else { Ok(()) }
        }
        FOp::BookFlow { b0, b1, p } => {
            let mut m = a_book(b0, b1, p, &vec![]);
            let mut a = to_real(&m);
            failed("derivation", lib(|| drop(a.calc_cash_flow())))?;
            let y = (day(0), day(1));
            let c = cash_flow(&m.bs[&y.0], &m.bs[&y.1], &m.pl[&y], &m.oth[&y]).unwrap();
            m.cf.insert(y, c);
            cmp_book("derivation", &a, &m)
        }
        FOp::BookRcc { b0, p } => {
            let mut m = a_book(b0, b0, p, &vec![]);
            let mut a = to_real(&m);
            failed("recalculation", lib(|| drop(a.remove_calc_clean())))?;
            m.rcc_all();
            cmp_book("recalculation", &a, &m)
        }
        FOp::Report { b0, b1, p } => {
            let mut m = a_book(b0, b1, p, &vec![]);
            let y = (day(0), day(1));
            let mut r = to_real(&m).get_account(y.0, y.1).unwrap();
            failed("recalculation", lib(|| drop(r.calc_elements())))?;
            m.calc_all();
            let c = cash_flow(&m.bs[&y.0], &m.bs[&y.1], &m.pl[&y], &m.oth[&y]).unwrap();
            m.cf.insert(y, c);
            let e = rep_model(&m, y).unwrap();
            diff_report(Mode::Exact, &rep_real(&r), &e, &|_, _| T::Tol).map_or(Ok(()), |d| Err(("recalculation", d)))
        }
        FOp::Render { b0, p } | FOp::Display { b0, p } => {
            let m = a_book(b0, b0, p, &vec![]);
            let a = to_real(&m);
            let disp = matches!(o, FOp::Display { .. });
            let t = failed("rendering", lib(|| if disp { format!("{a}") } else { a.format_table("|", 1.0) }))?;
            fold(hash_bytes(t.as_bytes()));
            crate::text::check(&t, "|", &m).map(drop).map_err(|e| ("rendering", e))
        }
    }
}
