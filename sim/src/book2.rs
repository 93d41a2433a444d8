// ------------------------------------------------------------------ views (C12)
impl<'a> Ctx<'a> {
    fn views(&mut self, op: &Op) {
        let p = self.p;
        let mode = p.mode;
        let mut snaps: Vec<(FinancialReport, Report)> = Vec::new();
        let mut subs: Vec<(Accounts, Book)> = Vec::new();
        match op {
            Op::Account { d0, d1 } => {
                // a pair of dates in order, otherwise one of the plan's periods
                let y = if d0 < d1 { (p.date(*d0 as usize), p.date(*d1 as usize)) } else { p.per(*d0 as usize + *d1 as usize) };
                self.read("C12", |w| {
                    hit(P::op_view);
                    let a = &w.a;
                    let r = lib(|| a.get_account(y.0, y.1));
                    report_matches("taking a report", mode, r, rep_model(&w.m, y), &mut snaps);
                })
            }
            Op::Reports => self.read("C12", |w| {
                hit(P::op_view);
                let a = &w.a;
                match lib(|| a.to_financial_reports()) {
                    Err(_) => violation("C12", "reports-refused", "taking the reports of a book failed"),
                    Ok(mut v) => {
                        v.sort_by_key(|r| r.period);
                        let ks: Vec<Period> = v.iter().map(|r| r.period).collect();
                        let want: Vec<Period> = w.m.pl.keys().cloned().collect();
                        if ks != want {
                            violation("C12", "reports-periods", &format!("reports are for {ks:?}, the book holds {want:?}"));
                            return;
                        }
                        for r in v {
                            let e = rep_model(&w.m, r.period);
                            report_matches("taking the reports", mode, Ok(Some(r)), e, &mut snaps);
                        }
                    }
                }
            }),
            Op::FromPeriods { mask } => self.read("C12", |w| {
                hit(P::op_view);
                let ps: BTreeSet<Period> = (0..p.periods.len()).filter(|i| mask >> (i % 32) & 1 == 1).map(|i| p.per(i)).collect();
                let a = &w.a;
                let e = w.m.from_periods(&ps);
                sub_matches("C12", "taking a sub-book", mode, lib(|| a.from_periods(ps)), e, &mut subs);
            }),
            Op::CommonSize { k, d } => self.read("C12", |w| {
                let (k, d) = (*k, *d as usize);
                let Some(s) = st(&w.m, p, k, d) else { return };
                hit(P::op_view);
                let a = &w.a;
                let r = lib(|| match k {
                    Kind::Bs => m_bs(&a.balance_sheet[&p.date(d)].common_size()),
                    Kind::Pl => m_pl(&a.profit_loss[&p.per(d)].common_size()),
                    Kind::Cf => m_cf(&a.cash_flow[&p.per(d)].common_size()),
                });
                let total = match k {
                    Kind::Bs => bs("Assets"),
                    Kind::Pl => pl("Revenue"),
                    Kind::Cf => cf("NetCashFlow"),
                };
                match (s.get(&total), r) {
                    (None, Ok(_)) => violation("C12", "common-size-accepted", &format!("a common-size copy was made without a stored {}", names(k)[total])),
                    (Some(_), Err(_)) => violation("C12", "common-size-refused", "a common-size copy was refused although the total is stored"),
                    (None, Err(_)) => {}
                    (Some(t), Ok(c)) => {
                        for i in s.keys().chain(c.keys()) {
                            let (x, e) = (val(&c, *i), val(s, *i) / t);
                            let zero = val(s, *i) == 0.0 && x == 0.0;
                            if !(x == e || zero || !x.is_finite() && !e.is_finite() || (x - e).abs() <= 1e-12 * e.abs()) {
                                violation("C12", "common-size", &format!("common-size {} is {x:?}, expected {e:?}", names(k)[*i]));
                                return;
                            }
                        }
                    }
                }
            }),
            Op::ReportCalc { p: q, drop } => self.read("C12", |w| {
                let y = p.per(*q as usize);
                let Some(mut m) = rep_model(&w.m, y) else { return };
                let dr = *drop;
                if dr & 1 != 0 {
                    m.b0 = None;
                }
                if dr & 2 != 0 {
                    m.b1 = None;
                }
                if dr & 4 != 0 {
                    m.pl = None;
                }
                if dr & 8 != 0 {
                    m.oth = None;
                }
                if dr & 16 != 0 {
                    m.cf = None;
                }
                if let (true, Some(o)) = (dr & 32 != 0, &mut m.oth) {
                    o.remove(&(*q as usize % 3));
                }
                let mut r = real_rep(&m);
                hit(P::op_report_calc);
                let ok = lib(|| {
                    r.calc_elements();
                })
                .is_ok();
                let got = rep_real(&r);
                let both = m.b0.is_some() && m.b1.is_some();
                let can = m.pl.is_some() && m.oth.is_some() && (!both || (0..3).all(|i| m.oth.as_ref().unwrap().contains_key(&i)));
                if !ok {
                    hit(P::report_calc_refused);
                    if can && both {
                        violation("C12", "report-recalculation-refused", "recalculating a report with both sheets, profit and loss and rates was refused");
                    }
                    if let Some(d) = diff_report(mode, &got, &m, &all_bit) {
                        violation("C12", "report-after-refusal", &format!("a refused recalculation changed the report: {d}"));
                    }
                    return;
                }
                let mut e = m.clone();
                for (k, s) in [(Kind::Bs, &mut e.b0), (Kind::Bs, &mut e.b1), (Kind::Pl, &mut e.pl)] {
                    if let Some(s) = s {
                        calc(k, s);
                    }
                }
                if both {
                    match (&e.pl, &e.oth) {
                        (Some(y), Some(o)) => match cash_flow(e.b0.as_ref().unwrap(), e.b1.as_ref().unwrap(), y, o) {
                            Some(c) => e.cf = Some(c),
                            None => {
                                violation("C12", "report-recalculation-accepted", "recalculating a report was accepted without its rates, the book refuses");
                                return;
                            }
                        },
                        _ => {
                            violation("C12", "report-recalculation-accepted", "recalculating a report was accepted without profit and loss or rates");
                            return;
                        }
                    }
                } else {
                    // nothing is said about the cash flow of a report without both sheets
                    e.cf = got.cf.clone();
                }
                if let Some(d) = diff_report(mode, &got, &e, &|k, i| if k == 2 { T::Tol } else { calc_tol(k, i) }) {
                    violation("C12", "report-recalculation", &format!("recalculated report: {d}"));
                }
            }),
            Op::StmtRound { p: q, wrong, shift } => self.read("C12", |w| {
                let y = p.per(*q as usize);
                let Some(m) = rep_model(&w.m, y) else { return };
                hit(P::op_view);
                let r = real_rep(&m);
                let Ok((mut b0, mut b1, mut pls, mut cfs, mut fo)) = lib(|| r.to_statements()) else {
                    violation("C12", "split-refused", "splitting a report failed");
                    return;
                };
                let got = Report {
                    period: y,
                    b0: b0.as_ref().map(|x| m_bs(&x.items)),
                    b1: b1.as_ref().map(|x| m_bs(&x.items)),
                    pl: pls.as_ref().map(|x| m_pl(&x.items)),
                    cf: cfs.as_ref().map(|x| m_cf(&x.items)),
                    oth: fo.as_ref().map(|x| m_ot(&x.items)),
                };
                if let Some(d) = diff_report(mode, &got, &m, &all_bit) {
                    violation("C12", "split", &format!("statements split from a report: {d}"));
                    return;
                }
                let dts = b0.as_ref().is_none_or(|x| x.date == y.0)
                    && b1.as_ref().is_none_or(|x| x.date == y.1)
                    && pls.as_ref().is_none_or(|x| x.period == y)
                    && cfs.as_ref().is_none_or(|x| x.period == y)
                    && fo.as_ref().is_none_or(|x| x.period == y);
                if !dts {
                    violation("C12", "split-dates", &format!("statements split from the report of {y:?} carry other dates"));
                    return;
                }
                let sh = |d: &mut NDt| *d += chrono::Duration::days(*shift as i64);
                // which end of a period is shifted
                let second = *q & 1 == 1;
                match wrong {
                    1 => b0.iter_mut().for_each(|x| sh(&mut x.date)),
                    2 => b1.iter_mut().for_each(|x| sh(&mut x.date)),
                    3 => pls.iter_mut().for_each(|x| sh(if second { &mut x.period.1 } else { &mut x.period.0 })),
                    4 => cfs.iter_mut().for_each(|x| sh(if second { &mut x.period.1 } else { &mut x.period.0 })),
                    5 => fo.iter_mut().for_each(|x| sh(if second { &mut x.period.1 } else { &mut x.period.0 })),
                    _ => {}
                }
                let py = pls.as_ref().unwrap().period;
                let agree = b0.as_ref().is_none_or(|x| x.date == py.0)
                    && b1.as_ref().is_none_or(|x| x.date == py.1)
                    && cfs.as_ref().is_none_or(|x| x.period == py)
                    && fo.as_ref().is_none_or(|x| x.period == py);
                match lib(|| FinancialReport::from_statements(&b0, &b1, &pls, &cfs, &fo)) {
                    Err(_) => violation("C12", "join-failed", "joining statements failed"),
                    Ok(None) if agree => violation("C12", "join-refused", "joining statements of the same dates was refused"),
                    Ok(Some(_)) if !agree => violation("C12", "join-accepted", "statements with different dates were joined"),
                    Ok(None) => hit(P::op_join_refused),
                    Ok(Some(j)) => {
                        let e = Report { period: py, ..m.clone() };
                        if let Some(d) = diff_report(mode, &rep_real(&j), &e, &all_bit) {
                            violation("C12", "join", &format!("report joined from its statements: {d}"));
                        }
                    }
                }
            }),
            Op::EditSnap { n, i, v } => {
                let n = *n as usize;
                let (ns, nb) = (self.snaps.len(), self.subs.len());
                if ns + nb == 0 {
                    return;
                }
                let k = n % (ns + nb);
                if k < ns {
                    let (r, m) = &mut self.snaps[k];
                    if let (Some(x), Some(y)) = (&mut r.profit_loss, &mut m.pl) {
                        x.insert(PL[*i as usize], v.0);
                        y.insert(*i as usize, v.0);
                    }
                } else {
                    let (a, m) = &mut self.subs[k - ns];
                    if let Some(s) = a.profit_loss.values_mut().next() {
                        s.insert(PL[*i as usize], v.0);
                        m.pl.values_mut().next().unwrap().insert(*i as usize, v.0);
                    }
                }
                let g = self.w.read().unwrap();
                unchanged("C12", "editing a snapshot", &g);
            }
            _ => unreachable!(),
        }
        for s in snaps {
            if self.snaps.len() < 8 {
                self.snaps.push(s);
            }
        }
        for s in subs {
            if self.subs.len() < 4 {
                self.subs.push(s);
            }
        }
    }
    /// Snapshots taken earlier still hold what they held, whatever happened to the book since.
    fn snapshots_hold(&self) {
        for (r, m) in &self.snaps {
            if let Some(d) = diff_report(Mode::Exact, &rep_real(r), m, &all_bit) {
                violation("C12", "report-moved", &format!("a report taken earlier changed with the book: {d}"));
            }
        }
        for (a, m) in &self.subs {
            if let Some(d) = diff_book(Mode::Exact, &from_real(a), m, &all_bit) {
                violation("C12", "sub-book-moved", &format!("a sub-book taken earlier changed with the book: {d}"));
            }
        }
    }
    // -------------------------------------------------------------- periods (C21)
    fn periods(&mut self, op: &Op) {
        let p = self.p;
        let mode = p.mode;
        let mut subs = Vec::new();
        match op {
            Op::ConsecPl | Op::ConsecCf => self.read("C21", |w| {
                hit(P::op_consecutive);
                let plk = *op == Op::ConsecPl;
                let ps: BTreeSet<Period> = if plk { w.m.pl.keys().cloned().collect() } else { w.m.cf.keys().cloned().collect() };
                let run = consecutive(&ps);
                if run.len() > 2 {
                    hit(P::consecutive_over_two);
                }
                if run.len() == 100 {
                    hit(P::hundred_periods);
                }
                use chrono::Datelike;
                if let Some(e) = ps.iter().map(|x| x.1).max() {
                    if run.iter().any(|x| x.0.day() != e.day()) {
                        hit(P::clamped_month_end);
                    }
                }
                let a = &w.a;
                let r = lib(|| if plk { a.consecutive_profit_loss() } else { a.consecutive_cash_flow() });
                sub_matches("C21", if plk { "the consecutive selection" } else { "the consecutive cash-flow selection" }, mode, r, w.m.from_periods(&run), &mut subs);
                // the same on every period of the plan, held or not
                let all: BTreeSet<Period> = (0..p.periods.len()).map(|i| p.per(i)).collect();
                let e = consecutive(&all);
                match lib(|| consecutive_periods(&all)) {
                    Err(_) => violation("C21", "consecutive-failed", "finding the consecutive periods failed"),
                    Ok(g) => {
                        if g != e {
                            violation("C21", "consecutive-periods", &format!("consecutive periods of {all:?} are {g:?}, expected {e:?}"));
                        }
                    }
                }
            }),
            Op::Split => self.read("C21", |w| {
                hit(P::op_split);
                let a = &w.a;
                match lib(|| a.split_periods()) {
                    Err(_) => violation("C21", "split-periods-failed", "splitting the periods failed"),
                    Ok((ann, qtr)) => {
                        for y in w.m.pl.keys() {
                            if (y.1 - y.0).num_days() == 120 {
                                hit(P::period_120_days);
                            }
                            let (x, z) = (ann.contains(y), qtr.contains(y));
                            if x == z || x != is_annual(y) {
                                violation("C21", "split-periods", &format!("{y:?} ({} days) is {} annual and {} quarterly", (y.1 - y.0).num_days(), x, z));
                                return;
                            }
                        }
                        if let Some(y) = ann.iter().chain(&qtr).find(|y| !w.m.pl.contains_key(y)) {
                            violation("C21", "split-periods", &format!("{y:?} is in a group, but not in the book"));
                        }
                    }
                }
            }),
            Op::CheckDates => self.read("C21", |w| {
                let ks: Vec<Period> = w.m.pl.keys().cloned().collect();
                let good = |v: &[Period]| v.iter().all(|y| y.0 <= y.1) && v.windows(2).all(|z| z[0].1 == z[1].0);
                let a = &w.a;
                if !ks.is_empty() {
                    let r = lib(|| a.check_dates());
                    if r != Ok(good(&ks)) {
                        violation("C21", "check-dates", &format!("the date check says {r:?} for {ks:?}"));
                        return;
                    }
                }
                // sequences that are not in a book: the plan's periods, forwards, backwards, every other
                let all: Vec<Period> = (0..p.periods.len()).map(|i| p.per(i)).collect();
                let chain: Vec<Period> = (1..p.dates.len()).map(|i| (p.dates[i - 1], p.dates[i])).collect();
                let back: Vec<Period> = chain.iter().rev().cloned().collect();
                let gap: Vec<Period> = chain.iter().step_by(2).cloned().collect();
                // the chain with one thing wrong (or only odd) at each place
                let mut seqs = vec![all, chain.clone(), back, gap];
                for i in 0..chain.len().min(12) {
                    let c = chain[i];
                    let mut v = chain.clone();
                    v[i] = (c.1, c.0);
                    seqs.push(v);
                    let mut v = chain.clone();
                    v.insert(i, (c.0, c.0));
                    seqs.push(v);
                    // an empty period that does not belong there
                    for d in [c.0 - chrono::Duration::days(1), c.1, c.1 + chrono::Duration::days(400)] {
                        let mut v = chain.clone();
                        v.insert(i, (d, d));
                        seqs.push(v);
                    }
                    let mut v = chain.clone();
                    v.push((c.0, c.0));
                    seqs.push(v);
                    let mut v = chain.clone();
                    v.insert(i + 1, (c.1, c.0));
                    v.insert(i + 2, c);
                    seqs.push(v);
                    let mut v = chain.clone();
                    v[i].1 = v[i].1 + chrono::Duration::days(1);
                    seqs.push(v);
                    let mut v = chain.clone();
                    v.insert(i, c);
                    seqs.push(v);
                    let mut v = chain.clone();
                    v.remove(i);
                    seqs.push(v);
                    seqs.push(vec![c]);
                    seqs.push(vec![(c.1, c.0)]);
                }
                for v in seqs {
                    if v.is_empty() {
                        continue;
                    }
                    let r = lib(|| check_dates(&v));
                    if r != Ok(good(&v)) {
                        violation("C21", "check-dates", &format!("the date check says {r:?} for {v:?}"));
                        return;
                    }
                }
            }),
            Op::ValidDate { d } => self.read("C21", |w| {
                let d = p.date(*d as usize);
                let a = &w.a;
                let r = lib(|| a.valid_date(d));
                if r != Ok(w.m.dates.contains(&d)) {
                    violation("C21", "valid-date", &format!("valid_date({d}) says {r:?}, dates held: {:?}", w.m.dates));
                }
            }),
            Op::SetDates => write_op(
                self,
                "C21",
                "collecting dates",
                mode,
                &all_bit,
                |m| {
                    let mut b = m.clone();
                    let mut some = vec![m.clone()];
                    let mut bad = false;
                    for y in m.pl.keys() {
                        if y.0 > y.1 {
                            bad = true;
                            break;
                        }
                        b.dates.insert(y.0);
                        b.dates.insert(y.1);
                        some.push(b.clone());
                    }
                    if bad { Exp::Refused(some) } else { Exp::Ok(b) }
                },
                |a| {
                    a.set_dates_from_profit_loss();
                },
            ),
            _ => unreachable!(),
        }
        for s in subs {
            if self.subs.len() < 4 {
                self.subs.push(s);
            }
        }
    }
    // -------------------------------------------------------------- rendering (C09)
    fn render(&mut self, op: &Op) {
        self.read("C09", |w| {
            hit(P::op_render);
            let m = &w.m;
            if m.bs.is_empty() || m.pl.is_empty() {
                hit(P::render_empty_book);
            }
            if m.bs.values().any(|s| s.keys().any(|i| !Chart::get().bs_calc[*i]) && !s.keys().any(|i| Chart::get().bs_calc[*i])) {
                hit(P::render_not_recalculated);
            }
            let a = &w.a;
            let copy = to_real(m);
            let (sep, text, again, stated) = match op {
                Op::Render { sep, mult } => {
                    let s = [",", "|", ";", "\t", "::"][*sep as usize % 5];
                    (s, lib(|| a.format_table(s, mult.0)), copy.format_table(s, mult.0), Some(mult.0))
                }
                _ => ("|", lib(|| format!("{a}")), format!("{copy}"), None),
            };
            let Ok(text) = text else {
                violation("C09", "render-panic", "rendering a book panicked");
                return;
            };
            match crate::text::check(&text, sep, m) {
                Err(e) => violation("C09", "render", &format!("rendered text: {e}")),
                Ok(s) => {
                    if stated.is_some_and(|x| x != s) {
                        violation("C09", "render-scale", &format!("the text states scale {s}, asked for {stated:?}"));
                    }
                }
            }
            if text != again {
                violation("C09", "render-differs", "the same content in another book renders to another text");
            }
            fold_bytes(text.as_bytes());
            let Op::Sink { at, io, display, seed } = op else { return };
            let full = if *display { text } else { format!("{text}\n{text}\n") };
            let mut r = Rng::new(*seed);
            // sometimes just before or just after the end
            let at = if r.chance(1, 4) { full.len() + r.below(3) - 1 } else { (*at as usize) % (full.len() + 20) };
            let other = format!("{copy}");
            let nested = r.chance(1, 2).then_some((&copy, other.as_str()));
            let mut s = Failing { got: vec![], left: at, fired: false, part: r.chance(1, 2), r, nested };
            let res = lib(|| match (*io, *display) {
                (true, true) => Write::write_fmt(&mut s, format_args!("{a}")).is_ok(),
                (true, false) => Write::write_fmt(&mut s, format_args!("{a}\n{a}\n")).is_ok(),
                (false, true) => std::fmt::Write::write_fmt(&mut s, format_args!("{a}")).is_ok(),
                (false, false) => std::fmt::Write::write_fmt(&mut s, format_args!("{a}\n{a}\n")).is_ok(),
            });
            if s.fired {
                hit(P::sink_failed);
            }
            match res {
                Err(_) => violation("C09", "sink-panic", "rendering to a failing sink panicked"),
                Ok(ok) => {
                    if ok == s.fired {
                        violation("C09", "sink-result", &format!("the sink {}, rendering reported {}", if s.fired { "failed" } else { "took everything" }, if ok { "success" } else { "an error" }));
                    } else if !full.as_bytes().starts_with(&s.got) || ok && s.got.len() != full.len() {
                        violation("C09", "sink-content", &format!("the sink holds {} bytes that are not a prefix of the text", s.got.len()));
                    }
                }
            }
        });
    }
    // -------------------------------------------------------------- export (C08)
    fn export(&mut self, file: u8, pre: u8, io: &IoPlan) {
        let dir = format!("{}/x", self.dir);
        let t = self.t;
        let name = match pre {
            4 => format!("{dir}/d{file}_{t}"),
            5 => format!("{dir}/none_{t}/f{file}.csv"),
            _ => format!("{dir}/{}", target(file, t)),
        };
        // a name without a directory is one in the working directory of the process
        let given = match (pre, file) {
            (4 | 5, _) => name.clone(),
            (_, 8) => target(file, t),
            (_, 9) => format!("./{}", target(file, t)),
            _ => name.clone(),
        };
        self.read("C08", |w| {
            hit(P::op_export);
            if !given.starts_with('/') {
                hit(P::export_relative);
            }
            let a = &w.a;
            let want = a.format_table(",", 1.0);
            match pre {
                0 => drop(std::fs::remove_file(&name)),
                1 => {
                    hit(P::export_over_longer_file);
                    std::fs::write(&name, "old content ".repeat(want.len() / 12 + 40)).unwrap()
                }
                2 => std::fs::write(&name, "old\n").unwrap(),
                3 => std::fs::write(&name, "x".repeat(want.len())).unwrap(),
                4 => {
                    let _ = std::fs::create_dir(&name);
                }
                6 => std::fs::write(&name, "").unwrap(),
                _ => {}
            }
            let sib = sibling(&dir, t);
            for s in &sib {
                std::fs::write(s, "sibling").unwrap();
            }
            let usable = pre != 4 && pre != 5;
            let old = std::fs::read(&name).ok();
            if usable {
                blob_put(4 + t, &ledger(&name, &old, want.as_bytes()));
            }
            let nw = self.sh.readers.load(std::sync::atomic::Ordering::SeqCst);
            if nw > 1 {
                hit(P::concurrent_export);
            }
            let mut old = old;
            if pre == 8 && want.len() < 4_000 {
                // more exports, failed or not, than the process may have files open
                hit(P::export_series);
                for _ in 0..50 {
                    io_arm(io);
                    let _ = lib(|| a.to_csv(&given));
                    io_disarm();
                }
                let now = std::fs::read(&name).ok();
                if usable && !(now == old || now.as_ref().is_some_and(|n| want.as_bytes().starts_with(n))) {
                    violation("C08", "export-damage", &format!("after a series of exports {}", about(&now, &want)));
                }
                old = now;
            }
            let mut failed = false;
            for attempt in 0..2 {
                let quiet = QUIET;
                io_arm(if attempt == 0 { io } else { &quiet });
                let ok = lib(|| a.to_csv(&given)).is_ok();
                let (hard, soft) = io_disarm();
                let now = std::fs::read(&name).ok();
                let complete = now.as_deref() == Some(want.as_bytes());
                if ok {
                    if soft > 0 {
                        hit(P::export_absorbed_transient);
                    }
                    if hard > 0 && attempt == 0 && !complete {
                        violation("C08", "failure-reported-as-success", &format!("the export returned normally although {hard} system calls failed; {}", about(&now, &want)));
                    } else if !complete {
                        violation("C08", "export-content", &format!("the export returned normally, but {}", about(&now, &want)));
                    } else if let Err(e) = crate::text::check(&want, ",", &w.m) {
                        violation("C08", "export-table", &format!("exported table: {e}"));
                    }
                } else {
                    hit(P::export_failed);
                    failed = true;
                    if hard == 0 && usable {
                        violation("C08", "export-refused", &format!("the export failed although nothing but transient faults ({soft}) happened{}", if attempt > 0 { " (after an earlier failed export)" } else { "" }));
                    }
                    if usable && !(now == old || now.as_ref().is_some_and(|n| want.as_bytes().starts_with(n))) {
                        violation("C08", "export-damage", &format!("after a failed export {}", about(&now, &want)));
                    }
                    if pre == 4 && !std::path::Path::new(&name).is_dir() {
                        violation("C08", "export-damage", "a failed export replaced a directory");
                    }
                }
                if ok || !usable {
                    break;
                }
            }
            for s in &sib {
                if std::fs::read(s).ok().as_deref() != Some(b"sibling") {
                    violation("C08", "sibling-touched", &format!("the export changed another file, {}", s.rsplit('/').next().unwrap()));
                }
            }
            let _ = failed;
            blob_clear(4 + t);
        });
    }
    // -------------------------------------------------------------- persistence (C07)
    fn save(&mut self, style: u8, seed: u64, io: &IoPlan) {
        let mut g = self.sh.saver.lock().unwrap();
        let seq = *g + 1;
        let slot = seq % 2;
        let path = slot_path(self.dir, slot);
        self.read("C07", |w| {
            hit(P::op_save);
            if blob(2 + slot as usize).is_some() {
                // the application discards what a failed save left behind before it reuses the slot
                let _ = std::fs::remove_file(&path);
                blob_clear(slot as usize);
            }
            blob_put(2 + slot as usize, &encode(&w.m, seq));
            io_arm(io);
            let a = &w.a;
            let r = lib(|| {
                let f = std::fs::File::create(&path).map_err(|e| e.to_string())?;
                let mut b = Chunky::new(std::io::BufWriter::new(f), seed);
                put_ron(&mut b, a, style, seed)?;
                Write::flush(&mut b).map_err(|e| e.to_string())
            });
            let (hard, _) = io_disarm();
            match r {
                Err(_) => violation("C07", "save-panic", "writing a book out panicked"),
                Ok(Err(e)) if hard == 0 => violation("C07", "save-failed", &format!("writing a book out failed without cause: {e}")),
                Ok(Err(_)) => hit(P::save_failed),
                Ok(Ok(())) => {
                    blob_put(slot as usize, &encode(&w.m, seq));
                    blob_clear(2 + slot as usize);
                    *g = seq;
                }
            }
        });
    }
    fn reload(&mut self, seed: u64, io: &IoPlan, adopt: bool) {
        let _g = self.sh.saver.lock().unwrap();
        let Some((slot, img)) = newest() else { return };
        hit(P::op_load);
        set_tag("C07");
        io_arm(io);
        let r = load(&slot_path(self.dir, slot), seed);
        let (hard, _) = io_disarm();
        set_tag("");
        match r {
            Err(_) => violation("C07", "load-panic", "loading a saved book panicked"),
            Ok(Err(_)) if hard > 0 => {}
            Ok(Err(e)) => violation("C07", "load-failed", &format!("a completely saved book was refused: {e}")),
            Ok(Ok(a)) => {
                if let Some(d) = differs(&from_real(&a), &img) {
                    violation("C07", "load-differs", &format!("a saved book came back different: {d}"));
                    return;
                }
                hit(P::load_complete);
                if adopt {
                    let mut w = self.w.write().unwrap();
                    w.a = a;
                    w.m = img;
                }
            }
        }
    }
    fn images(&mut self, op: &Op) {
        let p = self.p;
        self.read("C07", |w| {
            let (what, d, style, seed) = match op {
                Op::Round { what, d, style, seed } | Op::Torn { what, d, style, seed } | Op::Flip { what, d, style, seed, .. } => (*what, *d as usize, *style, *seed),
                Op::Sample { seed } => return sample(*seed),
                _ => unreachable!(),
            };
            let json = style & 2 != 0;
            let fl = |m: &mut Report| {
                if d & 8 != 0 {
                    m.b0 = None;
                }
                if seed & 16 != 0 {
                    m.oth = None;
                }
            };
            let rep = {
                let y = p.per(d);
                let mut m = rep_model(&w.m, y).unwrap_or(Report { period: y, b0: w.m.bs.get(&y.0).cloned(), b1: None, pl: None, cf: None, oth: None });
                fl(&mut m);
                m
            };
            let near = |x: f64, y: f64| x == y || json && (x - y).abs() <= 1e-14 * y.abs();
            let stmt = |a: &Stmt, b: &Stmt| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && near(*x.1, *y.1));
            let opt = |a: &Option<Stmt>, b: &Option<Stmt>| match (a, b) {
                (None, None) => true,
                (Some(a), Some(b)) => stmt(a, b),
                _ => false,
            };
            match what {
                0 => image("a book", op, false, &w.a, |x| x == &w.a),
                1 | 2 => {
                    let r = real_rep(&rep);
                    image("a report", op, json, &r, |x| {
                        let g = rep_real(x);
                        g.period == rep.period && opt(&g.b0, &rep.b0) && opt(&g.b1, &rep.b1) && opt(&g.pl, &rep.pl) && opt(&g.cf, &rep.cf) && opt(&g.oth, &rep.oth)
                    })
                }
                3 => {
                    let s = w.m.bs.get(&p.date(d)).cloned().unwrap_or_default();
                    let x = BalanceSheet { date: p.date(d), items: r_bs(&s) };
                    image("a balance sheet", op, json, &x, |y| y.date == x.date && stmt(&m_bs(&y.items), &s))
                }
                4 => {
                    let s = w.m.pl.get(&p.per(d)).cloned().unwrap_or_default();
                    let x = ProfitLoss { period: p.per(d), items: r_pl(&s) };
                    image("a profit and loss statement", op, json, &x, |y| y.period == x.period && stmt(&m_pl(&y.items), &s))
                }
                5 => {
                    let s = w.m.cf.get(&p.per(d)).cloned().unwrap_or_default();
                    let x = CashFlow { period: p.per(d), items: r_cf(&s) };
                    image("a cash-flow statement", op, json, &x, |y| y.period == x.period && stmt(&m_cf(&y.items), &s))
                }
                6 => {
                    let s = w.m.oth.get(&p.per(d)).cloned().unwrap_or_default();
                    let x = FinOthers { period: p.per(d), items: r_ot(&s) };
                    image("the parameters of a period", op, json, &x, |y| y.period == x.period && stmt(&m_ot(&y.items), &s))
                }
                7 => {
                    let text = valuation_ron(&rep, seed);
                    match lib(|| get_ron::<financelib::valuations::ValuationModel, _>(Chunky::new(text.as_bytes(), seed))) {
                        Ok(Ok(v)) => image("a valuation model", op, false, &v, |x| x == &v),
                        r => violation("C07", "published-image-refused", &format!("a valuation model with the published names was refused: {}", oops(r))),
                    }
                }
                _ => {
                    let mut r = Rng::new(seed);
                    let f = |r: &mut Rng| r.range(-4000, 4000) as f64 * 0.25;
                    let x = Param { unlevered: f(&mut r), shield_tax: f(&mut r), equity: f(&mut r), debt: f(&mut r), valuation: f(&mut r) };
                    image("parameters", op, json, &x, |y| {
                        near(y.unlevered, x.unlevered) && near(y.shield_tax, x.shield_tax) && near(y.equity, x.equity) && near(y.debt, x.debt) && near(y.valuation, x.valuation)
                    });
                    let c = (CUR[r.below(8)], INDUSTRY[r.below(9)]);
                    image("a currency and an industry", op, json, &c, |y| *y == c);
                }
            }
        });
    }
}
const INDUSTRY: [financelib::valuations::Industry; 9] = {
    use financelib::valuations::Industry::*;
    [General, Automotive, Aerospace, HeavyEngineering, InformationTech, Banking, Metals, Retail, Education]
};
const QUIET: IoPlan = IoPlan { faults: Vec::new(), quota: None };
fn oops<T>(r: Result<Result<T, String>, ()>) -> String {
    match r {
        Err(_) => "panic".into(),
        Ok(Err(e)) => e,
        Ok(Ok(_)) => "accepted".into(),
    }
}
fn about(now: &Option<Vec<u8>>, want: &str) -> String {
    match now {
        None => "the file is not there".into(),
        Some(n) => {
            let k = n.iter().zip(want.as_bytes()).take_while(|(a, b)| a == b).count();
            format!("the file holds {} bytes, the table has {}, the first {k} agree", n.len(), want.len())
        }
    }
}
fn sibling(dir: &str, t: usize) -> Vec<String> {
    ["keep_{t}.csv", "f0_{t}", "f1_{t}.txt", "g3_{t}.csv", "g4_{t}.csv", "g5 {t} \u{e9}.tar.csv", "g6_{t}.csv", "g7_{t}.csv"].iter().map(|n| format!("{dir}/{}", n.replace("{t}", &t.to_string()))).collect()
}
fn target(file: u8, t: usize) -> String {
    match file {
        3 => format!("g3_{t}"),
        4 => format!("G4_{t}.CSV"),
        5 => format!(" g5 {t} \u{e9}.tar.csv "),
        6 => format!(".g6_{t}"),
        7 => format!("g7_{t}.txt"),
        8 | 9 => format!("r{file}_{t}.csv"),
        10 => format!("{}_{t}.csv", "long".repeat(50)),
        _ => format!("f{file}_{t}.csv"),
    }
}
fn known_name(n: &str) -> bool {
    (0..8).any(|t| (0..11).any(|f| n == target(f, t) || n == format!("d{f}_{t}")) || sibling("", t).iter().any(|s| &s[1..] == n))
}
fn ledger(path: &str, old: &Option<Vec<u8>>, new: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut put = |b: &[u8]| {
        v.extend((b.len() as u32).to_le_bytes());
        v.extend(b);
    };
    put(path.as_bytes());
    put(if old.is_some() { b"1" } else { b"0" });
    put(old.as_deref().unwrap_or(b""));
    put(new);
    v
}
fn unledger(mut b: &[u8]) -> (String, Option<Vec<u8>>, Vec<u8>) {
    let mut take = || {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        let r = b[4..4 + n].to_vec();
        b = &b[4 + n..];
        r
    };
    let p = String::from_utf8(take()).unwrap();
    let has = take() == b"1";
    let old = take();
    (p, has.then_some(old), take())
}
fn real_rep(m: &Report) -> FinancialReport {
    FinancialReport {
        period: m.period,
        balance_sheet_beg: m.b0.as_ref().map(r_bs),
        balance_sheet_end: m.b1.as_ref().map(r_bs),
        profit_loss: m.pl.as_ref().map(r_pl),
        cash_flow: m.cf.as_ref().map(r_cf),
        others: m.oth.as_ref().map(r_ot),
    }
}
fn report_matches(what: &str, mode: Mode, got: Result<Option<FinancialReport>, ()>, want: Option<Report>, snaps: &mut Vec<(FinancialReport, Report)>) {
    match (got, want) {
        (Err(_), _) => violation("C12", "report-failed", &format!("{what} failed")),
        (Ok(None), None) => {}
        (Ok(None), Some(e)) => violation("C12", "report-missing", &format!("{what} gave nothing for {:?}, which the book holds", e.period)),
        (Ok(Some(r)), None) => violation("C12", "report-invented", &format!("{what} gave a report for {:?}, which the book does not hold", r.period)),
        (Ok(Some(r)), Some(e)) => {
            if let Some(d) = diff_report(mode, &rep_real(&r), &e, &all_bit) {
                violation("C12", "report", &format!("{what}: {d}"));
            } else {
                snaps.push((r, e));
            }
        }
    }
}
fn sub_matches(tag: &str, what: &str, mode: Mode, got: Result<Accounts, ()>, want: Book, subs: &mut Vec<(Accounts, Book)>) {
    match got {
        Err(_) => violation(tag, "sub-book-failed", &format!("{what} failed")),
        Ok(a) => {
            if let Some(d) = diff_book(mode, &from_real(&a), &want, &all_bit) {
                violation(tag, "sub-book", &format!("{what}: {d}"));
            } else {
                subs.push((a, want));
            }
        }
    }
}
fn differs(got: &Book, want: &Book) -> Option<String> {
    if got == want {
        return None;
    }
    diff_book(Mode::Exact, got, want, &all_bit).or_else(|| {
        let k: Vec<String> = keys(got).symmetric_difference(&keys(want)).take(3).cloned().collect();
        Some(format!("entries present differ: {k:?}"))
    })
}
fn newest() -> Option<(u32, Book)> {
    let mut best: Option<(u32, Book, u32)> = None;
    for s in 0..2 {
        if blob(2 + s).is_some() {
            continue;
        }
        if let Some(b) = blob(s) {
            let (m, q) = decode(b);
            if best.as_ref().is_none_or(|x| q > x.2) {
                best = Some((s as u32, m, q));
            }
        }
    }
    best.map(|x| (x.0, x.1))
}
fn load(path: &str, seed: u64) -> Result<Result<Accounts, String>, ()> {
    lib(|| {
        let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
        get_ron::<Accounts, _>(Chunky::new(std::io::BufReader::new(f), seed))
    })
}
fn image<T: Serialize + serde::de::DeserializeOwned>(what: &str, op: &Op, json: bool, x: &T, same: impl Fn(&T) -> bool) {
    let (style, seed) = match op {
        Op::Round { style, seed, .. } | Op::Torn { style, seed, .. } | Op::Flip { style, seed, .. } => (*style, *seed),
        _ => unreachable!(),
    };
    let put = |out: &mut Vec<u8>| {
        let w = Chunky::new(out, seed ^ 3);
        if json { put_json(w, x, style) } else { put_ron(w, x, style, seed) }
    };
    let get = |b: &[u8]| -> Result<T, String> {
        let r = Chunky::new(b, seed ^ 5);
        if json { get_json(r) } else { get_ron(r) }
    };
    let mut img = Vec::new();
    match lib(|| put(&mut img)) {
        Ok(Ok(())) => {}
        r => return violation("C07", "image-not-written", &format!("writing out {what} failed: {}", oops(r))),
    }
    fold_bytes(&img);
    let mut r = Rng::new(seed);
    match op {
        Op::Round { .. } => match lib(|| get(&img)) {
            Ok(Ok(y)) => {
                hit(P::round_trip);
                if !same(&y) {
                    violation("C07", "image-differs", &format!("{what} written out and read back differs: {}", String::from_utf8_lossy(&img[..img.len().min(400)])));
                }
            }
            e => violation("C07", "image-refused", &format!("{what} written out is refused when read back: {}", oops(e))),
        },
        Op::Torn { .. } => {
            let n = img.trim_ascii_end().len();
            let cut = if r.chance(1, 3) { n - 1 - r.below(n.min(12)) } else { r.below(n) };
            match lib(|| get(&img[..cut])) {
                Ok(Err(_)) => hit(P::torn_refused),
                Ok(Ok(_)) => violation("C07", "torn-image-accepted", &format!("an image of {what} torn at byte {cut} of {n} was accepted")),
                Err(_) => violation("C07", "torn-image-panic", &format!("an image of {what} torn at byte {cut} of {n} brought the reader down")),
            }
        }
        Op::Flip { n, .. } => {
            for _ in 0..*n {
                let k = r.below(img.len());
                img[k] ^= 1 << r.below(8);
            }
            match lib(|| get(&img)) {
                Ok(Err(_)) => hit(P::flip_refused),
                Ok(Ok(_)) => hit(P::flip_accepted),
                Err(_) => violation("C07", "damaged-image-panic", &format!("a damaged image of {what} brought the reader down")),
            }
        }
        _ => unreachable!(),
    }
}
/// The shipped sample book.
fn sample(seed: u64) {
    let Ok(img) = std::fs::read("/repo/testdocs/tatamotors.ron") else { return };
    match lib(|| get_ron::<Accounts, _>(Chunky::new(&img[..], seed))) {
        Ok(Ok(a)) => {
            // every item of the text is an item of the book
            let b = from_real(&a);
            let text = String::from_utf8_lossy(&img);
            let want: usize = [BS_NAMES, PL_NAMES, CF_NAMES, OT_NAMES].iter().flat_map(|v| v.iter()).map(|n| text.matches(&format!("{n}:")).count()).sum();
            let have = count_items(&b) + b.oth.values().map(|s| s.len()).sum::<usize>();
            // names that end in another name are counted twice in `want`
            if have == 0 || have > want {
                violation("C07", "sample-items", &format!("the shipped sample book has {have} items after loading"));
            }
        }
        r => violation("C07", "sample-refused", &format!("the shipped sample book is refused: {}", oops(r))),
    }
}
/// A valuation model as published, written by the harness (some of its fields cannot be built from outside).
fn valuation_ron(rep: &Report, seed: u64) -> String {
    let mut r = Rng::new(seed);
    fn st(s: &Option<Stmt>, nm: &[&str]) -> String {
        match s {
            None => "None".into(),
            Some(s) => format!("Some({{{}}})", s.iter().map(|(k, v)| format!("{}:{v:?}", nm[*k])).collect::<Vec<_>>().join(",")),
        }
    }
    let per = format!("(\"{}\",\"{}\")", rep.period.0, rep.period.1);
    let f = |r: &mut Rng| format!("{:?}", r.range(-4000, 4000) as f64 * 0.25);
    let ind = ["General", "Automotive", "Aerospace", "HeavyEngineering", "InformationTech", "Banking", "Metals", "Retail", "Education"];
    let aff: Vec<String> = ind.iter().filter(|_| r.chance(1, 2)).map(|n| format!("{n}: 0.5")).collect();
    let mut r = Rng::new(seed ^ 9);
    format!(
        "(params:{{{per}:(param:(unlevered:{},shield_tax:{},equity:{},debt:{},valuation:{}),reports:(period:{per},balance_sheet_beg:{},balance_sheet_end:{},profit_loss:{},cash_flow:{},others:{}),affiliation:{{{}}})}},shareprice:{{\"{}\":{}}})",
        f(&mut r),
        f(&mut r),
        f(&mut r),
        f(&mut r),
        f(&mut r),
        st(&rep.b0, BS_NAMES),
        st(&rep.b1, BS_NAMES),
        st(&rep.pl, PL_NAMES),
        st(&rep.cf, CF_NAMES),
        st(&rep.oth, OT_NAMES),
        aff.join(","),
        rep.period.1,
        f(&mut r)
    )
}

// ------------------------------------------------------------------ incarnations
fn recover(p: &BPlan, dir: &str, sh: &Shared, inc: usize, hash: u64) {
    set_tag("C07");
    if inc > 0 {
        hit(P::restart);
    }
    for s in 0..2usize {
        let Some(pend) = blob(2 + s) else { continue };
        let (want, _) = decode(pend);
        let old = blob(s).map(|b| decode(b).0);
        match load(&slot_path(dir, s as u32), hash ^ 11) {
            Err(_) => violation("C07", "torn-slot-panic", "loading an image torn by a crash panicked"),
            Ok(Err(_)) => {
                hit(P::load_torn_refused);
                blob_clear(s);
            }
            Ok(Ok(a)) => {
                hit(P::restart_from_torn_slot);
                let b = from_real(&a);
                if differs(&b, &want).is_none() {
                    let x = pend.to_vec();
                    blob_put(s, &x);
                } else if old.as_ref().is_some_and(|o| differs(&b, o).is_none()) {
                } else {
                    violation("C07", "torn-slot-accepted", &format!("an image torn by a crash was accepted as a different book: {}", differs(&b, &want).unwrap()));
                    blob_clear(s);
                }
            }
        }
        blob_clear(2 + s);
    }
    let w = match newest() {
        Some((slot, m)) => match load(&slot_path(dir, slot), hash ^ 12) {
            Ok(Ok(a)) => {
                hit(P::restart_from_image);
                if let Some(d) = differs(&from_real(&a), &m) {
                    violation("C07", "restart-differs", &format!("after a restart the saved book is different: {d}"));
                }
                let m = from_real(&a);
                W { a, m }
            }
            r => {
                violation("C07", "restart-refused", &format!("after a restart the saved book is refused: {}", oops(r)));
                W { a: to_real(&m), m }
            }
        },
        None => {
            let m = p.init_book();
            match p.foreign {
                Some(style) => {
                    let img = foreign_ron(&m, style);
                    match lib(|| get_ron::<Accounts, _>(Chunky::new(img.as_bytes(), hash ^ 13))) {
                        Ok(Ok(a)) => {
                            hit(P::foreign_image);
                            if let Some(d) = differs(&from_real(&a), &m) {
                                violation("C07", "published-image-differs", &format!("an image with the published names loads as something else: {d}"));
                            }
                            let m = from_real(&a);
                            W { a, m }
                        }
                        r => {
                            violation("C07", "published-image-refused", &format!("an image with the published names is refused: {}", oops(r)));
                            W { a: to_real(&m), m }
                        }
                    }
                }
                None => W { a: to_real(&m), m },
            }
        }
    };
    let seq = (0..2).filter_map(|s| blob(s).map(|b| decode(b).1)).max().unwrap_or(0);
    *sh.saver.lock().unwrap() = seq;
    fold(digest(&w.m));
    *sh.w.write().unwrap() = w;
    set_tag("");
}
impl BPlan {
    fn incarnation(&self, dir: &str, inc: usize, env: &Env, own: u8, tasks: &[Vec<Op>]) {
        if inc == 0 && self.dates.len() >= 30 && self.prop != "C21" {
            hit(P::huge_books);
        }
        if tasks.iter().any(|t| t.len() > 40) {
            hit(P::long_histories);
        }
        crate::interpose::work_in(&format!("{dir}/x"));
        let p: &'static BPlan = Box::leak(Box::new(self.clone()));
        let dir: &'static str = Box::leak(dir.to_string().into_boxed_str());
        let empty = Book::default();
        let sh: &'static Shared = Box::leak(Box::new(Shared {
            w: RwLock::new(W { a: to_real(&empty), m: empty }),
            saver: Mutex::new(0),
            readers: Default::default(),
        }));
        let h = env.hash_seed;
        run(Env { clock: env.clock, ..Env::quiet(h) }.cfg(dir), vec![Box::new(move || recover(p, dir, sh, inc, h))]);
        let bodies = tasks
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let ops: &'static [Op] = Box::leak(ops.clone().into_boxed_slice());
                Box::new(move || {
                    let w: &RwLock<W> = if own >> t & 1 == 1 {
                        hit(P::own_books);
                        let g = sh.w.read().unwrap();
                        Box::leak(Box::new(RwLock::new(W { a: g.a.clone(), m: g.m.clone() })))
                    } else {
                        &sh.w
                    };
                    let mut c = Ctx { p, t, dir, sh, w, snaps: vec![], subs: vec![] };
                    for o in ops {
                        c.exec(o);
                    }
                    c.snapshots_hold();
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        run(env.cfg(dir), bodies);
    }
    pub fn exec(&self, cx: &mut RunCtx) {
        let xdir = format!("{}/x", cx.dir);
        std::fs::create_dir_all(&xdir).unwrap();
        let n = self.incs.len();
        let saves = self.incs.iter().any(|i| i.tasks.iter().flatten().any(|o| matches!(o, Op::Save { .. })));
        for i in 0..n + saves as usize {
            let (env, own, tasks) = if i < n {
                (self.incs[i].env.clone(), self.incs[i].own, self.incs[i].tasks.clone())
            } else {
                (Env::quiet(99), 0, vec![vec![Op::CalcAll, Op::Reports, Op::Display]])
            };
            if tasks.is_empty() {
                cx.out.traces.push(vec![]);
                continue;
            }
            let nfail = shm().ctr[C_USER + P::export_failed as usize];
            let dir = cx.dir.clone();
            let end = cx.child(|| self.incarnation(&dir, i, &env, own, &tasks));
            if end == ChildEnd::Crash || end == ChildEnd::AllocAbort {
                if blob(2).is_some() || blob(3).is_some() {
                    hit(P::crash_in_save);
                }
                for t in 0..tasks.len().min(4) {
                    let Some(b) = blob(4 + t) else { continue };
                    hit(P::crash_in_export);
                    let (path, old, new) = unledger(b);
                    let now = std::fs::read(&path).ok();
                    if !(now == old || now.as_ref().is_some_and(|n| new.starts_with(n))) {
                        cx.viol("C08", "crash-damage", &format!("after a crash during an export {}", about(&now, &String::from_utf8_lossy(&new))));
                    }
                    blob_clear(4 + t);
                }
            }
            // What a failed or interrupted export leaves beside the target is the operator's to clear away.
            let mut strays: Vec<String> = std::fs::read_dir(&xdir).unwrap().map(|f| f.unwrap().file_name().to_string_lossy().to_string()).filter(|n| !known_name(n)).collect();
            strays.sort();
            if let Some(n) = strays.first().filter(|_| end == ChildEnd::Done && nfail == shm().ctr[C_USER + P::export_failed as usize]) {
                cx.viol("C08", "stray-file", &format!("successful exports left another file behind: {n}"));
            }
            for n in strays {
                let f = format!("{xdir}/{n}");
                let _ = std::fs::remove_file(&f).or_else(|_| std::fs::remove_dir_all(&f));
            }
            for t in 0..4 {
                for s in sibling(&xdir, t) {
                    if std::fs::read(&s).is_ok_and(|b| b != b"sibling") {
                        cx.viol("C08", "sibling-touched", "an export changed another file");
                    }
                }
            }
            if !cx.out.viol.is_empty() || cx.out.harness.is_some() {
                break;
            }
        }
    }
}
