//! finsim: deterministic simulation of n-kishaloy/financelib with fault injection.
//!
//!   finsim check --prop C01 --tier quick|thorough --seed N [--runs N] [--wall S] [--workers N]
//!   finsim replay FILE        re-run a replay file; exit 1 if the violation is still there
//!   finsim one --prop C01 --run I --seed N [--dump]
//!   finsim digests --prop C01 --seed N --runs N [--workers N]   one digest per run (determinism)
#![recursion_limit = "256"]
#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dropping_references, dropping_copy_types)]
mod book;
mod chart;
mod first;
mod interpose;
mod iso;
mod model;
mod rng;
mod sched;
mod solve;
mod text;
mod world;

use sched::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;
use world::*;

const EXIT_HARNESS: i32 = 2;

fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    rng::mix(rng::mix(seed, hash_bytes(prop.as_bytes())), i)
}
struct Args(BTreeMap<String, String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|x| x.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |x| x.parse().unwrap_or_else(|_| fail(&format!("bad number for --{k}"))))
    }
}
fn fail(m: &str) -> ! {
    eprintln!("finsim: {m}");
    std::process::exit(EXIT_HARNESS)
}
fn main() {
    // a backtrace printed by std allocates, and how often depends on addresses
    unsafe { std::env::set_var("RUST_BACKTRACE", "0") };
    chart::Chart::get();
    interpose::init_libm();
    std::panic::set_hook(Box::new(|info| {
        if interpose::task() >= 0 {
            if !interpose::active() {
                let m = format!("panic in the harness: {info}");
                violation("HARNESS", "panic", &m);
                die(END_HARNESS);
            }
        } else {
            eprintln!("finsim: {info}");
        }
    }));
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let (mut kv, mut pos) = (BTreeMap::new(), Vec::new());
    let mut it = it.peekable();
    while let Some(a) = it.next() {
        match a.strip_prefix("--") {
            Some(k) => {
                let v = if it.peek().is_some_and(|x| !x.starts_with("--")) { it.next().unwrap() } else { "1".into() };
                kv.insert(k.to_string(), v);
            }
            None => pos.push(a),
        }
    }
    let a = Args(kv);
    let code = match cmd.as_str() {
        "check" => check(&a),
        "replay" => replay(pos.first().unwrap_or_else(|| fail("replay needs a file"))),
        "one" => one(&a),
        "digests" => digests(&a),
        _ => fail("usage: finsim check|replay|one|digests"),
    };
    std::process::exit(code)
}
/// A scratch directory of this process, removed again at the end.
struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let d = format!("/tmp/finsim-{}", std::process::id());
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap_or_else(|e| fail(&format!("cannot create {d}: {e}")));
        set_shm(new_shm());
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------ the batch
struct Ctl {
    next: AtomicU64,
    min_bad: AtomicU64,
}
fn shared_ctl() -> &'static Ctl {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let c = &*(p as *const Ctl);
        c.min_bad.store(u64::MAX, Ordering::SeqCst);
        c
    }
}
#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Stats {
    runs: u64,
    children: u64,
    steps: u64,
    pos: u64,
    cov: Vec<u32>,
    nontrivial: u64,
    max_steps: u64,
    truncated: u64,
    ctr: Vec<u64>,
    /// in how many runs each counter was non-zero
    runs_with: Vec<u64>,
    ends: BTreeMap<String, u64>,
    rerun: u64,
    retried: u64,
    rerun_differs: Vec<u64>,
    harness: Vec<(u64, String)>,
    bad: Vec<(u64, String, String)>,
    other: BTreeMap<String, u64>,
    histories: HashSet<u64>,
    schedules: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<(usize, u64)>,
    digests: Vec<(u64, u64)>,
}
struct Batch {
    prop: String,
    seed: u64,
    runs: u64,
    wall: f64,
    workers: usize,
    keep_digests: bool,
}
fn is_fault(i: usize) -> bool {
    (C_IO..C_IO + 9).contains(&i) || matches!(i, C_QUOTA | C_CRASH | C_ALLOCFAIL)
}
fn work(b: &Batch, k: usize, dir: &str, ctl: &Ctl, t0: Instant) -> Stats {
    set_shm(new_shm());
    let mut s = Stats { ctr: vec![0; NC], runs_with: vec![0; NC], ..Default::default() };
    let wd = format!("{dir}/w{k}");
    loop {
        let i = ctl.next.fetch_add(1, Ordering::SeqCst);
        if i >= b.runs || i > ctl.min_bad.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > b.wall {
            break;
        }
        let plan = Plan::generate(&b.prop, run_seed(b.seed, &b.prop, i));
        let mut o = plan.exec(&wd);
        if o.harness.is_some() {
            // the sandbox killed or starved the process: what the run shows is what it shows in peace
            s.retried += 1;
            o = plan.exec(&wd);
        }
        s.runs += 1;
        s.children += o.ends.len() as u64;
        s.steps += o.steps;
        s.pos += o.pos;
        s.max_steps = s.max_steps.max(o.steps);
        s.truncated += o.truncated as u64;
        for c in 0..NC {
            s.ctr[c] += o.ctr[c];
            s.runs_with[c] += (o.ctr[c] > 0) as u64;
        }
        for e in &o.ends {
            *s.ends.entry(e.clone()).or_default() += 1;
        }
        let eventful = o.ctr[C_SWITCH] > 0 || (0..NC).any(|c| is_fault(c) && o.ctr[c] > 0) || plan.own_faults(&o);
        if eventful {
            s.nontrivial += 1;
            s.histories.insert(o.digest);
        }
        for (p, t) in o.traces.iter().enumerate() {
            if !t.is_empty() {
                s.schedules.insert(t.iter().fold(p as u64, |a, x| rng::mix(a, (x.0 as u64) << 8 | x.1 as u64)));
            }
        }
        if s.states.len() < 3_000_000 {
            s.states.extend(&o.states);
        }
        if eventful && s.runs < 60 {
            s.samples.push((serde_json::to_string(&plan).map_or(usize::MAX, |x| x.len()), i));
        }
        if b.keep_digests {
            s.digests.push((i, o.digest));
        }
        if let Some(h) = &o.harness {
            s.harness.push((i, h.clone()));
        }
        let mut hit = false;
        for v in &o.viol {
            if v.prop == b.prop {
                s.bad.push((i, v.class.clone(), v.msg.clone()));
                hit = true;
            } else {
                *s.other.entry(v.prop.clone()).or_default() += 1;
            }
        }
        if hit {
            ctl.min_bad.fetch_min(i, Ordering::SeqCst);
        }
        if i % 61 == 7 {
            s.rerun += 1;
            if plan.exec(&wd).digest != o.digest {
                s.rerun_differs.push(i);
            }
        }
    }
    s.cov = (1..NCOV as u32).filter(|i| shm().cov[*i as usize] == 1).collect();
    s
}
fn batch(b: &Batch, dir: &str) -> Stats {
    let ctl = shared_ctl();
    let t0 = Instant::now();
    let mut pids = Vec::new();
    for k in 0..b.workers {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let s = work(b, k, dir, ctl, t0);
            let f = std::fs::write(format!("{dir}/stats{k}"), serde_json::to_vec(&s).unwrap());
            unsafe { libc::_exit(if f.is_ok() { 0 } else { 1 }) };
        }
        pids.push(pid);
    }
    let mut all = Stats { ctr: vec![0; NC], runs_with: vec![0; NC], ..Default::default() };
    for (k, pid) in pids.into_iter().enumerate() {
        let mut st = 0;
        while unsafe { libc::waitpid(pid, &mut st, 0) } != pid {}
        let s: Option<Stats> = std::fs::read(format!("{dir}/stats{k}")).ok().and_then(|x| serde_json::from_slice(&x).ok());
        let Some(s) = s else {
            all.harness.push((0, format!("worker {k} ended with status {st}")));
            continue;
        };
        all.runs += s.runs;
        all.children += s.children;
        all.steps += s.steps;
        all.pos += s.pos;
        all.cov.extend(s.cov);
        all.nontrivial += s.nontrivial;
        all.max_steps = all.max_steps.max(s.max_steps);
        all.truncated += s.truncated;
        for c in 0..NC {
            all.ctr[c] += s.ctr[c];
            all.runs_with[c] += s.runs_with[c];
        }
        for (k, n) in s.ends {
            *all.ends.entry(k).or_default() += n;
        }
        for (k, n) in s.other {
            *all.other.entry(k).or_default() += n;
        }
        all.rerun += s.rerun;
        all.retried += s.retried;
        all.rerun_differs.extend(s.rerun_differs);
        all.harness.extend(s.harness);
        all.bad.extend(s.bad);
        all.histories.extend(s.histories);
        all.schedules.extend(s.schedules);
        all.states.extend(s.states);
        all.samples.extend(s.samples);
        all.digests.extend(s.digests);
    }
    all.bad.sort();
    all.samples.sort();
    all.digests.sort();
    all
}

// ------------------------------------------------------------------ minimising
fn shows(o: &RunOut, prop: &str, class: &str) -> Option<String> {
    o.viol.iter().find(|v| v.prop == prop && v.class == class).map(|v| v.msg.clone())
}
fn minimise(mut plan: Plan, prop: &str, class: &str, dir: &str) -> (Plan, u32) {
    let t0 = Instant::now();
    let mut execs = 0;
    let o = plan.exec(dir);
    if shows(&o, prop, class).is_none() {
        return (plan, 1);
    }
    let mut frozen = plan.clone();
    frozen.freeze(&o.traces);
    if shows(&frozen.exec(dir), prop, class).is_some() {
        plan = frozen;
    }
    'again: loop {
        for cand in plan.shrinks() {
            if execs > 1500 || t0.elapsed().as_secs() > 60 {
                break 'again;
            }
            execs += 1;
            let o = cand.exec(dir);
            if o.harness.is_none() && shows(&o, prop, class).is_some() {
                plan = cand;
                continue 'again;
            }
        }
        break;
    }
    (plan, execs)
}
fn replay_json(prop: &str, seed: u64, run: u64, class: &str, msg: &str, plan: &Plan, o: &RunOut, execs: u32) -> Value {
    json!({
        "property": prop, "class": class, "message": msg,
        "verif_seed": seed, "run": run, "run_seed": run_seed(seed, prop, run),
        "minimising_executions": execs, "digest": format!("{:016x}", o.digest),
        "steps": o.steps, "process_ends": o.ends,
        "replay_with": "finsim replay <this file>",
        "plan": plan,
    })
}
fn replay(file: &str) -> i32 {
    let v: Value = std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_else(|| fail(&format!("cannot read {file}")));
    let plan: Plan = serde_json::from_value(v["plan"].clone()).unwrap_or_else(|e| fail(&format!("bad plan: {e}")));
    let (prop, class) = (v["property"].as_str().unwrap_or(""), v["class"].as_str().unwrap_or(""));
    let sc = Scratch::new();
    let o = plan.exec(&format!("{}/w0", sc.0));
    if let Some(h) = &o.harness {
        println!("harness error: {h}");
        return EXIT_HARNESS;
    }
    let same = v["digest"].as_str() == Some(&format!("{:016x}", o.digest));
    println!("digest {:016x} ({})", o.digest, if same { "as recorded" } else { "differs from the recorded one" });
    for x in &o.viol {
        println!("{}: {}: {}", x.prop, x.class, x.msg);
    }
    match shows(&o, prop, class) {
        Some(_) => {
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        None => {
            println!("the recorded violation does not occur");
            0
        }
    }
}
fn one(a: &Args) -> i32 {
    let prop = a.get("prop").unwrap_or_else(|| fail("--prop"));
    let (seed, run) = (a.num("seed", 1), a.num("run", 0));
    let sc = Scratch::new();
    let plan = Plan::generate(prop, run_seed(seed, prop, run));
    if a.get("dump").is_some() {
        println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    }
    let o = plan.exec(&format!("{}/w0", sc.0));
    println!("digest {:016x} steps {} ends {:?} harness {:?}", o.digest, o.steps, o.ends, o.harness);
    for x in &o.viol {
        println!("{}: {}: {}", x.prop, x.class, x.msg);
    }
    o.viol.iter().any(|x| x.prop == prop) as i32
}
fn digests(a: &Args) -> i32 {
    let sc = Scratch::new();
    let b = Batch {
        prop: a.get("prop").unwrap_or_else(|| fail("--prop")).into(),
        seed: a.num("seed", 1),
        runs: a.num("runs", 200),
        wall: 1e9,
        workers: a.num("workers", 8) as usize,
        keep_digests: true,
    };
    let s = batch(&b, &sc.0);
    for (i, d) in &s.digests {
        println!("{} {i} {d:016x}", b.prop);
    }
    (!s.harness.is_empty()) as i32 * EXIT_HARNESS
}

// ------------------------------------------------------------------ check
/// (runs, wall cap in seconds) of the quick tier, sized to tens of seconds on eight cores.
fn budget(prop: &str, thorough: bool) -> (u64, f64) {
    if thorough {
        return (u64::MAX, 600.0);
    }
    let n = match prop {
        "C02" => 50_000,
        "C10" => 40_000,
        "C11" => 120_000,
        "C07" => 20_000,
        "C08" | "C09" => 10_000,
        _ => 24_000,
    };
    (n, 240.0)
}
fn check(a: &Args) -> i32 {
    let prop = a.get("prop").unwrap_or_else(|| fail("--prop")).to_string();
    let tier = a.get("tier").unwrap_or("quick").to_string();
    let seed = a.num("seed", 1);
    let (runs, wall) = budget(&prop, tier == "thorough");
    let b = Batch {
        prop: prop.clone(),
        seed,
        runs: a.num("runs", runs),
        wall: a.num("wall", wall as u64) as f64,
        workers: a.num("workers", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize,
        keep_digests: false,
    };
    let home = a.get("home").unwrap_or(".").to_string();
    println!("finsim: property {prop}, tier {tier}, seed {seed}, up to {} runs on {} workers", b.runs, b.workers);
    let t0 = Instant::now();
    let sc = Scratch::new();
    let s = batch(&b, &sc.0);
    let batch_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut lines = Vec::new();
    if let Some((run, class, msg)) = s.bad.first() {
        let plan = Plan::generate(&prop, run_seed(seed, &prop, *run));
        let dir = format!("{}/min", sc.0);
        let (min, execs) = minimise(plan, &prop, class, &dir);
        let o = min.exec(&dir);
        let m = shows(&o, &prop, class).unwrap_or_else(|| msg.clone());
        let _ = std::fs::create_dir_all(format!("{home}/replays"));
        let path = format!("{home}/replays/{prop}-{}-{seed}-{run}.json", class.replace(|c: char| !c.is_ascii_alphanumeric(), "-"));
        let v = replay_json(&prop, seed, *run, class, &m, &min, &o, execs);
        if std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).is_err() {
            fail(&format!("cannot write {path}"));
        }
        let again = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output();
        let confirmed = again.as_ref().is_ok_and(|o| o.status.code() == Some(1));
        println!("run {run} (seed {:016x}) breaks {prop}, class {class}: {m}", run_seed(seed, &prop, *run));
        println!("minimised in {execs} executions; replay in a fresh process {}", if confirmed { "fails the same way" } else { "DID NOT fail the same way" });
        if !confirmed && min != Plan::generate(&prop, run_seed(seed, &prop, *run)) {
            // fall back to the original, unminimised run
            let plan = Plan::generate(&prop, run_seed(seed, &prop, *run));
            let o = plan.exec(&dir);
            let v = replay_json(&prop, seed, *run, class, msg, &plan, &o, 0);
            let _ = std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap());
        }
        lines.push(format!("VIOLATION property={prop} replay={path}"));
        code = 1;
    } else if !s.harness.is_empty() {
        code = EXIT_HARNESS;
    }
    for (i, h) in s.harness.iter().take(5) {
        eprintln!("finsim: harness error in run {i}: {h}");
    }
    for i in s.rerun_differs.iter().take(5) {
        // every seam is ours: only code that depends on addresses or the like gets here. Loud, but no verdict.
        eprintln!("finsim: WARNING: run {i} did not repeat exactly");
    }
    if let Some(f) = a.get("cover") {
        let hit: HashSet<u32> = s.cov.iter().copied().collect();
        let t: String = (1..=interpose::edges()).map(|i| (i, interpose::edge_pc(i))).map(|(i, (pc, f))| format!("{} {} {pc:#x}\n", hit.contains(&(i as u32)) as u8, f as u8)).collect();
        let _ = std::fs::write(f, t);
    }
    let ev = evidence(&b, &tier, &s, batch_s, t0.elapsed().as_secs_f64());
    let _ = std::fs::create_dir_all(format!("{home}/evidence"));
    let mut f = std::fs::File::create(format!("{home}/evidence/{prop}.json")).unwrap_or_else(|e| fail(&format!("evidence: {e}")));
    f.write_all(&serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs ({} eventful, {} distinct histories), {} processes, {} steps, {} code points, {:.1} s",
        s.runs,
        s.nontrivial,
        s.histories.len(),
        s.children,
        s.steps,
        s.pos,
        batch_s
    );
    drop(sc);
    for l in lines {
        println!("{l}");
    }
    code
}
const IO_NAMES: [&str; 9] = ["eintr", "short_transfer_half", "one_byte_transfer", "enospc", "eio", "edquot", "eacces", "erofs", "emfile"];
fn evidence(b: &Batch, tier: &str, s: &Stats, batch_s: f64, wall: f64) -> Value {
    let (probes, what): (&[&str], &str) = match b.prop.as_str() {
        "C02" => (first::PROBES, "fresh processes in which 2-5 tasks race for the first uses of the library, each checked against the reference chart"),
        "C10" => (iso::PROBES, "1-4 tasks calling the library on shared and private values with near-twin arguments, failing neighbours and bursts; every distinct call re-run alone in a fresh process"),
        "C11" => (solve::PROBES, "1-3 tasks searching roots of objectives that the simulator corrupts or fails for windows of evaluations"),
        _ => (book::PROBES, "1-4 client tasks sharing a book behind a reader/writer lock through 1-3 process incarnations, checked operation by operation against a reference book"),
    };
    let per_h = |n: u64| (n as f64 * 3600.0 / batch_s.max(1e-3)) as u64;
    let mut faults = BTreeMap::new();
    for (i, n) in IO_NAMES.iter().enumerate() {
        faults.insert(format!("io_{n}"), s.ctr[C_IO + i]);
    }
    faults.insert("disk_quota_exhausted".into(), s.ctr[C_QUOTA]);
    faults.insert("process_crash".into(), s.ctr[C_CRASH]);
    faults.insert("allocation_failure".into(), s.ctr[C_ALLOCFAIL]);
    faults.insert("preemption".into(), s.ctr[C_SWITCH]);
    faults.insert("preemption_inside_code".into(), s.ctr[C_CODE_SWITCH]);
    faults.insert("turn_forced_after_50000_points".into(), s.ctr[C_FAIR]);
    faults.insert("spin_broken".into(), s.ctr[C_SPIN]);
    if b.prop == "C11" {
        for (i, n) in solve::GLITCHES.iter().enumerate() {
            faults.insert(n.to_string(), s.ctr[C_USER + 20 + i]);
        }
    }
    let points: BTreeMap<&str, u64> = KIND_NAMES.iter().enumerate().map(|(i, n)| (*n, s.ctr[C_STEPS + i])).collect();
    let reach: BTreeMap<&str, Value> = probes.iter().enumerate().map(|(i, n)| (*n, json!({"times": s.ctr[C_USER + i], "runs": s.runs_with[C_USER + i]}))).collect();
    let samples: Vec<Value> = s
        .samples
        .iter()
        .skip(s.samples.len() / 4)
        .take(2)
        .map(|(_, i)| {
            let seed = run_seed(b.seed, &b.prop, *i);
            let t = serde_json::to_string(&Plan::generate(&b.prop, seed)).unwrap_or_default();
            json!({"run": i, "run_seed": format!("{seed:016x}"), "plan": t.chars().take(2500).collect::<String>()})
        })
        .collect();
    json!({
        "property": b.prop, "tier": tier, "seed": b.seed, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.histories.len(),
            "rule": format!("One case is one simulated run decided by one seed: {what}. A run is non-trivial if at least one preemption, injected fault, crash or hostile answer actually happened in it; runs are distinct if the hash of their whole history (schedule, results, process ends) differs."),
            "samples": samples,
            "runs_per_hour": per_h(s.runs), "seeds_per_hour": per_h(s.runs), "batch_s": batch_s, "workers": b.workers,
            "eventful_runs": s.nontrivial,
            "simulated_processes": s.children, "process_ends": s.ends,
            "code_points": s.pos,
            "library_edges_reached": s.cov.iter().collect::<HashSet<_>>().len(), "library_edges": interpose::edges(),
            "simulated_steps": s.steps, "longest_run_steps": s.max_steps,
            "simulated_time": format!("measured in scheduler steps and code points; the library itself read the simulated clock {} times, and found it set back, set forward or asleep {} times", s.ctr[C_CLOCK], s.ctr[C_CLOCKJUMP]),
            "scheduling_points": points, "blocking_waits": s.ctr[C_FUTEX_WAIT], "hash_seed_bytes_supplied": s.ctr[C_HASHSEED],
            "threads_started_by_the_library": s.ctr[C_ADOPTED], "environment_variables_read_by_the_library": s.ctr[C_GETENV],
            "faults_fired": faults,
            "reach_probes": reach,
            "distinct_interleavings": s.schedules.len(), "interleaving_measure": "distinct sequences of (position, task switched to) of a process",
            "distinct_states": s.states.len(), "state_measure": "distinct hashes of the checked state (book, statement or search result) after an operation",
            "runs_repeated_after_a_harness_error": s.retried,
            "determinism_reruns": s.rerun, "determinism_reruns_that_differed": s.rerun_differs.len(),
            "schedules_too_long_to_record": s.truncated,
            "harness_errors": s.harness.len(),
            "violations_of_other_properties_seen": s.other,
            "real_components": ["all of financelib as compiled from /repo's working tree", "std collections, locks, formatting and file I/O on top of the simulated calls", "chrono, serde, ron, serde_json", "libm", "the kernel's file system inside a scratch directory"],
            "simulated_components": ["thread scheduling and blocking (futex, sched_yield, sleeps), also of threads the library would start itself", "environment variables that are not set, number of processors, thread names", "clock_gettime", "getrandom (hash seeds)", "allocator failures", "results of open/read/write", "process crash and restart", "client tasks, the lock around the shared book and its save/restore protocol (the application around the library)"],
        },
        "assumptions": [
            "x86-64 Linux with glibc; preemption happens at every branch, load and store of the library's compiled code and at allocations, libm calls, system calls, operation boundaries, callbacks and sink writes, not inside std's precompiled code",
            "memory is sequentially consistent in the simulation (one task runs at a time)",
            "the reference chart and book in /verif/sim/src state the intended behaviour",
        ],
        "wall_s": wall,
        "violations": s.bad.len(),
    })
}
