//! One run = one plan executed: a sequence of incarnations (forked children), each a set of
//! simulated tasks. Only the scratch directory and the harness's own ledger survive between them.
use crate::sched::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Viol {
    pub prop: String,
    pub class: String,
    pub msg: String,
}
#[derive(Clone, Default)]
pub struct RunOut {
    pub viol: Vec<Viol>,
    pub digest: u64,
    pub steps: u64,
    pub pos: u64,
    /// switches actually taken, per simulated phase
    pub traces: Vec<Vec<(u32, u8)>>,
    pub truncated: bool,
    pub ends: Vec<String>,
    pub ctr: Vec<u64>,
    pub states: Vec<u64>,
    pub harness: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum ChildEnd {
    Done,
    Crash,
    AllocAbort,
    Dead(String),
}
pub struct RunCtx {
    pub out: RunOut,
    pub dir: String,
}
pub fn new_shm() -> *mut Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shm
    }
}
fn cstr(b: &[u8]) -> String {
    String::from_utf8_lossy(b).trim_end_matches('\0').to_string()
}
impl RunCtx {
    pub fn new(dir: &str) -> RunCtx {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).expect("scratch");
        let s = shm();
        s.ctr = [0; NC];
        s.digest = 0x5eed;
        s.nstates = 0;
        for b in &mut s.blobs {
            b.valid = 0;
        }
        RunCtx { out: RunOut::default(), dir: dir.to_string() }
    }
    /// Run `f` in a fresh process. `f` calls sched::run.
    pub fn child(&mut self, f: impl FnOnce()) -> ChildEnd {
        let s = shm();
        s.end = END_RUNNING;
        s.alloc_failed = 0;
        s.steps = 0;
        s.pos = 0;
        s.ntrace = 0;
        s.ntext = 0;
        s.cur_task = 0;
        s.cur_tag = [[0; 4]; MAXTASK];
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = |r, v| libc::setrlimit(r, &libc::rlimit { rlim_cur: v, rlim_max: v });
                lim(libc::RLIMIT_CPU, 20);
                lim(libc::RLIMIT_CORE, 0);
                lim(libc::RLIMIT_AS, 4 << 30);
                libc::alarm(120);
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
                // few files may be open at a time
                lim(libc::RLIMIT_NOFILE, n as u64 + 40);
            }
            f();
            shm().end = END_DONE;
            unsafe { libc::_exit(0) };
        }
        let mut st = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
        }
        let s = shm();
        let tag = cstr(&s.cur_tag[s.cur_task as usize % MAXTASK]);
        let end = match s.end {
            END_DONE if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 => ChildEnd::Done,
            END_CRASH => ChildEnd::Crash,
            END_DEADLOCK => ChildEnd::Dead("deadlock".into()),
            END_RUNAWAY => ChildEnd::Dead("endless".into()),
            END_HARNESS => ChildEnd::Dead("harness".into()),
            _ if s.alloc_failed == 1 => ChildEnd::AllocAbort,
            _ if libc::WIFSIGNALED(st) => match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGALRM => ChildEnd::Dead("hang".into()),
                // SIGKILL does not come from the code under test: the sandbox ran out of memory or is going down.
                libc::SIGKILL if s.steps < 1000 => ChildEnd::Dead("harness".into()),
                x => ChildEnd::Dead(format!("killed-by-signal-{x}")),
            },
            _ => ChildEnd::Dead(format!("exited-{}", libc::WEXITSTATUS(st))),
        };
        self.out.steps += s.steps;
        self.out.pos += s.pos;
        self.out.truncated |= s.ntrace as usize == MAXTRACE;
        self.out.traces.push(s.trace[..s.ntrace as usize].to_vec());
        let text = String::from_utf8_lossy(&s.text[..s.ntext as usize]).to_string();
        for l in text.lines() {
            let mut p = l.splitn(3, '\t');
            let (a, b, c) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
            if a == "HARNESS" {
                self.out.harness = Some(format!("{b} {c}"));
            } else {
                self.out.viol.push(Viol { prop: a.into(), class: b.into(), msg: c.into() });
            }
        }
        if let ChildEnd::Dead(w) = &end {
            if w == "harness" {
                self.out.harness.get_or_insert("unexplained".into());
            } else if tag.is_empty() {
                self.out.harness = Some(format!("child ended by {w} outside any operation"));
            } else {
                self.out.viol.push(Viol { prop: tag, class: w.clone(), msg: format!("the process did not survive: {w}") });
            }
        }
        if std::env::var("FINSIM_DBG").is_ok() {
            eprintln!("DBG {} {end:?} steps {} digest {:x} trace {:x} ctr {:?}", self.dir, s.steps, s.digest, s.trace[..s.ntrace as usize].iter().fold(7u64, |a, x| crate::rng::mix(a, (x.0 as u64) << 8 | x.1 as u64)), &s.ctr[..26]);
        }
        self.out.ends.push(format!("{end:?}"));
        end
    }
    pub fn viol(&mut self, prop: &str, class: &str, msg: &str) {
        self.out.viol.push(Viol { prop: prop.into(), class: class.into(), msg: msg.replace(['\n', '\t'], " ") });
    }
    pub fn finish(mut self) -> RunOut {
        let s = shm();
        self.out.ctr = s.ctr.to_vec();
        self.out.states = s.states[..s.nstates as usize].to_vec();
        let mut d = s.digest;
        for v in &self.out.viol {
            d = crate::rng::mix(d, hash_bytes(format!("{v:?}").as_bytes()));
        }
        for t in &self.out.traces {
            d = crate::rng::mix(d, t.iter().fold(7, |a, x| crate::rng::mix(a, (x.0 as u64) << 8 | x.1 as u64)));
        }
        d = crate::rng::mix(d, self.out.steps);
        d = crate::rng::mix(d, self.out.pos);
        for e in &self.out.ends {
            d = crate::rng::mix(d, hash_bytes(e.as_bytes()));
        }
        self.out.digest = d;
        self.out
    }
}

/// Scheduling and crash plan of one simulated phase.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Env {
    pub sched: Sched,
    pub crash: Crash,
    pub hash_seed: u64,
    pub clock: u64,
}
impl Env {
    pub fn quiet(h: u64) -> Env {
        Env { sched: Sched::Fixed { switches: vec![] }, crash: Crash::None, hash_seed: h, clock: 1_700_000_000_000_000_000 }
    }
    pub fn random(r: &mut crate::rng::Rng) -> Env {
        // swarm: from almost serial to switching at every other point
        let num = *r.pick(&[0u32, 60, 300, 1500, 6000, 20000, 40000]);
        let clock = *r.pick(&[0u64, 1, 86_399_999_999_999, 951_782_400_000_000_000, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000]);
        let gap = *r.pick(&[0, 0, 0, 40, 1000, 60_000]);
        Env { sched: Sched::Random { seed: r.next(), num, gap }, crash: Crash::None, hash_seed: r.next(), clock }
    }
    pub fn cfg(&self, dir: &str) -> SimCfg {
        SimCfg { sched: self.sched.clone(), crash: self.crash, hash_seed: self.hash_seed, clock: self.clock, scratch: format!("{dir}/").into_bytes() }
    }
    pub fn freeze(&mut self, t: &[(u32, u8)]) {
        self.sched = Sched::Fixed { switches: t.to_vec() };
    }
    /// Simpler environments, boldest first.
    pub fn shrinks(&self) -> Vec<Env> {
        let mut v = Vec::new();
        if self.crash != Crash::None {
            v.push(Env { crash: Crash::None, ..self.clone() });
        }
        if let Sched::Fixed { switches } = &self.sched {
            let n = switches.len();
            if n > 0 {
                v.push(Env { sched: Sched::Fixed { switches: vec![] }, ..self.clone() });
            }
            let mut k = n / 2;
            while k > 0 {
                let mut a = 0;
                while a < n && v.len() < 64 {
                    let mut w = switches.clone();
                    w.drain(a..(a + k).min(n));
                    v.push(Env { sched: Sched::Fixed { switches: w }, ..self.clone() });
                    a += k;
                }
                k /= 2;
            }
        }
        v
    }
}
/// All ways of removing a chunk of a list, biggest chunks first.
pub fn drops<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let n = v.len();
    let mut out = Vec::new();
    let mut k = n;
    while k > 0 {
        let mut a = 0;
        while a < n {
            let mut w = v.to_vec();
            w.drain(a..(a + k).min(n));
            out.push(w);
            a += k;
        }
        k /= 2;
    }
    out
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Plan {
    Book(crate::book::BPlan),
    First(crate::first::FPlan),
    Iso(crate::iso::IPlan),
    Solve(crate::solve::SPlan),
}
impl Plan {
    pub fn generate(prop: &str, seed: u64) -> Plan {
        match prop {
            "C02" => Plan::First(crate::first::FPlan::generate(seed)),
            "C10" => Plan::Iso(crate::iso::IPlan::generate(seed)),
            "C11" => Plan::Solve(crate::solve::SPlan::generate(seed)),
            _ => Plan::Book(crate::book::BPlan::generate(prop, seed)),
        }
    }
    pub fn exec(&self, dir: &str) -> RunOut {
        let mut cx = RunCtx::new(dir);
        match self {
            Plan::Book(p) => p.exec(&mut cx),
            Plan::First(p) => p.exec(&mut cx),
            Plan::Iso(p) => p.exec(&mut cx),
            Plan::Solve(p) => p.exec(&mut cx),
        }
        cx.finish()
    }
    pub fn freeze(&mut self, t: &[Vec<(u32, u8)>]) {
        match self {
            Plan::Book(p) => p.freeze(t),
            Plan::First(p) => p.env.freeze(&t[0]),
            Plan::Iso(p) => p.env.freeze(&t[0]),
            Plan::Solve(p) => p.env.freeze(&t[0]),
        }
    }
    pub fn shrinks(&self) -> Vec<Plan> {
        match self {
            Plan::Book(p) => p.shrinks().into_iter().map(Plan::Book).collect(),
            Plan::First(p) => p.shrinks().into_iter().map(Plan::First).collect(),
            Plan::Iso(p) => p.shrinks().into_iter().map(Plan::Iso).collect(),
            Plan::Solve(p) => p.shrinks().into_iter().map(Plan::Solve).collect(),
        }
    }
}
impl Plan {
    /// Faults that no common counter shows: a hostile objective, another hash seed and clock.
    pub fn own_faults(&self, o: &RunOut) -> bool {
        match self {
            Plan::Solve(_) => (20..29).any(|i| o.ctr[C_USER + i] > 0),
            Plan::Iso(_) => o.ctr[C_USER + 5] > 0,
            _ => false,
        }
    }
}
