//! The seeded scheduler. Simulated tasks are real OS threads of a forked child process, but only
//! the holder of the baton runs; every blocking call and every preemption point goes through
//! here, so one plan (seed) is one exactly repeatable execution.
use crate::interpose::{self, Pause, TASK, raw};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering};

pub const K_ALLOC: usize = 0;
pub const K_LIBM: usize = 1;
pub const K_SYS: usize = 2;
pub const K_OP: usize = 3;
pub const K_CALLBACK: usize = 4;
pub const K_SINK: usize = 5;
pub const NKINDS: usize = 6;
pub const KIND_NAMES: [&str; NKINDS] = ["alloc", "libm", "syscall", "op_boundary", "callback", "sink_write"];

/// Branches, loads and stores of the library's own code are preemption points too (the library is
/// compiled with coverage callbacks). They only move the position, so this has to be cheap.
static mut POS: u64 = 0;
/// position at which the scheduler has something to decide
static mut NEXT: u64 = u64::MAX;
const CODE_CAP: u64 = 1_000_000_000;
/// a task that goes on for so long has to let the others have a turn
const FAIR: u64 = 50_000;
const CODE_SWITCHES: u32 = 1500;
pub const NCOV: usize = 32 * 1024;
#[inline]
pub fn code_point() {
    if interpose::active() {
        unsafe {
            POS += 1;
            if POS >= NEXT {
                code_event();
            }
        }
    }
}
#[inline]
pub fn edge(i: usize) {
    unsafe {
        if !SHM.is_null() && i < NCOV {
            (*SHM).cov[i] = 1;
        }
    }
}
pub fn pos() -> u64 {
    unsafe { POS }
}

/// Tasks 0.. are the clients of a run, MAXROOT.. are threads the code under test starts itself.
pub const MAXROOT: usize = 8;
pub const MAXTASK: usize = 250;
pub const MAXTRACE: usize = 60_000;
pub const STEP_CAP: u64 = 3_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum IoOp {
    Open,
    Write,
    Read,
    /// Anything else that changes a file or its name: rename, ftruncate, fsync.
    Meta,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum IoFault {
    Eintr,
    Short,
    Short1,
    Enospc,
    Eio,
    Edquot,
    Eacces,
    Erofs,
    Emfile,
}
impl IoFault {
    /// Transient faults must be absorbed; the others may make the operation fail.
    pub fn transient(self) -> bool {
        matches!(self, IoFault::Eintr | IoFault::Short | IoFault::Short1)
    }
}
/// Faults armed for one operation: the nth call of a kind fails, and/or the disk has `quota` bytes left.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct IoPlan {
    pub faults: Vec<(IoOp, u32, IoFault)>,
    pub quota: Option<u64>,
}
impl IoPlan {
    pub fn is_empty(&self) -> bool {
        self.faults.is_empty() && self.quota.is_none()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sched {
    /// Preempt at each call out of the library with probability num/65536, to a random runnable
    /// task; and inside its code after distances of 1 to `gap` points, on a logarithmic scale.
    Random { seed: u64, num: u32, gap: u32 },
    /// Exact schedule: at position `.0` switch to task `.1`.
    Fixed { switches: Vec<(u32, u8)> },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Crash {
    None,
    /// The process dies at the nth point of the kind.
    At { kind: usize, nth: u32 },
    /// The nth allocation fails.
    AllocFail { nth: u32 },
}

pub const END_RUNNING: u32 = 0;
pub const END_DONE: u32 = 1;
pub const END_CRASH: u32 = 2;
pub const END_DEADLOCK: u32 = 3;
pub const END_RUNAWAY: u32 = 4;
pub const END_HARNESS: u32 = 5;

// counters
pub const C_STEPS: usize = 0; // ..+NKINDS
pub const C_SWITCH: usize = 8;
pub const C_FUTEX_WAIT: usize = 9;
pub const C_IO: usize = 10; // ..+9 by IoFault
pub const C_QUOTA: usize = 20;
pub const C_CRASH: usize = 21;
pub const C_ALLOCFAIL: usize = 22;
pub const C_HASHSEED: usize = 23;
pub const C_CLOCK: usize = 24;
pub const C_SPIN: usize = 25;
pub const C_CODE_SWITCH: usize = 26;
pub const C_FAIR: usize = 27;
pub const C_ADOPTED: usize = 28;
pub const C_GETENV: usize = 29;
pub const C_CLOCKJUMP: usize = 30;
pub const C_USER: usize = 32; // probes of the workloads
pub const NC: usize = 160;

pub const BLOB: usize = 512 * 1024;
#[repr(C)]
pub struct Blob {
    pub len: u32,
    pub valid: u32,
    pub data: [u8; BLOB],
}
#[repr(C)]
pub struct Shm {
    pub end: u32,
    pub alloc_failed: u32,
    pub cur_tag: [[u8; 4]; MAXTASK], // property in charge of the operation each task is in
    pub cur_task: u32,
    pub steps: u64,
    pub pos: u64,
    /// code edges of the library reached
    pub cov: [u8; NCOV],
    pub digest: u64,
    pub ctr: [u64; NC],
    pub ntrace: u32,
    pub trace: [(u32, u8); MAXTRACE],
    pub ntext: u32,
    pub text: [u8; 65536],
    pub nstates: u32,
    pub states: [u64; 1024],
    pub blobs: [Blob; 8],
}

static BATON: [AtomicU32; MAXTASK] = [const { AtomicU32::new(0) }; MAXTASK];
static TIDS: [AtomicI32; MAXTASK] = [const { AtomicI32::new(0) }; MAXTASK];
pub struct Task {
    /// the client it works for
    pub root: usize,
    pub state: u8, // 0 runnable, 1 blocked, 2 done, 3 unused
    pub addr: usize,
    pub wake: u64,  // simulated deadline, 0 = none
    pub woken: u8,  // 0 normal wake, 1 timeout
    pub io: IoPlan,
    pub io_n: [u32; 4],
    pub io_hard: u32,
    pub io_soft: u32,
    pub points: [u64; NKINDS],
}
pub struct Sim {
    pub tasks: Vec<Task>,
    /// tasks that are not done; clients and how many of them are done
    pub live: Vec<usize>,
    pub roots: usize,
    /// threads of the code under test: pthread_t, set when finished
    pub joins: Vec<(usize, Box<AtomicU32>)>,
    pub sched: Sched,
    pub sched_pos: usize,
    pub rng: Rng,
    pub crash: Crash,
    pub kcount: [u32; NKINDS],
    pub hash: Rng,
    pub clock: u64,
    /// the wall clock is so far off
    pub skew: i64,
    pub scratch: Vec<u8>,
    pub all_done: AtomicU32,
    pub wheel: usize,
    pub tick_pos: u64,
    pub tick_spins: u32,
    /// position of the next preemption inside code, of the last switch; switches left
    pub code_at: u64,
    pub last: u64,
    pub code_left: u32,
    /// an operation does not take the process beyond these
    pub step_cap: u64,
    pub code_cap: u64,
}
static mut SIM: *mut Sim = std::ptr::null_mut();
static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
pub fn scratch() -> &'static [u8] {
    if unsafe { SIM.is_null() } { b"\0" } else { &sim().scratch }
}
pub fn set_shm(p: *mut Shm) {
    unsafe { SHM = p }
}
pub fn count(i: usize) {
    shm().ctr[i] += 1;
}
pub fn probe(i: usize) {
    shm().ctr[C_USER + i] += 1;
}
pub fn fold(x: u64) {
    let s = shm();
    s.digest = (s.digest ^ x).wrapping_mul(0x100000001b3).rotate_left(17) ^ 0x9e3779b97f4a7c15;
}
pub fn fold_bytes(b: &[u8]) {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    fold(h);
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn state_seen(h: u64) {
    let s = shm();
    if (s.nstates as usize) < s.states.len() {
        s.states[s.nstates as usize] = h;
        s.nstates += 1;
    }
}
/// Report a violation: `prop` is the property, `class` a short stable class, `msg` the details.
pub fn violation(prop: &str, class: &str, msg: &str) {
    let _p = Pause::new();
    let s = shm();
    let line = format!("{prop}\t{class}\t{}\n", msg.replace(['\n', '\t'], " "));
    let b = line.as_bytes();
    let n = s.ntext as usize;
    if n + b.len() <= s.text.len() {
        s.text[n..n + b.len()].copy_from_slice(b);
        s.ntext = (n + b.len()) as u32;
    }
    fold_bytes(prop.as_bytes());
    fold_bytes(class.as_bytes());
}
pub fn blob_put(i: usize, b: &[u8]) {
    let s = &mut shm().blobs[i];
    if b.len() > BLOB {
        die(END_HARNESS);
    }
    s.data[..b.len()].copy_from_slice(b);
    s.len = b.len() as u32;
    s.valid = 1;
}
pub fn blob_clear(i: usize) {
    shm().blobs[i].valid = 0;
}
pub fn blob(i: usize) -> Option<&'static [u8]> {
    let s = &shm().blobs[i];
    if s.valid == 1 { Some(&s.data[..s.len as usize]) } else { None }
}
pub fn die(end: u32) -> ! {
    let s = shm();
    s.end = end;
    let t = interpose::task();
    if t >= 0 {
        s.cur_task = t as u32;
    }
    unsafe {
        raw(libc::SYS_exit_group, 70 + end as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}

// ------------------------------------------------------------------ baton
fn fwait(a: &AtomicU32, v: u32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as usize, 128, v as usize, 0, 0, 0);
    }
}
fn fwake(a: &AtomicU32) {
    unsafe {
        raw(libc::SYS_futex, a as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0);
    }
}
fn give(i: usize) {
    sim().last = pos();
    let b = &BATON[i];
    b.store(1, Ordering::SeqCst);
    fwake(b);
}
fn await_baton(i: usize) {
    let b = &BATON[i];
    while b.load(Ordering::SeqCst) == 0 {
        fwait(b, 0);
    }
    b.store(0, Ordering::SeqCst);
}
fn switch_to(i: usize) {
    let me = interpose::task() as usize;
    if i == me {
        return;
    }
    let s = shm();
    s.ctr[C_SWITCH] += 1;
    s.cur_task = i as u32;
    fold((pos() << 8) | i as u64);
    give(i);
    await_baton(me);
}
fn next_runnable(from: usize) -> Option<usize> {
    let s = sim();
    let n = s.live.len();
    let at = s.live.partition_point(|&i| i <= from);
    (0..n).map(|k| s.live[(at + k) % n]).find(|&i| s.tasks[i].state == 0)
}
/// Current task cannot go on (blocked or done): pass the baton on.
fn leave(me: usize, done: bool) {
    loop {
        let s = sim();
        if (0..s.roots).all(|i| s.tasks[i].state == 2) {
            // What its own threads still had to do ends with the process, or goes on in the next phase.
            s.all_done.store(1, Ordering::SeqCst);
            fwake(&s.all_done);
            if !done {
                await_baton(me);
            }
            return;
        }
        if let Some(i) = next_runnable(me) {
            if i == me {
                return;
            }
            shm().cur_task = i as u32;
            fold((0xd0 << 8) | i as u64);
            give(i);
            if done {
                return;
            }
            await_baton(me);
            return;
        }
        // Nobody is runnable: jump the simulated clock to the next deadline.
        let dl = s.live.iter().copied().filter(|&i| s.tasks[i].state == 1 && s.tasks[i].wake > 0).min_by_key(|&i| (s.tasks[i].wake, i));
        match dl {
            Some(i) => {
                s.clock = s.clock.max(s.tasks[i].wake);
                s.tasks[i].state = 0;
                s.tasks[i].woken = 1;
                s.tasks[i].wake = 0;
                if i == me {
                    return;
                }
            }
            None => {
                shm().cur_task = me as u32;
                die(END_DEADLOCK);
            }
        }
    }
}

/// A preemption point. Returns true if the caller must fail (allocation failure injected).
pub fn yield_point(kind: usize) -> bool {
    let _p = Pause::new();
    let s = sim();
    let sh = shm();
    let me = interpose::task() as usize;
    if sh.alloc_failed == 1 {
        // The process is on its way out: what std does to report that is no part of the simulation.
        return false;
    }
    sh.steps += 1;
    sh.ctr[C_STEPS + kind] += 1;
    s.kcount[kind] += 1;
    s.tasks[me].points[kind] += 1;
    if sh.steps > s.step_cap {
        sh.cur_task = me as u32;
        die(END_RUNAWAY);
    }
    match s.crash {
        Crash::None => {}
        Crash::At { kind: k, nth } => {
            if k == kind && s.kcount[kind] == nth {
                sh.ctr[C_CRASH] += 1;
                fold(0xc4a5);
                die(END_CRASH);
            }
        }
        Crash::AllocFail { nth } => {
            if kind == K_ALLOC && s.kcount[K_ALLOC] == nth {
                sh.ctr[C_ALLOCFAIL] += 1;
                sh.alloc_failed = 1;
                fold(0xa110c);
                return true;
            }
        }
    }
    unsafe { POS += 1 };
    sh.pos = pos();
    if s.live.len() < 2 {
        return false;
    }
    let target = match &s.sched {
        Sched::Random { num, .. } => {
            let num = *num;
            if (s.rng.next() & 0xffff) < num as u64 { any_runnable() } else { None }
        }
        Sched::Fixed { .. } => fixed_target(),
    };
    if let Some(i) = target {
        traced_switch(me, i);
    }
    next_event();
    false
}
fn any_runnable() -> Option<usize> {
    let s = sim();
    let n = s.live.len();
    let k = (s.rng.next() % n as u64) as usize;
    (0..n).map(|j| s.live[(k + j) % n]).find(|&i| s.tasks[i].state == 0)
}
fn fixed_target() -> Option<usize> {
    let s = sim();
    let mut t = None;
    if let Sched::Fixed { switches } = &s.sched {
        while s.sched_pos < switches.len() && switches[s.sched_pos].0 as u64 <= pos() {
            if switches[s.sched_pos].0 as u64 == pos() {
                t = Some(switches[s.sched_pos].1 as usize);
            }
            s.sched_pos += 1;
        }
    }
    t.filter(|&i| i < s.tasks.len() && s.tasks[i].state == 0)
}
fn traced_switch(me: usize, i: usize) {
    let sh = shm();
    if i != me {
        if (sh.ntrace as usize) < MAXTRACE {
            sh.trace[sh.ntrace as usize] = (pos() as u32, i as u8);
            sh.ntrace += 1;
        }
        switch_to(i);
    }
}
fn next_event() {
    let s = sim();
    let plan = match &s.sched {
        Sched::Random { .. } => s.code_at,
        Sched::Fixed { switches } => switches.get(s.sched_pos).map_or(u64::MAX, |x| x.0 as u64),
    };
    unsafe { NEXT = s.code_cap.min(if s.live.len() < 2 { u64::MAX } else { plan.min(s.last + FAIR) }) };
}
/// Distance to the next preemption inside code.
fn code_gap() -> u64 {
    let s = sim();
    match &s.sched {
        Sched::Random { gap, .. } if *gap > 0 && s.code_left > 0 => {
            let k = s.rng.next() % (64 - (*gap as u64).leading_zeros() as u64);
            1 + (1 << k >> 1) + s.rng.next() % (1 << k)
        }
        _ => u64::MAX / 4,
    }
}
#[cold]
#[inline(never)]
fn code_event() {
    let _p = Pause::new();
    let s = sim();
    let sh = shm();
    sh.pos = pos();
    let me = interpose::task() as usize;
    if sh.alloc_failed == 1 {
        unsafe { NEXT = u64::MAX };
        return;
    }
    if pos() >= s.code_cap {
        sh.cur_task = me as u32;
        die(END_RUNAWAY);
    }
    let mut t = match &s.sched {
        Sched::Random { .. } if pos() >= s.code_at => {
            s.code_left = s.code_left.saturating_sub(1);
            s.code_at = pos() + code_gap();
            count(C_CODE_SWITCH);
            any_runnable()
        }
        Sched::Random { .. } => None,
        Sched::Fixed { .. } => fixed_target(),
    };
    if pos() >= s.last + FAIR {
        s.last = pos();
        if t.is_none_or(|i| i == me) {
            t = next_runnable(me);
            count(C_FAIR);
        }
    }
    if let Some(i) = t {
        traced_switch(me, i);
    }
    next_event();
}
pub fn forced_yield() {
    let _p = Pause::new();
    let me = interpose::task() as usize;
    shm().steps += 1;
    if shm().steps > sim().step_cap {
        die(END_RUNAWAY);
    }
    if let Some(i) = next_runnable(me) {
        switch_to(i);
    }
}
pub fn sleep(ns: u64) {
    let _p = Pause::new();
    let me = interpose::task() as usize;
    let s = sim();
    shm().steps += 1;
    if shm().steps > sim().step_cap {
        die(END_RUNAWAY);
    }
    s.tasks[me].state = 1;
    s.tasks[me].addr = 0;
    s.tasks[me].wake = s.clock + ns.max(1);
    leave(me, false);
    s.tasks[me].state = 0;
}
pub fn futex_wait(addr: usize, val: u32, timed: bool) -> isize {
    let _p = Pause::new();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return -(libc::EAGAIN as isize);
    }
    let me = interpose::task() as usize;
    let s = sim();
    count(C_FUTEX_WAIT);
    s.tasks[me].state = 1;
    s.tasks[me].addr = addr;
    s.tasks[me].woken = 0;
    s.tasks[me].wake = if timed { s.clock + 1_000_000 } else { 0 };
    leave(me, false);
    s.tasks[me].addr = 0;
    if s.tasks[me].woken == 1 { -(libc::ETIMEDOUT as isize) } else { 0 }
}
pub fn futex_wake(addr: usize, n: u32) -> isize {
    let s = sim();
    let mut k = 0;
    let all = s.live.len();
    for j in 0..all {
        // rotate the starting point so that wake order is not always task order
        let i = s.live[(s.wheel + j) % all];
        if k < n && s.tasks[i].state == 1 && s.tasks[i].addr == addr {
            s.tasks[i].state = 0;
            s.tasks[i].addr = 0;
            s.tasks[i].wake = 0;
            k += 1;
        }
    }
    s.wheel = (s.wheel + 1) % all.max(1);
    k as isize
}
pub fn random_byte() -> u8 {
    count(C_HASHSEED);
    sim().hash.next() as u8
}
/// What a clock shows. Now and then the library finds that the wall clock has been set back or
/// forward, or that the machine has been asleep.
pub fn clock_ns(in_lib: bool, wall: bool) -> u64 {
    let s = sim();
    s.clock += 1000;
    if in_lib {
        count(C_CLOCK);
        const FAR: [u64; 4] = [1_000_000, 5_000_000_000, 7_200_000_000_000, 40_000_000_000_000_000];
        let r = s.hash.next();
        let d = FAR[(r >> 8) as usize % 4] + (r >> 16) % 1000;
        match r % 16 {
            0 => s.skew -= d as i64,
            1 => s.skew += d as i64,
            2 => s.clock += d,
            _ => return if wall { s.clock.saturating_add_signed(s.skew) } else { s.clock },
        }
        count(C_CLOCKJUMP);
    }
    if wall { s.clock.saturating_add_signed(s.skew) } else { s.clock }
}

// ------------------------------------------------------------------ threads of the code under test
/// The client the current task works for: faults are armed for clients.
fn client() -> &'static mut Task {
    let s = sim();
    let r = s.tasks[interpose::task() as usize].root;
    &mut s.tasks[r]
}
fn idle(root: usize) -> Task {
    Task { root, state: 3, addr: 0, wake: 0, woken: 0, io: IoPlan::default(), io_n: [0; 4], io_hard: 0, io_soft: 0, points: [0; NKINDS] }
}
/// A task for a thread that the current task is starting.
pub fn adopt() -> Option<usize> {
    let _p = Pause::new();
    let s = sim();
    let me = interpose::task() as usize;
    while s.tasks.len() <= MAXROOT {
        s.tasks.push(idle(0));
    }
    let i = (MAXROOT..s.tasks.len()).find(|&i| s.tasks[i].state == 3).unwrap_or(s.tasks.len());
    if i >= MAXTASK {
        return None;
    }
    if i == s.tasks.len() {
        s.tasks.push(idle(0));
    }
    s.tasks[i] = idle(s.tasks[me].root);
    shm().cur_tag[i] = shm().cur_tag[me];
    count(C_ADOPTED);
    Some(i)
}
pub fn adopted(i: usize, th: usize) {
    let _p = Pause::new();
    let s = sim();
    s.joins.retain(|x| x.0 != th);
    s.joins.push((th, Box::new(AtomicU32::new(0))));
    s.tasks[i].state = 0;
    let at = s.live.partition_point(|&x| x < i);
    s.live.insert(at, i);
    next_event();
}
pub fn not_adopted(i: usize) {
    sim().tasks[i].state = 3;
}
pub fn adopted_run(i: usize, f: impl FnOnce() -> usize) -> usize {
    enter(i);
    interpose::FRESH.set(true);
    let r = f();
    interpose::FRESH.set(false);
    interpose::INLIB.set(true);
    r
}
static KEY: AtomicU32 = AtomicU32::new(u32::MAX);
/// First thing a simulated thread does. What its thread-local values do when they are dropped is
/// still part of the simulation: the thread leaves it in the destructor of a key, which comes later.
fn enter(i: usize) {
    TASK.set(i as i32);
    TIDS[i].store(unsafe { raw(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) } as i32, Ordering::SeqCst);
    unsafe { libc::pthread_setspecific(KEY.load(Ordering::SeqCst), 1 as *const _) };
    if i < MAXROOT {
        READY.fetch_add(1, Ordering::SeqCst);
        fwake(&READY);
    }
    await_baton(i);
}
static READY: AtomicU32 = AtomicU32::new(0);
extern "C" fn at_exit(_: *mut libc::c_void) {
    let _p = Pause::new();
    let i = TASK.get() as usize;
    let s = sim();
    if i < MAXROOT {
        s.tasks[i].state = 2;
    } else {
        let me = unsafe { libc::pthread_self() } as usize;
        if let Some(j) = s.joins.iter().find(|x| x.0 == me) {
            j.1.store(1, Ordering::SeqCst);
            futex_wake(&*j.1 as *const AtomicU32 as usize, u32::MAX);
        }
        s.tasks[i].state = 3;
    }
    s.live.retain(|&x| x != i);
    leave(i, true);
    TASK.set(-1);
}
/// Wait until the thread has run to its end.
pub fn join(th: usize) {
    let a = sim().joins.iter().find(|x| x.0 == th).map(|x| &*x.1 as *const AtomicU32 as usize);
    if let Some(a) = a {
        while unsafe { (*(a as *const AtomicU32)).load(Ordering::SeqCst) } == 0 {
            futex_wait(a, 0, false);
        }
        let _p = Pause::new();
        sim().joins.retain(|x| x.0 != th);
    }
}

// ------------------------------------------------------------------ I/O faults
pub fn io_arm(p: &IoPlan) {
    let t = client();
    t.io = p.clone();
    t.io_n = [0; 4];
    t.io_hard = 0;
    t.io_soft = 0;
}
/// Disarm; returns (hard faults fired, transient faults fired).
pub fn io_disarm() -> (u32, u32) {
    let t = client();
    t.io = IoPlan::default();
    (t.io_hard, t.io_soft)
}
pub fn io_fault(op: IoOp) -> Option<IoFault> {
    let t = client();
    let k = op as usize;
    t.io_n[k] += 1;
    let n = t.io_n[k];
    let f = t.io.faults.iter().find(|x| x.0 == op && x.1 == n).map(|x| x.2)?;
    shm().ctr[C_IO + f as usize] += 1;
    if f.transient() { t.io_soft += 1 } else { t.io_hard += 1 }
    Some(f)
}
pub fn quota(n: usize) -> Result<usize, i32> {
    let t = client();
    match &mut t.io.quota {
        None => Ok(n),
        Some(q) => {
            if *q == 0 {
                t.io_hard += 1;
                count(C_QUOTA);
                Err(libc::ENOSPC)
            } else {
                let m = (*q as usize).min(n);
                *q -= m as u64;
                Ok(m)
            }
        }
    }
}
pub fn escaped(p: &[u8]) {
    let t = interpose::task() as usize;
    let tag = tag_of(t);
    violation(&tag, "escaped-path", &format!("code under test tried to change {}", String::from_utf8_lossy(p)));
}
pub fn tag_of(t: usize) -> String {
    String::from_utf8_lossy(&shm().cur_tag[t]).trim_end_matches('\0').to_string()
}
pub fn set_tag(tag: &str) {
    let t = interpose::task() as usize;
    let mut b = [0u8; 4];
    for (i, c) in tag.bytes().take(4).enumerate() {
        b[i] = c;
    }
    shm().cur_tag[t] = b;
}

// ------------------------------------------------------------------ running tasks
pub struct SimCfg {
    pub sched: Sched,
    pub crash: Crash,
    pub hash_seed: u64,
    pub clock: u64,
    pub scratch: Vec<u8>,
}
/// In the forked child: run the bodies as simulated tasks until all are done.
pub fn run(cfg: SimCfg, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    assert!(n <= MAXROOT && n > 0);
    let mut tasks: Vec<Task> = Vec::with_capacity(MAXTASK);
    tasks.extend((0..n).map(|i| Task { state: 0, ..idle(i) }));
    let mut live: Vec<usize> = (0..n).collect();
    let mut joins = vec![];
    if unsafe { !SIM.is_null() } && sim().live.iter().any(|&i| i >= MAXROOT) {
        // Threads the code under test started in an earlier phase of this process.
        let old = sim();
        tasks.extend((n..MAXROOT).map(idle));
        tasks.extend(old.tasks.drain(MAXROOT..).map(|t| Task { root: 0, ..t }));
        live.extend(old.live.iter().filter(|&&i| i >= MAXROOT));
        joins = std::mem::take(&mut old.joins);
    }
    let seed = match &cfg.sched {
        Sched::Random { seed, .. } => *seed,
        _ => 0,
    };
    let s = Box::new(Sim {
        tasks,
        live,
        roots: n,
        joins,
        sched: cfg.sched,
        sched_pos: 0,
        rng: Rng::new(seed),
        crash: cfg.crash,
        kcount: [0; NKINDS],
        hash: Rng::new(cfg.hash_seed),
        clock: cfg.clock,
        skew: 0,
        scratch: cfg.scratch,
        all_done: AtomicU32::new(0),
        wheel: 0,
        tick_pos: u64::MAX,
        tick_spins: 0,
        code_at: 0,
        last: 0,
        code_left: CODE_SWITCHES,
        step_cap: shm().steps + STEP_CAP,
        code_cap: CODE_CAP,
    });
    unsafe {
        SIM = Box::into_raw(s);
        POS = 0;
    }
    // The rest of what a process finds: unknown environment variables, processors, thread names.
    interpose::strange_environment([0, 0, 1, 2, 3][(cfg.hash_seed >> 7) as usize % 5]);
    let named = cfg.hash_seed >> 11 & 1 == 1;
    sim().code_at = code_gap();
    next_event();
    if KEY.load(Ordering::SeqCst) == u32::MAX {
        let mut k = 0;
        assert!(unsafe { libc::pthread_key_create(&mut k, Some(at_exit)) } == 0);
        KEY.store(k, Ordering::SeqCst);
    }
    READY.store(0, Ordering::SeqCst);
    let mut hs = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        let mut th = std::thread::Builder::new();
        if named {
            th = th.name("main".into());
        }
        let h = th
            .stack_size(1 << 20)
            .spawn(move || {
                enter(i);
                b();
                interpose::INLIB.set(true);
            })
            .expect("spawn");
        hs.push(h);
    }
    // All clients are there before the first one runs.
    loop {
        let k = READY.load(Ordering::SeqCst);
        if k == n as u32 {
            break;
        }
        fwait(&READY, k);
    }
    shm().cur_task = 0;
    tick_on(true);
    give(0);
    let d = &sim().all_done;
    while d.load(Ordering::SeqCst) == 0 {
        fwait(d, 0);
    }
    tick_on(false);
    shm().pos = pos();
    for h in hs {
        if h.join().is_err() {
            die(END_HARNESS);
        }
    }
}

/// Code under test that busy-waits without any call we own would keep the baton for ever; after
/// 100 ms of CPU time without a single simulated step the spinning task is made to yield.
fn tick_on(on: bool) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = if on { on_tick as *const () as usize } else { libc::SIG_IGN };
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGVTALRM, &sa, std::ptr::null_mut());
        let t = libc::timeval { tv_sec: 0, tv_usec: if on { 50_000 } else { 0 } };
        raw(libc::SYS_setitimer, 1, &libc::itimerval { it_interval: t, it_value: t } as *const _ as usize, 0, 0, 0, 0);
    }
}
extern "C" fn on_tick(_: i32) {
    let (s, sh) = (sim(), shm());
    let t = interpose::task();
    if t >= 0 && t as u32 == sh.cur_task {
        if interpose::active() && s.tick_pos == pos() {
            s.tick_spins += 1;
            if s.tick_spins >= 2 {
                s.tick_spins = 0;
                count(C_SPIN);
                forced_yield();
            }
        } else {
            s.tick_pos = pos();
            s.tick_spins = 0;
        }
    } else {
        let tid = TIDS[sh.cur_task as usize % MAXTASK].load(Ordering::SeqCst);
        if tid > 0 && s.tasks.get(sh.cur_task as usize).is_some_and(|t| t.state == 0) {
            unsafe {
                raw(libc::SYS_tgkill, raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as usize, tid as usize, libc::SIGVTALRM as usize, 0, 0, 0);
            }
        }
    }
}

/// Call into the library: preemptible, faultable; panics become Err.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            interpose::INLIB.with(|x| x.set(false));
        }
    }
    let r = {
        let _o = Off;
        interpose::INLIB.with(|x| x.set(true));
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    if shm().alloc_failed == 1 {
        // Out of memory, survived or not by the code under test: the process ends here.
        die(END_CRASH);
    }
    r.map_err(|e| drop(e))
}
/// Points of a kind passed by the current task so far.
pub fn task_points(kind: usize) -> u64 {
    sim().tasks[interpose::task() as usize].points[kind]
}
pub fn op_boundary() {
    let s = sim();
    s.step_cap = shm().steps + STEP_CAP;
    s.code_cap = pos() + CODE_CAP;
    next_event();
    yield_point(K_OP);
}
