//! Seams. Everything nondeterministic or faulty that the library (or the std code under it) can
//! reach is a libc symbol or the global allocator; this file owns those symbols, so no hook in
//! /repo is needed. On threads that are not simulated tasks every override is a plain
//! pass-through to the kernel (raw syscall instruction) or to the real libm.
use crate::sched::{self, IoFault, IoOp, K_ALLOC, K_LIBM, K_SYS};
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    pub static TASK: Cell<i32> = const { Cell::new(-1) };
    pub static INLIB: Cell<bool> = const { Cell::new(false) };
    /// A thread of the code under test that has not come to its code yet: what std does first is
    /// not preempted, as it takes locks that threads outside the simulation take as well.
    pub static FRESH: Cell<bool> = const { Cell::new(false) };
}

#[inline]
pub fn task() -> i32 {
    TASK.try_with(|t| t.get()).unwrap_or(-1)
}
#[inline]
pub fn active() -> bool {
    task() >= 0 && INLIB.try_with(|t| t.get()).unwrap_or(false)
}
/// Run `f` outside the simulated region (no preemption, no faults).
pub struct Pause(bool);
impl Pause {
    pub fn new() -> Self {
        Pause(INLIB.with(|x| x.replace(false)))
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        INLIB.with(|x| x.set(self.0));
    }
}

#[inline]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno((-r) as i32);
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- allocator
pub struct SimAlloc;
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if active() && sched::yield_point(K_ALLOC) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if active() && sched::yield_point(K_ALLOC) {
            return std::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if active() && sched::yield_point(K_ALLOC) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
}

// ---------------------------------------------------------------- libm
static POW: AtomicUsize = AtomicUsize::new(0);
static EXP: AtomicUsize = AtomicUsize::new(0);
static LOG: AtomicUsize = AtomicUsize::new(0);
static LOG10: AtomicUsize = AtomicUsize::new(0);

pub fn init_libm() {
    unsafe {
        let h = libc::dlopen(c"libm.so.6".as_ptr(), libc::RTLD_NOW);
        assert!(!h.is_null(), "libm.so.6 not found");
        for (n, p) in [(c"pow", &POW), (c"exp", &EXP), (c"log", &LOG), (c"log10", &LOG10)] {
            let s = libc::dlsym(h, n.as_ptr());
            assert!(!s.is_null());
            p.store(s as usize, Ordering::SeqCst);
        }
    }
}
fn libm1(p: &AtomicUsize, x: f64) -> f64 {
    if active() {
        sched::yield_point(K_LIBM);
    }
    let f: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(p.load(Ordering::Relaxed)) };
    f(x)
}
#[unsafe(no_mangle)]
pub extern "C" fn pow(x: f64, y: f64) -> f64 {
    if active() {
        sched::yield_point(K_LIBM);
    }
    let f: extern "C" fn(f64, f64) -> f64 = unsafe { std::mem::transmute(POW.load(Ordering::Relaxed)) };
    f(x, y)
}
#[unsafe(no_mangle)]
pub extern "C" fn exp(x: f64) -> f64 {
    libm1(&EXP, x)
}
#[unsafe(no_mangle)]
pub extern "C" fn log(x: f64) -> f64 {
    libm1(&LOG, x)
}
#[unsafe(no_mangle)]
pub extern "C" fn log10(x: f64) -> f64 {
    libm1(&LOG10, x)
}

// ---------------------------------------------------------------- blocking and scheduling
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_futex && task() >= 0 {
        let op = (b as i32) & 127; // strip PRIVATE and CLOCK_REALTIME flags
        let r = match op {
            0 | 9 => sched::futex_wait(a, c as u32, d != 0),
            1 | 10 => sched::futex_wake(a, c as u32),
            _ => -(libc::ENOSYS as isize),
        };
        return ret(r) as libc::c_long;
    }
    if n == libc::SYS_getrandom && task() >= 0 {
        return unsafe { getrandom(a as *mut u8, b, c as u32) } as libc::c_long;
    }
    ret(unsafe { raw(n, a, b, c, d, e, f) }) as libc::c_long
}
#[unsafe(no_mangle)]
pub extern "C" fn sched_yield() -> i32 {
    if task() >= 0 {
        sched::forced_yield();
        return 0;
    }
    unsafe { raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if task() >= 0 {
        unsafe { sched::sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64) };
        return 0;
    }
    ret(unsafe { raw(libc::SYS_nanosleep, t as usize, r as usize, 0, 0, 0, 0) }) as i32
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, t: *const libc::timespec, r: *mut libc::timespec) -> i32 {
    if task() >= 0 {
        unsafe { sched::sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64) };
        return 0;
    }
    (-unsafe { raw(libc::SYS_clock_nanosleep, c as usize, fl as usize, t as usize, r as usize, 0, 0) }) as i32
}

// ---------------------------------------------------------------- threads of the code under test
type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
fn real(slot: &AtomicUsize, name: &std::ffi::CStr) -> usize {
    let p = slot.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) } as usize;
    assert!(p != 0);
    slot.store(p, Ordering::Relaxed);
    p
}
static CREATE: AtomicUsize = AtomicUsize::new(0);
static JOIN: AtomicUsize = AtomicUsize::new(0);
extern "C" fn adopted(p: *mut libc::c_void) -> *mut libc::c_void {
    let (i, f, a) = *unsafe { Box::from_raw(p as *mut (usize, Start, usize)) };
    sched::adopted_run(i, move || f(a as *mut libc::c_void) as usize) as *mut libc::c_void
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: Start, a: *mut libc::c_void) -> i32 {
    type Fn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> i32;
    let create: Fn = unsafe { std::mem::transmute(real(&CREATE, c"pthread_create")) };
    if task() < 0 {
        return unsafe { create(t, at, f, a) };
    }
    if active() {
        sched::yield_point(K_SYS);
    }
    let _p = Pause::new();
    let Some(i) = sched::adopt() else { return libc::EAGAIN };
    let b = Box::into_raw(Box::new((i, f, a as usize)));
    let r = unsafe { create(t, at, adopted, b as *mut libc::c_void) };
    if r == 0 {
        sched::adopted(i, unsafe { *t } as usize);
    } else {
        sched::not_adopted(i);
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut libc::c_void) -> i32 {
    type Fn = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
    let join: Fn = unsafe { std::mem::transmute(real(&JOIN, c"pthread_join")) };
    if task() >= 0 {
        sched::join(t as usize);
    }
    unsafe { join(t, v) }
}

// ---------------------------------------------------------------- environment
/// What a variable that is not really set holds: nothing, or a number.
static ENVIRON: AtomicUsize = AtomicUsize::new(0);
pub fn strange_environment(on: usize) {
    ENVIRON.store(on, Ordering::Relaxed);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(n: *const libc::c_char) -> *mut libc::c_char {
    static GETENV: AtomicUsize = AtomicUsize::new(0);
    type Fn = unsafe extern "C" fn(*const libc::c_char) -> *mut libc::c_char;
    let get: Fn = unsafe { std::mem::transmute(real(&GETENV, c"getenv")) };
    let r = unsafe { get(n) };
    if active() && !unsafe { std::ffi::CStr::from_ptr(n) }.to_bytes().starts_with(b"RUST_") {
        sched::count(sched::C_GETENV);
        return match ENVIRON.load(Ordering::Relaxed) {
            0 => r,
            1 => c"1".as_ptr() as *mut _,
            2 => c"3".as_ptr() as *mut _,
            _ => c"on".as_ptr() as *mut _,
        };
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(p: i32, n: usize, m: *mut libc::cpu_set_t) -> i32 {
    let r = unsafe { raw(libc::SYS_sched_getaffinity, p as usize, n, m as usize, 0, 0, 0) };
    if r >= 0 {
        unsafe { std::ptr::write_bytes((m as *mut u8).add(r as usize), 0, n - r as usize) };
    }
    if active() && r > 0 {
        // one to four processors, as the environment has it
        unsafe { std::ptr::write_bytes(m as *mut u8, 0, n) };
        unsafe { *(m as *mut u8) = [1, 15, 3, 7][ENVIRON.load(Ordering::Relaxed) % 4] };
        return 0;
    }
    if r < 0 { ret(r) as i32 } else { 0 }
}

// ---------------------------------------------------------------- randomness and clocks
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if task() >= 0 {
        for i in 0..n {
            unsafe { *p.add(i) = sched::random_byte() };
        }
        return n as isize;
    }
    ret(unsafe { raw(libc::SYS_getrandom, p as usize, n, fl as usize, 0, 0, 0) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if task() >= 0 {
        let ns = sched::clock_ns(active(), matches!(c, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE));
        unsafe {
            (*t).tv_sec = (ns / 1_000_000_000) as i64;
            (*t).tv_nsec = (ns % 1_000_000_000) as i64;
        }
        return 0;
    }
    ret(unsafe { raw(libc::SYS_clock_gettime, c as usize, t as usize, 0, 0, 0, 0) }) as i32
}

// ---------------------------------------------------------------- files
const MAXFD: usize = 1024;
static TRACKED: [AtomicUsize; MAXFD] = [const { AtomicUsize::new(0) }; MAXFD];
fn tracked(fd: i32) -> bool {
    fd >= 0 && (fd as usize) < MAXFD && TRACKED[fd as usize].load(Ordering::Relaxed) == 1
}
fn track(fd: i32, on: bool) {
    if fd >= 0 && (fd as usize) < MAXFD {
        TRACKED[fd as usize].store(on as usize, Ordering::Relaxed)
    }
}
/// Are we inside a simulated I/O region (library code, or the application's own load/save code)?
fn in_scratch(p: *const libc::c_char) -> bool {
    let s = unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes();
    let relative = INSIDE.load(Ordering::Relaxed) == 1 && !s.starts_with(b"/") && !s.starts_with(b"..");
    (relative || s.starts_with(sched::scratch())) && !s.windows(3).any(|w| w == b"/..")
}
/// The working directory of this process is in its scratch directory.
static INSIDE: AtomicUsize = AtomicUsize::new(0);
pub fn work_in(dir: &str) {
    std::env::set_current_dir(dir).expect("working directory");
    INSIDE.store(1, Ordering::Relaxed);
}

unsafe fn do_open(dir: i32, p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    if active() {
        let writing = fl & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
        if in_scratch(p) {
            sched::yield_point(K_SYS);
            if let Some(f) = sched::io_fault(IoOp::Open) {
                set_errno(match f {
                    IoFault::Eintr => libc::EINTR,
                    IoFault::Enospc => libc::ENOSPC,
                    IoFault::Erofs => libc::EROFS,
                    IoFault::Emfile => libc::EMFILE,
                    IoFault::Eio => libc::EIO,
                    _ => libc::EACCES,
                });
                return -1;
            }
            let fd = ret(unsafe { raw(libc::SYS_openat, dir as usize, p as usize, fl as usize, mode as usize, 0, 0) }) as i32;
            track(fd, true);
            return fd;
        } else if writing {
            // Containment: code under test may only write below the scratch directory.
            sched::escaped(unsafe { std::ffi::CStr::from_ptr(p) }.to_bytes());
            set_errno(libc::EACCES);
            return -1;
        }
    }
    let fd = ret(unsafe { raw(libc::SYS_openat, dir as usize, p as usize, fl as usize, mode as usize, 0, 0) }) as i32;
    track(fd, false);
    fd
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    unsafe { do_open(libc::AT_FDCWD, p, fl, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    unsafe { do_open(libc::AT_FDCWD, p, fl, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: i32, p: *const libc::c_char, fl: i32, mode: u32) -> i32 {
    unsafe { do_open(d, p, fl, mode) }
}
fn write_fault(n: usize) -> Result<usize, i32> {
    sched::yield_point(K_SYS);
    let mut n = n;
    if let Some(f) = sched::io_fault(IoOp::Write) {
        match f {
            IoFault::Eintr => return Err(libc::EINTR),
            IoFault::Short => n = if n > 1 { n / 2 } else { n },
            IoFault::Short1 => n = n.min(1),
            IoFault::Enospc => return Err(libc::ENOSPC),
            IoFault::Edquot => return Err(libc::EDQUOT),
            _ => return Err(libc::EIO),
        }
    }
    sched::quota(n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if active() {
        if tracked(fd) && n > 0 {
            return match write_fault(n) {
                Ok(m) => ret(unsafe { raw(libc::SYS_write, fd as usize, p as usize, m, 0, 0, 0) }),
                Err(e) => {
                    set_errno(e);
                    -1
                }
            };
        } else if fd == 1 || fd == 2 {
            return n as isize; // swallow output of the code under test
        }
    }
    ret(unsafe { raw(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    if active() && tracked(fd) && n > 0 {
        return match write_fault(n) {
            Ok(m) => ret(unsafe { raw(libc::SYS_pwrite64, fd as usize, p as usize, m, off as usize, 0, 0) }),
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(unsafe { raw(libc::SYS_pwrite64, fd as usize, p as usize, n, off as usize, 0, 0) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, c: i32) -> isize {
    if active() {
        if tracked(fd) {
            for i in 0..c as usize {
                let x = unsafe { &*v.add(i) };
                if x.iov_len > 0 {
                    return unsafe { write(fd, x.iov_base as *const u8, x.iov_len) };
                }
            }
            return 0;
        } else if fd == 1 || fd == 2 {
            return (0..c as usize).map(|i| unsafe { (*v.add(i)).iov_len }).sum::<usize>() as isize;
        }
    }
    ret(unsafe { raw(libc::SYS_writev, fd as usize, v as usize, c as usize, 0, 0, 0) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    let mut n = n;
    if active() && tracked(fd) && n > 0 {
        sched::yield_point(K_SYS);
        match sched::io_fault(IoOp::Read) {
            Some(IoFault::Eintr) => {
                set_errno(libc::EINTR);
                return -1;
            }
            Some(IoFault::Short) => n = n.div_ceil(7),
            Some(IoFault::Short1) => n = 1,
            Some(_) => {
                set_errno(libc::EIO);
                return -1;
            }
            None => {}
        }
    }
    ret(unsafe { raw(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if active() && tracked(fd) {
        sched::yield_point(K_SYS);
        track(fd, false);
    }
    ret(unsafe { raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) }) as i32
}
macro_rules! yielding {
    ($($name:ident ( $($a:ident : $t:ty),* ) = $n:expr;)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
            if active() {
                sched::yield_point(K_SYS);
                if meta_fault() {
                    return -1;
                }
            }
            #[allow(unused_mut, unused_assignments)]
            { let mut v = [0usize; 4]; let mut i = 0; $( v[i] = $a as usize; i += 1; )* let _ = i;
              ret(unsafe { raw($n, v[0], v[1], v[2], v[3], 0, 0) }) as i32 }
        }
    )*};
}
yielding! {
    fsync(fd: i32) = libc::SYS_fsync;
    fdatasync(fd: i32) = libc::SYS_fdatasync;
    ftruncate64(fd: i32, n: i64) = libc::SYS_ftruncate;
}
fn meta_fault() -> bool {
    let Some(f) = sched::io_fault(IoOp::Meta) else { return false };
    set_errno(match f {
        IoFault::Enospc => libc::ENOSPC,
        IoFault::Edquot => libc::EDQUOT,
        IoFault::Eacces => libc::EACCES,
        IoFault::Erofs => libc::EROFS,
        _ => libc::EIO,
    });
    true
}
// Copies inside the kernel: not supported, as on many file systems, so that the bytes pass through read and write.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(a: i32, x: *mut i64, b: i32, y: *mut i64, n: usize, fl: u32) -> isize {
    if active() {
        set_errno(libc::ENOSYS);
        return -1;
    }
    ret(unsafe { raw(libc::SYS_copy_file_range, a as usize, x as usize, b as usize, y as usize, n, fl as usize) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(a: i32, b: i32, x: *mut i64, n: usize) -> isize {
    if active() {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(unsafe { raw(libc::SYS_sendfile, a as usize, b as usize, x as usize, n, 0, 0) })
}
/// Path-changing calls of the code under test are confined to the scratch directory.
macro_rules! confined {
    ($($name:ident ( $($p:ident),* ; $($a:ident : $t:ty),* ) = $n:expr;)*) => {$(
        #[unsafe(no_mangle)]
        pub unsafe extern "C" fn $name($($p: *const libc::c_char,)* $($a: $t),*) -> i32 {
            if active() {
                $( if !in_scratch($p) { sched::escaped(unsafe { std::ffi::CStr::from_ptr($p) }.to_bytes()); set_errno(libc::EACCES); return -1; } )*
                sched::yield_point(K_SYS);
                if matches!(stringify!($name), "rename" | "link" | "symlink" | "truncate64") && meta_fault() {
                    return -1;
                }
            }
            #[allow(unused_mut, unused_assignments)]
            { let mut v = [0usize; 4]; let mut i = 0; $( v[i] = $p as usize; i += 1; )* $( v[i] = $a as usize; i += 1; )* let _ = i;
              ret(unsafe { raw($n, v[0], v[1], v[2], v[3], 0, 0) }) as i32 }
        }
    )*};
}
confined! {
    rename(a, b;) = libc::SYS_rename;
    unlink(a;) = libc::SYS_unlink;
    rmdir(a;) = libc::SYS_rmdir;
    chdir(a;) = libc::SYS_chdir;
    link(a, b;) = libc::SYS_link;
    symlink(a, b;) = libc::SYS_symlink;
    chmod(a; m: u32) = libc::SYS_chmod;
    truncate64(a; n: i64) = libc::SYS_truncate;
    mkdir(a; m: u32) = libc::SYS_mkdir;
}

// ---------------------------------------------------------------- code points
/// The library (and only it) is compiled with LLVM's coverage callbacks: see rustc-wrap.sh.
static PCS: AtomicUsize = AtomicUsize::new(0);
static NEDGES: AtomicUsize = AtomicUsize::new(0);
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    unsafe {
        while p < b {
            if *p == 0 {
                *p = NEDGES.fetch_add(1, Ordering::SeqCst) as u32 + 1;
            }
            p = p.add(1);
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const usize, _: *const usize) {
    PCS.store(a as usize, Ordering::SeqCst);
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    sched::edge(unsafe { *g } as usize);
    if FRESH.get() {
        FRESH.set(false);
        INLIB.set(true);
    }
    sched::code_point();
}
macro_rules! code_points {
    ($($n:ident)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $n(_: *const u8) {
            sched::code_point();
        }
    )*};
}
code_points!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
pub fn edges() -> usize {
    NEDGES.load(Ordering::SeqCst)
}
/// Offset in the program of an edge, and whether it is a function entry.
pub fn edge_pc(i: usize) -> (usize, bool) {
    let p = PCS.load(Ordering::SeqCst) as *const usize;
    unsafe extern "C" {
        static __executable_start: u8;
    }
    if p.is_null() {
        return (0, false);
    }
    unsafe { ((*p.add(2 * (i - 1))).wrapping_sub(&raw const __executable_start as usize), *p.add(2 * (i - 1) + 1) & 1 == 1) }
}
