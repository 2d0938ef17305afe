//! Controlled scheduling of two real threads.
//!
//! One thread runs at a time. Every allocation (and reallocation) and every file-system call of a
//! controlled thread is a point where the turn can pass to the other thread; a thread that waits
//! for a lock of the other passes the turn on. File-system calls, locks and allocations are seen
//! because this program defines the allocator and the libc functions the standard library calls.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

// ---- raw system calls, as the libc wrappers are replaced ----
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn done(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
const FUTEX: i64 = 202;
fn wait(a: &AtomicU32, v: u32) {
    unsafe { raw(FUTEX, a as *const _ as i64, 128, v as i64, 0, 0, 0) };
}
fn wake(a: &AtomicU32) {
    unsafe { raw(FUTEX, a as *const _ as i64, 129, i32::MAX as i64, 0, 0, 0) };
}

// ---- the schedule ----
thread_local! { static ME: Cell<u32> = const { Cell::new(9) }; }
static ACTIVE: AtomicBool = AtomicBool::new(false);
/// The thread that runs.
static TURN: AtomicU32 = AtomicU32::new(0);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
/// Points passed by each thread: all of them, file-system calls, and those of them that change or look up names.
static POINTS: [[AtomicU64; 3]; 2] = [const { [const { AtomicU64::new(0) }; 3] }; 2];
pub const ANY: usize = 0;
pub const DATA: usize = 1;
pub const NAME: usize = 2;
/// Up to three switches: (thread, number of the point among those of the level).
static PLAN: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
static NEXT: AtomicU32 = AtomicU32::new(0);
static LEVEL: AtomicU32 = AtomicU32::new(0);

fn pass(me: u32) {
    let other = 1 - me;
    if DONE[other as usize].load(SeqCst) {
        return;
    }
    TURN.store(other, SeqCst);
    wake(&TURN);
    while TURN.load(SeqCst) != me {
        wait(&TURN, other);
    }
}
pub fn point(kind: usize) {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    let me = ME.try_with(|m| m.get()).unwrap_or(9);
    if me > 1 {
        return;
    }
    for l in 0..=kind {
        POINTS[me as usize][l].fetch_add(1, SeqCst);
    }
    let level = LEVEL.load(SeqCst) as usize;
    let n = NEXT.load(SeqCst);
    if kind >= level && n < 3 && PLAN[n as usize].load(SeqCst) == (me as u64) << 32 | POINTS[me as usize][level].load(SeqCst) {
        NEXT.store(n + 1, SeqCst);
        pass(me);
    }
}
pub struct Outcome<T> {
    pub results: [T; 2],
    /// Points of each thread by level.
    pub points: [[u64; 3]; 2],
    /// How many of the planned switches happened.
    pub switches: u32,
}
/// Run both under a plan of switches; thread 0 starts, a finished thread passes the turn on.
pub fn run<T: Send>(plan: &[(u32, u64)], level: usize, a: impl FnOnce() -> T + Send, b: impl FnOnce() -> T + Send) -> Outcome<T> {
    for i in 0..2 {
        DONE[i].store(false, SeqCst);
        POINTS[i].iter().for_each(|p| p.store(0, SeqCst));
    }
    for i in 0..3 {
        PLAN[i].store(plan.get(i).map_or(u64::MAX, |(t, k)| (*t as u64) << 32 | k), SeqCst);
    }
    NEXT.store(0, SeqCst);
    LEVEL.store(level as u32, SeqCst);
    TURN.store(0, SeqCst);
    let body = |me: u32, f: Box<dyn FnOnce() -> T + Send + '_>| {
        while TURN.load(SeqCst) != me {
            wait(&TURN, 1 - me);
        }
        ME.with(|m| m.set(me));
        let r = f();
        ME.with(|m| m.set(9));
        DONE[me as usize].store(true, SeqCst);
        TURN.store(1 - me, SeqCst);
        wake(&TURN);
        r
    };
    ACTIVE.store(true, SeqCst);
    let results = std::thread::scope(|s| {
        let x = s.spawn(|| body(0, Box::new(a)));
        let y = s.spawn(|| body(1, Box::new(b)));
        [x.join().unwrap(), y.join().unwrap()]
    });
    ACTIVE.store(false, SeqCst);
    let points = [0, 1].map(|i: usize| [0, 1, 2].map(|l: usize| POINTS[i][l].load(SeqCst)));
    Outcome { results, points, switches: NEXT.load(SeqCst) }
}

// ---- allocations ----
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point(ANY);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point(ANY);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point(ANY);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

// ---- faults and the clock ----
/// What happens to file-system calls of the thread that asked for it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    /// The call with this number fails with this error.
    Fail(u64, i32),
    /// This and all later calls fail.
    FailFrom(u64, i32),
    /// No write takes more than this many bytes.
    Short(usize),
    /// Every other write and read is interrupted.
    Interrupt,
}
thread_local! {
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static MASK: Cell<u32> = const { Cell::new(0) };
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
pub const OPEN: u32 = 1;
pub const WRITE: u32 = 2;
pub const READ: u32 = 4;
pub const NAMES: u32 = 8;
pub const SEEK: u32 = 16;
pub const SYNC: u32 = 32;
/// Run with a fault on this thread's calls of the kinds in the mask; also returns the number of calls.
pub fn faulty<T>(f: Fault, mask: u32, body: impl FnOnce() -> T) -> (T, u64) {
    FAULT.with(|x| x.set(f));
    MASK.with(|x| x.set(mask));
    CALLS.with(|x| x.set(0));
    let r = body();
    FAULT.with(|x| x.set(Fault::None));
    MASK.with(|x| x.set(0));
    (r, CALLS.with(|x| x.get()))
}
pub fn at_time<T>(s: i64, ns: i64, body: impl FnOnce() -> T) -> T {
    CLOCK.with(|c| c.set(Some((s, ns))));
    let r = body();
    CLOCK.with(|c| c.set(None));
    r
}
/// An error for this call, if it is to fail.
fn fault(kind: u32) -> Option<i32> {
    let m = MASK.try_with(|m| m.get()).unwrap_or(0);
    if m & kind == 0 {
        return None;
    }
    let n = CALLS.with(|c| { let n = c.get(); c.set(n + 1); n });
    match FAULT.with(|f| f.get()) {
        Fault::Fail(k, e) if n == k => Some(e),
        Fault::FailFrom(k, e) if n >= k => Some(e),
        Fault::Interrupt if kind & (READ | WRITE) != 0 && n % 2 == 0 => Some(libc::EINTR),
        _ => None,
    }
}
unsafe fn call(kind: u32, n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    point(if kind & (OPEN | NAMES) != 0 { NAME } else { DATA });
    match fault(kind) {
        Some(e) => done(-e as i64),
        None => done(raw(n, a, b, c, d, 0, 0)),
    }
}
const AT_FDCWD: i64 = -100;
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, flags: i32, mode: u32) -> i32 {
    call(OPEN, 257, AT_FDCWD, p as i64, flags as i64, mode as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const i8, flags: i32, mode: u32) -> i32 {
    call(OPEN, 257, d as i64, p as i64, flags as i64, mode as i64) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const i8) -> i32 {
    call(NAMES, 87, p as i64, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    call(NAMES, 82, a as i64, b as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const i8, mode: u32) -> i32 {
    call(NAMES, 83, p as i64, mode as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const i8) -> i32 {
    call(NAMES, 84, p as i64, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
    call(SEEK, 8, fd as i64, o, w as i64, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    call(SYNC, 74, fd as i64, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    let n = match FAULT.try_with(|f| f.get()) {
        Ok(Fault::Short(k)) if MASK.with(|m| m.get()) & WRITE != 0 => n.min(k),
        _ => n,
    };
    call(WRITE, 1, fd as i64, p as i64, n as i64, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut libc::c_void, n: usize) -> isize {
    let n = match FAULT.try_with(|f| f.get()) {
        Ok(Fault::Short(k)) if MASK.with(|m| m.get()) & READ != 0 => n.min(k),
        _ => n,
    };
    call(READ, 0, fd as i64, p as i64, n as i64, 0) as isize
}
/// Locks of the standard library wait here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let me = if ACTIVE.load(SeqCst) { ME.try_with(|m| m.get()).unwrap_or(9) } else { 9 };
    let waits = n == FUTEX && matches!(b & 127, 0 | 9);
    if me < 2 && waits && !DONE[1 - me as usize].load(SeqCst) {
        // the other thread holds the lock
        TURN.store(1 - me, SeqCst);
        wake(&TURN);
        let r = raw(n, a, b, c, d, e, f);
        while TURN.load(SeqCst) != me {
            wait(&TURN, 1 - me);
        }
        return done(r);
    }
    done(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut libc::timespec) -> i32 {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some((s, ns))) = CLOCK.try_with(|c| c.get()) {
            (*t).tv_sec = s;
            (*t).tv_nsec = ns;
            return 0;
        }
    }
    done(raw(228, id as i64, t as i64, 0, 0, 0, 0)) as i32
}
