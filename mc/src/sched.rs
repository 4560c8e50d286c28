//! One running thread at a time, chosen at every scheduling point by a plan, so that schedules can be enumerated.
//! Threads come to points through symbols of this binary: file-system calls (fsi), futex calls, thread creation and
//! joining, yields, and (in the build made for it) the atomic operations of dochy's own crates.
use crate::fsi::{raw6, Spin};
use crate::infra::Ctx;
use crate::proc::{forked, End};
use std::cell::Cell;
use std::os::raw::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

/// What happens when the plan says nothing.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Policy {
    /// a thread runs until it blocks
    Stay,
    /// a thread that was started or woken runs at once
    Eager,
    /// the next thread runs at every point
    Turns,
}
pub const POLICIES: [Policy; 3] = [Policy::Stay, Policy::Eager, Policy::Turns];

const MAXT: usize = 2048;
const DEADLOCK: usize = 98;
const ENDLESS: usize = 96;
/// After that many points without a switch a thread that could go on gives way, as it may be waiting in a loop.
const FAIR: u32 = 2000;
const MAX_POINTS: u64 = 3_000_000;
const CAP: usize = 1 << 20;
const NOBODY: usize = usize::MAX;

static ON: AtomicBool = AtomicBool::new(false);
static BRANCH: AtomicBool = AtomicBool::new(false);
#[allow(clippy::declare_interior_mutable_const)]
const W0: AtomicU32 = AtomicU32::new(0);
static WORDS: [AtomicU32; MAXT] = [W0; MAXT];
static POINTS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NOBODY) };
    static RUN: Cell<u32> = const { Cell::new(0) };
    static HELD: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq)]
enum Th {
    Ready,
    /// waits on an address; the flag: with a time limit
    Wait(usize, bool),
    Join(usize),
    Over,
}

struct State {
    th: Vec<Th>,
    ids: Vec<usize>,
    policy: Policy,
    plan: Vec<(u32, u8)>,
    at: usize,
    decisions: u32,
    log: *mut u16,
    timed_out: bool,
}
unsafe impl Send for State {}
static S: Spin<Option<State>> = Spin::new(None);

fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(NOBODY)
}

fn managed() -> bool {
    ON.load(SeqCst) && me() != NOBODY
}

impl State {
    fn ready_after(&self, who: usize) -> Vec<usize> {
        let n = self.th.len();
        (1..=n).map(|i| (who + i) % n).filter(|i| self.th[*i] == Th::Ready && *i != who).collect()
    }
    /// The plan's choice among `n`, by default `d`.
    fn choose(&mut self, n: usize) -> usize {
        if n < 2 || !BRANCH.load(SeqCst) {
            return 0;
        }
        let i = self.decisions;
        self.decisions += 1;
        let mut c = 0;
        if self.at < self.plan.len() && self.plan[self.at].0 == i {
            c = self.plan[self.at].1 as usize;
            self.at += 1;
            if c >= n {
                c = 0; // the execution is another one than planned; the caller sees it in the log
            }
        }
        if (i as usize) < CAP - 2 {
            unsafe {
                *self.log.add(2 + i as usize) = ((n.min(255) << 8) | c) as u16;
                *(self.log as *mut u32) = i + 1;
            }
        }
        c
    }
}

unsafe fn futex(addr: usize, op: usize, val: usize) -> isize {
    raw6(202, addr, op | 128, val, 0, 0, 0)
}

fn leave(code: usize) -> ! {
    unsafe {
        raw6(231, code, 0, 0, 0, 0, 0);
    }
    loop {}
}

/// Hands over to `next` and waits for the turn to come back.
fn hand(from: usize, next: usize, wait: bool) {
    if next == from {
        return;
    }
    RUN.with(|r| r.set(0));
    WORDS[next].store(1, SeqCst);
    unsafe {
        futex(&WORDS[next] as *const _ as usize, 1, 1);
    }
    if wait {
        wait_turn(from);
    }
}

fn wait_turn(t: usize) {
    while WORDS[t].swap(0, SeqCst) == 0 {
        unsafe {
            futex(&WORDS[t] as *const _ as usize, 0, 0);
        }
    }
}

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    S.with(|s| f(s.as_mut().expect("started")))
}

fn tick() {
    if POINTS.fetch_add(1, SeqCst) > MAX_POINTS {
        if std::env::var_os("MC_ENDLESS").is_some() {
            ON.store(false, SeqCst);
            eprintln!("thread {} {}", me(), std::backtrace::Backtrace::force_capture());
        }
        leave(ENDLESS);
    }
}

/// A place where another thread may go on.
pub fn point() {
    if !managed() {
        return;
    }
    tick();
    if HELD.with(|h| h.get()) > 0 {
        return;
    }
    if RUN.with(|r| r.replace(r.get() + 1)) >= FAIR {
        RUN.with(|r| r.set(0));
        return give_way();
    }
    let t = me();
    let next = with(|s| {
        let others = s.ready_after(t);
        if others.is_empty() {
            return t;
        }
        let mut all = vec![t];
        all.extend(others);
        if s.policy == Policy::Turns && BRANCH.load(SeqCst) {
            all.rotate_left(1);
        }
        let c = s.choose(all.len());
        all[c]
    });
    hand(t, next, true);
}

/// The thread was started or woken by the running one.
fn began(new: usize) {
    let t = me();
    tick();
    if HELD.with(|h| h.get()) > 0 {
        return;
    }
    let next = with(|s| {
        let others = s.ready_after(t);
        if others.is_empty() {
            return t;
        }
        let mut all = vec![t];
        all.extend(others);
        if s.policy != Policy::Stay && BRANCH.load(SeqCst) {
            if let Some(i) = all.iter().position(|x| *x == new) {
                all.remove(i);
                all.insert(0, new);
            }
        }
        let c = s.choose(all.len());
        all[c]
    });
    hand(t, next, true);
}

/// The running thread cannot go on. Gives true if it does because its time is over.
fn block(why: Th, wait: bool) -> bool {
    let t = me();
    tick();
    let next = with(|s| {
        s.th[t] = why;
        let mut all = s.ready_after(t);
        if all.is_empty() {
            // nothing else can happen: the time of a waiting thread runs out
            let n = s.th.len();
            if let Some(i) = (0..n).map(|i| (t + i) % n).find(|i| matches!(s.th[*i], Th::Wait(_, true))) {
                s.th[i] = Th::Ready;
                s.timed_out = true;
                all.push(i);
            } else {
                leave(DEADLOCK);
            }
        }
        let c = s.choose(all.len());
        all[c]
    });
    if next != t {
        hand(t, next, wait);
    }
    if !wait {
        return false;
    }
    with(|s| std::mem::take(&mut s.timed_out))
}

fn give_way() {
    if !managed() {
        return;
    }
    tick();
    let t = me();
    let next = with(|s| s.ready_after(t).first().copied().unwrap_or(t));
    hand(t, next, true);
}

/// No other thread runs during `f` unless it blocks.
pub fn held<R>(f: impl FnOnce() -> R) -> R {
    HELD.with(|h| h.set(h.get() + 1));
    let r = f();
    HELD.with(|h| h.set(h.get() - 1));
    r
}

/// From here on in this process, one thread at a time. Choices begin with `branch`.
fn start(policy: Policy, plan: &[(u32, u8)], log: *mut u16) {
    S.with(|s| {
        *s = Some(State { th: vec![Th::Ready], ids: vec![0], policy, plan: plan.to_vec(), at: 0, decisions: 0, log, timed_out: false })
    });
    ME.with(|m| m.set(0));
    ON.store(true, SeqCst);
}

pub fn branch(on: bool) {
    BRANCH.store(on, SeqCst);
}

fn stop() {
    BRANCH.store(false, SeqCst);
    ON.store(false, SeqCst);
}

/// Counts of an exploration.
#[derive(Default, Debug)]
pub struct Seen {
    pub schedules: u64,
    pub points: u64,
    pub diverged: u64,
}

/// Runs `body` in a process of its own under every schedule with at most `budget` deviations from the policy.
/// Of the first deviations only those of the part are tried. `judge` sees how each process ended.
pub fn explore<F: Fn() -> Result<String, String>>(
    cx: &mut Ctx,
    policy: Policy,
    budget: usize,
    part: (usize, usize),
    mut prepare: impl FnMut(&mut Ctx),
    body: F,
    mut judge: impl FnMut(&mut Ctx, End) -> Result<(), String>,
) -> Result<Seen, String> {
    let log = unsafe { libc::mmap(std::ptr::null_mut(), CAP * 2, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) } as *mut u16;
    assert!(log as isize != -1);
    let mut seen = Seen::default();
    let mut todo: Vec<Vec<(u32, u8)>> = vec![vec![]];
    let mut result = Ok(());
    while let Some(plan) = todo.pop() {
        prepare(cx);
        unsafe {
            *(log as *mut u32) = 0;
        }
        let end = forked(60_000, || {
            std::env::set_var("RAYON_NUM_THREADS", "2");
            start(policy, &plan, log);
            // in a thread of its own: hash maps of a new thread are the same in every process
            let b = &body as *const F as usize;
            let r = std::thread::spawn(move || crate::infra::guard(|| unsafe { (*(b as *const F))() })).join();
            stop();
            r.unwrap_or_else(|_| Err("panicked".into())).and_then(|r| r)
        });
        let n = unsafe { *(log as *mut u32) } as usize;
        let trace: Vec<u16> = (0..n.min(CAP - 2)).map(|i| unsafe { *log.add(2 + i) }).collect();
        seen.schedules += 1;
        seen.points += n as u64;
        cx.eval();
        cx.transitions += n as u64;
        let followed = plan.iter().all(|(i, c)| trace.get(*i as usize).map_or(false, |t| (t & 255) as u8 == *c));
        if !followed {
            seen.diverged += 1;
        }
        if let Err(m) = judge(cx, end) {
            result = Err(format!("schedule {:?}+{}: {}", policy, plan.iter().map(|(i, c)| format!("{}:{}", i, c)).collect::<Vec<_>>().join(","), m));
            break;
        }
        if plan.len() < budget && followed {
            let from = plan.last().map_or(0, |x| x.0 as usize + 1);
            for i in (from..trace.len()).rev() {
                if plan.is_empty() && i % part.1 != part.0 {
                    continue;
                }
                for c in 1..(trace[i] >> 8) as u8 {
                    let mut p = plan.clone();
                    p.push((i as u32, c));
                    todo.push(p);
                }
            }
        }
        cx.beat();
    }
    unsafe {
        libc::munmap(log as *mut c_void, CAP * 2);
    }
    result.map(|_| seen)
}

// ------------------------------------------------------------------ symbols

type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

struct Begin {
    id: usize,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    a: *mut c_void,
}

extern "C" fn run_thread(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Begin) };
    ME.with(|m| m.set(b.id));
    wait_turn(b.id);
    let r = (b.f)(b.a);
    if managed() {
        with(|s| {
            for i in 0..s.th.len() {
                if s.th[i] == Th::Join(b.id) {
                    s.th[i] = Th::Ready;
                }
            }
        });
        block(Th::Over, false);
    }
    ME.with(|m| m.set(NOBODY));
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, a: *mut c_void) -> c_int {
    let real: Create = crate::fsi::next(b"pthread_create\0");
    if !managed() {
        return real(t, attr, f, a);
    }
    let id = with(|s| {
        s.th.push(Th::Ready);
        s.ids.push(0);
        s.th.len() - 1
    });
    assert!(id < MAXT, "too many threads");
    let b = Box::into_raw(Box::new(Begin { id, f, a }));
    let r = real(t, attr, run_thread, b as *mut c_void);
    if r != 0 {
        with(|s| s.th[id] = Th::Over);
        return r;
    }
    with(|s| s.ids[id] = *t as usize);
    began(id);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real: JoinFn = crate::fsi::next(b"pthread_join\0");
    if managed() {
        let who = with(|s| (0..s.ids.len()).rev().find(|i| *i > 0 && s.ids[*i] == t as usize));
        if let Some(i) = who {
            if with(|s| s.th[i] != Th::Over) {
                block(Th::Join(i), true);
            }
        }
    }
    real(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if managed() {
        give_way();
        0
    } else {
        raw6(24, 0, 0, 0, 0, 0, 0) as c_int
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if managed() {
        give_way();
        return 0;
    }
    crate::fsi::ret(raw6(35, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}

const SYS_FUTEX: c_long = 202;
const SYS_GETRANDOM: c_long = 318;

unsafe fn fixed(p: usize, n: usize) -> isize {
    std::ptr::write_bytes(p as *mut u8, 7, n);
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, f: u32) -> isize {
    syscall(SYS_GETRANDOM, p as usize, n, f as usize, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_GETRANDOM && managed() {
        return fixed(a, b) as c_long;
    }
    if n == SYS_FUTEX && managed() {
        let op = b & 127 & !256;
        match op {
            0 | 9 => {
                // wait
                let now = (*(a as *const AtomicU32)).load(SeqCst);
                if now != c as u32 {
                    return crate::fsi::fail(libc::EAGAIN) as c_long;
                }
                if block(Th::Wait(a, d != 0), true) {
                    return crate::fsi::fail(libc::ETIMEDOUT) as c_long;
                }
                return 0;
            }
            1 | 10 => {
                // wake
                let woken = with(|s| {
                    let mut w = vec![];
                    for i in 0..s.th.len() {
                        if w.len() < c && matches!(s.th[i], Th::Wait(x, _) if x == a) {
                            s.th[i] = Th::Ready;
                            w.push(i);
                        }
                    }
                    w
                });
                if let Some(i) = woken.first() {
                    began(*i);
                }
                return woken.len() as c_long;
            }
            _ => {}
        }
    }
    crate::fsi::ret(raw6(n as usize, a, b, c, d, e, f)) as c_long
}

// ------------------------------------------------------------------ atomics of dochy's crates

/// Reference counts (relaxed additions, releasing subtractions) are no points.
#[inline]
fn atom() {
    if ON.load(SeqCst) {
        point();
    }
}

macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $a, _mo: c_int) -> $t {
            atom();
            (*p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *const $a, v: $t, _mo: c_int) {
            atom();
            (*p).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *const $a, v: $t, _mo: c_int) -> $t {
            atom();
            (*p).swap(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $add(p: *const $a, v: $t, mo: c_int) -> $t {
            if mo != 0 {
                atom();
            }
            (*p).fetch_add(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $sub(p: *const $a, v: $t, mo: c_int) -> $t {
            if mo != 3 {
                atom();
            }
            (*p).fetch_sub(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $and(p: *const $a, v: $t, _mo: c_int) -> $t {
            atom();
            (*p).fetch_and(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $or(p: *const $a, v: $t, _mo: c_int) -> $t {
            atom();
            (*p).fetch_or(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _mo: c_int) -> $t {
            atom();
            (*p).fetch_xor(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _mo: c_int) -> $t {
            atom();
            (*p).fetch_nand(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *const $a, c: $t, v: $t, _mo: c_int, _fail: c_int) -> $t {
            atom();
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) => x,
                Err(x) => x,
            }
        }
    };
}
use std::sync::atomic::{AtomicU16, AtomicU8};
atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_mo: c_int) {
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: c_int) {
    std::sync::atomic::compiler_fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_p: *const c_void) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
