//! The file-system calls of this process, taken over by symbol: counted, stopped at, torn or made to fail.
//! Nothing happens unless a plan is armed; only calls on paths under the armed directory count.
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::cell::UnsafeCell;

/// What happens at a counted call.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Plan {
    /// only count
    Count,
    /// the process stops at call n; a write has put that many bytes first
    Stop(u64, usize),
    /// call n fails with this error
    Fail(u64, c_int),
    /// every call that makes or writes something fails with this error from call n on
    Full(u64, c_int),
    /// call n, a read or write, does that many bytes only
    Short(u64, usize),
    /// call n, a write, does that many bytes only and the next one fails with this error
    ShortFail(u64, usize, c_int),
}

/// kinds: o open, c create, r read, w write, m mkdir, d opendir, e readdir, u unlink, x rmdir, n rename, t truncate, s sync, q stat
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Call {
    pub kind: char,
    pub len: usize,
}

pub const STOPPED: c_int = 97;

const MAXFD: usize = 4096;
static ON: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static PLAN: AtomicU8 = AtomicU8::new(0);
static AT: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicUsize = AtomicUsize::new(0);
static ERR: AtomicI32 = AtomicI32::new(0);
static AFTER: AtomicBool = AtomicBool::new(false);
static HIT: AtomicBool = AtomicBool::new(false);
static STATS: AtomicBool = AtomicBool::new(false);
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU8 = AtomicU8::new(0);
static FDS: [AtomicU8; MAXFD] = [Z; MAXFD];
static DIR: Spin<Vec<u8>> = Spin::new(Vec::new());
static LOG: Spin<Vec<Call>> = Spin::new(Vec::new());
static DIRS: Spin<Vec<usize>> = Spin::new(Vec::new());
static DIRFDS: Spin<Vec<c_int>> = Spin::new(Vec::new());

/// A lock that makes no system call.
pub struct Spin<T>(AtomicBool, UnsafeCell<T>);
unsafe impl<T> Sync for Spin<T> {}
impl<T> Spin<T> {
    pub const fn new(t: T) -> Spin<T> {
        Spin(AtomicBool::new(false), UnsafeCell::new(t))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        while self.0.swap(true, SeqCst) {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *self.1.get() });
        self.0.store(false, SeqCst);
        r
    }
}

/// Whether stat calls are counted.
pub fn stats(on: bool) {
    STATS.store(on, SeqCst);
}

pub fn arm(dir: &std::path::Path, p: Plan) {
    use std::os::unix::ffi::OsStrExt;
    DIR.with(|d| *d = dir.as_os_str().as_bytes().to_vec());
    LOG.with(|l| l.clear());
    DIRS.with(|l| l.clear());
    DIRFDS.with(|l| l.clear());
    COUNT.store(0, SeqCst);
    AFTER.store(false, SeqCst);
    HIT.store(false, SeqCst);
    let (k, n, b, e) = match p {
        Plan::Count => (0, 0, 0, 0),
        Plan::Stop(n, b) => (1, n, b, 0),
        Plan::Fail(n, e) => (2, n, 0, e),
        Plan::Full(n, e) => (3, n, 0, e),
        Plan::Short(n, b) => (4, n, b, 0),
        Plan::ShortFail(n, b, e) => (5, n, b, e),
    };
    PLAN.store(k, SeqCst);
    AT.store(n, SeqCst);
    BYTES.store(b, SeqCst);
    ERR.store(e, SeqCst);
    ON.store(true, SeqCst);
}

/// The counted calls, and whether the plan came into effect.
pub fn disarm() -> (Vec<Call>, bool) {
    ON.store(false, SeqCst);
    (LOG.with(|l| l.clone()), HIT.load(SeqCst))
}

pub fn stop_now() -> ! {
    unsafe {
        raw(231, STOPPED as usize, 0, 0, 0);
    }
    loop {}
}

unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize) -> isize {
    raw6(n, a, b, c, d, 0, 0)
}

pub unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}

enum Do {
    Go,
    Bytes(usize),
    Err(c_int),
}

fn under(p: *const c_char) -> bool {
    if !ON.load(SeqCst) {
        return false;
    }
    DIR.with(|d| unsafe { CStr::from_ptr(p) }.to_bytes().starts_with(d))
}

fn tracked(fd: c_int) -> bool {
    ON.load(SeqCst) && fd >= 0 && (fd as usize) < MAXFD && FDS[fd as usize].load(SeqCst) != 0
}

/// One counted call. `put` does a part of a write before a stop.
fn call(kind: char, len: usize, put: &mut dyn FnMut(usize)) -> Do {
    let n = COUNT.fetch_add(1, SeqCst) + 1;
    LOG.with(|l| l.push(Call { kind, len }));
    crate::sched::point();
    let at = AT.load(SeqCst);
    match PLAN.load(SeqCst) {
        1 if n == at => {
            let b = BYTES.load(SeqCst).min(len);
            if kind == 'w' && b > 0 {
                put(b);
            }
            stop_now();
        }
        2 if n == at => {
            HIT.store(true, SeqCst);
            Do::Err(ERR.load(SeqCst))
        }
        3 if n >= at && matches!(kind, 'c' | 'w' | 'm' | 'n') => {
            HIT.store(true, SeqCst);
            Do::Err(ERR.load(SeqCst))
        }
        4 if n == at => {
            HIT.store(true, SeqCst);
            Do::Bytes(BYTES.load(SeqCst).min(len))
        }
        5 if n == at => {
            HIT.store(true, SeqCst);
            AFTER.store(true, SeqCst);
            Do::Bytes(BYTES.load(SeqCst).min(len))
        }
        5 if kind == 'w' && AFTER.swap(false, SeqCst) => Do::Err(ERR.load(SeqCst)),
        _ => Do::Go,
    }
}

pub unsafe fn fail(e: c_int) -> c_int {
    *libc::__errno_location() = e;
    -1
}

fn nothing(_: usize) {}

unsafe fn open_at(dfd: c_int, path: *const c_char, flags: c_int, mode: usize, counted: bool) -> c_int {
    if counted {
        let kind = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { 'c' } else { 'o' };
        if let Do::Err(e) = call(kind, 0, &mut nothing) {
            return fail(e);
        }
    }
    let fd = ret(raw(257, dfd as usize, path as usize, flags as usize, mode)) as c_int;
    if fd >= 0 && (fd as usize) < MAXFD {
        FDS[fd as usize].store(counted as u8, SeqCst);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode, under(path))
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: usize) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode, under(path))
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, path: *const c_char, flags: c_int, mode: usize) -> c_int {
    let c = if dfd == libc::AT_FDCWD { under(path) } else { under(path) || tracked(dfd) };
    open_at(dfd, path, flags, mode, c)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dfd: c_int, path: *const c_char, flags: c_int, mode: usize) -> c_int {
    openat64(dfd, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let mut n = n;
    if tracked(fd) {
        match call('r', n, &mut nothing) {
            Do::Err(e) => return fail(e) as isize,
            Do::Bytes(b) => n = b,
            Do::Go => {}
        }
    }
    ret(raw(0, fd as usize, buf as usize, n, 0))
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if tracked(fd) {
        match call('w', n, &mut |b| {
            raw(1, fd as usize, buf as usize, b, 0);
        }) {
            Do::Err(e) => return fail(e) as isize,
            Do::Bytes(b) => n = b,
            Do::Go => {}
        }
    }
    ret(raw(1, fd as usize, buf as usize, n, 0))
}

macro_rules! path_call {
    ($name:ident, $kind:expr, $nr:expr, $p:ident $(, $a:ident : $t:ty)*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($p: *const c_char $(, $a: $t)*) -> c_int {
            if under($p) {
                if let Do::Err(e) = call($kind, 0, &mut nothing) {
                    return fail(e);
                }
            }
            let args = [$p as usize $(, $a as usize)*, 0];
            ret(raw($nr, args[0], args[1], 0, 0)) as c_int
        }
    };
}
path_call!(mkdir, 'm', 83, path, mode: u32);
path_call!(rmdir, 'x', 84, path);
path_call!(unlink, 'u', 87, path);
path_call!(rename, 'n', 82, path, to: *const c_char);

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    if under(path) || (dfd != libc::AT_FDCWD && tracked(dfd)) {
        if let Do::Err(e) = call(if flags & libc::AT_REMOVEDIR != 0 { 'x' } else { 'u' }, 0, &mut nothing) {
            return fail(e);
        }
    }
    ret(raw(263, dfd as usize, path as usize, flags as usize, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if tracked(fd) {
        if let Do::Err(e) = call('t', 0, &mut nothing) {
            return fail(e);
        }
    }
    ret(raw(77, fd as usize, len as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if tracked(fd) {
        if let Do::Err(e) = call('s', 0, &mut nothing) {
            return fail(e);
        }
    }
    ret(raw(74, fd as usize, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    if STATS.load(SeqCst) && ON.load(SeqCst) && !path.is_null() {
        let name = CStr::from_ptr(path).to_bytes();
        let c = match name.first() {
            Some(b'/') => under(path),
            _ => tracked(dfd) || DIRFDS.with(|l| l.contains(&dfd)),
        };
        if c {
            if let Do::Err(e) = call('q', 0, &mut nothing) {
                return fail(e);
            }
        }
    }
    ret(raw6(332, dfd as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int
}

type OpenDir = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
type ReadDir = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;

pub unsafe fn next<T: Copy>(name: &'static [u8]) -> T {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let c = under(path);
    if c {
        if let Do::Err(e) = call('d', 0, &mut nothing) {
            fail(e);
            return std::ptr::null_mut();
        }
    }
    let f: OpenDir = next(b"opendir\0");
    let d = f(path);
    if c && !d.is_null() {
        DIRS.with(|l| l.push(d as usize));
        let fd = libc::dirfd(d);
        DIRFDS.with(|l| l.push(fd));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut libc::DIR {
    let f: unsafe extern "C" fn(c_int) -> *mut libc::DIR = next(b"fdopendir\0");
    let d = f(fd);
    if tracked(fd) && !d.is_null() {
        DIRS.with(|l| l.push(d as usize));
        DIRFDS.with(|l| l.push(fd));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> c_int {
    if ON.load(SeqCst) && DIRS.with(|l| l.contains(&(d as usize))) {
        let fd = libc::dirfd(d);
        DIRS.with(|l| l.retain(|x| *x != d as usize));
        DIRFDS.with(|l| l.retain(|x| *x != fd));
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> c_int = next(b"closedir\0");
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    if ON.load(SeqCst) && DIRS.with(|l| l.contains(&(d as usize))) {
        if let Do::Err(e) = call('e', 0, &mut nothing) {
            fail(e);
            return std::ptr::null_mut();
        }
    }
    let f: ReadDir = next(b"readdir64\0");
    f(d)
}
