//! The rest of the process's surroundings as the code under test sees them: clocks (virtual), environment
//! variables (set or not, as the scenario says) and the ways to files, other processes and the network (closed;
//! trying is recorded). The simulator itself goes straight to the system.
use crate::alloc;
use crate::rng::{mix, mix2};
use crate::stats::{self, C};
use libc::{c_char, c_int, c_void};
use serde::{Deserialize, Serialize};
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct EnvPlan {
    /// Every environment variable asked for is set.
    pub vars: bool,
    /// Each read or write call takes up to so many microseconds (0: some tens).
    pub slow: u64,
    /// The wall clock is set, forwards and backwards.
    pub jumps: bool,
}

/// Nanoseconds on the monotonic clock.
static NOW: AtomicU64 = AtomicU64::new(1);
static SEED: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static SLOW: AtomicU64 = AtomicU64::new(0);
static VARS: AtomicBool = AtomicBool::new(false);
static JUMPS: AtomicBool = AtomicBool::new(false);
static TOUCHED: Mutex<Option<String>> = Mutex::new(None);

static START: AtomicU64 = AtomicU64::new(0);
const MONTH: u64 = 30 * 86_400 * 1_000_000_000;

pub fn begin_run(seed: u64, p: &EnvPlan) {
    // The monotonic clock never goes back, between two runs either; each run begins at a round number.
    const ROUND: u64 = 1_000_000_000_000;
    let start = (NOW.load(Relaxed) / ROUND + 1) * ROUND;
    START.store(start, Relaxed);
    NOW.store(start, Relaxed);
    SEED.store(mix2(seed, 0xE17), Relaxed);
    CALLS.store(0, Relaxed);
    SLOW.store(p.slow, Relaxed);
    VARS.store(p.vars, Relaxed);
    JUMPS.store(p.jumps, Relaxed);
    *TOUCHED.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

/// Simulated time passes.
pub fn pass(micros: u64) {
    NOW.fetch_add(micros.saturating_mul(1000), Relaxed);
    stats::add(C::SimMicros, micros);
}

/// A read or write call takes its time.
pub fn call(usual: u64) {
    let slow = SLOW.load(Relaxed);
    if slow == 0 || NOW.load(Relaxed) - START.load(Relaxed) > MONTH {
        return pass(usual);
    }
    let h = mix2(SEED.load(Relaxed), CALLS.fetch_add(1, Relaxed));
    // Of all magnitudes up to that.
    let most = slow >> (h & 31) % 24;
    if most > 1_000_000 {
        stats::count(C::Stall);
    }
    pass(usual + (h >> 8) % most.max(1));
}

/// What the code under test reached for besides its reader and writer.
pub fn touched() -> Option<String> {
    TOUCHED.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// If the code under test calls: note it, and refuse.
fn refuse(what: &str, path: *const c_char) -> bool {
    if !alloc::inside() {
        return false;
    }
    alloc::leave(|| {
        let name = if path.is_null() { String::new() } else { unsafe { CStr::from_ptr(path) }.to_string_lossy().into_owned() };
        // What the machine is like may be asked (the regular expressions ask for the number of processors);
        // here it does not say.
        if what.starts_with("open") && (name.starts_with("/proc/") || name.starts_with("/sys/")) {
            return;
        }
        stats::count(C::Touched);
        let mut t = TOUCHED.lock().unwrap_or_else(|e| e.into_inner());
        if t.is_none() {
            *t = Some(format!("{what}({name})"));
        }
    });
    unsafe { *libc::__errno_location() = libc::EACCES };
    true
}

unsafe fn next(name: &CStr) -> *mut c_void {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        libc::abort();
    }
    p
}

macro_rules! closed {
    ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty, $path:expr, $bad:expr;)*) => {$(
        #[no_mangle]
        #[allow(invalid_runtime_symbol_definitions)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            let path: *const c_char = $path;
            if refuse(stringify!($name), path) {
                return $bad;
            }
            const NAME: &CStr = match CStr::from_bytes_with_nul(concat!(stringify!($name), "\0").as_bytes()) {
                Ok(s) => s,
                Err(_) => panic!(),
            };
            let f: unsafe extern "C" fn($($t),*) -> $r = std::mem::transmute(next(NAME));
            f($($a),*)
        }
    )*};
}

closed! {
    open(path: *const c_char, flags: c_int, mode: c_int) -> c_int, path, -1;
    open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int, path, -1;
    openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int, path, -1;
    openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int, path, -1;
    opendir(path: *const c_char) -> *mut c_void, path, std::ptr::null_mut();
    mkdir(path: *const c_char, mode: u32) -> c_int, path, -1;
    rmdir(path: *const c_char) -> c_int, path, -1;
    unlink(path: *const c_char) -> c_int, path, -1;
    rename(path: *const c_char, to: *const c_char) -> c_int, path, -1;
    linkat(a: c_int, path: *const c_char, b: c_int, to: *const c_char, flags: c_int) -> c_int, path, -1;
    symlink(to: *const c_char, path: *const c_char) -> c_int, path, -1;
    chmod(path: *const c_char, mode: u32) -> c_int, path, -1;
    chdir(path: *const c_char) -> c_int, path, -1;
    setenv(path: *const c_char, value: *const c_char, over: c_int) -> c_int, path, -1;
    unsetenv(path: *const c_char) -> c_int, path, -1;
    socket(a: c_int, b: c_int, c: c_int) -> c_int, std::ptr::null(), -1;
    pipe2(fds: *mut c_int, flags: c_int) -> c_int, std::ptr::null(), -1;
    fork() -> c_int, std::ptr::null(), -1;
    posix_spawn(pid: *mut c_void, path: *const c_char, fa: *const c_void, at: *const c_void, av: *const c_void, ev: *const c_void) -> c_int, path, libc::EACCES;
    posix_spawnp(pid: *mut c_void, path: *const c_char, fa: *const c_void, at: *const c_void, av: *const c_void, ev: *const c_void) -> c_int, path, libc::EACCES;
    execvp(path: *const c_char, argv: *const c_void) -> c_int, path, -1;
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if refuse("read", std::ptr::null()) {
        return -1;
    }
    crate::sched::raw(libc::SYS_read, [fd as usize, buf as usize, n, 0, 0, 0]) as isize
}

extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = CStr::from_ptr(name).to_bytes();
    if alloc::inside() && !name.starts_with(b"RUST_") {
        stats::count(C::EnvRead);
        return if VARS.load(Relaxed) { c"1".as_ptr() as *mut c_char } else { std::ptr::null_mut() };
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > name.len() && e[name.len()] == b'=' && e.starts_with(name) {
            return (*p).add(name.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    let wall = matches!(clock, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE);
    let mono = matches!(clock, libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME);
    if !alloc::inside() || !(wall || mono) {
        return crate::sched::raw(libc::SYS_clock_gettime, [clock as usize, ts as usize, 0, 0, 0, 0]) as c_int;
    }
    stats::count(C::ClockRead);
    let mut t = NOW.fetch_add(50, Relaxed) + 50;
    if wall {
        t = t - START.load(Relaxed) + 1_700_000_000_000_000_000;
        if JUMPS.load(Relaxed) {
            let h = mix(SEED.load(Relaxed) ^ CALLS.fetch_add(1, Relaxed));
            if h % 4 == 0 {
                stats::count(C::ClockJump);
                t = t - 500_000_000_000_000_000 + (h >> 2) % 1_000_000_000_000_000_000;
            }
        }
    }
    (*ts).tv_sec = (t / 1_000_000_000) as _;
    (*ts).tv_nsec = (t % 1_000_000_000) as _;
    0
}
