//! Seeded scheduler: real threads that only ever run one at a time. At every `point()` (each
//! simulated read or write call, each queue operation, and, where the plan says so, each memory
//! allocation of the code under test) the scheduler decides who goes on. In some runs threads are
//! also interrupted between two instructions of the code under test (`fine`), found by single
//! stepping. Waiting for a lock (the futex system call), yielding and sleeping hand the turn on.
use crate::rng::Rng;
use crate::stats::{self, C};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    /// Chance (per mille) of switching at a scheduling point.
    pub switch_pm: u32,
    /// Chance (per mille) of switching at an allocation inside the code under test.
    #[serde(default)]
    pub mem_pm: u32,
    /// Chance (per mille), each time the code under test is entered, of interrupting it somewhere.
    #[serde(default)]
    pub fine_pm: u32,
    /// Interrupt at instructions chosen by address (one in this many) and not after so many instructions.
    #[serde(default)]
    pub fine_pc: u64,
    /// Of those, only instructions that lock the bus or touch a static variable.
    #[serde(default)]
    pub fine_hot: bool,
    /// Only threads from this one on are interrupted.
    #[serde(default)]
    pub fine_from: u32,
    /// Explicit list of (step, thread) switches; used instead of the seed when present.
    pub explicit: Option<Vec<(u64, u32)>>,
}

struct St {
    current: usize,
    done: Vec<bool>,
    waiting: Vec<bool>,
    step: u64,
    rng: Rng,
    plan: Plan,
    at: usize,
    trace: Vec<(u64, u32)>,
    stuck: bool,
}

pub struct Sched {
    st: Mutex<St>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    /// Inside the scheduler itself.
    static BUSY: Cell<bool> = const { Cell::new(false) };
    /// Instructions left until this thread is interrupted; 0 = not stepping.
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static ENTERED: Cell<u64> = const { Cell::new(0) };
    static SPUN: Cell<u32> = const { Cell::new(0) };
}

pub const STEP_CAP: u64 = 4_000_000;
/// Traps left in this run.
static TRAPS: AtomicU64 = AtomicU64::new(0);
const TRAPS_PER_RUN: u64 = 6_000;
static MEM_PM: AtomicU32 = AtomicU32::new(0);
static FINE_PM: AtomicU32 = AtomicU32::new(0);
static FINE_PC: AtomicU64 = AtomicU64::new(0);
static FINE_HOT: AtomicBool = AtomicBool::new(false);
static FINE_FROM: AtomicU32 = AtomicU32::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
const BY_ADDRESS: u64 = 1 << 60;

struct Busy(bool);
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.with(|b| b.set(self.0));
    }
}
fn busy() -> Busy {
    Busy(BUSY.with(|b| b.replace(true)))
}

impl St {
    fn runnable(&self) -> Vec<usize> {
        (0..self.done.len()).filter(|&i| !self.done[i] && !self.waiting[i]).collect()
    }
    /// Decide who runs next. `must` = the current thread cannot go on.
    fn choose(&mut self, must: bool, pm: u32) {
        let mut run = self.runnable();
        if run.is_empty() {
            // Everybody waits: let them all look again once; if nothing moved, it is a deadlock.
            if self.done.iter().all(|d| *d) {
                return;
            }
            self.stuck = true;
            for w in self.waiting.iter_mut() {
                *w = false;
            }
            run = self.runnable();
        }
        self.step += 1;
        let cur_ok = !must && run.contains(&self.current);
        let mut next = if cur_ok { self.current } else { run[0] };
        match &self.plan.explicit {
            Some(list) => {
                while self.at < list.len() && list[self.at].0 < self.step {
                    self.at += 1;
                }
                if self.at < list.len() && list[self.at].0 == self.step {
                    let t = list[self.at].1 as usize;
                    if run.contains(&t) {
                        next = t;
                    }
                    self.at += 1;
                }
            }
            None => {
                if !cur_ok || self.rng.permille(pm) {
                    next = *self.rng.pick(&run);
                }
            }
        }
        if next != self.current {
            self.trace.push((self.step, next as u32));
            stats::count(C::Switch);
            stats::event(0x5c4ed ^ ((self.step) << 8) ^ next as u64);
        }
        self.current = next;
    }
}

/// A scheduling point of the calling simulated thread (nothing outside the scheduler).
pub fn point() {
    point_with(None, false);
}

fn point_with(pm: Option<u32>, must: bool) {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, id)) = me {
        let _busy = busy();
        let mut st = s.st.lock().unwrap();
        if st.step > STEP_CAP {
            return;
        }
        let pm = pm.unwrap_or(st.plan.switch_pm);
        if must {
            // Somebody else, unless there is nobody.
            let only = st.runnable().iter().all(|&i| i == id);
            if !only {
                st.waiting[id] = true;
                st.choose(true, pm);
                st.waiting[id] = false;
            } else if st.waiting.iter().any(|w| *w) {
                // Those who wait for a queue may look again.
                for w in st.waiting.iter_mut() {
                    *w = false;
                }
            }
        } else {
            st.choose(false, pm);
        }
        if st.current != id {
            s.cv.notify_all();
            while st.current != id {
                st = s.cv.wait(st).unwrap();
            }
        }
    }
}

#[cfg(feature = "arc")]
/// Wait until `ready` holds; other threads run meanwhile. False if nobody can ever make it hold.
pub fn wait_until(mut ready: impl FnMut() -> bool) -> bool {
    let me = ME.with(|m| m.borrow().clone());
    let Some((s, id)) = me else { return ready() };
    let mut tries = 0;
    while !ready() {
        let _busy = busy();
        let mut st = s.st.lock().unwrap();
        st.waiting[id] = true;
        st.choose(true, 0);
        if st.stuck {
            tries += 1;
            st.stuck = false;
        }
        s.cv.notify_all();
        while st.current != id {
            st = s.cv.wait(st).unwrap();
        }
        st.waiting[id] = false;
        if tries > 3 || st.step > STEP_CAP {
            return false;
        }
    }
    true
}

#[cfg(feature = "arc")]
/// Something changed that a waiting thread may be waiting for.
pub fn wake() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, _)) = me {
        let _busy = busy();
        let mut st = s.st.lock().unwrap();
        for w in st.waiting.iter_mut() {
            *w = false;
        }
        st.stuck = false;
    }
}

pub type Body = Box<dyn FnOnce() + Send>;

/// Run the bodies as simulated threads to completion. Returns the switches taken and, per body,
/// whether it panicked.
pub fn run(plan: &Plan, bodies: Vec<Body>) -> (Vec<(u64, u32)>, Vec<bool>) {
    let n = bodies.len();
    TRAPS.store(TRAPS_PER_RUN, Relaxed);
    MEM_PM.store(plan.mem_pm, Relaxed);
    FINE_PM.store(if stepping_works() { plan.fine_pm } else { 0 }, Relaxed);
    FINE_PC.store(plan.fine_pc, Relaxed);
    FINE_HOT.store(plan.fine_hot, Relaxed);
    FINE_FROM.store(plan.fine_from, Relaxed);
    SEED.store(plan.seed, Relaxed);
    let s = Arc::new(Sched {
        st: Mutex::new(St {
            current: usize::MAX,
            done: vec![false; n],
            waiting: vec![false; n],
            step: 0,
            rng: Rng::new(plan.seed),
            plan: plan.clone(),
            at: 0,
            trace: vec![],
            stuck: false,
        }),
        cv: Condvar::new(),
    });
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        let s2 = s.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || {
                    BUSY.with(|b| b.set(true));
                    ME.with(|m| *m.borrow_mut() = Some((s2.clone(), i)));
                    {
                        let mut st = s2.st.lock().unwrap();
                        while st.current != i {
                            st = s2.cv.wait(st).unwrap();
                        }
                    }
                    BUSY.with(|b| b.set(false));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    BUSY.with(|b| b.set(true));
                    ME.with(|m| *m.borrow_mut() = None);
                    let mut st = s2.st.lock().unwrap();
                    st.done[i] = true;
                    for w in st.waiting.iter_mut() {
                        *w = false;
                    }
                    st.choose(true, 0);
                    s2.cv.notify_all();
                    r.is_err()
                })
                .unwrap(),
        );
    }
    {
        let mut st = s.st.lock().unwrap();
        st.choose(true, 0);
        s.cv.notify_all();
    }
    let bad: Vec<bool> = hs.into_iter().map(|h| h.join().unwrap_or(true)).collect();
    MEM_PM.store(0, Relaxed);
    FINE_PM.store(0, Relaxed);
    let st = s.st.lock().unwrap();
    (st.trace.clone(), bad)
}

// ---- memory allocation as a scheduling point --------------------------------------------------

/// Called for each allocation inside the code under test.
pub fn allocating() {
    let pm = MEM_PM.load(Relaxed);
    if pm > 0 && !BUSY.with(|b| b.get()) && ME.try_with(|m| m.borrow().is_some()).unwrap_or(false) {
        point_with(Some(pm), false);
    }
}

// ---- between two instructions -----------------------------------------------------------------

fn trap_flag(on: bool) {
    unsafe {
        if on {
            std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        } else {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq");
        }
    }
}

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

static TRAPPED: AtomicU64 = AtomicU64::new(0);

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        TRAPPED.fetch_add(1, Relaxed);
        let left = COUNTDOWN.with(|c| c.get());
        let out_of_traps = TRAPS.load(Relaxed) == 0;
        if left == 0 || out_of_traps {
            COUNTDOWN.with(|c| c.set(0));
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        TRAPS.fetch_sub(1, Relaxed);
        let pc = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        let start = &raw const __executable_start as usize;
        // Never inside the C library, which may hold locks of its own.
        if pc < start || pc >= &raw const etext as usize {
            return;
        }
        if left >= BY_ADDRESS {
            if FINE_HOT.load(Relaxed) && !touches_shared(pc, &uc.uc_mcontext.gregs) {
                return;
            }
            if crate::rng::mix2(SEED.load(Relaxed), (pc - start) as u64) % FINE_PC.load(Relaxed).max(1) != 0 {
                return;
            }
        } else {
            COUNTDOWN.with(|c| c.set(left - 1));
            if left > 1 {
                return;
            }
        }
        let errno = *libc::__errno_location();
        crate::alloc::aside(|| {
            stats::count(C::Preempt);
            point_with(Some(900), false);
            if left < BY_ADDRESS {
                arm(2);
            }
        });
        if COUNTDOWN.with(|c| c.get()) == 0 {
            uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        }
        *libc::__errno_location() = errno;
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Is the next instruction one that threads meet at: a locked one, or one that reads or writes a
/// static variable?
unsafe fn touches_shared(pc: usize, regs: &[libc::greg_t]) -> bool {
    const ORDER: [i32; 16] = [
        libc::REG_RAX, libc::REG_RCX, libc::REG_RDX, libc::REG_RBX, libc::REG_RSP, libc::REG_RBP, libc::REG_RSI, libc::REG_RDI,
        libc::REG_R8, libc::REG_R9, libc::REG_R10, libc::REG_R11, libc::REG_R12, libc::REG_R13, libc::REG_R14, libc::REG_R15,
    ];
    let reg = |i: usize| regs[ORDER[i & 15] as usize] as usize;
    let byte = |i: usize| *((pc + i) as *const u8);
    let mut i = 0;
    let mut rex = 0u8;
    loop {
        match byte(i) {
            0xf0 => return true,
            // Thread-local.
            0x64 | 0x65 => return false,
            0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => i += 1,
            b @ 0x40..=0x4f => {
                rex = b;
                i += 1;
                break;
            }
            _ => break,
        }
    }
    let op = byte(i);
    i += 1;
    let has_address = if op == 0x0f {
        let op = byte(i);
        i += 1;
        match op {
            0x38 | 0x3a => {
                i += 1;
                true
            }
            0x00..=0x0f | 0x18..=0x1f | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf => false,
            _ => true,
        }
    } else {
        match op {
            0x00..=0x3f => op & 7 < 4,
            0x63 | 0x69 | 0x6b | 0x80..=0x8b | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf | 0xf6 | 0xf7 | 0xfe | 0xff => true,
            _ => false,
        }
    };
    if !has_address {
        return false;
    }
    let m = byte(i);
    i += 1;
    let (md, rm) = (m >> 6, m & 7);
    if md == 3 {
        return false;
    }
    let ext = |bit: u8| ((rex >> bit & 1) as usize) << 3;
    let long = |i: usize| ((pc + i) as *const i32).read_unaligned() as isize as usize;
    let mut a;
    let mut base_is_none = false;
    if rm == 4 {
        let sib = byte(i);
        i += 1;
        let (scale, index, base) = (sib >> 6, (sib >> 3 & 7) as usize | ext(1), sib & 7);
        base_is_none = base == 5 && md == 0;
        a = if base_is_none { 0 } else { reg(base as usize | ext(0)) };
        if index != 4 {
            a = a.wrapping_add(reg(index) << scale);
        }
    } else if rm == 5 && md == 0 {
        // Relative to the end of the instruction; its last bytes do not matter here.
        a = (pc + i + 4).wrapping_add(long(i));
    } else {
        a = reg(rm as usize | ext(0));
    }
    match md {
        1 => a = a.wrapping_add(byte(i) as i8 as isize as usize),
        2 => a = a.wrapping_add(long(i)),
        _ if base_is_none => a = a.wrapping_add(long(i)),
        _ => {}
    }
    a >= &raw const __data_start as usize && a < &raw const _end as usize
}

/// Does single stepping work here?
fn stepping_works() -> bool {
    use std::sync::OnceLock;
    static WORKS: OnceLock<bool> = OnceLock::new();
    *WORKS.get_or_init(|| unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        if libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()) != 0 {
            return false;
        }
        let before = TRAPPED.load(Relaxed);
        COUNTDOWN.with(|c| c.set(0));
        trap_flag(true);
        std::hint::black_box(0);
        trap_flag(false);
        TRAPPED.load(Relaxed) > before
    })
}

/// Choose where this thread is interrupted next, if at all.
fn arm(one_in: u64) {
    let n = ENTERED.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let id = ME.with(|m| m.borrow().as_ref().map(|x| x.1)).unwrap_or(0) as u64;
    let x = crate::rng::mix2(SEED.load(Relaxed) ^ 0xF17E ^ id << 40, n);
    let goes = if one_in > 0 { x % one_in == 0 } else { x % 1000 < FINE_PM.load(Relaxed) as u64 };
    let k = if !goes || TRAPS.load(Relaxed) == 0 || id < FINE_FROM.load(Relaxed) as u64 {
        0
    } else if FINE_PC.load(Relaxed) > 0 {
        BY_ADDRESS
    } else { 1 + (x >> 12 & 0xfff) % (2 << (x >> 30 & 0xf) % 12)
    };
    COUNTDOWN.with(|c| c.set(k));
}

/// The code under test is entered.
pub fn entered() {
    if FINE_PM.load(Relaxed) > 0 && ME.try_with(|m| m.borrow().is_some()).unwrap_or(false) {
        arm(0);
        resume();
    }
}

/// The simulator takes over for a moment: no stepping.
pub fn pause() {
    if COUNTDOWN.try_with(|c| c.get() > 0).unwrap_or(false) {
        trap_flag(false);
    }
}

pub fn resume() {
    if COUNTDOWN.try_with(|c| c.get() > 0).unwrap_or(false) {
        trap_flag(true);
    }
}

/// The code under test has returned.
pub fn left() {
    if COUNTDOWN.try_with(|c| c.get() > 0).unwrap_or(false) {
        trap_flag(false);
        COUNTDOWN.with(|c| c.set(0));
    }
}

// ---- locks, yielding, sleeping ----------------------------------------------------------------

/// A simulated thread cannot go on before another one did something.
fn blocked() -> bool {
    let simulated = !BUSY.try_with(|b| b.get()).unwrap_or(true) && ME.try_with(|m| m.borrow().is_some()).unwrap_or(false);
    if !simulated {
        return false;
    }
    crate::alloc::leave(|| {
        stats::count(C::LockWait);
        point_with(None, true);
    });
    true
}

pub unsafe fn raw(n: libc::c_long, a: [usize; 6]) -> libc::c_long {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r as libc::c_long
}

/// The standard library's way into the kernel for locks.
#[no_mangle]
pub unsafe extern "C-unwind" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if n == libc::SYS_futex {
        let op = b as i32 & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let word = &*(a as *const AtomicU32);
            if !BUSY.try_with(|b| b.get()).unwrap_or(true) && word.load(Relaxed) == c as u32 && blocked() {
                let spun = SPUN.with(|s| {
                    s.set(s.get() + 1);
                    s.get()
                });
                if spun > 20_000 {
                    SPUN.with(|s| s.set(0));
                    panic!("deadlock: a lock is never released");
                }
                return 0;
            }
        } else if op == libc::FUTEX_WAKE {
            SPUN.try_with(|s| s.set(0)).ok();
        }
    }
    raw(n, [a, b, c, d, e, f])
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !blocked() {
        raw(libc::SYS_sched_yield, [0; 6]);
    }
    0
}

/// Sleeping in the code under test takes no time but simulated time.
unsafe fn slept(req: *const libc::timespec) -> bool {
    if !crate::alloc::inside() {
        return false;
    }
    crate::env::pass((*req).tv_sec as u64 * 1_000_000 + (*req).tv_nsec as u64 / 1000);
    true
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if blocked() || slept(req) {
        return 0;
    }
    raw(libc::SYS_nanosleep, [req as usize, rem as usize, 0, 0, 0, 0]) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if blocked() || slept(req) {
        return 0;
    }
    match raw(libc::SYS_clock_nanosleep, [clock as usize, flags as usize, req as usize, rem as usize, 0, 0]) {
        0 => 0,
        _ => *libc::__errno_location(),
    }
}
