//! Counting allocator: the memory seam. Blocks allocated while the code under test runs (`enter`)
//! are tagged, so that what it holds can be told apart from what the simulator holds. Requests
//! beyond a cap fail, as they would on a small machine.
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0); // tagged bytes
static BLOCKS: AtomicI64 = AtomicI64::new(0); // tagged blocks
static PEAK: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicI64 = AtomicI64::new(0); // all bytes
static CAP: AtomicI64 = AtomicI64::new(1 << 30);

thread_local! {
    static ON: Cell<u32> = const { Cell::new(0) };
}

const HEAD: usize = 16;

fn head(l: &Layout) -> usize {
    HEAD.max(l.align())
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let Some(size) = l.size().checked_add(h) else { return std::ptr::null_mut() };
        let Ok(full) = Layout::from_size_align(size, l.align().max(8)) else { return std::ptr::null_mut() };
        let n = l.size() as i64;
        sched::pause();
        if TOTAL.load(Relaxed) + n > CAP.load(Relaxed) {
            if ON.try_with(|c| c.get() > 0).unwrap_or(false) {
                sched::resume();
            }
            return std::ptr::null_mut();
        }
        let tag = ON.try_with(|c| c.get() > 0).unwrap_or(false);
        if tag {
            leave(sched::allocating);
            sched::pause();
        }
        let p = System.alloc(full);
        if p.is_null() {
            if tag {
                sched::resume();
            }
            return p;
        }
        TOTAL.fetch_add(n, Relaxed);
        if tag {
            let now = LIVE.fetch_add(n, Relaxed) + n;
            BLOCKS.fetch_add(1, Relaxed);
            PEAK.fetch_max(now, Relaxed);
        }
        let q = p.add(h);
        (q.sub(8) as *mut u64).write_unaligned(tag as u64);
        if tag {
            sched::resume();
        }
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        sched::pause();
        let h = head(&l);
        let tag = (q.sub(8) as *mut u64).read_unaligned() != 0;
        let n = l.size() as i64;
        TOTAL.fetch_sub(n, Relaxed);
        if tag {
            LIVE.fetch_sub(n, Relaxed);
            BLOCKS.fetch_sub(1, Relaxed);
        }
        let full = Layout::from_size_align_unchecked(l.size() + h, l.align().max(8));
        System.dealloc(q.sub(h), full);
        if ON.try_with(|c| c.get() > 0).unwrap_or(false) {
            sched::resume();
        }
    }
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn blocks() -> i64 {
    BLOCKS.load(Relaxed)
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}

/// Run code under test: its allocations are tagged.
pub fn enter<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let n = ON.with(|c| {
                c.set(c.get() - 1);
                c.get()
            });
            if n == 0 {
                sched::left();
            }
        }
    }
    let n = ON.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let _g = G;
    if n == 1 {
        sched::entered();
    }
    f()
}

/// Is the code under test running on this thread?
pub fn inside() -> bool {
    ON.try_with(|c| c.get() > 0).unwrap_or(false)
}

/// Back in the simulator (its readers and writers are called by the code under test).
pub fn leave<T>(f: impl FnOnce() -> T) -> T {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            ON.with(|c| c.set(self.0));
            if self.0 > 0 {
                sched::resume();
            }
        }
    }
    sched::pause();
    let old = ON.with(|c| c.replace(0));
    let _g = G(old);
    f()
}

/// As `leave`, in a signal handler.
pub fn aside(f: impl FnOnce()) {
    let old = ON.with(|c| c.replace(0));
    f();
    ON.with(|c| c.set(old));
}
