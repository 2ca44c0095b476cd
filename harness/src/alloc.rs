//! Counting what a thread allocates, as a deterministic measure of the work it does
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn note(got: usize, lost: usize) {
    // (not available any more while the thread ends)
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + got as u64));
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + got as i64 - lost as i64);
        let live = c.get();
        let _ = PEAK.try_with(|p| p.set(p.get().max(live)));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note(new, l.size());
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cost {
    pub allocations: u64,
    pub bytes: u64,
    /// the most that was allocated at any one time
    pub peak: u64,
    /// of this thread
    pub nanos: u64,
}

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (c, b, l) = (COUNT.get(), BYTES.get(), LIVE.get());
    PEAK.set(l);
    let t0 = cpu();
    let r = f();
    let cost = Cost {
        allocations: COUNT.get() - c,
        bytes: BYTES.get() - b,
        peak: (PEAK.get() - l).max(0) as u64,
        nanos: cpu() - t0,
    };
    (r, cost)
}
