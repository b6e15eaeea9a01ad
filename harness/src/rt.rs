//! Run-time half of the instrumentation: sanitizer-coverage callbacks for the instrumented crates
//! (edge hit counts for feedback, a logical step counter for bounded-progress monitoring) and a
//! counting allocator (live/peak/total bytes while a measurement is on).
use std::alloc::{GlobalAlloc, Layout, System};

pub const MAP: usize = 1 << 16;
pub static mut HITS: [u8; MAP] = [0; MAP];
pub static mut NGUARDS: u32 = 0;
static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let i = (*guard as usize) & (MAP - 1);
    let h = &mut *(&raw mut HITS[i]);
    *h = h.saturating_add(1);
    STEPS += 1;
    if STEPS > LIMIT {
        over(EXIT_STEPS);
    }
}

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_MEM: i32 = 78;

#[cold]
fn over(code: i32) -> ! {
    // The case being run is in the crash file; the parent process confirms and reports it.
    std::process::exit(code)
}

pub fn guards() -> u32 {
    unsafe { NGUARDS }
}

/// Start a measurement with a step budget.
pub fn begin(limit: u64) {
    unsafe {
        STEPS = 0;
        LIMIT = limit;
    }
}

pub fn steps() -> u64 {
    unsafe { STEPS }
}

pub fn unlimited() {
    unsafe {
        LIMIT = u64::MAX;
    }
}

static mut QUIET: bool = false;

/// What this case covers is not to guide the search, and it may take more steps.
pub fn large() {
    unsafe {
        QUIET = true;
        if LIMIT != u64::MAX {
            LIMIT = LIMIT.max(4_000_000_000);
        }
    }
}

/// Whether the last case asked for that.
pub fn take_large() -> bool {
    unsafe { std::mem::replace(&mut *(&raw mut QUIET), false) }
}

pub fn clear_hits() {
    unsafe {
        let n = (NGUARDS as usize + 1).min(MAP);
        std::ptr::write_bytes((&raw mut HITS) as *mut u8, 0, n);
    }
}

pub fn hits() -> &'static [u8] {
    unsafe {
        let n = (NGUARDS as usize + 1).min(MAP);
        std::slice::from_raw_parts((&raw const HITS) as *const u8, n)
    }
}

pub struct Counting;
static mut LIVE: i64 = 0;
static mut PEAK: i64 = 0;
static mut TOTAL: u64 = 0;
const MEM_LIMIT: i64 = 3 << 30;

// The harness is single threaded while it measures; the statics are deliberately unsynchronised.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE += l.size() as i64;
        TOTAL += l.size() as u64;
        if LIVE > PEAK {
            PEAK = LIVE;
            if LIVE > MEM_LIMIT {
                LIVE = 0;
                over(EXIT_MEM);
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE -= l.size() as i64;
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        LIVE += new as i64 - l.size() as i64;
        if new > l.size() {
            TOTAL += (new - l.size()) as u64;
        }
        if LIVE > PEAK {
            PEAK = LIVE;
            if LIVE > MEM_LIMIT {
                LIVE = 0;
                over(EXIT_MEM);
            }
        }
        System.realloc(p, l, new)
    }
}

/// Returns the live byte count and resets the peak to it.
pub fn mem_mark() -> i64 {
    unsafe {
        PEAK = LIVE;
        LIVE
    }
}

/// Bytes allocated so far, whether still in use or not.
pub fn mem_total() -> u64 {
    unsafe { TOTAL }
}

pub fn mem_peak() -> i64 {
    unsafe { PEAK }
}
