//! The global allocator of the simulator: the system's, which on demand fills
//! fresh and freed memory with garbage of the run's choosing.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, AtomicU8, Ordering};

pub struct SimAlloc;

static BYTE: AtomicU8 = AtomicU8::new(0);

// The meter (single-threaded use only): bytes requested, bytes held, the most
// bytes held.
static METER: AtomicBool = AtomicBool::new(false);
static BYTES: AtomicU64 = AtomicU64::new(0);
static HELD: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
// The lowest stack address seen where the crate asks for memory or calls the
// client, and the one where it was called.
static LOW: AtomicUsize = AtomicUsize::new(0);
static TOP: AtomicUsize = AtomicUsize::new(0);

#[inline(never)]
fn stack_address() -> usize {
    let here = 0u8;
    std::hint::black_box(&here as *const u8 as usize)
}

#[inline(always)]
pub fn probe_stack() {
    if cfg!(feature = "work") && METER.load(Ordering::Relaxed) {
        LOW.fetch_min(stack_address(), Ordering::Relaxed);
    }
}

/// The most stack seen in use.
pub fn meter_stack() -> u64 {
    (TOP.load(Ordering::Relaxed) - LOW.load(Ordering::Relaxed)) as u64
}

#[inline(never)]
pub fn meter_start() {
    let here = stack_address();
    LOW.store(here, Ordering::Relaxed);
    TOP.store(here, Ordering::Relaxed);
    BYTES.store(0, Ordering::Relaxed);
    HELD.store(0, Ordering::Relaxed);
    PEAK.store(0, Ordering::Relaxed);
    METER.store(true, Ordering::Relaxed);
}

/// (bytes requested, most bytes held at once)
pub fn meter_stop() -> (u64, u64) {
    METER.store(false, Ordering::Relaxed);
    (BYTES.load(Ordering::Relaxed), PEAK.load(Ordering::Relaxed))
}

fn metered(got: usize, freed: usize) {
    if METER.load(Ordering::Relaxed) {
        probe_stack();
        BYTES.fetch_add(got as u64, Ordering::Relaxed);
        let h = HELD.load(Ordering::Relaxed).wrapping_add(got as u64).wrapping_sub(freed as u64);
        let h = if (h as i64) < 0 { 0 } else { h };
        HELD.store(h, Ordering::Relaxed);
        if h > PEAK.load(Ordering::Relaxed) {
            PEAK.store(h, Ordering::Relaxed);
        }
    }
}

/// 0: leave memory alone.
pub fn set(b: u8) {
    BYTE.store(b, Ordering::Relaxed);
}

// SAFETY: everything is passed on to `System`; memory is only written while
// owned (fresh, or about to be freed).
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        metered(l.size(), 0);
        let p = System.alloc(l);
        let b = BYTE.load(Ordering::Relaxed);
        if b != 0 && !p.is_null() {
            std::ptr::write_bytes(p, b, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        metered(0, l.size());
        let b = BYTE.load(Ordering::Relaxed);
        if b != 0 {
            std::ptr::write_bytes(p, !b, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        metered(l.size(), 0);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if BYTE.load(Ordering::Relaxed) == 0 {
            metered(n, l.size());
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

/// A logger that formats everything and keeps nothing.
pub struct NullLog;
impl log::Log for NullLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        struct W(usize);
        impl Write for W {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        let mut w = W(0);
        let _ = write!(w, "{}", r.args());
    }
    fn flush(&self) {}
}
pub static NULL_LOG: NullLog = NullLog;
