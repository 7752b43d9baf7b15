//! The allocator seam: memory is delivered full of garbage, and the k-th
//! allocation of a run can fail, alone or with all that follow.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;
pub static mut GARBAGE: u8 = 0;
pub static mut COUNTING: bool = false;
pub static mut COUNT: u64 = 0;
pub static mut FAIL_AT: u64 = u64::MAX;
pub static mut FAILED: u64 = 0;
/// Only the allocation FAIL_AT fails, not all from there on.
pub static mut ONCE: bool = false;

/// Allocations of the simulator itself, in between, are not counted.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let c = COUNTING;
        COUNTING = false;
        let r = f();
        COUNTING = c;
        r
    }
}
unsafe fn refused() -> bool {
    if !COUNTING {
        return false;
    }
    COUNT += 1;
    let no = if ONCE { COUNT == FAIL_AT.wrapping_add(1) } else { COUNT > FAIL_AT };
    FAILED += no as u64;
    no
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if GARBAGE != 0 && !p.is_null() {
            std::ptr::write_bytes(p, GARBAGE, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused() {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if GARBAGE != 0 {
            std::ptr::write_bytes(p, GARBAGE ^ 0xFF, l.size());
        }
        System.dealloc(p, l)
    }
}
