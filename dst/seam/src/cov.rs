//! Callbacks of the compiler's coverage instrumentation of the code under test:
//! every edge, load and store is a scheduling point.
use crate::sched;

static mut LOCAL: [u8; 1] = [0];
/// Edges reached so far, by number; memory shared with the simulated processes.
pub static mut EDGES: *mut u8 = &raw mut LOCAL as *mut u8;
pub static mut MASK: u32 = 0;
pub static mut NEDGES: u32 = 0;
pub static mut LAST_EDGE: u32 = 0;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        NEDGES += 1;
        *a = NEDGES;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let e = *g;
    *EDGES.add((e & MASK) as usize) = 1;
    LAST_EDGE = e;
    sched::event();
}
#[inline(always)]
unsafe fn mem(a: usize) {
    sched::mem_event(a);
}
macro_rules! ls { ($($n:ident),*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(a: usize) { mem(a) })* } }
ls!(__sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16);

pub fn data_range() -> (usize, usize) {
    unsafe { (&__data_start as *const u8 as usize, &_end as *const u8 as usize) }
}
