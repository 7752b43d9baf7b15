//! System calls and libc functions the standard library reaches: replaced by
//! simulated ones for simulated threads, passed on for everybody else.
use crate::{mix, sched};
use std::arch::asm;
use std::ffi::c_void;
use std::sync::atomic::AtomicU32;

#[inline(always)]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn futex_wait_real(a: &AtomicU32, v: u32) {
    unsafe { raw(202, a as *const _ as usize, 128, v as usize, 0, 0, 0); }
}
pub fn futex_wake_real(a: &AtomicU32, n: usize) {
    unsafe { raw(202, a as *const _ as usize, 129, n, 0, 0, 0); }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(231, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
/// Real monotonic time, for the driver only.
pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(228, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

// The simulated clock and entropy source.
pub static mut SIM: bool = false; // this process is a simulated one
pub static mut CLOCK: u64 = 0; // ns
pub static mut CLOCK_START: u64 = 0;
pub static mut CLOCK_STEP: u64 = 1000;
pub static mut CLOCK_JUMP_EVERY: u64 = 0;
pub static mut CLOCK_READS: u64 = 0;
pub static mut CLOCK_JUMPS: u64 = 0;
pub static mut ENTROPY: u64 = 0;
pub static mut ENTROPY_READS: u64 = 0;
pub static mut SLEEPS: u64 = 0;
/// Decides what the environment looks like (variables, processors, process id).
pub static mut WORLD: u64 = 1;
pub static mut WORLD_READS: u64 = 0;

pub fn advance_to(t: u64) {
    unsafe {
        if t > CLOCK {
            CLOCK = t;
        }
    }
}
unsafe fn sim_time() -> u64 {
    CLOCK_READS += 1;
    CLOCK += CLOCK_STEP;
    if CLOCK_JUMP_EVERY != 0 && CLOCK_READS % CLOCK_JUMP_EVERY == 0 {
        CLOCK_JUMPS += 1;
        CLOCK += mix(CLOCK) % 86_400_000_000_000;
    }
    CLOCK + sched::now()
}
unsafe fn set_errno(e: i32) {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    *__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
unsafe fn fill(buf: *mut u8, n: usize) {
    ENTROPY_READS += 1;
    for i in 0..n {
        if i % 8 == 0 {
            ENTROPY = ENTROPY.wrapping_add(0x9E3779B97F4A7C15);
        }
        *buf.add(i) = (mix(ENTROPY) >> (8 * (i % 8))) as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if SIM {
        if n == 318 {
            fill(a as *mut u8, b);
            return b as i64;
        }
        if n == 202 && sched::in_sim() {
            match b & 0x7f {
                0 | 9 => {
                    let mut dl = u64::MAX;
                    if d != 0 {
                        let ts = d as *const [i64; 2];
                        let t = (*ts)[0] as u64 * 1_000_000_000 + (*ts)[1] as u64;
                        dl = if b & 0x7f == 0 { CLOCK + t } else { t };
                    }
                    return ret(sched::sim_futex_wait(a, c as u32, dl));
                }
                1 | 10 => return ret(sched::sim_futex_wake(a, c as u32)),
                _ => {}
            }
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if SIM {
        fill(buf, n);
        return n as isize;
    }
    ret(raw(318, buf as usize, n, flags as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if SIM {
        let t = sim_time();
        let off = if id == 0 { 1_700_000_000 } else { 1000 };
        *ts = [(t / 1_000_000_000) as i64 + off, (t % 1_000_000_000) as i64];
        return 0;
    }
    ret(raw(228, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if SIM && sched::in_sim() {
        sched::sim_yield();
        return 0;
    }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32
}
unsafe fn text(p: *const u8) -> &'static [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}
/// Environment variables: unset for the library, or set to something.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    extern "C" {
        static environ: *const *const u8;
    }
    let n = text(name);
    if SIM {
        if n.starts_with(b"RUST") {
            return std::ptr::null();
        }
        WORLD_READS += 1;
        let h = n.iter().fold(mix(WORLD), |h, b| mix(h ^ *b as u64));
        let v: &[&[u8]] = &[b"0\0", b"1\0", b"2\0", b"8\0", b"42\0", b"1.5\0", b"true\0", b"/tmp\0"];
        return if WORLD == 1 || h % 3 == 0 { std::ptr::null() } else { v[(h >> 8) as usize % v.len()].as_ptr() };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let t = text(*e);
        if t.len() > n.len() && t.starts_with(n) && t[n.len()] == b'=' {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if SIM {
        WORLD_READS += 1;
        return 100 + (mix(WORLD ^ 5) % 30_000) as i32;
    }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if SIM {
        WORLD_READS += 1;
        std::ptr::write_bytes(mask, 0, n);
        for i in 0..if WORLD == 1 { 4 } else { 1 + (mix(WORLD ^ 6) % 32) as usize } {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw(204, pid as usize, n, mask as usize, 0, 0, 0);
    if r >= 0 { 0 } else { ret(r) as i32 }
}
/// The entropy devices deliver the simulated entropy.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if SIM && matches!(text(path), b"/dev/urandom" | b"/dev/random") {
        let fd = raw(319, b"entropy\0".as_ptr() as usize, 0, 0, 0, 0, 0);
        let mut buf = [0u8; 65536];
        fill(buf.as_mut_ptr(), buf.len());
        raw(1, fd as usize, buf.as_ptr() as usize, buf.len(), 0, 0, 0);
        raw(8, fd as usize, 0, 0, 0, 0, 0);
        return fd as i32;
    }
    ret(raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0)) as i32
}
unsafe fn sleep(ts: *const [i64; 2], abs: bool) {
    SLEEPS += 1;
    let t = (*ts)[0] as u64 * 1_000_000_000 + (*ts)[1] as u64;
    if !abs {
        CLOCK += t;
    }
    if sched::in_sim() {
        sched::sim_yield();
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if SIM {
        sleep(ts, false);
        return 0;
    }
    ret(raw(35, ts as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if SIM {
        sleep(ts, flags & 1 != 0);
        return 0;
    }
    -(raw(230, id as usize, flags as usize, ts as usize, rem as usize, 0, 0) as i32)
}

type Start = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
extern "C" {
    fn dlsym(h: *mut c_void, name: *const u8) -> *mut c_void;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;
static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;
pub fn resolve() {
    unsafe {
        REAL_CREATE = dlsym(RTLD_NEXT, b"pthread_create\0".as_ptr()) as usize;
        REAL_JOIN = dlsym(RTLD_NEXT, b"pthread_join\0".as_ptr()) as usize;
        assert!(REAL_CREATE != 0 && REAL_JOIN != 0);
    }
}
struct Boot(Start, *mut c_void, usize);
unsafe extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let b = Box::from_raw(p as *mut Boot);
    sched::enter(b.2);
    let r = (b.0)(b.1);
    sched::leave();
    r
}
pub static mut SPAWNED: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, attr: *const c_void, start: Start, arg: *mut c_void) -> i32 {
    if REAL_CREATE == 0 {
        resolve();
    }
    let real: unsafe extern "C" fn(*mut usize, *const c_void, Start, *mut c_void) -> i32 = std::mem::transmute(REAL_CREATE);
    if SIM && sched::in_sim() {
        SPAWNED += 1;
        let tid = sched::reserve();
        let b = Box::into_raw(Box::new(Boot(start, arg, tid)));
        let r = real(t, attr, tramp, b as *mut c_void);
        if r != 0 {
            sched::TH[tid].st = sched::St::Done;
        } else {
            sched::TH[tid].pt = *t;
        }
        sched::event();
        return r;
    }
    real(t, attr, start, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, r: *mut *mut c_void) -> i32 {
    if REAL_JOIN == 0 {
        resolve();
    }
    let real: unsafe extern "C" fn(usize, *mut *mut c_void) -> i32 = std::mem::transmute(REAL_JOIN);
    if SIM && sched::in_sim() {
        sched::sim_join(t);
    }
    real(t, r)
}
