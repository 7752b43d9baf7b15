//! The generator seam: per-thread streams of draws, with injectable faults.
use crate::mix;
use std::cell::Cell;

pub const ZERO: u8 = 0; // the generator delivers 0
pub const MAX: u8 = 1; // ... u64::MAX
pub const CONST: u8 = 2; // ... a given value
pub const STUCK: u8 = 3; // ... the last value again
pub const NEAR: u8 = 4; // ... a value next to the last one
pub const PANIC: u8 = 5; // the generator panics (the caller crashes at this draw)
pub const ALT: u8 = 6; // alternates between 0 and MAX
pub const TAIL: u8 = 7; // every few draws, values which lead a normal variate far into its tail
pub const NFAULT: usize = 8;
pub const NAMES: [&str; NFAULT] = ["zero", "max", "const", "stuck", "near", "panic", "alternate", "tail"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub at: u64,
    pub kind: u8,
    pub len: u64,
    pub val: u64,
}

/// Payload of injected panics.
pub struct Injected;
/// Payload when a call exceeds its draw budget.
pub struct DrawCap;

pub struct Stream {
    ctr: u64,
    pub draws: u64,
    pub stop: u64, // slow path when draws reach this
    base: u64,     // draws passed over; faults count from the beginning
    pub cap: u64,
    pub last: u64,
    pub faults: Vec<Fault>,
    pub fired: [u64; NFAULT],
    pub handles: u64,
    pub tap: Option<Vec<u64>>,
}

impl Stream {
    pub fn new(seed: u64, faults: Vec<Fault>, cap: u64) -> Stream {
        let mut s = Stream { ctr: mix(seed ^ 0xD1342543DE82EF95), draws: 0, stop: 0, base: 0, cap, last: 0, faults, fired: [0; NFAULT], handles: 0, tap: None };
        s.refresh();
        s
    }
    /// Passes over `k` draws, as if they had been consumed before.
    pub fn skip(&mut self, k: u64) {
        if self.faults.is_empty() {
            self.ctr = self.ctr.wrapping_add(k.wrapping_mul(0x9E3779B97F4A7C15));
        } else {
            for i in 0..k {
                let v = self.raw();
                self.last = self.faulty(v, self.base + i, true);
            }
        }
        self.base += k;
    }
    pub fn set_cap(&mut self, cap: u64) {
        self.cap = cap;
        self.refresh();
    }
    fn refresh(&mut self) {
        // With a tap or faults every draw takes the slow path.
        self.stop = if self.tap.is_some() || !self.faults.is_empty() { 0 } else { self.cap };
    }
    pub fn set_tap(&mut self) {
        self.tap = Some(Vec::new());
        self.refresh();
    }
    #[inline(always)]
    fn raw(&mut self) -> u64 {
        self.ctr = self.ctr.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.ctr)
    }
    #[inline(always)]
    pub fn next(&mut self) -> u64 {
        let v = self.raw();
        self.draws += 1;
        if self.draws > self.stop {
            return self.slow(v);
        }
        v
    }
    #[cold]
    fn slow(&mut self, mut v: u64) -> u64 {
        if self.draws > self.cap {
            std::panic::panic_any(DrawCap);
        }
        v = self.faulty(v, self.base + self.draws - 1, false);
        self.last = v;
        if let Some(t) = &mut self.tap {
            t.push(v);
        }
        v
    }
    fn faulty(&mut self, mut v: u64, i: u64, dry: bool) -> u64 {
        for f in &self.faults {
            if i >= f.at && i < f.at.saturating_add(f.len) {
                if dry && f.kind == PANIC {
                    continue;
                }
                self.fired[f.kind as usize] += !dry as u64;
                v = match f.kind {
                    ZERO => 0,
                    MAX => u64::MAX,
                    CONST => f.val,
                    STUCK => self.last,
                    NEAR => self.last.wrapping_add(f.val),
                    ALT => if (i - f.at) & 1 == 0 { 0 } else { u64::MAX },
                    // the outermost layer of the ziggurat, a small first and the smallest second value
                    TAIL => match (i - f.at) % (3 + (f.val & 7)) {
                        0 => if f.val & 8 == 0 { 0xFFFF_FFFF_FFFF_F000 } else { 0x1000 },
                        1 => (v | 1 << 63) >> (10 + (f.val >> 4) % 32),
                        2 => 0,
                        _ => v,
                    },
                    _ => std::panic::panic_any(Injected),
                };
            }
        }
        v
    }
}

thread_local! {
    static ST: Cell<*mut Stream> = const { Cell::new(std::ptr::null_mut()) };
    static STASH: Cell<u64> = const { Cell::new(0) };
}
pub static mut DEFAULT_SEED: u64 = 0;
pub static mut ANON: u64 = 0;

/// Installs a stream for the calling thread, returning the former one.
pub fn install(s: Stream) -> Option<Box<Stream>> {
    let p = Box::into_raw(Box::new(s));
    ST.with(|c| {
        let o = c.replace(p);
        if o.is_null() { None } else { Some(unsafe { Box::from_raw(o) }) }
    })
}
pub fn uninstall() -> Option<Box<Stream>> {
    ST.with(|c| {
        let o = c.replace(std::ptr::null_mut());
        if o.is_null() { None } else { Some(unsafe { Box::from_raw(o) }) }
    })
}
#[cold]
fn anon() -> *mut Stream {
    // A thread the harness gave no stream: its own, by order of first use.
    unsafe {
        ANON += 1;
        install(Stream::new(DEFAULT_SEED ^ mix(ANON), vec![], u64::MAX));
    }
    ST.with(|c| c.get())
}
#[inline(always)]
pub fn next_u64() -> u64 {
    crate::sched::event();
    ST.with(|c| {
        let mut p = c.get();
        if p.is_null() {
            p = anon();
        }
        unsafe { (*p).next() }
    })
}
pub fn handle() {
    ST.with(|c| {
        let mut p = c.get();
        if p.is_null() {
            p = anon();
        }
        unsafe { (*p).handles += 1 }
    })
}
pub fn with_stream<R>(f: impl FnOnce(&mut Stream) -> R) -> Option<R> {
    ST.with(|c| {
        let p = c.get();
        if p.is_null() { None } else { Some(f(unsafe { &mut *p })) }
    })
}
