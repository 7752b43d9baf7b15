//! Token-passing scheduler over real threads: exactly one simulated thread
//! runs at a time, and who runs next is decided here, from a seed or from an
//! explicit list of preemptions. Every instrumented edge, load and store of the
//! code under test, every draw and every blocking call is a scheduling point.
use crate::{cov, sys, Prng};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 64;
const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Free, Ready, Futex, Join, Done }

pub struct Th {
    pub st: St,
    go: AtomicU32,
    pub lsteps: u64,
    addr: usize,
    deadline: u64,
    timed_out: bool,
    pub stall_at: u64,
    pub stall_forever: bool,
    pub stalled: bool,
    pub was_stalled: bool,
    join: usize,
    pub pt: usize,
    prio: u64,
}
const TH0: Th = Th { st: St::Free, go: AtomicU32::new(0), lsteps: 0, addr: 0, deadline: u64::MAX, timed_out: false, stall_at: u64::MAX, stall_forever: false, stalled: false, was_stalled: false, join: 0, pt: 0, prio: 0 };
pub static mut TH: [Th; MAXT] = [TH0; MAXT];
pub static mut NTH: usize = 0;

pub static mut ACTIVE: bool = false;
pub static mut STEPS: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut CUR: usize = NONE;
static mut SLICE: u64 = 0;
static mut CAP: u64 = u64::MAX;
static mut PREEMPT: u64 = u64::MAX;
static mut HOT: bool = false;
static mut HOT_P: f64 = 0.0;
static mut HOT_LO: usize = 0;
static mut HOT_HI: usize = 0;
pub static mut EXTRA: [(usize, usize); 8] = [(0, 0); 8];
pub static mut NEXTRA: usize = 0;
pub static mut HOTS: u64 = 0;
pub static mut HOT_LEFT: u64 = 0;
pub static mut SWITCHES: u64 = 0;
pub static mut SIG: u64 = 0;
pub static mut WAITED: bool = false; // someone could not go on before a stalled caller did
pub static mut BLOCKS: u64 = 0;
pub static mut REC: Vec<(u64, u8)> = Vec::new();
static mut MODE: Mode = Mode::Solo;
static mut EXI: usize = 0;
static mut RNG: Prng = Prng(0);
static DONE: AtomicU32 = AtomicU32::new(0);
pub static mut ON_ABORT: Option<fn(&str)> = None;

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Solo,
    /// Random: mean quantum, probability to preempt at an access to shared data.
    Random { seed: u64, quantum: f64, hot: f64 },
    /// Random priorities with `depth` priority changes within `est` steps.
    Pct { seed: u64, depth: u32, est: u64, hot: f64 },
    Explicit(Vec<(u64, u8)>),
}

thread_local! { static TID: Cell<usize> = const { Cell::new(NONE) }; }
pub fn tid() -> usize {
    TID.with(|t| t.get())
}
/// Whether the caller is the running simulated thread.
pub fn in_sim() -> bool {
    unsafe { ACTIVE && tid() != NONE && tid() == CUR }
}

#[inline(always)]
pub fn event() {
    unsafe {
        if ACTIVE {
            STEPS += 1;
            if STEPS >= NEXT {
                slow();
            }
        }
    }
}
#[inline(always)]
pub fn mem_event(a: usize) {
    unsafe {
        if ACTIVE {
            STEPS += 1;
            if STEPS >= NEXT {
                slow();
            } else if HOT && ((a >= HOT_LO && a < HOT_HI) || extra(a)) {
                hot();
            }
        }
    }
}
#[inline(always)]
unsafe fn extra(a: usize) -> bool {
    let mut i = 0;
    while i < NEXTRA {
        if a >= EXTRA[i].0 && a < EXTRA[i].1 {
            return true;
        }
        i += 1;
    }
    false
}
#[cold]
unsafe fn hot() {
    HOTS += 1;
    if HOT_LEFT > 0 && tid() == CUR && RNG.chance(HOT_P) {
        HOT_LEFT -= 1;
        let t = pick(true);
        if t != CUR {
            record(t, 0);
            switch(t);
        }
    }
}

fn runnable(t: usize) -> bool {
    unsafe { TH[t].st == St::Ready && !TH[t].stalled }
}
/// Flag of recorded switches which the running thread did not suffer but caused
/// (it ended, blocked, stalled or yielded).
pub const VOLUNTARY: u8 = 0x80;
unsafe fn record(t: usize, how: u8) {
    if REC.len() < REC.capacity() {
        REC.push((STEPS, t as u8 | how));
    }
    if REC.len() >= REC.capacity() {
        PREEMPT = u64::MAX;
        HOT = false;
    }
    SIG = crate::mix(SIG ^ (t as u64) << 32 ^ cov::LAST_EDGE as u64);
    SWITCHES += 1;
}
/// A runnable thread chosen by the mode (`voluntary`: not the current one if possible).
unsafe fn pick(voluntary: bool) -> usize {
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for t in 0..NTH {
        if runnable(t) && !(voluntary && t == CUR) {
            c[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        return if voluntary { CUR } else { NONE };
    }
    match &MODE {
        Mode::Pct { .. } => {
            let mut b = c[0];
            for i in 1..n {
                if TH[c[i]].prio > TH[b].prio {
                    b = c[i];
                }
            }
            b
        }
        Mode::Random { .. } => c[RNG.below(n as u64) as usize],
        _ => c[0],
    }
}
unsafe fn arm() {
    let t = &TH[CUR];
    NEXT = CAP.min(PREEMPT);
    if t.stall_at != u64::MAX {
        NEXT = NEXT.min(STEPS + t.stall_at.saturating_sub(t.lsteps));
    }
}
unsafe fn local() -> u64 {
    TH[CUR].lsteps + (STEPS - SLICE)
}
/// Steps of the running thread so far.
pub fn my_steps() -> u64 {
    unsafe { if in_sim() { local() } else { STEPS } }
}
pub fn now() -> u64 {
    unsafe { STEPS }
}

#[cold]
unsafe fn slow() {
    if tid() != CUR {
        return;
    }
    if STEPS >= CAP {
        abort("step-cap");
    }
    let l = local();
    if l >= TH[CUR].stall_at {
        TH[CUR].stall_at = u64::MAX;
        TH[CUR].stalled = true;
        TH[CUR].was_stalled = true;
        away();
        return;
    }
    if STEPS >= PREEMPT {
        let target = match &MODE {
            Mode::Random { quantum, .. } => {
                PREEMPT = STEPS + RNG.geom(*quantum);
                pick(true)
            }
            Mode::Pct { .. } => {
                TH[CUR].prio = TH.iter().take(NTH).map(|t| t.prio).min().unwrap_or(0).saturating_sub(1);
                next_change();
                pick(false)
            }
            Mode::Explicit(v) => {
                let mut t = NONE;
                while EXI < v.len() && v[EXI].0 <= STEPS {
                    if v[EXI].1 & VOLUNTARY == 0 {
                        t = v[EXI].1 as usize;
                        EXI += 1;
                        break;
                    }
                    EXI += 1;
                }
                next_explicit();
                if PREEMPT <= STEPS {
                    PREEMPT = STEPS + 1;
                }
                if t < NTH && runnable(t) { t } else { CUR }
            }
            Mode::Solo => CUR,
        };
        if target != CUR {
            record(target, 0);
            switch(target);
            return;
        }
    }
    arm();
}
static mut CHANGES: [u64; 16] = [u64::MAX; 16];
unsafe fn next_change() {
    PREEMPT = CHANGES.iter().copied().filter(|&c| c > STEPS).min().unwrap_or(u64::MAX);
}
unsafe fn next_explicit() {
    PREEMPT = u64::MAX;
    if let Mode::Explicit(v) = &MODE {
        while EXI < v.len() && v[EXI].0 < STEPS {
            EXI += 1;
        }
        if let Some(e) = v[EXI..].iter().find(|e| e.1 & VOLUNTARY == 0) {
            PREEMPT = e.0.max(1);
        }
    }
}
/// The thread an explicit schedule names for a voluntary switch here.
unsafe fn explicit_voluntary() -> usize {
    let mut r = NONE;
    if let Mode::Explicit(v) = &MODE {
        let mut i = EXI;
        while i < v.len() && v[i].0 <= STEPS {
            if v[i].0 == STEPS && v[i].1 & VOLUNTARY != 0 {
                let t = (v[i].1 & !VOLUNTARY) as usize;
                EXI = i + 1;
                if t < NTH && runnable(t) {
                    r = t;
                }
                break;
            }
            i += 1;
        }
        next_explicit();
    }
    r
}
/// The running thread cannot go on: give the token to somebody else.
unsafe fn away() {
    loop {
        let mut t = explicit_voluntary();
        if t == NONE {
            t = pick(false);
        }
        if t != NONE {
            record(t, VOLUNTARY);
            if t == CUR {
                arm();
                return;
            }
            switch(t);
            return;
        }
        // Nobody is runnable: time passes, or a stalled caller is resumed.
        let mut best = NONE;
        for i in 0..NTH {
            if TH[i].st == St::Futex && TH[i].deadline != u64::MAX && (best == NONE || TH[i].deadline < TH[best].deadline) {
                best = i;
            }
        }
        if best != NONE {
            sys::advance_to(TH[best].deadline);
            TH[best].st = St::Ready;
            TH[best].timed_out = true;
            TH[best].deadline = u64::MAX;
            continue;
        }
        let blocked = (0..NTH).any(|i| matches!(TH[i].st, St::Futex | St::Join) && !TH[i].stalled);
        let st = (0..NTH).find(|&i| TH[i].stalled && TH[i].st == St::Ready && !TH[i].stall_forever);
        if let Some(i) = st {
            if blocked {
                WAITED = true;
            }
            TH[i].stalled = false;
            continue;
        }
        if blocked {
            if (0..NTH).any(|i| TH[i].stalled) {
                WAITED = true;
                abort("blocked-by-dead");
            }
            abort("deadlock");
        }
        // All done, or stalled for ever.
        DONE.store(1, SeqCst);
        sys::futex_wake_real(&DONE, 1);
        if CUR != NONE && TH[CUR].st != St::Done {
            loop {
                sys::futex_wait_real(&TH[CUR].go, 2);
                if TH[CUR].go.load(SeqCst) == 3 {
                    break;
                }
                TH[CUR].go.store(2, SeqCst);
            }
        }
        return;
    }
}
unsafe fn switch(t: usize) {
    let me = CUR;
    TH[me].lsteps += STEPS - SLICE;
    SLICE = STEPS;
    CUR = t;
    arm();
    let wait = TH[me].st != St::Done;
    TH[t].go.store(1, SeqCst);
    sys::futex_wake_real(&TH[t].go, 1);
    if wait {
        wait_go(me);
    }
}
unsafe fn wait_go(me: usize) {
    while TH[me].go.load(SeqCst) != 1 {
        sys::futex_wait_real(&TH[me].go, 0);
    }
    TH[me].go.store(0, SeqCst);
}
pub fn abort(reason: &str) -> ! {
    unsafe {
        ACTIVE = false;
        if let Some(f) = ON_ABORT {
            f(reason);
        }
        sys::exit_now(70)
    }
}

/// Prepares a run; simulated threads then `enter`, and the caller `run`s.
pub fn setup(mode: Mode, cap: u64) {
    unsafe {
        for t in TH.iter_mut() {
            *t = TH0;
        }
        NTH = 0;
        STEPS = 0;
        SLICE = 0;
        CUR = NONE;
        CAP = cap;
        SIG = 0;
        SWITCHES = 0;
        HOTS = 0;
        BLOCKS = 0;
        WAITED = false;
        NEXTRA = 0;
        HOT = false;
        EXI = 0;
        PREEMPT = u64::MAX;
        REC = Vec::with_capacity(1 << 14);
        DONE.store(0, SeqCst);
        let (lo, hi) = cov::data_range();
        HOT_LO = lo;
        HOT_HI = hi;
        HOT_LEFT = 256;
        CHANGES = [u64::MAX; 16];
        MODE = mode;
        match &MODE {
            Mode::Solo => {}
            Mode::Random { seed, quantum, hot } => {
                RNG = Prng::new(*seed);
                HOT = *hot > 0.0;
                HOT_P = *hot;
                PREEMPT = RNG.geom(*quantum);
            }
            Mode::Pct { seed, depth, est, hot } => {
                RNG = Prng::new(*seed);
                HOT = *hot > 0.0;
                HOT_P = *hot;
                for i in 0..(*depth as usize).min(16) {
                    CHANGES[i] = 1 + RNG.below((*est).max(1));
                }
                next_change();
            }
            Mode::Explicit(_) => next_explicit(),
        }
    }
}
/// Claims a thread slot (before the thread is created).
pub fn reserve() -> usize {
    unsafe {
        let t = NTH;
        if t >= MAXT {
            abort("too-many-threads");
        }
        NTH += 1;
        TH[t] = TH0;
        TH[t].st = St::Ready;
        TH[t].prio = match MODE { Mode::Pct { .. } => 1 << 32 | RNG.below(1 << 30), _ => 0 };
        t
    }
}
pub fn set_stall(t: usize, at: u64, forever: bool) {
    unsafe {
        TH[t].stall_at = at;
        TH[t].stall_forever = forever;
    }
}
pub fn add_hot(lo: usize, hi: usize) {
    unsafe {
        if NEXTRA < 8 {
            EXTRA[NEXTRA] = (lo, hi);
            NEXTRA += 1;
        }
    }
}
/// First call of a simulated thread: waits for its turn.
pub fn enter(t: usize) {
    TID.with(|c| c.set(t));
    unsafe { wait_go(t) }
}
/// Last call of a simulated thread.
pub fn leave() {
    unsafe {
        let me = CUR;
        TH[me].st = St::Done;
        for i in 0..NTH {
            if TH[i].st == St::Join && TH[i].join == me {
                TH[i].st = St::Ready;
            }
        }
        TID.with(|c| c.set(NONE));
        TH[me].lsteps += STEPS - SLICE;
        SLICE = STEPS;
        away();
    }
}
/// Runs all entered threads to the end (called by a thread outside the simulation).
pub fn run() {
    unsafe {
        if NTH == 0 {
            return;
        }
        ACTIVE = true;
        let t = match &MODE {
            Mode::Explicit(v) if !v.is_empty() && v[0].0 == 0 => {
                EXI = 1;
                let t = ((v[0].1 & !VOLUNTARY) as usize).min(NTH - 1);
                next_explicit();
                t
            }
            _ => pick(false),
        };
        CUR = t;
        record(t, VOLUNTARY);
        arm();
        TH[t].go.store(1, SeqCst);
        sys::futex_wake_real(&TH[t].go, 1);
        while DONE.load(SeqCst) == 0 {
            sys::futex_wait_real(&DONE, 0);
        }
        ACTIVE = false;
    }
}

// Blocking, as seen by simulated threads.
pub unsafe fn sim_futex_wait(addr: usize, val: u32, deadline: u64) -> i64 {
    event();
    if (*(addr as *const AtomicU32)).load(SeqCst) != val {
        return -11;
    }
    BLOCKS += 1;
    let me = CUR;
    TH[me].st = St::Futex;
    TH[me].addr = addr;
    TH[me].deadline = deadline;
    TH[me].timed_out = false;
    away();
    TH[me].deadline = u64::MAX;
    if TH[me].timed_out { -110 } else { 0 }
}
pub unsafe fn sim_futex_wake(addr: usize, n: u32) -> i64 {
    let mut k = 0;
    for t in 0..NTH {
        if k < n && TH[t].st == St::Futex && TH[t].addr == addr {
            TH[t].st = St::Ready;
            k += 1;
        }
    }
    event();
    k as i64
}
pub unsafe fn sim_join(pt: usize) {
    for t in 0..NTH {
        if TH[t].pt == pt && TH[t].st != St::Done && TH[t].st != St::Free {
            TH[CUR].st = St::Join;
            TH[CUR].join = t;
            away();
            return;
        }
    }
}
pub unsafe fn sim_yield() {
    event();
    if let Mode::Solo | Mode::Random { .. } | Mode::Pct { .. } = MODE {
        let t = pick(true);
        if t != CUR {
            record(t, VOLUNTARY);
            switch(t);
        }
    } else {
        // Explicit schedules list the yields that switched; a spinning thread must still yield.
        let mut t = explicit_voluntary();
        if t == NONE {
            t = CUR;
            for d in 1..NTH {
                if runnable((CUR + d) % NTH) {
                    t = (CUR + d) % NTH;
                    break;
                }
            }
        }
        if t != CUR {
            record(t, VOLUNTARY);
            switch(t);
        }
    }
}
