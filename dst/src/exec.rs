//! Execution of scenarios: one forked process per simulated run.
use crate::scen::*;
use inst::{mc, ops};
use seam::rng::{self, Stream, NFAULT};
use seam::{alloc, mix, sched, sys, Prng};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Res {
    pub status: u64, // 0: did not finish, 1: value, 2: panic
    pub class: u64,  // 1: injected, 2: draw budget exceeded, 3: the library's own
    pub steps: u64,
    pub draws: u64,
    pub handles: u64,
    pub fired: Vec<u64>,
    pub vals: Vec<u64>,
    pub trace: Vec<u64>,
}
impl Res {
    pub fn f(&self) -> Vec<f64> {
        self.vals.iter().map(|b| f64::from_bits(*b)).collect()
    }
    /// Same outcome, bit for bit (NaN payloads apart).
    pub fn same(&self, o: &Res) -> bool {
        self.status == o.status && self.class == o.class && same_bits(&self.vals, &o.vals) && same_bits(&self.trace, &o.trace)
    }
    pub fn show(&self) -> String {
        match self.status {
            1 => {
                let v = self.f();
                let s = v.iter().take(4).map(|x| format!("{x:?}")).collect::<Vec<_>>().join(",");
                if v.len() > 4 { format!("[{s},..;{}]", v.len()) } else { s }
            }
            2 => ["?", "panic(injected)", "panic(draw budget)", "panic(library)"][self.class as usize & 3].into(),
            _ => "unfinished".into(),
        }
    }
}
pub fn same_bits(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (f64::from_bits(*x).is_nan() && f64::from_bits(*y).is_nan()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Abort(String),
    Signal(i32),
    Exit(i32),
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub res: Vec<Vec<Res>>,
    pub stalled: Vec<bool>,
    pub rec: Vec<(u64, u8)>,
    pub sig: u64,
    pub waited: bool,
    pub n: [u64; 12], // steps switches hots blocks clock_reads clock_jumps entropy sleeps spawned allocs alloc_failed sim_ns
}
pub const N_NAMES: [&str; 12] = ["steps", "switches", "shared_accesses", "blocking_waits", "clock_reads", "clock_jumps", "entropy_reads", "sleeps", "threads_spawned_by_library", "allocations", "allocations_failed", "simulated_ns"];

static mut RESULTS: Vec<Vec<Res>> = Vec::new();
pub static mut SHM: *mut u64 = std::ptr::null_mut();
pub const SHM_WORDS: usize = 1 << 24;
extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn setitimer(w: i32, v: *const [i64; 4], o: *mut [i64; 4]) -> i32;
}
pub unsafe fn shared(words: usize) -> *mut u64 {
    let p = mmap(std::ptr::null_mut(), words * 8, 3, 0x4021, -1, 0);
    assert!(p as isize != -1);
    p as *mut u64
}
pub fn init() {
    unsafe {
        SHM = shared(SHM_WORDS);
        seam::cov::EDGES = shared(1 << 14) as *mut u8;
        seam::cov::MASK = (1 << 17) - 1;
        std::panic::set_hook(Box::new(|_| {}));
        sys::resolve();
        sched::ON_ABORT = Some(|r| ship(1, r));
    }
}

struct W(usize);
impl W {
    fn p(&mut self, x: u64) {
        if self.0 >= SHM_WORDS - 1 {
            sys::exit_now(71);
        }
        unsafe { *SHM.add(self.0) = x };
        self.0 += 1;
    }
    fn v(&mut self, x: &[u64]) {
        self.p(x.len() as u64);
        x.iter().for_each(|y| self.p(*y));
    }
}
struct R(usize);
impl R {
    fn g(&mut self) -> u64 {
        self.0 += 1;
        unsafe { *SHM.add(self.0 - 1) }
    }
    fn v(&mut self) -> Vec<u64> {
        let n = self.g();
        (0..n).map(|_| self.g()).collect()
    }
}
fn ship(end: u64, reason: &str) {
    unsafe {
        let mut w = W(1);
        w.p(end);
        w.v(&reason.bytes().map(|b| b as u64).collect::<Vec<_>>());
        let n = [sched::STEPS, sched::SWITCHES, sched::HOTS, sched::BLOCKS, sys::CLOCK_READS, sys::CLOCK_JUMPS, sys::ENTROPY_READS, sys::SLEEPS, sys::SPAWNED, alloc::COUNT, alloc::FAILED, sys::CLOCK - sys::CLOCK_START + sched::STEPS];
        w.v(&n);
        w.p(sched::SIG);
        w.p(sched::WAITED as u64);
        let rec: Vec<u64> = sched::REC.iter().flat_map(|r| [r.0, r.1 as u64]).collect();
        w.v(&rec);
        w.p(RESULTS.len() as u64);
        for (t, th) in RESULTS.iter().enumerate() {
            w.p(sched::TH[t].was_stalled as u64);
            w.p(th.len() as u64);
            for r in th {
                for x in [r.status, r.class, r.steps, r.draws, r.handles] {
                    w.p(x);
                }
                w.v(&r.fired);
                w.v(&r.vals);
                w.v(&r.trace);
            }
        }
        *SHM = 1;
    }
}
fn receive(end: End) -> Outcome {
    let mut o = Outcome { end, res: vec![], stalled: vec![], rec: vec![], sig: 0, waited: false, n: [0; 12] };
    unsafe {
        if *SHM != 1 {
            return o;
        }
    }
    let mut r = R(1);
    let e = r.g();
    let reason: String = r.v().iter().map(|b| *b as u8 as char).collect();
    if e == 1 {
        o.end = End::Abort(reason);
    }
    o.n.copy_from_slice(&r.v());
    o.sig = r.g();
    o.waited = r.g() == 1;
    o.rec = r.v().chunks(2).map(|c| (c[0], c[1] as u8)).collect();
    for _ in 0..r.g() {
        o.stalled.push(r.g() == 1);
        let k = r.g();
        o.res.push((0..k).map(|_| Res { status: r.g(), class: r.g(), steps: r.g(), draws: r.g(), handles: r.g(), fired: r.v(), vals: r.v(), trace: r.v() }).collect());
    }
    o
}

/// Runs `f` in a forked process and returns how it ended.
pub fn forked(cpu_s: u64, f: impl FnOnce()) -> End {
    unsafe {
        *SHM = 0;
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let lim = [0i64, 0, cpu_s as i64, 0];
            setitimer(2, &lim, std::ptr::null_mut()); // SIGPROF
            alarm(20 * cpu_s as u32 + 60);
            if std::env::var("DST_DEBUG").is_err() {
            let nul = sys::raw(2, b"/dev/null\0".as_ptr() as usize, 1, 0, 0, 0, 0);
            sys::raw(33, nul as usize, 2, 0, 0, 0, 0);
            }
            f();
            sys::exit_now(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        if st & 0x7f != 0 {
            End::Signal(st & 0x7f)
        } else if st >> 8 == 0 {
            End::Ok
        } else {
            End::Exit(st >> 8 & 0xff)
        }
    }
}
pub fn env(e: &Env) {
    unsafe {
        sys::CLOCK = mix(e.seed) >> 20;
        sys::CLOCK_START = sys::CLOCK;
        sys::CLOCK_JUMP_EVERY = e.clock_jump;
        sys::ENTROPY = mix(e.seed ^ 77);
        sys::WORLD = e.seed;
        rng::DEFAULT_SEED = mix(e.seed ^ 99);
        rng::ANON = 0;
        alloc::GARBAGE = e.garbage;
        sys::SIM = true;
    }
}
/// Runs `f` single-threaded inside the simulated environment with the given
/// stream; it fills a vector of words.
pub fn computed(seed: u64, cpu_s: u64, f: impl FnOnce(&mut Vec<u64>)) -> (End, Vec<u64>, u64) {
    let e = forked(cpu_s, || {
        env(&Env::base());
        rng::install(Stream::new(seed, vec![], u64::MAX));
        let mut v = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut v)));
        if r.is_err() {
            sys::exit_now(72);
        }
        let mut w = W(1);
        w.v(&v);
        w.p(rng::with_stream(|s| s.draws).unwrap_or(0));
        unsafe { *SHM = 1 };
    });
    unsafe {
        if *SHM != 1 {
            return (e, vec![], 0);
        }
    }
    let mut r = R(1);
    let v = r.v();
    let d = r.g();
    (e, v, d)
}

pub static FORKS: AtomicU64 = AtomicU64::new(0);
pub fn run(s: &Scenario) -> Outcome {
    run_with(s, None)
}
/// Each operation alone in a process of its own, forked from one in which the
/// models were created and nothing else has happened.
pub fn run_each(insts: &[Inst], ops: &[Op]) -> Vec<Option<Res>> {
    let mut out = vec![];
    let (end, v, _) = computed(1, 600, |v| {
        let Ok(made) = catch_unwind(|| insts.iter().map(make).collect::<Vec<usize>>()) else { sys::exit_now(73) };
        for op in ops {
            let o = run_with(&Scenario::solo(insts.to_vec(), vec![op.clone()]), Some(made.clone()));
            match (o.end == End::Ok, o.res.first().and_then(|x| x.first())) {
                (true, Some(r)) => {
                    v.extend([1, r.status, r.class, r.steps, r.draws, r.handles, r.fired.len() as u64]);
                    v.extend(&r.fired);
                    v.push(r.vals.len() as u64);
                    v.extend(&r.vals);
                    v.push(r.trace.len() as u64);
                    v.extend(&r.trace);
                }
                _ => v.push(0),
            }
        }
    });
    if end != End::Ok {
        return vec![None; ops.len()];
    }
    let mut it = v.into_iter();
    let mut g = || it.next().unwrap_or(0);
    for _ in ops {
        if g() == 0 {
            out.push(None);
            continue;
        }
        let mut r = Res { status: g(), class: g(), steps: g(), draws: g(), handles: g(), ..Default::default() };
        for f in [&mut r.fired, &mut r.vals, &mut r.trace] {
            let n = g();
            *f = (0..n).map(|_| g()).collect();
        }
        out.push(Some(r));
    }
    out
}
fn run_with(s: &Scenario, made: Option<Vec<usize>>) -> Outcome {
    FORKS.fetch_add(1, Ordering::Relaxed);
    let made_apart = made.is_some();
    let end = forked(60, || {
        unsafe {
            env(&s.env);
            let insts = match made {
                Some(m) => Ok(m),
                None => catch_unwind(|| s.insts.iter().map(make).collect()),
            };
            let Ok(insts) = insts else { sys::exit_now(73) };
            let insts: &'static Vec<usize> = Box::leak(Box::new(insts));
            sched::setup(s.mode.clone(), s.cap);
            RESULTS = s.threads.iter().map(|t| vec![Res::default(); t.len()]).collect();
            for (i, p) in s.insts.iter().zip(insts) {
                if let Inst::Struct(id, _) = i {
                    sched::add_hot(*p, *p + ops::STRUCTS[*id].size.max(1));
                }
            }
            if let Some(k) = s.env.alloc_fail {
                alloc::FAIL_AT = k & 0xFFFF_FFFF;
                alloc::ONCE = k >> 32 != 0;
            }
            for (t, _) in s.threads.iter().enumerate() {
                assert!(sched::reserve() == t);
            }
            for x in &s.stalls {
                if x.thread < s.threads.len() {
                    sched::set_stall(x.thread, x.at, x.forever);
                }
            }
            let multi = s.threads.len() > 1;
            for (t, th) in s.threads.iter().enumerate() {
                let th = th.clone();
                let defs = s.insts.clone();
                let world = s.env.seed;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        sched::enter(t);
                        for (k, op) in th.iter().enumerate() {
                            // from another depth of the stack every time
                            let d = if made_apart { 0 } else { mix(world ^ (k as u64) << 8 ^ t as u64) % 24 };
                            let r = deep(d, &mut || exec(op, insts, &defs, multi));
                            RESULTS[t][k] = r;
                        }
                        sched::leave();
                    })
                    .unwrap();
            }
            sched::run();
        }
        ship(0, "");
    });
    receive(end)
}
#[inline(never)]
fn deep<R>(n: u64, f: &mut dyn FnMut() -> R) -> R {
    let mut pad = [n as u8; 208];
    std::hint::black_box(&mut pad);
    if n == 0 { f() } else { deep(n - 1, f) }
}
struct Made(usize, Inst);
impl Drop for Made {
    fn drop(&mut self) {
        use polymers::constitutive::{hyperelastic as h, hyperelastic_damage as d};
        unsafe {
            match &self.1 {
                Inst::Struct(id, _) => (ops::STRUCTS[*id].free)(self.0 as *mut ()),
                Inst::Dmg(..) => drop(Box::from_raw(self.0 as *mut d::BucheSilberstein)),
                Inst::Hyp(..) => drop(Box::from_raw(self.0 as *mut h::BucheSilberstein)),
            }
        }
    }
}
/// An instance of the scenario, or one of its own for this call alone.
fn with(inst: usize, insts: &[usize], defs: &[Inst], f: impl FnOnce(usize)) {
    if inst & FRESH != 0 {
        let m = Made(make(&defs[at(inst)]), defs[at(inst)].clone());
        f(m.0);
    } else {
        f(insts[inst]);
    }
}
fn make(i: &Inst) -> usize {
    use polymers::constitutive::{hyperelastic as h, hyperelastic_damage as d};
    match i {
        Inst::Struct(id, a) => (ops::STRUCTS[*id].make)(a) as usize,
        Inst::Dmg(m, ce, k, n, sw) => Box::into_raw(Box::new(d::BucheSilberstein::init(*m, *ce, *k, *n, *sw))) as usize,
        Inst::Hyp(m, k, n) => Box::into_raw(Box::new(h::BucheSilberstein::init(*m, *k, *n))) as usize,
    }
}

fn begin(st: &Option<StreamSpec>, links: u64) {
    match st {
        Some(s) => {
            let mut x = Stream::new(s.seed, s.faults.clone(), s.budget(links));
            x.skip(s.skip);
            rng::install(x);
        }
        None => {
            rng::with_stream(|x| {
                let c = x.draws.saturating_add(500 + 32 * links + x.faults.iter().map(|f| 4 * f.len.min(1 << 32)).sum::<u64>());
                if x.cap != u64::MAX {
                    x.set_cap(c)
                }
            });
        }
    }
}
pub const PATHS: [usize; 16] = [1, 2, 3, 4, 5, 6, 8, 10, 13, 16, 24, 32, 48, 80, 150, 300];
fn damage(p: usize, path: &[f64]) -> Vec<[f64; 2]> {
    let m = unsafe { &*(p as *const polymers::constitutive::hyperelastic_damage::BucheSilberstein) };
    macro_rules! d { ($($l:literal)*) => { match path.len() { $($l => m.uniaxial_tension::<$l>(path).to_vec(),)* _ => unreachable!() } } }
    d!(1 2 3 4 5 6 8 10 13 16 24 32 48 80 150 300)
}

fn exec(op: &Op, insts: &[usize], defs: &[Inst], multi: bool) -> Res {
    let links = match op {
        Op::Cfg { n, .. } => *n as u64,
        Op::Lens { n, count, .. } => *n as u64 * count,
        Op::Hist { n, samples, .. } => *n as u64 * samples,
        _ => 0,
    };
    if let Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } = op {
        begin(st, links);
    }
    // A rejected request has a stream of its own.
    let aside = if let Op::Bad { .. } = op { Some(rng::install(Stream::new(17, vec![], 100_000))) } else { None };
    let (d0, h0, f0) = rng::with_stream(|s| (s.draws, s.handles, s.fired)).unwrap_or((0, 0, [0; NFAULT]));
    let s0 = sched::my_steps();
    let mut vals: Vec<f64> = if unsafe { alloc::FAIL_AT } != u64::MAX { Vec::with_capacity(4096) } else { vec![] };
    let mut trace: Vec<u64> = vec![];
    if !multi {
        unsafe { alloc::COUNTING = true };
    }
    let r = catch_unwind(AssertUnwindSafe(|| body(op, insts, defs, &mut vals, &mut trace)));
    unsafe { alloc::COUNTING = false };
    let s1 = sched::my_steps();
    let (d1, h1, f1) = rng::with_stream(|s| (s.draws, s.handles, s.fired)).unwrap_or((0, 0, [0; NFAULT]));
    match aside {
        Some(Some(s)) => {
            rng::install(*s);
        }
        Some(None) => {
            rng::uninstall();
        }
        None => {}
    }
    let (status, class) = match &r {
        Ok(()) => (1, 0),
        Err(e) if e.is::<rng::Injected>() => (2, 1),
        Err(e) if e.is::<rng::DrawCap>() => (2, 2),
        Err(_) => (2, 3),
    };
    let mut fired: Vec<u64> = f1.iter().zip(f0).map(|(a, b)| a - b).collect();
    if let Op::Cb(c) = op {
        CB.with(|s| {
            let s = s.borrow();
            trace = s.trace.clone();
            fired = s.fired.to_vec();
            let _ = c;
        });
    }
    Res { status, class, steps: s1 - s0, draws: d1 - d0, handles: h1 - h0, fired, vals: if status == 1 { vals.iter().map(|x| x.to_bits()).collect() } else { vec![] }, trace }
}
fn repeat(count: u64, vals: &mut Vec<f64>, f: impl Fn() -> f64) {
    let first = f();
    vals.push(first);
    for k in 1..count {
        let v = f();
        if v.to_bits() != first.to_bits() && !(v.is_nan() && first.is_nan()) {
            // A repetition which differs: recorded, as an extra value.
            vals.push(k as f64);
            vals.push(v);
            return;
        }
    }
}
fn body(op: &Op, insts: &[usize], defs: &[Inst], vals: &mut Vec<f64>, trace: &mut Vec<u64>) {
    match op {
        Op::Fn { id, ext, args, count } => {
            let d = &ops::FNS[*id];
            let f = if *ext { d.ext.unwrap() } else { d.call };
            repeat(*count, vals, || f(args));
        }
        Op::Meth { inst, id, args, count } => {
            if let Inst::Struct(s, _) = &defs[at(*inst)] {
                let f = ops::STRUCTS[*s].methods[*id].call;
                with(*inst, insts, defs, |m| repeat(*count, vals, || f(m as *const (), args)));
            }
        }
        Op::Make { inst } => {
            if let Inst::Struct(s, a) = &defs[*inst] {
                let d = &ops::STRUCTS[*s];
                let p = (d.make)(a);
                let mut r = Prng::new(7);
                for m in d.methods.iter().take(3) {
                    let a = crate::gen::args(m.name, m.params, &mut r, false);
                    vals.push((m.call)(p, &a));
                }
                (d.free)(p);
            }
        }
        Op::Burn { id, seed, count } => {
            let d = &ops::FNS[*id];
            let mut r = Prng::new(*seed);
            let mut h = 0u64;
            for _ in 0..*count {
                let a = crate::gen::args(d.name, d.params, &mut r, false);
                let v = (d.call)(&a);
                h = mix(h ^ if v.is_nan() { 1 } else { v.to_bits() });
            }
            trace.push(h);
        }
        Op::Cfg { model, n, p, .. } => mc::cfg(*model, *n, p, &mut rand::rng(), vals),
        Op::Lens { model, n, p, count, .. } => {
            for _ in 0..*count {
                vals.push(mc::len(*model, *n, p, &mut rand::rng()));
            }
        }
        Op::Hist { model, b, n, p, samples, .. } => {
            let (c, q) = mc::hist(*model, *b, *n, p, *samples as usize);
            vals.extend(c);
            vals.extend(q);
        }
        Op::Dmg { inst, path } => with(*inst, insts, defs, |m| vals.extend(damage(m, path).iter().flatten())),
        Op::Hyp { inst, biaxial, stretch } => {
            with(*inst, insts, defs, |m| {
            let m = unsafe { &*(m as *const polymers::constitutive::hyperelastic::BucheSilberstein) };
            vals.push(if *biaxial { m.equibiaxial_tension(stretch) } else { m.uniaxial_tension(stretch) });
            });
            if let (Inst::Hyp(me, k, n), true) = (&defs[at(*inst)], *stretch > 1.5) {
                vals.push(hyper_ext(*me, *k, *n, *biaxial, *stretch));
            }
        }
        Op::Cb(c) => callback(c, vals),
        Op::Bad { kind } => bad(*kind, vals),
    }
}
type G = [[f64; 256]; 256];
extern "C" {
    fn constitutive_hyperelastic_buche_silberstein_uniaxial_tension(e: *const G, factor: f64, g: *const [f64; 256], z: f64, method: u8, k: f64, n: u8, s: f64) -> f64;
    fn constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(e: *const G, factor: f64, g: *const [f64; 256], z: f64, method: u8, k: f64, n: u8, s: f64) -> f64;
}
/// The exported functions take the model's precomputed state from the caller.
fn hyper_ext(method: u8, k: f64, n: u8, biaxial: bool, s: f64) -> f64 {
    use polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::{nondimensional_force, nondimensional_relative_helmholtz_free_energy as free};
    use std::f64::consts::PI;
    let w: Vec<f64> = (0..256).map(|i| (i + 1) as f64 / 257.0).collect();
    let dw = w[1] - w[0];
    let mut g = Box::new([0.0; 256]);
    let mut e: Box<G> = Box::new([[0.0; 256]; 256]);
    for i in 0..256 {
        g[i] = w[i].atanh();
    }
    let factor = if method == 2 { 0.0 } else { 1.5 * n as f64 * k * (k + 1.0) / (k * k + 6.0 * k + 3.0) };
    let mut z = 0.0;
    for i in 0..256 {
        for j in 0..256 {
            let d = (g[i] * g[i] + g[j] * g[j]).sqrt();
            e[i][j] = nondimensional_force(&k, &d) * (2.0 * g[i] * g[i] - g[j] * g[j]) * 2.0 * PI * n as f64 * g[j] / d / (1.0 - w[i] * w[i]) / (1.0 - w[j] * w[j]) * dw * dw;
        }
        z += g[i] * g[i] / (1.0 - w[i] * w[i]) / if method == 2 { free(&n, &k, &g[i]).exp() } else { (factor * g[i] * g[i]).exp() };
    }
    z *= 4.0 * PI * dw;
    unsafe {
        if biaxial {
            constitutive_hyperelastic_buche_silberstein_equibiaxial_tension(&*e, factor, &*g, z, method, k, n, s)
        } else {
            constitutive_hyperelastic_buche_silberstein_uniaxial_tension(&*e, factor, &*g, z, method, k, n, s)
        }
    }
}
fn bad(kind: u8, vals: &mut Vec<f64>) {
    use polymers::constitutive::{hyperelastic as h, hyperelastic_damage as d};
    let p = mc::Par { theta: 1.0, mean: 1.0, sd: 0.1, gmax: 2.0, kappa: -1.0 };
    match kind {
        0 | 1 => {
            let m = Box::new(d::BucheSilberstein::init(if kind == 0 { 1 } else { 9 }, 1.1, 50.0, 8, 1.0));
            vals.push(m.number_of_links as f64);
        }
        2 | 3 => {
            let m = Box::new(h::BucheSilberstein::init(if kind == 2 { 1 } else { 0 }, 50.0, 8));
            vals.push(m.number_of_links as f64);
        }
        4 => vals.extend(mc::hist(mc::FRC, 10, 8, &mc::Par { theta: f64::NAN, ..p }, 5).1),
        _ => vals.extend(mc::hist(mc::EFJC, 10, 8, &p, 5).1),
    }
}

// Callbacks.
struct CbState {
    cb: Option<Cb>,
    count: [u64; 2],
    last: [f64; 2],
    fired: [u64; 8],
    trace: Vec<u64>, // (which, arguments, value)*
}
thread_local! { static CB: RefCell<CbState> = RefCell::new(CbState { cb: None, count: [0; 2], last: [0.0; 2], fired: [0; 8], trace: vec![] }); }
pub const CB_TRACE: usize = 400_000;
pub fn base_fun(c: &Cb, which: u8, x: f64, y: f64) -> f64 {
    let (a, b) = (c.a, c.b);
    match (c.fun, which) {
        (0, 0) => a * x + b + 0.5 * y,
        (0, _) => a,
        (1, 0) => a * x * x * x + b * x + y * y,
        (1, _) => 3.0 * a * x * x + b,
        (2, 0) => (a * x).exp() + b * x - y,
        (2, _) => a * (a * x).exp() + b,
        (3, 0) => a * x.sin() + b * x + x * y,
        (3, _) => a * x.cos() + b,
        (4, 0) => (x * a).atan() + b + y,
        (4, _) => a / (1.0 + x * x * a * a),
        (_, 0) => a,
        (_, _) => b,
    }
}
/// One solver or integrator, called by a function that another one calls;
/// every fourth such call ends in a panic that the function catches.
fn nested(k: u64, outer: u64) -> bool {
    use polymers::math::*;
    let n = if k >> 8 & 1 == 0 { outer } else { 1 + (k >> 9) % 40 };
    let fails = k >> 5 & 3 == 0;
    let left = std::cell::Cell::new(if fails { (k >> 20) % (n + 3) } else { u64::MAX });
    let tick = || {
        if left.get() == 0 {
            std::panic::panic_any(rng::Injected);
        }
        left.set(left.get() - 1);
    };
    let f = |x: &f64| { tick(); x * x + 1.0 };
    let g = |x: &f64, y: &f64| { tick(); x * x + 3.0 * y };
    let grid: Vec<f64> = (0..n).map(|i| 0.3 * i as f64).collect();
    let mid = |a: f64, b: f64| (0..n).map(move |i| a + (0.5 + i as f64) * ((b - a) / n as f64)).collect::<Vec<f64>>();
    let sum = |xs: &[f64], ys: &[f64], w: f64| xs.iter().map(|x| ys.iter().map(|y| x * x + 3.0 * y).sum::<f64>()).sum::<f64>() * w;
    let h = |a: f64, b: f64| if n == 0 { 0.0 } else { (b - a) / n as f64 };
    let small = n <= 40;
    let r = catch_unwind(AssertUnwindSafe(|| match k % 10 {
        0 | 1 => (inverse_newton_raphson(&0.5, &|x: &f64| { tick(); 1.0 / x.tanh() - 1.0 / x }, &|x: &f64| 1.0 / x.powi(2) - 1.0 / x.sinh().powi(2), &2.0, &1e-10, &50), 1.796_755_984_9),
        2 => (inverse_newton_raphson_powered(&2.0, &|x: &f64| { tick(); x * x }, &|x: &f64| 2.0 * x, &2.0, &1e-10, &50, 1), 2f64.sqrt()),
        3 => (inverse_langevin(&0.5), 1.796_755_984_9),
        4 | 5 => (integrate_1d(&f, &0.0, &3.0, &(n as u128)), mid(0.0, 3.0).iter().map(|x| x * x + 1.0).sum::<f64>() * h(0.0, 3.0)),
        6 => (integrate_1d_grid(&f, &grid, &0.3), grid.iter().map(|x| x * x + 1.0).sum::<f64>() * 0.3),
        7 if small => (integrate_2d(&g, &0.0, &3.0, &1.0, &2.0, n as u128), sum(&mid(0.0, 3.0), &mid(1.0, 2.0), h(0.0, 3.0) * h(1.0, 2.0))),
        8 if small => (integrate_2d_symmetric(&g, &-1.0, &2.0, n as u128), sum(&mid(-1.0, 2.0), &mid(-1.0, 2.0), h(-1.0, 2.0).powi(2))),
        9 if small && k >> 7 & 1 == 0 => (integrate_2d_grid(&g, &grid, &[0.5, 1.5], &0.2), sum(&grid, &[0.5, 1.5], 0.2)),
        9 if small => (integrate_2d_symmetric_grid(&g, &grid, &0.2), sum(&grid, &grid, 0.2)),
        _ => (integrate_1d(&f, &-1.0, &1.0, &7), (0..7).map(|i| -1.0 + (0.5 + i as f64) * (2.0 / 7.0)).map(|x| x * x + 1.0).sum::<f64>() * (2.0 / 7.0)),
    }));
    match r {
        Ok((x, want)) => n == 0 && x.is_nan() || (x - want).abs() <= 1e-6 * (1.0 + want.abs()),
        Err(e) => e.is::<rng::Injected>() && fails,
    }
}
fn cb_call(which: u8, x: f64, y: f64) -> f64 {
    let (c, i, last, n) = alloc::aside(|| CB.with(|s| {
        let mut s = s.borrow_mut();
        s.count[which as usize] += 1;
        (s.cb.clone().unwrap(), s.count[which as usize] - 1, s.last[which as usize], s.trace.len())
    }));
    let mut v = base_fun(&c, which, x, y);
    for f in &c.faults {
        if f.which == which && i >= f.at && i < f.at.saturating_add(f.len) {
            CB.with(|s| s.borrow_mut().fired[f.kind as usize] += 1);
            match f.kind {
                0 => v = f64::NAN,
                1 => v = f64::INFINITY,
                2 => v = f64::NEG_INFINITY,
                3 => v = f.val,
                4 => v = last,
                5 => v *= 1.0 + f.val * ((mix(i ^ f.at << 20) >> 11) as f64 / (1u64 << 53) as f64 - 0.5),
                6 => {
                    if n < CB_TRACE {
                        CB.with(|s| s.borrow_mut().trace.extend([which as u64, x.to_bits(), y.to_bits(), 0x7ff8_dead_0000_0000]));
                    }
                    std::panic::panic_any(rng::Injected)
                }
                _ => {
                    // Re-entrant calls of the library, which must come out right themselves.
                    if !nested(mix(i ^ (f.at << 20) ^ x.to_bits()), c.args.get(2).map_or(10, |n| *n as u64).clamp(1, 300)) {
                        CB.with(|s| s.borrow_mut().fired[7] |= 1 << 40);
                    }
                }
            }
        }
    }
    alloc::aside(|| CB.with(|s| {
        let mut s = s.borrow_mut();
        s.last[which as usize] = v;
        if n < CB_TRACE {
            s.trace.extend([which as u64, x.to_bits(), y.to_bits(), v.to_bits()]);
        }
    }));
    v
}
fn callback(c: &Cb, vals: &mut Vec<f64>) {
    alloc::aside(|| CB.with(|s| *s.borrow_mut() = CbState { cb: Some(c.clone()), count: [0; 2], last: [0.0; 2], fired: [0; 8], trace: vec![] }));
    use polymers::math::*;
    let f = |x: &f64| cb_call(0, *x, 0.0);
    let fp = |x: &f64| cb_call(1, *x, 0.0);
    let g = |x: &f64, y: &f64| cb_call(0, *x, *y);
    let a = &c.args;
    let v = match c.what {
        // args: y, guess, tolerance, budget, power
        0 => inverse_newton_raphson(&a[0], &f, &fp, &a[1], &a[2], &(a[3] as u8)),
        1 => inverse_newton_raphson_powered(&a[0], &f, &fp, &a[1], &a[2], &(a[3] as u8), a[4] as i32),
        // args: min, max, points / weight
        2 => integrate_1d(&f, &a[0], &a[1], &(a[2] as u128)),
        3 => integrate_1d_grid(&f, &c.grid, &a[0]),
        4 => integrate_2d(&g, &a[0], &a[1], &a[3], &a[4], a[2] as u128),
        5 => integrate_2d_symmetric(&g, &a[0], &a[1], a[2] as u128),
        6 => integrate_2d_grid(&g, &c.grid, &c.grid2, &a[0]),
        _ => integrate_2d_symmetric_grid(&g, &c.grid, &a[0]),
    };
    vals.push(v);
    let n = CB.with(|s| s.borrow().count);
    vals.push(n[0] as f64);
    vals.push(n[1] as f64);
}
