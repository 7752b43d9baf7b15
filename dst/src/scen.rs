//! Scenarios: explicit, textual descriptions of simulated runs. A scenario
//! plus the code is one exactly repeatable execution.
use inst::mc::{Par, MODELS};
use inst::ops;
use seam::rng::{Fault, NAMES};
use seam::sched::Mode;

#[derive(Clone, Debug, PartialEq)]
pub struct StreamSpec {
    pub seed: u64,
    pub skip: u64,
    pub faults: Vec<Fault>,
}
impl StreamSpec {
    pub fn healthy(seed: u64) -> Self {
        StreamSpec { seed, skip: 0, faults: vec![] }
    }
    pub fn budget(&self, links: u64) -> u64 {
        500 + 32 * links + self.faults.iter().map(|f| 4 * f.len.min(1 << 32)).sum::<u64>()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Inst {
    Struct(usize, Vec<f64>),
    Dmg(u8, f64, f64, u8, f64),
    Hyp(u8, f64, u8),
}

/// A fault of a caller-supplied function: from its `at`-th invocation on, for
/// `len` invocations (counted per function).
#[derive(Clone, Debug, PartialEq)]
pub struct CbFault {
    pub which: u8, // 0: function, 1: derivative
    pub at: u64,
    pub len: u64,
    pub kind: u8,
    pub val: f64,
}
pub const CB_KINDS: [&str; 8] = ["nan", "inf", "-inf", "const", "stuck", "noise", "panic", "reenter"];
/// A call of a solver or integrator with a caller-supplied function.
#[derive(Clone, Debug, PartialEq)]
pub struct Cb {
    pub what: u8, // index into CB_WHAT
    pub fun: u8,  // base function
    pub a: f64,
    pub b: f64,
    pub args: Vec<f64>,
    pub grid: Vec<f64>,
    pub grid2: Vec<f64>,
    pub faults: Vec<CbFault>,
}
pub const CB_WHAT: [&str; 8] = ["newton", "newton_powered", "integrate_1d", "integrate_1d_grid", "integrate_2d", "integrate_2d_symmetric", "integrate_2d_grid", "integrate_2d_symmetric_grid"];

/// Marks an instance index: an instance of its own, created and dropped around the call.
pub const FRESH: usize = 1 << 20;
pub fn at(inst: usize) -> usize {
    inst & (FRESH - 1)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Fn { id: usize, ext: bool, args: Vec<f64>, count: u64 },
    Meth { inst: usize, id: usize, args: Vec<f64>, count: u64 },
    Make { inst: usize },
    Burn { id: usize, seed: u64, count: u64 },
    Cfg { model: u8, n: usize, p: Par, st: Option<StreamSpec> },
    Lens { model: u8, n: usize, p: Par, count: u64, st: Option<StreamSpec> },
    Hist { model: u8, b: usize, n: usize, p: Par, samples: u64, st: Option<StreamSpec> },
    Dmg { inst: usize, path: Vec<f64> },
    Hyp { inst: usize, biaxial: bool, stretch: f64 },
    Cb(Cb),
    Bad { kind: u8 },
}
pub const BAD: [&str; 6] = ["damage method 1", "damage method 9", "hyperelastic method 1", "hyperelastic method 0", "frc theta NaN histogram", "efjc negative stiffness"];

#[derive(Clone, Debug, PartialEq)]
pub struct Stall {
    pub thread: usize,
    pub at: u64,
    pub forever: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub seed: u64,
    pub garbage: u8,
    pub clock_jump: u64,
    pub alloc_fail: Option<u64>,
}
impl Env {
    pub fn base() -> Env {
        Env { seed: 1, garbage: 0, clock_jump: 0, alloc_fail: None }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub insts: Vec<Inst>,
    pub threads: Vec<Vec<Op>>,
    pub mode: Mode,
    pub stalls: Vec<Stall>,
    pub env: Env,
    pub cap: u64,
}
impl Scenario {
    pub fn solo(insts: Vec<Inst>, ops: Vec<Op>) -> Scenario {
        Scenario { insts, threads: vec![ops], mode: Mode::Solo, stalls: vec![], env: Env::base(), cap: 4_000_000_000 }
    }
}

fn fv(v: &[f64]) -> String {
    v.iter().map(|x| f(*x)).collect::<Vec<_>>().join(",")
}
fn f(x: f64) -> String {
    format!("{:?}", x)
}
fn stream(s: &Option<StreamSpec>) -> String {
    match s {
        None => "cont".into(),
        Some(s) => {
            let mut r = format!("seed={:#x};skip={}", s.seed, s.skip);
            for x in &s.faults {
                r += &format!(";{}@{}+{}:{:#x}", NAMES[x.kind as usize], x.at, x.len, x.val);
            }
            r
        }
    }
}
fn par(p: &Par) -> String {
    fv(&[p.theta, p.mean, p.sd, p.gmax, p.kappa])
}
fn it(inst: usize) -> String {
    if inst & FRESH != 0 { format!("~{}", at(inst)) } else { inst.to_string() }
}
fn pi(s: &str) -> usize {
    match s.strip_prefix('~') { Some(x) => pu(x) as usize | FRESH, None => pu(s) as usize }
}
pub fn op_text(o: &Op) -> String {
    match o {
        Op::Fn { id, ext, args, count } => format!("fn {} {} {} {}", ops::FNS[*id].name, *ext as u8, count, fv(args)),
        Op::Meth { inst, id, args, count } => format!("meth {} {id} {count} {}", it(*inst), fv(args)),
        Op::Make { inst } => format!("make {inst}"),
        Op::Burn { id, seed, count } => format!("burn {} {seed} {count}", ops::FNS[*id].name),
        Op::Cfg { model, n, p, st } => format!("cfg {} {n} {} {}", MODELS[*model as usize], par(p), stream(st)),
        Op::Lens { model, n, p, count, st } => format!("lens {} {n} {} {count} {}", MODELS[*model as usize], par(p), stream(st)),
        Op::Hist { model, b, n, p, samples, st } => format!("hist {} {b} {n} {} {samples} {}", MODELS[*model as usize], par(p), stream(st)),
        Op::Dmg { inst, path } => format!("dmg {} {}", it(*inst), fv(path)),
        Op::Hyp { inst, biaxial, stretch } => format!("hyp {} {} {}", it(*inst), *biaxial as u8, f(*stretch)),
        Op::Cb(c) => {
            let mut s = format!("cb {} {} {} {} a:{} g:{} h:{} ", CB_WHAT[c.what as usize], c.fun, f(c.a), f(c.b), fv(&c.args), fv(&c.grid), fv(&c.grid2));
            s += &c.faults.iter().map(|x| format!("{}/{}@{}+{}:{}", x.which, CB_KINDS[x.kind as usize], x.at, x.len, f(x.val))).collect::<Vec<_>>().join(";");
            s
        }
        Op::Bad { kind } => format!("bad {kind}"),
    }
}
pub fn inst_text(i: &Inst) -> String {
    match i {
        Inst::Struct(id, a) => format!("struct {} {}", ops::STRUCTS[*id].name, fv(a)),
        Inst::Dmg(m, ce, k, n, sw) => format!("damage {m} {} {} {n} {}", f(*ce), f(*k), f(*sw)),
        Inst::Hyp(m, k, n) => format!("hyperelastic {m} {} {n}", f(*k)),
    }
}
pub fn to_text(s: &Scenario) -> String {
    let mut r = format!("env {} {} {} {}\ncap {}\n", s.env.seed, s.env.garbage, s.env.clock_jump, s.env.alloc_fail.map_or("-".into(), |k| k.to_string()), s.cap);
    for i in &s.insts {
        r += &format!("inst {}\n", inst_text(i));
    }
    for t in &s.threads {
        r += "thread\n";
        for o in t {
            r += &format!("op {}\n", op_text(o));
        }
    }
    for x in &s.stalls {
        r += &format!("stall {} {} {}\n", x.thread, x.at, x.forever as u8);
    }
    r += &match &s.mode {
        Mode::Solo => "sched solo\n".to_string(),
        Mode::Random { seed, quantum, hot } => format!("sched random {seed} {} {}\n", f(*quantum), f(*hot)),
        Mode::Pct { seed, depth, est, hot } => format!("sched pct {seed} {depth} {est} {}\n", f(*hot)),
        Mode::Explicit(v) => format!("sched explicit {}\n", v.iter().map(|(a, b)| format!("{a}>{b}")).collect::<Vec<_>>().join(",")),
    };
    r
}

fn pfv(s: &str) -> Vec<f64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn pu(s: &str) -> u64 {
    if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse().unwrap() }
}
fn pstream(s: &str) -> Option<StreamSpec> {
    if s == "cont" {
        return None;
    }
    let mut r = StreamSpec::healthy(0);
    for p in s.split(';') {
        if let Some(v) = p.strip_prefix("seed=") {
            r.seed = pu(v);
        } else if let Some(v) = p.strip_prefix("skip=") {
            r.skip = pu(v);
        } else {
            let (k, rest) = p.split_once('@').unwrap();
            let (at, rest) = rest.split_once('+').unwrap();
            let (len, val) = rest.split_once(':').unwrap();
            r.faults.push(Fault { at: pu(at), kind: NAMES.iter().position(|n| *n == k).unwrap() as u8, len: pu(len), val: pu(val) });
        }
    }
    Some(r)
}
fn ppar(s: &str) -> Par {
    let v = pfv(s);
    Par { theta: v[0], mean: v[1], sd: v[2], gmax: v[3], kappa: v[4] }
}
fn pmodel(s: &str) -> u8 {
    MODELS.iter().position(|m| *m == s).unwrap() as u8
}
fn fnid(s: &str) -> usize {
    ops::FNS.iter().position(|x| x.name == s).unwrap()
}
pub fn parse_op(l: &str) -> Op {
    let w: Vec<&str> = l.split(' ').collect();
    match w[0] {
        "fn" => Op::Fn { id: fnid(w[1]), ext: w[2] == "1", count: pu(w[3]), args: pfv(w[4]) },
        "meth" => Op::Meth { inst: pi(w[1]), id: pu(w[2]) as usize, count: pu(w[3]), args: pfv(w[4]) },
        "make" => Op::Make { inst: pu(w[1]) as usize },
        "burn" => Op::Burn { id: fnid(w[1]), seed: pu(w[2]), count: pu(w[3]) },
        "cfg" => Op::Cfg { model: pmodel(w[1]), n: pu(w[2]) as usize, p: ppar(w[3]), st: pstream(w[4]) },
        "lens" => Op::Lens { model: pmodel(w[1]), n: pu(w[2]) as usize, p: ppar(w[3]), count: pu(w[4]), st: pstream(w[5]) },
        "hist" => Op::Hist { model: pmodel(w[1]), b: pu(w[2]) as usize, n: pu(w[3]) as usize, p: ppar(w[4]), samples: pu(w[5]), st: pstream(w[6]) },
        "dmg" => Op::Dmg { inst: pi(w[1]), path: pfv(w[2]) },
        "hyp" => Op::Hyp { inst: pi(w[1]), biaxial: w[2] == "1", stretch: w[3].parse().unwrap() },
        "cb" => {
            let mut c = Cb { what: CB_WHAT.iter().position(|x| *x == w[1]).unwrap() as u8, fun: pu(w[2]) as u8, a: w[3].parse().unwrap(), b: w[4].parse().unwrap(), args: pfv(&w[5][2..]), grid: pfv(&w[6][2..]), grid2: pfv(&w[7][2..]), faults: vec![] };
            for p in w.get(8).unwrap_or(&"").split(';').filter(|x| !x.is_empty()) {
                let (wh, r) = p.split_once('/').unwrap();
                let (k, r) = r.split_once('@').unwrap();
                let (at, r) = r.split_once('+').unwrap();
                let (len, v) = r.split_once(':').unwrap();
                c.faults.push(CbFault { which: pu(wh) as u8, at: pu(at), len: pu(len), kind: CB_KINDS.iter().position(|x| *x == k).unwrap() as u8, val: v.parse().unwrap() });
            }
            Op::Cb(c)
        }
        "bad" => Op::Bad { kind: pu(w[1]) as u8 },
        x => panic!("unknown op {x}"),
    }
}
pub fn parse(text: &str) -> Scenario {
    let mut s = Scenario::solo(vec![], vec![]);
    s.threads.clear();
    for l in text.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        let w: Vec<&str> = r.split(' ').collect();
        match k {
            "env" => s.env = Env { seed: pu(w[0]), garbage: pu(w[1]) as u8, clock_jump: pu(w[2]), alloc_fail: if w[3] == "-" { None } else { Some(pu(w[3])) } },
            "cap" => s.cap = pu(w[0]),
            "inst" => s.insts.push(match w[0] {
                "struct" => Inst::Struct(ops::STRUCTS.iter().position(|x| x.name == w[1]).unwrap(), pfv(w[2])),
                "damage" => Inst::Dmg(pu(w[1]) as u8, w[2].parse().unwrap(), w[3].parse().unwrap(), pu(w[4]) as u8, w[5].parse().unwrap()),
                _ => Inst::Hyp(pu(w[1]) as u8, w[2].parse().unwrap(), pu(w[3]) as u8),
            }),
            "thread" => s.threads.push(vec![]),
            "op" => s.threads.last_mut().unwrap().push(parse_op(r)),
            "stall" => s.stalls.push(Stall { thread: pu(w[0]) as usize, at: pu(w[1]), forever: w[2] == "1" }),
            "sched" => {
                s.mode = match w[0] {
                    "random" => Mode::Random { seed: pu(w[1]), quantum: w[2].parse().unwrap(), hot: w[3].parse().unwrap() },
                    "pct" => Mode::Pct { seed: pu(w[1]), depth: pu(w[2]) as u32, est: pu(w[3]), hot: w[4].parse().unwrap() },
                    "explicit" => Mode::Explicit(w.get(1).unwrap_or(&"").split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once('>').unwrap(); (pu(a), pu(b) as u8) }).collect()),
                    _ => Mode::Solo,
                }
            }
            _ => {}
        }
    }
    s
}
