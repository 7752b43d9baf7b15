//! Workloads: unit `i` of a part of a check, as a function of the seed alone.
use crate::gen;
use crate::judge::{Case, Ctx};
use crate::sample::Sp;
use crate::scen::*;
use inst::mc::{self, Par, EFJC, EFRC, FJC, FRC};
use inst::ops;
use seam::rng::{Fault, CONST, PANIC};
use seam::sched::Mode;
use seam::{mix, Prng};

pub struct Part {
    pub name: &'static str,
    pub instr: bool,
    pub quick: u64,
    pub thorough: u64,
}
const fn part(name: &'static str, instr: bool, quick: u64, thorough: u64) -> Part {
    Part { name, instr, quick, thorough }
}
pub const CHECKS: [&str; 14] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];
pub fn parts(check: &str) -> Vec<Part> {
    match check {
        "C01" => vec![part("geometry", false, 30_000, 1_000_000)],
        "C02" => vec![part("geometry", false, 20_000, 600_000), part("variates", false, 12_000, 400_000)],
        "C03" => vec![part("histograms", false, 24_000, 700_000), part("many-samples", false, 64, 1_600), part("very-many-samples", false, 8, 64)],
        "C04" => vec![part("configurations", false, 324, 3_600), part("histograms", false, 96, 1_200)],
        "C05" => vec![part("configurations", false, 324, 3_600), part("histograms", false, 96, 1_800), part("same-draws", false, 4_000, 100_000)],
        "C06" => vec![part("interleaved", true, 10_000, 300_000), part("sequential", false, 4_000, 100_000)],
        "C07" => vec![part("environment", false, 10_000, 300_000), part("interleaved", true, 4_000, 120_000), part("distinct", false, 3_000, 60_000), part("long", false, 300, 6_000), part("many-samples", false, 96, 2_000)],
        "C08" => vec![part("sequential", false, 6_000, 200_000), part("interleaved", true, 4_000, 120_000), part("allocation", false, 4_000, 60_000)],
        "C09" => vec![part("shareable", false, 82, 82), part("focus", false, 2_800, 60_000), part("neighbours", false, 561, 12_000), part("near-instances", false, 554, 12_000), part("history", false, 500, 12_000), part("structs", false, 1_000, 20_000), part("interleaved", true, 2_800, 60_000), part("shared-instances", true, 1_000, 20_000)],
        "C10" => vec![part("native", false, 600, 20_000), part("neighbours", false, 96, 1_200), part("exported", false, 1_700, 40_000), part("interleaved", true, 1_600, 40_000), part("hyperelastic", false, 48, 1_200)],
        "C11" => vec![part("histories", false, 480, 12_000), part("interleaved", true, 32, 800)],
        "C12" => vec![part("callbacks", false, 30_000, 900_000)],
        "C13" => vec![part("sampling", true, 6_000, 150_000), part("functions", true, 2_000, 50_000), part("recovery", false, 6_000, 150_000)],
        "C14" => vec![part("closed-form", false, 84, 1_400)],
        _ => vec![],
    }
}
fn case(check: &str, kind: &str, p: Vec<f64>, scen: Scenario) -> Case {
    Case { check: check.into(), kind: kind.into(), p, scen }
}

pub fn unit(ctx: &mut Ctx, check: &str, part: &str, i: u64, seed: u64) -> Vec<Case> {
    let h = check.bytes().chain(part.bytes()).fold(seed, |h, b| mix(h ^ b as u64));
    let mut r = Prng::new(mix(h ^ mix(i)));
    let r = &mut r;
    let env = if matches!(check, "C08" | "C09" | "C10" | "C11") && r.chance(0.25) { Some(environment(r)) } else { None };
    let mk = |kind: &str, p: Vec<f64>, mut s: Scenario| {
        if let Some(e) = &env {
            s.env = Env { alloc_fail: s.env.alloc_fail, ..e.clone() };
        }
        vec![case(check, kind, p, s)]
    };
    match (check, part) {
        ("C01", _) | ("C02", "geometry") => mk("geom", vec![], geometry(r, if check == "C01" { r_model(i, FJC) } else { r_model(i, EFJC) }, i)),
        ("C02", _) => mk("ext", vec![], variates(r)),
        ("C03", "histograms") => mk("hist", vec![], histogram(r, i, false)),
        ("C03", "very-many-samples") => mk("total", vec![], very_many(r, i)),
        ("C03", _) => mk("hist", vec![], many_samples(r, i)),
        ("C05", "same-draws") => mk("hist", vec![], histogram(r, i | 2, true)),
        ("C04", "configurations") => mk("stat", rigid(r, i).to(), empty()),
        ("C04", _) => mk("stat", second_moment(r, if i % 2 == 0 { FJC } else { FRC }, i / 2).to(), empty()),
        ("C05", "configurations") => mk("stat", extensible(r, i).to(), empty()),
        ("C05", _) => mk("stat", if i % 3 == 0 { one_link(r, i / 3) } else { second_moment(r, if i % 3 == 1 { EFJC } else { EFRC }, i / 3) }.to(), empty()),
        ("C06", "interleaved") => mk("eq", vec![], sampling(ctx, r, 0.5, false)),
        ("C06", _) => mk("eq", vec![], sequences(r, 0.4, false)),
        ("C07", "environment") => mk("eq", vec![], sequences(r, 0.05, true)),
        ("C07", "interleaved") => {
            let mut s = sampling(ctx, r, 0.1, false);
            s.env = environment(r);
            mk("eq", vec![], s)
        }
        ("C07", "distinct") => mk("distinct", vec![], distinct(r)),
        ("C07", "long") => mk("eq", vec![], long(r)),
        ("C07", _) => mk("hist", vec![], many_samples(r, i)),
        ("C08", "sequential") => mk("eq", vec![], failures(r)),
        ("C08", "interleaved") => mk("eq", vec![], failing_threads(ctx, r)),
        ("C08", _) => mk("alloc", vec![], allocation(r)),
        ("C09", "shareable") => if (i as usize) < ops::STRUCTS.len() { mk("shareable", vec![i as f64], empty()) } else { vec![] },
        ("C09", "focus") => mk("eq", vec![], focus(r, physics(i), false)),
        ("C09", "neighbours") => mk("eq", vec![], neighbours(r, physics(i))),
        ("C09", "near-instances") => mk("eq", vec![], near_instances(r, i)),
        ("C10", "neighbours") => mk("eq", vec![], neighbours(r, maths(i))),
        ("C09", "history") => mk("eq", vec![], history(ctx, r, false)),
        ("C09", "structs") => mk("eq", vec![], structs(r, i)),
        ("C09", "interleaved") => { let s = focus(r, physics(i), true); mk("eq", vec![], concurrent(ctx, r, s, 0.15)) }
        ("C09", _) => { let s = structs(r, i); mk("eq", vec![], concurrent(ctx, r, s, 0.15)) }
        ("C10", "native") => mk("eq", vec![], if i % 4 == 3 { history(ctx, r, true) } else { focus(r, maths(i), false) }),
        ("C10", "exported") => mk("eq", vec![], exported(r, i)),
        ("C10", "interleaved") => { let s = if i % 3 == 0 { focus(r, maths(i), true) } else if i % 3 == 1 { exported(r, i / 3) } else { callbacks(r) }; mk("eq", vec![], concurrent(ctx, r, s, 0.15)) }
        ("C10", _) => mk("eq", vec![], hyperelastic(r)),
        ("C11", "histories") => mk("dmg", vec![], damage(r, i)),
        ("C11", _) => { let s = specimens(r); mk("eq", vec![], concurrent(ctx, r, s, 0.2)) }
        ("C12", _) => mk("cb", vec![], { let f = i % 4 != 0; let k = 1 + r.below(3); Scenario::solo(vec![], (0..k).map(|_| Op::Cb(gen::cb(r, f && r_bool(i)))).collect()) }),
        ("C13", "sampling") => mk("eq", vec![1.0], sampling(ctx, r, 0.3, true)),
        ("C13", "functions") => {
            let s = match i % 4 { 0 => structs(r, i), 1 => exported(r, i), 2 => callbacks(r), _ => focus(r, physics(i), true) };
            mk("eq", vec![1.0], concurrent(ctx, r, s, 1.0))
        }
        ("C13", _) => mk("eq", vec![1.0], sequences(r, 0.0, false)),
        ("C14", _) => mk("stat", closed_form(r, i).to(), empty()),
        _ => vec![],
    }
}
fn r_model(i: u64, base: u8) -> u8 {
    base + (i % 2) as u8
}
fn r_bool(i: u64) -> bool {
    i % 8 != 5
}
fn empty() -> Scenario {
    Scenario::solo(vec![], vec![])
}
fn stream(r: &mut Prng) -> StreamSpec {
    StreamSpec::healthy(r.next())
}
fn per_link(model: u8) -> u64 {
    match model { FJC => 2, FRC => 4, EFJC => 3, _ => 5 }
}
fn environment(r: &mut Prng) -> Env {
    Env { seed: r.next() >> 16, garbage: if r.chance(0.5) { 1 + r.below(255) as u8 } else { 0 }, clock_jump: if r.chance(0.5) { 1 + r.below(3) } else { 0 }, alloc_fail: None }
}

// C01, C02, C03
fn geometry(r: &mut Prng, model: u8, i: u64) -> Scenario {
    let mut p = gen::par(r, model);
    let n = if i % 64 == 63 { *r.pick(mc::NS) } else { gen::size(r, 130) };
    let mut st = stream(r);
    if r.chance(0.65) {
        st.faults = gen::faults(r, per_link(model), n as u64 * 2, false);
    }
    if model >= EFJC && r.chance(0.03) {
        // links of exactly zero length: all of them, or where the normal variate is zero
        p.mean = 0.0;
        if r.chance(0.3) {
            p.sd = 0.0;
        }
        for _ in 0..3 {
            st.faults.push(Fault { at: r.below(per_link(model) * n as u64), kind: CONST, len: 1, val: (1 << 63) | r.below(256) });
        }
    }
    let k = if n > 300 { 1 } else { 1 + r.below(4) };
    let mut v = vec![Op::Cfg { model, n, p, st: Some(st.clone()) }];
    for _ in 1..k {
        v.push(Op::Cfg { model, n, p, st: None });
    }
    v.push(Op::Lens { model, n, p, count: k, st: Some(st) });
    Scenario::solo(vec![], v)
}
fn variates(r: &mut Prng) -> Scenario {
    let model = if r.chance(0.5) { EFJC } else { EFRC };
    let n = gen::size(r, 130);
    let mut st = stream(r);
    if r.chance(0.5) {
        st.faults = gen::faults(r, per_link(model), n as u64, false);
    }
    let th = gen::theta(r);
    let mut p = |lo: f64| Par { theta: th, mean: 0.5 + r.f64(), sd: lo * (1.0 + 4.0 * r.f64()) * if r.chance(0.5) { 1.0 } else { (-18.0 * r.f64()).exp() }, gmax: 2.0, kappa: 100.0 };
    let (a, b) = (p(0.005), p(0.02));
    let (a, mut b) = if r.chance(0.5) { (a, b) } else { (b, a) };
    let mut a = a;
    if r.chance(0.3) {
        // the lengths of the first are positive for sure and tell the variates; many of the second are negative
        a.sd = 0.005 + 0.005 * r.f64();
        b.mean = if r.chance(0.2) { 0.0 } else { 0.4 * r.f64() };
        b.sd = 0.1 + r.f64();
    }
    Scenario::solo(vec![], vec![Op::Cfg { model, n, p: a, st: Some(st.clone()) }, Op::Cfg { model, n, p: b, st: Some(st) }])
}
fn histogram(r: &mut Prng, i: u64, healthy: bool) -> Scenario {
    let model = (i % 4) as u8;
    let mut p = gen::par(r, model);
    if model >= EFJC {
        p.mean = 1.0;
        p.sd = 1.0 / p.kappa.sqrt();
        p.gmax = match r.below(4) { 0 => 0.6 + 0.6 * r.f64(), 1 => 1.0 + 3.0 * p.sd, _ => 1.0 + (6.0 + 4.0 * r.f64()) * p.sd };
    }
    let most = if r.chance(0.9) { 40 } else { 1100 };
    let (b, n) = gen::hist_size(r, most);
    if model >= EFJC && b > 1 && r.chance(0.15) {
        // an edge of the last bin among the samples
        p.gmax = (1.0 + (2.0 * r.f64() - 1.0) * 1.5 * p.sd) * b as f64 / (b - 1) as f64;
    }
    let samples = 1 + r.below(match n { 0..=20 => 200, 21..=100 => 60, _ => 12 });
    let mut st = stream(r);
    if !healthy && r.chance(0.6) {
        st.faults = gen::faults(r, per_link(model), n as u64 * samples, false);
    }
    Scenario::solo(vec![], vec![Op::Lens { model, n, p, count: samples, st: Some(st.clone()) }, Op::Hist { model, b, n, p, samples, st: Some(st) }])
}
fn many_samples(r: &mut Prng, i: u64) -> Scenario {
    let model = (i % 4) as u8;
    let mut p = gen::par(r, model);
    p.mean = 1.0;
    p.sd = 1.0 / p.kappa.sqrt();
    p.gmax = 1.0 + 10.0 * p.sd;
    let v: Vec<(usize, usize)> = mc::HS.iter().copied().filter(|x| x.1 <= 5).collect();
    let (b, n) = *r.pick(&v);
    let samples = [66_000, 70_000, 140_000, 40_000, 5_000][r.below(5) as usize] + r.below(1000);
    let st = stream(r);
    Scenario::solo(vec![], vec![Op::Lens { model, n, p, count: samples, st: Some(st.clone()) }, Op::Hist { model, b, n, p, samples, st: Some(st) }])
}

/// More samples than a single-precision counter can tell apart.
fn very_many(r: &mut Prng, i: u64) -> Scenario {
    let model = (i % 4) as u8;
    let mut p = gen::par(r, model);
    (p.mean, p.sd) = (1.0, 1.0 / p.kappa.sqrt());
    p.gmax = 1.0 + 10.0 * p.sd;
    let v: Vec<(usize, usize)> = mc::HS.iter().copied().filter(|x| x.1 <= 3 && x.0 <= 7).collect();
    let (b, n) = if r.chance(0.6) { *r.pick(&[(1, 1), (2, 1), (1, 2), (1, 3)]) } else { *r.pick(&v) };
    let samples = 16_800_000 + r.below(3_000_000);
    Scenario::solo(vec![], vec![Op::Hist { model, b, n, p, samples, st: Some(stream(r)) }])
}

// C04, C05, C14
fn budget_calls(n: usize, links: u64) -> u64 {
    (links / n as u64).clamp(2_000, 400_000)
}
fn rigid(r: &mut Prng, i: u64) -> Sp {
    let model = (i % 2) as u8;
    let k = i / 2;
    // all the sizes in turn, in a scattered order, and small ones in between
    let n = match k % 3 { 0 | 1 => mc::NS[((k / 3 * 2 + k % 3) * 37 % mc::NS.len() as u64) as usize], _ => match k / 3 % 4 { 0 => 1 + (k / 12 % 4) as usize, 1 => 2 + r.below(4) as usize, 2 => gen::size(r, 16), _ => gen::size(r, 64) } };
    let warm = match r.below(4) { 0 => 0, 1 => 1_000 + r.below(200), 2 => 70_000 / n as u64 + 66_000, _ => 300_000 / n as u64 };
    let warm = warm.min(3_000_000 / n as u64);
    // now and then a long life before
    let warm = if n <= 16 && r.chance(0.15) { 1_060_000 + r.below(99) } else if n <= 3 && r.chance(0.1) { 16_800_000 } else { warm };
    let th = [0.05, 0.3, 1.0, std::f64::consts::PI / 2.0, 2.0, 2.8, 3.05, 1.2309594, std::f64::consts::PI / 3.0, 2.0 * std::f64::consts::PI / 3.0];
    let theta = if r.chance(0.5) { *r.pick(&th) } else { 0.05 + 3.0 * r.f64() };
    Sp { what: 0, model, n, calls: budget_calls(n, 1_500_000), warm, par: Par { theta, mean: 1.0, sd: 0.0, gmax: 2.0, kappa: 100.0 }, b: r.below(1 << 30) as usize, seed: r.next() >> 12 }
}
fn extensible(r: &mut Prng, i: u64) -> Sp {
    let mut s = rigid(r, i);
    s.model += EFJC;
    s.par.mean = if r.chance(0.5) { 1.0 } else { 0.5 + 1.5 * r.f64() };
    s.par.sd = s.par.mean * [0.12, 0.1, 0.05, 0.01, 0.003, 1e-4, 1e-6][r.below(7) as usize];
    s.calls = s.calls * 2 / 3;
    s
}
fn second_moment(r: &mut Prng, model: u8, i: u64) -> Sp {
    let sizes: Vec<(usize, usize)> = mc::HS.iter().copied().filter(|x| x.0 >= 20).collect();
    let (b, n) = sizes[(i as usize + r.below(2) as usize * 7) % sizes.len()];
    let kappa = [20.0, 30.0, 50.0, 100.0, 400.0][r.below(5) as usize];
    let th = 0.2 + 2.7 * r.f64();
    let p = Par { theta: th, mean: 1.0, sd: 0.0, gmax: 1.0 + 9.0 / f64::sqrt(kappa), kappa };
    let warm = if r.chance(0.3) { 66_000 } else { 0 };
    Sp { what: 1, model, n, calls: (4_000_000 / n as u64).clamp(4_000, 1_000_000), warm: warm.min(2_000_000 / n as u64), par: p, b, seed: r.next() >> 12 }
}
fn one_link(r: &mut Prng, i: u64) -> Sp {
    let b = [10, 16, 32, 100][(i % 4) as usize];
    let kappa: f64 = [1.0, 11.0, 20.0, 50.0, 100.0, 1e3, 1e4, 3e4, 1e5, 1e6, 1e8][r.below(11) as usize];
    let sd = 1.0 / kappa.sqrt();
    let mut gmax = 1.0 + 9.0 * sd;
    if kappa >= 1e3 {
        // one or two edges within the narrow distribution
        let edge = (1.0 + (2.0 * r.f64() - 1.0) * 1.2 * sd) * b as f64 / (b - 1) as f64;
        if edge > 1.0 + 7.0 * sd {
            gmax = edge;
        }
    }
    let p = Par { theta: 0.2 + 2.7 * r.f64(), mean: 1.0, sd: 0.0, gmax, kappa };
    Sp { what: 2, model: if (i / 4) % 2 == 0 { EFJC } else { EFRC }, n: 1, calls: 1_000_000, warm: 0, par: p, b, seed: r.next() >> 12 }
}
fn closed_form(r: &mut Prng, i: u64) -> Sp {
    let sizes: Vec<(usize, usize)> = mc::HS.iter().copied().filter(|x| x.1 >= 3 && x.1 <= CLOSED_MAX && x.0 >= 4).collect();
    let mut ns: Vec<usize> = sizes.iter().map(|x| x.1).collect();
    ns.sort();
    ns.dedup();
    let n = ns[i as usize % ns.len()];
    let bs: Vec<usize> = sizes.iter().filter(|x| x.1 == n).map(|x| x.0).collect();
    let b = *r.pick(&bs);
    Sp { what: 3, model: FJC, n, calls: (8_000_000 / n as u64).clamp(100_000, 2_000_000), warm: if r.chance(0.25) { 66_000 } else { 0 }, par: Par { theta: 1.0, mean: 1.0, sd: 0.0, gmax: 1.0, kappa: 1.0 }, b, seed: r.next() >> 12 }
}
pub const CLOSED_MAX: usize = 24;

// Sampling: C06, C07, C13
fn mc_ops(r: &mut Prng, count: u64, faulty: f64, max_n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    for k in 0..count {
        let mut st = None;
        if k == 0 || r.chance(0.6) {
            let mut s = stream(r);
            let x = r.f64();
            if x < faulty {
                let (l, c) = (1 + r.below(40), r.chance(0.6));
                s.faults = gen::faults(r, 4, l, c);
            }
            st = Some(s);
        }
        let mut op = gen::mc_op(r, max_n, 100, st);
        if r.chance(0.4) && !v.is_empty() {
            // the same request as before, with other draws
            let st = match &op { Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } => st.clone(), _ => None };
            op = r.pick(&v).clone();
            let near = r.chance(0.4);
            if let Op::Cfg { st: s, p, model, .. } | Op::Lens { st: s, p, model, .. } | Op::Hist { st: s, p, model, .. } = &mut op {
                // at times the same draws too, when they were given
                if !(near && s.is_some() && r.chance(0.4)) {
                    *s = st;
                }
                if near {
                    neighbour(r, p, model);
                }
            }
        }
        v.push(op);
    }
    v
}
/// One parameter off by little or much, or the other model.
fn neighbour(r: &mut Prng, p: &mut Par, model: &mut u8) {
    let e = *r.pick(&[1e-13, 1e-10, -1e-8, 1e-6, 1e-4, -1e-2, 0.1]);
    match r.below(8) {
        0 | 1 => p.theta *= 1.0 + e,
        2 => p.theta = if r.chance(0.5) { -p.theta } else { std::f64::consts::PI - p.theta },
        3 => p.sd *= 1.0 + e,
        4 => p.mean *= 1.0 + e,
        5 => p.gmax *= 1.0 + e,
        6 => p.kappa *= 1.0 + e,
        _ => *model = r.below(4) as u8,
    }
}
fn sampling(ctx: &mut Ctx, r: &mut Prng, faulty: f64, stalls: bool) -> Scenario {
    let crowd = r.chance(0.08);
    let k = if crowd { 5 + r.below(14) } else { 2 + r.below(3) };
    let common = r.chance(0.5);
    let mut threads: Vec<Vec<Op>> = vec![];
    for t in 0..k {
        let c = 1 + r.below(if crowd { 2 } else { 4 });
        let mut th = mc_ops(r, c, faulty, if crowd { 12 } else { 40 });
        if common && t > 0 {
            // the same calls in every thread
            th = threads[0].clone();
            for op in &mut th {
                if let Op::Cfg { st: Some(s), .. } | Op::Lens { st: Some(s), .. } | Op::Hist { st: Some(s), .. } = op {
                    if r.chance(0.8) {
                        s.seed = r.next();
                    }
                }
            }
        }
        threads.push(th);
    }
    let mut s = Scenario::solo(vec![], vec![]);
    s.threads = threads;
    schedule(ctx, r, s, if stalls { 1.0 } else { 0.3 })
}
/// One thread, many calls.
fn sequences(r: &mut Prng, faulty: f64, env: bool) -> Scenario {
    let c = 2 + r.below(10);
    let mut v = mc_ops(r, c, faulty, 130);
    if faulty == 0.0 {
        // a generator that misbehaves for a while, then works again
        for op in &mut v {
            if let Op::Cfg { st: Some(s), .. } | Op::Lens { st: Some(s), .. } | Op::Hist { st: Some(s), .. } = op {
                let l = 1 + r.below(60);
                s.faults = gen::faults(r, 4, l, false);
                if r.chance(0.3) {
                    s.faults.push(Fault { at: r.below(20), kind: *r.pick(&[0, 1, 2, 3, 4, 6, 7, 7]), len: 200 + r.below(3000), val: r.next() });
                }
            }
        }
    }
    let mut s = Scenario::solo(vec![], v);
    if env {
        s.env = environment(r);
    }
    s
}
fn distinct(r: &mut Prng) -> Scenario {
    let mut s = Scenario::solo(vec![], vec![]);
    let model = r.below(4) as u8;
    let mut p = gen::par(r, model);
    p.theta = 0.3 + 1.4 * r.f64();
    p.kappa = 100.0 + 900.0 * r.f64();
    p.gmax = 1.0 + 8.0 / p.kappa.sqrt();
    p.sd = 0.05 + 0.1 * r.f64();
    let kind = r.below(3);
    let n = 3 + r.below(20) as usize;
    let hs: Vec<(usize, usize)> = mc::HS.iter().copied().filter(|x| x.0 >= 100 && x.1 >= 3 && x.1 <= 16).collect();
    let (b, hn) = *r.pick(&hs);
    let mk = |st: Option<StreamSpec>| match kind {
        0 => Op::Cfg { model, n, p, st },
        1 => Op::Lens { model, n, p, count: 1, st },
        _ => Op::Hist { model, b, n: hn, p, samples: 200, st },
    };
    let threads = 1 + r.below(2);
    s.threads = (0..threads).map(|_| { let c = 2 + r.below(6); (0..c).map(|k| mk(if k == 0 || r.chance(0.3) { Some(stream(r)) } else { None })).collect() }).collect();
    if threads > 1 {
        s.mode = Mode::Random { seed: r.next(), quantum: 50.0, hot: 0.0 };
    }
    s.env = environment(r);
    s
}
/// Very many calls, then the same answers as ever.
fn long(r: &mut Prng) -> Scenario {
    let model = r.below(4) as u8;
    let p = gen::par(r, model);
    let mut v = vec![];
    for _ in 0..1 + r.below(2) {
        let model = if r.chance(0.7) { model } else { r.below(4) as u8 };
        let n = 1 + r.below(6) as usize;
        let count = [257, 1_025, 4_097, 33_000, 66_000, 140_000][r.below(6) as usize] + r.below(50);
        if r.chance(0.6) {
            v.push(Op::Lens { model, n, p, count, st: Some(stream(r)) });
        } else {
            // histograms, one after the other
            let mut p = p;
            p.gmax = 1.0 + 9.0 / p.kappa.sqrt();
            let hs: Vec<(usize, usize)> = mc::HS.iter().copied().filter(|x| x.0 >= 10 && x.1 <= 6).collect();
            let (b, n) = *r.pick(&hs);
            for _ in 0..3 {
                v.push(Op::Hist { model, b, n, p, samples: 1 + r.below(2 * count.min(40_000)), st: Some(stream(r)) });
            }
        }
        v.extend(mc_ops(r, 3, 0.0, 30));
        v.push(Op::Lens { model, n, p, count: 5, st: Some(stream(r)) });
    }
    let mut s = Scenario::solo(vec![], v);
    s.env = environment(r);
    s
}

// C08
fn bad_op(r: &mut Prng) -> Op {
    match r.below(5) {
        0 => Op::Bad { kind: if r.chance(0.15) { r.below(4) as u8 } else { 4 + r.below(2) as u8 } },
        1 => {
            let mut c = gen::cb(r, true);
            for f in &mut c.faults {
                f.kind = 6;
            }
            Op::Cb(c)
        }
        _ => {
            let mut s = stream(r);
            let mut op = gen::mc_op(r, 40, 100, None);
            let links = match &op { Op::Cfg { n, .. } => *n as u64, Op::Lens { n, count, .. } => *n as u64 * count, Op::Hist { n, samples, .. } => *n as u64 * samples, _ => 1 };
            s.faults = vec![Fault { at: r.below(3 * links + 1), kind: PANIC, len: 1, val: 0 }];
            if let Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } = &mut op {
                *st = Some(s);
            }
            op
        }
    }
}
/// A healthy request like the failing one.
fn probe(r: &mut Prng, bad: &Op) -> Op {
    let mut op = bad.clone();
    match &mut op {
        Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } => *st = if r.chance(0.3) { None } else { Some(stream(r)) },
        Op::Cb(c) => c.faults.clear(),
        Op::Bad { kind } => {
            op = match kind {
                4 => Op::Hist { model: FRC, b: 10, n: 8, p: gen::par(r, FRC), samples: 5, st: Some(stream(r)) },
                _ => Op::Hist { model: EFJC, b: 10, n: 8, p: gen::par(r, EFJC), samples: 5, st: Some(stream(r)) },
            }
        }
        _ => {}
    }
    op
}
fn any_probe(r: &mut Prng) -> Op {
    match r.below(4) {
        0 => {
            let st = Some(stream(r));
            gen::mc_op(r, 40, 100, st)
        }
        1 => Op::Cb(gen::cb(r, false)),
        2 => func(r, None),
        _ => maths_op(r),
    }
}
fn failures(r: &mut Prng) -> Scenario {
    let mut v = vec![];
    // now and then the same failure over and over
    let often = if r.chance(0.15) { [3, 9, 17, 33, 70, 130][r.below(6) as usize] } else { 1 };
    for _ in 0..if often > 1 { 1 + r.below(2) } else { 1 + r.below(4) } {
        let b = bad_op(r);
        let heavy = matches!(b, Op::Bad { kind } if kind < 4);
        for _ in 0..if heavy { 1 } else { often } {
            v.push(b.clone());
        }
        if often > 1 {
            // the solvers have callers of their own
            for _ in 0..3 {
                v.push(any_probe(r));
            }
        }
        if r.chance(0.8) {
            v.push(probe(r, &b));
        }
        if r.chance(0.4) {
            v.push(any_probe(r));
        }
    }
    // a continued stream needs a beginning
    if let Some(Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. }) = v.iter_mut().find(|o| matches!(o, Op::Cfg { .. } | Op::Lens { .. } | Op::Hist { .. })) {
        if st.is_none() {
            *st = Some(stream(r));
        }
    }
    let mut s = Scenario::solo(vec![], v);
    if r.chance(0.12) {
        // rejected stretches
        let m = r_method(r.next());
        s.insts.push(gen::damage_inst(r, m));
        let fresh = if r.chance(0.3) { FRESH } else { 0 };
        for _ in 0..1 + r.below(2) {
            let mut bad = gen::path(r, 6, 2);
            let k = r.below(bad.len() as u64) as usize;
            bad[k] = *r.pick(&[0.5, 0.999, 0.0, -2.0, f64::NAN]);
            bad[0] = if k == 0 { bad[0] } else { bad[0] + r.f64() };
            s.threads[0].push(Op::Dmg { inst: fresh, path: bad });
            let low = 1.0 + 0.5 * r.f64();
            s.threads[0].push(Op::Dmg { inst: 0, path: vec![low, 1.0 + 0.5 * (low - 1.0)] });
        }
    }
    s
}
fn r_method(k: u64) -> u8 {
    if mix(k + 9) % 20 == 3 { 2 } else { 3 }
}
fn failing_threads(ctx: &mut Ctx, r: &mut Prng) -> Scenario {
    let mut s = Scenario::solo(vec![], vec![]);
    let k = 2 + r.below(2);
    let b = bad_op(r);
    s.threads = (0..k)
        .map(|t| {
            let mut v = vec![];
            if t == 0 || r.chance(0.4) {
                let x = if r.chance(0.5) { b.clone() } else { bad_op(r) };
                if !matches!(x, Op::Bad { kind } if kind < 4) {
                    v.push(x);
                }
            }
            let mut p = probe(r, &b);
            if let Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } = &mut p {
                *st = Some(stream(r));
            }
            v.push(p);
            if r.chance(0.5) {
                v.push(any_probe(r));
            }
            v
        })
        .collect();
    schedule(ctx, r, s, 0.2)
}
fn allocation(r: &mut Prng) -> Scenario {
    let solver = r.chance(0.4);
    let mut s = Scenario::solo(vec![], (0..1 + r.below(3)).map(|_| if solver { Op::Cb(gen::cb(r, false)) } else { any_probe(r) }).collect());
    let k = if r.chance(0.5) { r.below(3) } else { r.below(20) };
    // for good, or once
    s.env.alloc_fail = Some(if r.chance(0.5) { k } else { k | 1 << 32 });
    s
}

// Functions: C09, C10
fn physics(i: u64) -> usize {
    let m = ops::FNS.iter().filter(|f| f.name.starts_with("math::")).count() as u64;
    // ids of the others in order, visited in a scattered order
    let n = ops::FNS.len() as u64 - m;
    let k = (i * 263 + i / n * 7) % n;
    ops::FNS.iter().enumerate().filter(|(_, f)| !f.name.starts_with("math::")).nth(k as usize).unwrap().0
}
fn maths(i: u64) -> usize {
    let m: Vec<usize> = (0..ops::FNS.len()).filter(|k| gen::is_math(*k)).collect();
    m[i as usize % m.len()]
}
fn func(r: &mut Prng, id: Option<usize>) -> Op {
    let id = id.unwrap_or_else(|| r.below(ops::FNS.len() as u64) as usize);
    let d = &ops::FNS[id];
    let w = gen::world(r);
    Op::Fn { id, ext: d.ext.is_some() && r.chance(0.2), args: w.of(d.name, d.params), count: 1 }
}
fn maths_op(r: &mut Prng) -> Op {
    let k = r.next();
    let id = maths(k);
    func(r, Some(id))
}
/// Calls around one function: with arguments that differ in little, with the
/// same arguments to related functions, and again.
fn focus(r: &mut Prng, id: usize, short: bool) -> Scenario {
    let d = &ops::FNS[id];
    let m = gen::module(d.name);
    let family: Vec<usize> = (0..ops::FNS.len()).filter(|k| gen::module(ops::FNS[*k].name) == m).collect();
    let cousins: Vec<usize> = (0..ops::FNS.len()).filter(|k| *k != id && gen::leaf(ops::FNS[*k].name) == gen::leaf(d.name)).collect();
    let kin: Vec<usize> = (0..ops::FNS.len()).filter(|k| { let n = gen::module(ops::FNS[*k].name); n != m && (n.starts_with(m) || m.starts_with(n)) }).collect();
    let w0 = gen::world(r);
    let mut pool = vec![w0.clone(), w0.vary(r, d.params)];
    for _ in 0..3 {
        let b = r.pick(&pool).clone();
        pool.push(b.vary(r, d.params));
    }
    pool.push(gen::world(r));
    if r.chance(0.25) {
        pool.push(w0.odd(r, d.params));
    }
    let len = if short { 6 + r.below(8) } else { 12 + r.below(20) };
    let mut v = vec![];
    for k in 0..len {
        let x = r.f64();
        let f = if k == 0 || x < 0.5 { id } else if x < 0.7 { *r.pick(&family) } else if x < 0.85 && !cousins.is_empty() { *r.pick(&cousins) } else if x < 0.95 && !kin.is_empty() { *r.pick(&kin) } else { r.below(ops::FNS.len() as u64) as usize };
        let w = if k < 2 { &pool[k as usize] } else { r.pick(&pool) };
        let g = &ops::FNS[f];
        let mut count = 1;
        if !short && r.chance(0.05) {
            count = 2 + r.below(40);
        }
        v.push(Op::Fn { id: f, ext: g.ext.is_some() && r.chance(0.15), args: w.of(g.name, g.params), count });
    }
    Scenario::solo(vec![], v)
}
/// One function at one point and at every neighbour of it: each argument off
/// by little or much, each pair of arguments with the same product or
/// quotient, and the point itself again in between.
fn neighbours(r: &mut Prng, id: usize) -> Scenario {
    let d = &ops::FNS[id];
    let mut w = gen::world(r);
    let most = if r.chance(0.8) { 12 } else { 60 };
    w.0[0] = 2.0 * (2 + r.below(most)) as f64;
    let a = w.of(d.name, d.params);
    let mut near = near(r, d.params, &a);
    let mut v = vec![];
    let call = |args: &Vec<f64>| Op::Fn { id, ext: false, args: args.clone(), count: 1 };
    v.push(call(&a));
    // in a random order; at times straight from one neighbour to the next
    while !near.is_empty() {
        let k = r.below(near.len() as u64) as usize;
        v.push(call(&near.swap_remove(k)));
        if r.chance(0.8) {
            v.push(call(&a));
        }
    }
    Scenario::solo(vec![], v)
}
/// All single neighbours of a point, and pairwise ones.
fn near(r: &mut Prng, params: &[&str], a: &[f64]) -> Vec<Vec<f64>> {
    let int = |i: usize| params[i] == "number_of_links" || params[i] == "nu";
    let mut near: Vec<Vec<f64>> = vec![];
    for i in 0..a.len() {
        let mut put = |x: f64| near.push({ let mut v = a.to_vec(); v[i] = x; v });
        if int(i) {
            put(if params[i] == "nu" { (a[i] + 1.0) % 3.0 } else { a[i] + 1.0 });
            if params[i] == "number_of_links" {
                // the same slot of a table
                let k = *r.pick(&[8.0, 10.0, 16.0, 20.0, 32.0, 50.0, 64.0, 100.0, 128.0]);
                put(if a[i] + k < 256.0 { a[i] + k } else { a[i] + 2.0 });
            }
        } else {
            put(f64::from_bits(a[i].to_bits() + 1));
            for e in [1e-13, 1e-11, 1e-9, -1e-7, 1e-5, -1e-3, 0.05] {
                put(a[i] * (1.0 + e));
            }
            put(a[i] + 1.0);
        }
    }
    for i in 0..a.len() {
        for k in 0..i {
            for (f, g) in [(2.0, 0.5), (0.5, 2.0), (0.5, 0.5), (2.0, 2.0)] {
                if params[i] == "nu" || params[k] == "nu" || g == f && f == 2.0 && r.chance(0.5) {
                    continue;
                }
                let mut v = a.to_vec();
                v[i] *= f;
                v[k] *= g;
                near.push(v);
            }
            if !int(i) && !int(k) {
                // the same sum, the same difference, and one in the place of the other
                let e = 0.0625 * a[i].min(a[k]);
                near.push({ let mut v = a.to_vec(); v[i] += e; v[k] -= e; v });
                near.push({ let mut v = a.to_vec(); v[i] -= e; v[k] -= e; v });
                near.push({ let mut v = a.to_vec(); v.swap(i, k); v });
            }
        }
    }
    near
}
/// One method of one instance, of its neighbours, and with neighbouring
/// arguments; at times every instance takes the place of the one before.
fn near_instances(r: &mut Prng, i: u64) -> Scenario {
    let all: Vec<(usize, usize)> = ops::STRUCTS.iter().enumerate().flat_map(|(s, d)| (0..d.methods.len()).map(move |m| (s, m))).collect();
    let n = all.len() as u64;
    let (id, mi) = all[((i * 263 + i / n * 7) % n) as usize];
    let (d, me) = (&ops::STRUCTS[id], &ops::STRUCTS[id].methods[mi]);
    let mut w = gen::world(r);
    w.0[0] = 2.0 * (2 + r.below(12)) as f64;
    w.0[6] = (0.05 + 0.9 * r.f64()) * w.0[0] * w.0[1];
    let a = w.of(d.name, d.params);
    let args = w.of(me.name, me.params);
    let mut insts = near(r, d.params, &a);
    while insts.len() > 28 {
        let k = r.below(insts.len() as u64) as usize;
        insts.swap_remove(k);
    }
    insts.insert(0, a);
    let mut others = near(r, me.params, &args);
    while others.len() > 14 {
        let k = r.below(others.len() as u64) as usize;
        others.swap_remove(k);
    }
    let fresh = if r.chance(0.6) { FRESH } else { 0 };
    let call = |k: usize, args: &Vec<f64>| Op::Meth { inst: k | fresh, id: mi, args: args.clone(), count: 1 };
    let mut v = vec![call(0, &args)];
    let mut left: Vec<usize> = (1..insts.len() + others.len()).collect();
    while !left.is_empty() {
        let j = r.below(left.len() as u64) as usize;
        let k = left.swap_remove(j);
        v.push(if k < insts.len() { call(k, &args) } else { call(0, &others[k - insts.len()]) });
        if r.chance(0.7) {
            v.push(call(0, &args));
        }
    }
    Scenario::solo(insts.into_iter().map(|a| Inst::Struct(id, a)).collect(), v)
}
fn history(ctx: &mut Ctx, r: &mut Prng, math: bool) -> Scenario {
    let mut v = vec![];
    let fam = r.next();
    for _ in 0..4 + r.below(8) {
        let id = if math { maths(r.next()) } else { physics(if r.chance(0.5) { fam } else { r.next() % 100_000 }) };
        let d = &ops::FNS[id];
        let w = gen::world(r);
        let op = Op::Fn { id, ext: false, args: w.of(d.name, d.params), count: 1 };
        let t0 = seam::sys::real_now();
        let _ = ctx.reference(&[], &op);
        let _ = t0;
        // functions that integrate or sum over many terms are repeated less often
        let heavy = d.name.contains("swfjc") || d.name.contains("modified_canonical") || d.name.contains("log_squared") || d.name.contains("morse") || d.name.contains("lennard_jones") || d.name.contains("ufjc") || d.name.contains("wlc");
        let many = if heavy { 40 } else { *r.pick(&[70u64, 300, 1_100, 5_000, 70_000]) };
        match r.below(3) {
            0 => v.push(Op::Fn { id, ext: false, args: w.of(d.name, d.params), count: many }),
            1 => v.push(Op::Burn { id, seed: r.next() >> 20, count: many.min(3_000) }),
            _ => v.push(op.clone()),
        }
        let x = w.vary(r, d.params);
        v.push(Op::Fn { id, ext: false, args: x.of(d.name, d.params), count: 1 });
        v.push(op);
    }
    Scenario::solo(vec![], v)
}
fn structs(r: &mut Prng, i: u64) -> Scenario {
    let n = ops::STRUCTS.len() as u64;
    let id = ((i * 29 + i / n) % n) as usize;
    let d = &ops::STRUCTS[id];
    let w0 = gen::world(r);
    let mut s = Scenario::solo(vec![], vec![]);
    let mut insts = vec![(id, w0.clone()), (id, w0.vary(r, d.params))];
    let leaf = |k: usize| ops::STRUCTS[k].name.rsplit("::").next().unwrap_or("");
    let cousins: Vec<usize> = (0..ops::STRUCTS.len()).filter(|k| *k != id && (leaf(*k) == leaf(id) || gen::module(ops::STRUCTS[*k].name).starts_with(gen::module(d.name)))).collect();
    if !cousins.is_empty() {
        insts.push((*r.pick(&cousins), w0.clone()));
    }
    if r.chance(0.5) {
        insts.push((id, gen::world(r)));
    }
    s.insts = insts.iter().map(|(k, w)| Inst::Struct(*k, w.of(ops::STRUCTS[*k].name, ops::STRUCTS[*k].params))).collect();
    let args: Vec<gen::World> = { let a = gen::world(r); let all: Vec<&str> = gen::NAMES.to_vec(); let b = a.vary(r, &all); vec![a, b, gen::world(r)] };
    let len = 8 + r.below(10);
    let mut v = vec![];
    let mut last: Option<usize> = None;
    for _ in 0..len {
        let k = r.below(insts.len() as u64) as usize;
        let t = &ops::STRUCTS[insts[k].0];
        if t.methods.is_empty() || r.chance(0.05) {
            v.push(Op::Make { inst: k });
            continue;
        }
        let mi = match last { Some(m) if r.chance(0.5) && m < t.methods.len() => m, _ => r.below(t.methods.len() as u64) as usize };
        last = Some(mi);
        let me = &t.methods[mi];
        // lengths and forces must suit the instance: take link lengths from it
        let mut w = r.pick(&args).clone();
        if r.chance(0.7) {
            for p in [0usize, 1] {
                w.0[p] = insts[k].1 .0[p];
            }
            w.0[6] = (0.05 + 0.9 * ((w.1 >> 11) as f64 / (1u64 << 53) as f64)) * w.0[0] * w.0[1];
        }
        let count = if r.chance(0.05) { 2 + r.below(20) } else { 1 };
        let inst = if r.chance(0.25) { k | FRESH } else { k };
        v.push(Op::Meth { inst, id: mi, args: w.of(me.name, me.params), count });
    }
    s.threads = vec![v];
    s
}
fn exported(r: &mut Prng, i: u64) -> Scenario {
    let e: Vec<usize> = (0..ops::FNS.len()).filter(|k| ops::FNS[*k].ext.is_some()).collect();
    let id = e[(i * 101 % e.len() as u64) as usize];
    let d = &ops::FNS[id];
    let mut v = vec![];
    for k in 0..10 {
        let w = gen::world(r);
        let w = if k == 9 && r.chance(0.3) { w.odd(r, d.params) } else { w };
        v.push(Op::Fn { id, ext: true, args: w.of(d.name, d.params), count: 1 });
        if r.chance(0.2) {
            let o = *r.pick(&e);
            let od = &ops::FNS[o];
            v.push(Op::Fn { id: o, ext: true, args: w.of(od.name, od.params), count: 1 });
        }
    }
    Scenario::solo(vec![], v)
}
fn callbacks(r: &mut Prng) -> Scenario {
    let k = 4 + r.below(5);
    Scenario::solo(vec![], (0..k).map(|_| if r.chance(0.7) { let f = r.chance(0.3); Op::Cb(gen::cb(r, f)) } else { maths_op(r) }).collect())
}
fn hyperelastic(r: &mut Prng) -> Scenario {
    let mut s = Scenario::solo(vec![], vec![]);
    let m = 2 + r.below(2) as u8;
    let k = 30.0 + 170.0 * r.f64();
    let n = 3 + r.below(25) as u8;
    s.insts = vec![Inst::Hyp(m, k, n)];
    // others which differ in the stiffness, in the number of links, or in the method
    for _ in 0..2 {
        s.insts.push(match r.below(3) { 0 => Inst::Hyp(m, k * (1.0 + *r.pick(&[1e-9, 1e-3, 0.3])), n), 1 => Inst::Hyp(m, k, n + 1), _ => Inst::Hyp(5 - m, k, n) });
    }
    let st: Vec<f64> = (0..3).map(|_| 1.0 + 2.0 * r.f64()).collect();
    let fresh = *r.pick(&[0.0, 0.2, 1.0]);
    let (mut way, mut x) = (false, st[0]);
    let mut v = vec![];
    for _ in 0..6 {
        // often the same request to another one
        if r.chance(0.5) {
            (way, x) = (r.chance(0.5), *r.pick(&st));
        }
        v.push(Op::Hyp { inst: r.below(3) as usize | if r.chance(fresh) { FRESH } else { 0 }, biaxial: way, stretch: x });
    }
    s.threads = vec![v];
    s
}

// C11
fn damage(r: &mut Prng, i: u64) -> Scenario {
    let mut s = Scenario::solo(vec![], vec![]);
    s.insts.push(gen::damage_inst(r, r_method(i)));
    let two = r.chance(0.4);
    if two {
        // a second specimen that differs in one parameter
        let mut b = s.insts[0].clone();
        if let Inst::Dmg(_, ce, k, n, sw) = &mut b {
            match r.below(4) { 0 => *ce *= 0.97, 1 => *k *= 1.01, 2 => *n += 1, _ => *sw += 0.05 }
        }
        s.insts.push(b);
    }
    let mut v = vec![];
    let slow = r_method(i) == 2;
    let long = !slow && r.chance(0.06);
    // every specimen in the place of the one before
    let fresh = if !slow && r.chance(0.2) { 1.0 } else if slow { 0.0 } else { 0.15 };
    for k in 0..if slow || long { 1 } else { 2 + r.below(3) } {
        let inst = if two && k % 2 == 1 { 1 } else { 0 };
        let most = if slow { 6 } else if long { 300 } else if r.chance(0.9) { 10 } else { 32 };
        let mut path = gen::path(r, most, if long { 48 } else { 1 });
        if r.chance(0.12) {
            let j = r.below(path.len() as u64) as usize;
            path[j] = *r.pick(&[0.999, 0.5, 0.0, -1.0, f64::NAN, 1.0 - 1e-15, f64::NEG_INFINITY]);
        }
        v.push(Op::Dmg { inst: if r.chance(fresh) { inst | FRESH } else { inst }, path });
    }
    if !long && r.chance(0.3) {
        let x = v[0].clone();
        v.push(x);
    }
    s.threads = vec![v];
    s
}
fn specimens(r: &mut Prng) -> Scenario {
    let mut s = Scenario::solo(vec![], vec![]);
    s.insts = vec![gen::damage_inst(r, 3), gen::damage_inst(r, 3)];
    s.threads = vec![(0..3).map(|_| Op::Dmg { inst: r.below(2) as usize, path: gen::path(r, 3, 1) }).collect()];
    s
}

// Schedules.
/// Distributes the calls of a one-threaded scenario over threads.
fn concurrent(ctx: &mut Ctx, r: &mut Prng, mut s: Scenario, stalls: f64) -> Scenario {
    let ops = std::mem::take(&mut s.threads).concat();
    let k = if r.chance(0.08) { 4 + r.below(13) } else { 2 + r.below(2) } as usize;
    s.threads = vec![vec![]; k];
    for op in ops {
        let mut op = op;
        if let Op::Fn { count, .. } | Op::Meth { count, .. } = &mut op {
            *count = (*count).min(3);
        }
        if ctx.reference(&s.insts, &native(&op)).is_none() {
            continue;
        }
        // an exported function that panics ends the process
        if let Op::Fn { ext: true, .. } = &op {
            if ctx.reference(&s.insts, &native(&op)).is_some_and(|x| x.status != 1) {
                continue;
            }
        }
        let t = r.below(k as u64) as usize;
        s.threads[t].push(op.clone());
        if r.chance(0.3) {
            s.threads[(t + 1) % k].push(op);
        }
    }
    s.threads.retain(|t| !t.is_empty());
    schedule(ctx, r, s, stalls)
}
fn native(op: &Op) -> Op {
    let mut o = op.clone();
    if let Op::Fn { ext, .. } = &mut o {
        *ext = false;
    }
    o
}
fn schedule(ctx: &mut Ctx, r: &mut Prng, mut s: Scenario, stalls: f64) -> Scenario {
    let mut own = vec![];
    for th in &s.threads {
        let mut t = 0;
        for op in th {
            let mut o = native(op);
            if let Op::Cfg { st, .. } | Op::Lens { st, .. } | Op::Hist { st, .. } = &mut o {
                if st.is_none() {
                    *st = Some(StreamSpec::healthy(1));
                }
            }
            let n = match op { Op::Fn { count, .. } | Op::Meth { count, .. } => *count, _ => 1 };
            t += ctx.reference(&s.insts, &o).map_or(1000, |x| x.steps) * n;
        }
        own.push(t.max(1));
    }
    let total: u64 = own.iter().sum();
    s.cap = 20 * total + 2_000_000;
    let hot = *r.pick(&[0.0, 0.2, 1.0]);
    s.mode = if r.chance(0.7) {
        // from a switch every few steps to a switch per call
        let q = [4.0, 20.0, 100.0, 1000.0, 10_000.0, 100_000.0][r.below(6) as usize];
        let q = f64::max(q, total as f64 / 8_000.0);
        Mode::Random { seed: r.next() >> 8, quantum: q, hot }
    } else {
        Mode::Pct { seed: r.next() >> 8, depth: 1 + r.below(6) as u32, est: total, hot }
    };
    if r.chance(stalls) && s.threads.len() > 1 {
        let forever = r.chance(0.5);
        let k = 1 + r.below(s.threads.len() as u64 - 1);
        let first = r.below(s.threads.len() as u64);
        for j in 0..k {
            let t = ((first + j) % s.threads.len() as u64) as usize;
            s.stalls.push(Stall { thread: t, at: r.below(own[t] + 1), forever });
        }
    }
    s
}
