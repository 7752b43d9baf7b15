//! Generation of arguments and operations from the simulator's PRNG.
use crate::scen::*;
use inst::mc::{self, Par};
use inst::ops;
use seam::rng::*;
use seam::Prng;

fn log_uniform(r: &mut Prng, lo: f64, hi: f64) -> f64 {
    (lo.ln() + (hi.ln() - lo.ln()) * r.f64()).exp()
}
pub const ODD: [f64; 9] = [0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, -1.0, 1e-300, 1e300, 5e-324];

/// Arguments for the parameters named `params` of the function `name`.
pub fn args(name: &str, params: &[&str], r: &mut Prng, odd: bool) -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0; params.len()];
    let n = if r.chance(0.8) { 3 + r.below(22) } else { 2 + r.below(254) } as f64;
    let l = log_uniform(r, 0.2, 5.0);
    for (i, p) in params.iter().enumerate() {
        v[i] = match *p {
            "number_of_links" => n,
            "link_length" => l,
            "hinge_mass" => log_uniform(r, 0.2, 5.0),
            "temperature" => 250.0 + 150.0 * r.f64(),
            "force" => log_uniform(r, 0.02, 200.0),
            "nondimensional_force" => log_uniform(r, 0.01, 60.0),
            "end_to_end_length" => r.f64() * 0.98 * n * if params.contains(&"link_length") { l } else { 1.0 },
            "nondimensional_end_to_end_length_per_link" => if r.chance(0.9) { 0.01 + 0.97 * r.f64() } else { 1.3 * r.f64() },
            "link_stiffness" => log_uniform(r, 1e3, 1e6),
            "nondimensional_link_stiffness" => log_uniform(r, 20.0, 1e4),
            "link_energy" => log_uniform(r, 1e3, 1e6),
            "nondimensional_link_energy" => log_uniform(r, 10.0, 500.0),
            "well_width" => log_uniform(r, 0.05, 1.5),
            "potential_stiffness" => log_uniform(r, 1.0, 1e3),
            "potential_distance" => log_uniform(r, 0.1, 30.0),
            "nondimensional_potential_stiffness" => log_uniform(r, 1.0, 1e3),
            "nondimensional_potential_distance" => log_uniform(r, 0.02, 2.0),
            "persistance_length" => log_uniform(r, 0.2, 10.0),
            "nondimensional_persistance_length" => log_uniform(r, 0.05, 2.0),
            "normalization_nondimensional_equilibrium_distribution" => log_uniform(r, 0.1, 10.0),
            "nu" => r.below(3) as f64,
            "y" => if r.chance(0.8) { r.f64() * 0.995 } else { 1.0 - log_uniform(r, 1e-9, 0.1) },
            "z" => r.f64() * 101.0,
            _ => {
                let wide = r.chance(0.25);
                if name.contains("erf") { if wide { log_uniform(r, 1e-9, 1e9) * if r.chance(0.4) { -1.0 } else { 1.0 } } else { 14.0 * r.f64() - 7.0 } }
                else if wide { log_uniform(r, 1e-12, 1e250) }
                else if name.contains("lambert") { log_uniform(r, 1e-3, 1e6) }
                else { log_uniform(r, 1e-2, 700.0) }
            }
        };
    }
    if odd && !v.is_empty() {
        let i = r.below(v.len() as u64) as usize;
        v[i] = if params[i] == "number_of_links" || params[i] == "nu" { *r.pick(&[2.0, 1.0, 254.0, 255.0]) } else { *r.pick(&ODD) };
        if params[i] == "number_of_links" && v[i] == 1.0 {
            v[i] = 3.0;
        }
    }
    v
}
/// Two of the arguments change so that their product or quotient stays what it was.
fn scaled(params: &[&str], a: &[f64], r: &mut Prng) -> Vec<f64> {
    let mut v = a.to_vec();
    let i = r.below(v.len() as u64) as usize;
    let k = r.below(v.len() as u64) as usize;
    let up = *r.pick(&[2.0, 0.5]);
    let other = if r.chance(0.6) { 1.0 / up } else { up };
    if i == k {
        return v;
    }
    for (j, f) in [(i, up), (k, other)] {
        let w = v[j] * f;
        if params[j] == "nu" || params[j] == "number_of_links" && (w < 2.0 || w > 255.0 || w.fract() != 0.0) {
            continue;
        }
        v[j] = w;
    }
    v
}
/// A neighbour of the arguments: one of them slightly or wholly different.
pub fn vary(name: &str, params: &[&str], a: &[f64], r: &mut Prng) -> Vec<f64> {
    let mut v = a.to_vec();
    if v.is_empty() {
        return v;
    }
    let i = r.below(v.len() as u64) as usize;
    let int = params[i] == "number_of_links" || params[i] == "nu";
    if v.len() > 1 && r.chance(0.15) {
        return scaled(params, a, r);
    }
    match r.below(5) {
        0 if !int => v[i] = f64::from_bits(v[i].to_bits().wrapping_add(1 + r.below(3))),
        1 if !int => v[i] *= 1.0 + *r.pick(&[1e-12, 1e-9, 1e-6, 1e-3, -1e-3]),
        2 if int => v[i] = (v[i] + 1.0).min(255.0),
        3 if v.len() > 1 => {
            let f = args(name, params, r, false);
            let k = r.below(v.len() as u64) as usize;
            v[k] = f[k];
            v[i] = f[i];
        }
        _ => v[i] = args(name, params, r, false)[i],
    }
    v
}

pub fn module(name: &str) -> &str {
    name.rsplit_once("::").map_or("", |x| x.0)
}
pub fn leaf(name: &str) -> &str {
    name.rsplit_once("::").map_or(name, |x| x.1)
}
pub fn is_math(id: usize) -> bool {
    ops::FNS[id].name.starts_with("math::")
}

// Monte Carlo.
pub fn theta(r: &mut Prng) -> f64 {
    use std::f64::consts::PI;
    match r.below(12) {
        0 => 0.0,
        1 => PI / 2.0,
        2 => 1e-8,
        3 => 3.1,
        4 => PI - 1e-6,
        5 => PI / 3.0,
        6 => 2.0 * PI / 3.0,
        7 => if r.chance(0.3) { 1e-3 } else { let e = log_uniform(r, 1e-9, 0.1); if r.chance(0.5) { e } else { PI - e } },
        _ => 3.1 * r.f64(),
    }
}
pub fn par(r: &mut Prng, model: u8) -> Par {
    let k = if r.chance(0.8) { log_uniform(r, 10.0, 1e4) } else { log_uniform(r, 0.5, 1e10) };
    let sd = match r.below(6) { 0 | 1 => 0.0, 2 => log_uniform(r, 1e-9, 1e-3), _ => log_uniform(r, 1e-3, 0.3) };
    let _ = model;
    let (mean, sd) = match r.below(20) {
        0..=11 => (1.0, sd),
        12..=18 => (log_uniform(r, 0.3, 3.0), sd),
        // many lengths come out negative
        _ => (if r.chance(0.3) { 0.0 } else { 0.3 * r.f64() }, 0.05 + r.f64()),
    };
    Par { theta: theta(r), mean, sd, gmax: 1.0 + 8.0 / k.sqrt(), kappa: k }
}
pub fn size(r: &mut Prng, max: usize) -> usize {
    let v: Vec<usize> = mc::NS.iter().copied().filter(|n| *n <= max).collect();
    if r.chance(0.6) { v[r.below(v.len().min(12) as u64) as usize] } else { *r.pick(&v) }
}
pub fn faults(r: &mut Prng, per_link: u64, links: u64, panics: bool) -> Vec<Fault> {
    let total = per_link * links;
    let n = 1 + r.below(3);
    (0..n)
        .map(|_| {
            let kinds: &[u8] = if panics { &[PANIC] } else { &[ZERO, MAX, CONST, STUCK, NEAR, ALT, TAIL] };
            let kind = *r.pick(kinds);
            let len = match r.below(8) {
                0 | 1 => 1,
                2 => 2,
                3 => 3,
                4 => 4,
                5 => per_link,
                6 => 1 + r.below(3 * per_link),
                _ => 1 + r.below(total.min(400)),
            };
            let val = match r.below(6) {
                // values that are special for the conversions to floating point, and near them
                0 => 1u64 << (r.below(64)),
                1 => !(1u64 << (r.below(64))),
                2 => [0x3FFF_FFFF_FFFF_FFFF, 0x4000_0000_0000_0000, 0x8000_0000_0000_0000, 0x7FFF_FFFF_FFFF_FFFF, 0xC000_0000_0000_0000, 0xFFF, 0x7FF, 0x800][r.below(8) as usize],
                3 => r.below(256),
                4 => u64::MAX - r.below(1 << 13),
                _ => r.next(),
            };
            Fault { at: r.below(total.max(1)), kind, len, val }
        })
        .collect()
}
pub fn mc_op(r: &mut Prng, max_n: usize, budget: u64, st: Option<StreamSpec>) -> Op {
    let model = r.below(4) as u8;
    let p = par(r, model);
    match r.below(3) {
        0 => Op::Cfg { model, n: size(r, max_n), p, st },
        1 => {
            let n = size(r, max_n);
            Op::Lens { model, n, p, count: 1 + r.below((budget / n as u64).clamp(1, 12)), st }
        }
        _ => {
            let (b, n) = hist_size(r, max_n);
            Op::Hist { model, b, n, p, samples: 1 + r.below((budget / n as u64).clamp(1, 40)), st }
        }
    }
}
pub fn hist_size(r: &mut Prng, max_n: usize) -> (usize, usize) {
    let v: Vec<(usize, usize)> = mc::HS.iter().copied().filter(|x| x.1 <= max_n).collect();
    *r.pick(&v)
}

// Constitutive models.
pub fn damage_inst(r: &mut Prng, method: u8) -> Inst {
    let sw = if r.chance(0.5) { 1.0 } else { 1.0 + 2.0 * r.f64() };
    let (ce, k) = if r.chance(0.4) { (0.3 + 0.65 * r.f64(), log_uniform(r, 30.0, 1000.0)) } else {
        let ce = 0.95 + 0.6 * r.f64();
        (ce, log_uniform(r, 30.0, 400.0f64.min(100.0 / (ce - 0.9))))
    };
    // round numbers too, which put points of the grid at an extension of exactly one
    let (ce, k) = if r.chance(0.3) { (*r.pick(&[0.5, 0.8, 0.9, 0.96, 1.0, 1.25, 1.28]), *r.pick(&[50.0, 88.0, 100.0, 200.0])) } else { (ce, k) };
    Inst::Dmg(method, ce, k, 3 + r.below(25) as u8, sw)
}
/// A loading history: stretches of at least one.
pub fn path(r: &mut Prng, max: usize, min: usize) -> Vec<f64> {
    let ls: Vec<usize> = crate::exec::PATHS.iter().copied().filter(|l| *l <= max && *l >= min).collect();
    let l = *r.pick(&ls);
    let top = 1.0 + if r.chance(0.85) { log_uniform(r, 0.05, 6.0) } else { log_uniform(r, 6.0, 1e3) };
    let mut v = vec![];
    let style = r.below(7);
    let mut m: f64 = 1.0;
    for i in 0..l {
        let x = match style {
            // cycles of growing, falling or constant amplitude, with unloading and reloading
            0 => 1.0 + (top - 1.0) * ((i as f64) * 1.1).sin().abs() * (i + 1) as f64 / l as f64,
            1 => 1.0 + (top - 1.0) * ((i as f64) * 0.9).sin().abs() * (l - i) as f64 / l as f64,
            2 => 1.0 + (top - 1.0) * r.f64(),
            // plateaus and tiny increments around the maximum
            3 => match r.below(5) { 0 => m, 1 => m + 1e-12, 2 => m + 1e-6, 3 => m + 0.05 * r.f64(), _ => 1.0 + (m - 1.0) * r.f64() },
            4 => if i % 2 == 0 { 1.0 + (top - 1.0) * (i + 1) as f64 / l as f64 } else { 1.0 },
            5 => if i == 0 { top } else { 1.0 + (top - 1.0) * (i as f64 / l as f64) },
            _ => if i < l / 2 { 1.0 + (top - 1.0) * (i + 1) as f64 / (l as f64 / 2.0) } else { 1.0 + (top - 1.0) * (l - i) as f64 / l as f64 },
        };
        m = m.max(x);
        v.push(x);
    }
    v
}

pub fn cb(r: &mut Prng, faulty: bool) -> Cb {
    let what = r.below(8) as u8;
    let fun = r.below(6) as u8;
    let a = log_uniform(r, 0.1, 3.0);
    let b = log_uniform(r, 0.1, 3.0);
    let mut c = Cb { what, fun, a, b, args: vec![], grid: vec![], grid2: vec![], faults: vec![] };
    let mut calls = 10;
    match what {
        0 | 1 => {
            let y = if r.chance(0.1) { 0.0 } else { 6.0 * r.f64() - 2.0 };
            let budget = *r.pick(&[0.0, 1.0, 2.0, 3.0, 10.0, 50.0, 100.0, 254.0, 255.0]);
            let tol = *r.pick(&[0.0, 1e-12, 1e-8, 1e-6, 1e-3, 0.1, -1.0, 0.99, 2.0, f64::NAN]);
            let tol = if r.chance(0.7) { 1e-6 } else { tol };
            c.args = vec![y, 4.0 * r.f64() - 1.0, tol, budget, (1 + r.below(4)) as f64];
            calls = 12;
        }
        2 | 4 | 5 => {
            let n = if what == 2 { if r.chance(0.01) { *r.pick(&[16_384u64, 20_000, 32_769, 65_536, 65_537, 70_001]) } else { *r.pick(&[0u64, 1, 2, 3, 7, 10, 64, 100, 101, 333, 1000, 1025, 4999]) } } else { if r.chance(0.02) { *r.pick(&[255u64, 256, 257, 300]) } else { *r.pick(&[0u64, 1, 2, 3, 5, 8, 17, 32, 33, 60, 64, 65, 97, 129]) } };
            let lo = 4.0 * r.f64() - 2.0;
            let hi = lo + 3.0 * r.f64() * if r.chance(0.1) { -1.0 } else { 1.0 };
            let lo2 = 4.0 * r.f64() - 2.0;
            c.args = vec![lo, hi, n as f64, lo2, lo2 + 2.0 * r.f64()];
            calls = if what == 2 { n } else { n * n };
        }
        _ => {
            let n = 1 + r.below(60);
            c.grid = (0..n).map(|i| i as f64 * 0.1 + 0.05 * r.f64()).collect();
            let m = 1 + r.below(60);
            c.grid2 = (0..m).map(|i| i as f64 * 0.1 + 0.05 * r.f64() - 1.0).collect();
            c.args = vec![log_uniform(r, 1e-3, 1.0)];
            calls = match what { 3 => n, 6 => n * m, _ => n * n };
        }
    }
    if faulty {
        for _ in 0..1 + r.below(3) {
            let kind = r.below(8) as u8;
            let len = match r.below(5) { 0 | 1 => 1, 2 => 2, 3 => 1 + r.below(10), _ => u64::MAX };
            let val = *r.pick(&[0.0, 1.0, -1.0, 1e300, -1e300, 1e-300, 1e-3, 0.5]);
            let which = if what < 2 { r.below(2) as u8 } else { 0 };
            let at = if r.chance(0.5) { r.below(calls.max(1)) } else { r.below(4) };
            c.faults.push(CbFault { which, at, len, kind, val });
        }
    }
    c
}

// Worlds: one value for every parameter name, so that different functions are
// called with the same arguments, and with arguments that differ in one.
pub const NAMES: [&str; 21] = ["number_of_links", "link_length", "hinge_mass", "temperature", "force", "nondimensional_force", "end_to_end_length", "nondimensional_end_to_end_length_per_link", "link_stiffness", "nondimensional_link_stiffness", "link_energy", "nondimensional_link_energy", "well_width", "potential_stiffness", "potential_distance", "nondimensional_potential_stiffness", "nondimensional_potential_distance", "persistance_length", "nondimensional_persistance_length", "normalization_nondimensional_equilibrium_distribution", "nu"];
#[derive(Clone)]
pub struct World(pub Vec<f64>, pub u64);
pub fn world(r: &mut Prng) -> World {
    World(args("", &NAMES, r, false), r.next())
}
impl World {
    pub fn vary(&self, r: &mut Prng, relevant: &[&str]) -> World {
        let mut w = self.clone();
        let used: Vec<usize> = (0..NAMES.len()).filter(|i| relevant.contains(&NAMES[*i])).collect();
        if used.len() > 1 && r.chance(0.15) {
            // the product or the quotient of two parameters stays what it was
            let ps: Vec<&str> = used.iter().map(|i| NAMES[*i]).collect();
            let vs: Vec<f64> = used.iter().map(|i| w.0[*i]).collect();
            let v = scaled(&ps, &vs, r);
            for (i, v) in used.iter().zip(v) {
                w.0[*i] = v;
            }
            return w;
        }
        let Some(i) = (if used.is_empty() { None } else { Some(*r.pick(&used)) }) else {
            w.1 = r.next();
            return w;
        };
        let v = vary("", &[NAMES[i]], &[w.0[i]], r);
        w.0[i] = v[0];
        if r.chance(0.2) {
            let j = *r.pick(&used);
            w.0[j] = args("", &NAMES, r, false)[j];
        }
        w
    }
    pub fn odd(&self, r: &mut Prng, relevant: &[&str]) -> World {
        let mut w = self.clone();
        let used: Vec<usize> = (0..NAMES.len()).filter(|i| relevant.contains(&NAMES[*i])).collect();
        if let false = used.is_empty() {
            let i = *r.pick(&used);
            w.0[i] = if NAMES[i] == "number_of_links" { *r.pick(&[2.0, 3.0, 254.0, 255.0]) } else if NAMES[i] == "nu" { r.below(3) as f64 } else { *r.pick(&ODD) };
        }
        w
    }
    /// The arguments of one function in this world.
    pub fn of(&self, name: &str, params: &[&str]) -> Vec<f64> {
        let mut r = Prng::new(self.1);
        let own = args(name, params, &mut r, false);
        params.iter().zip(own).map(|(p, o)| NAMES.iter().position(|n| n == p).map_or(o, |i| self.0[i])).collect()
    }
}
