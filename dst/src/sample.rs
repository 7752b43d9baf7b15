//! Statistical oracles: long simulated runs with a healthy generator, judged
//! against the model's distributions. A deviation counts only when a second,
//! fresh and larger run confirms it.
use crate::exec::*;
use crate::judge::*;
use crate::stats::*;
use inst::mc::{self, Par, EFJC, EFRC, FJC, FRC};
use rand::rngs::ThreadRng;
use std::f64::consts::PI;

/// Parameters of a statistical case, in `Case::p`.
#[derive(Clone, Debug)]
pub struct Sp {
    pub what: u8, // 0: configurations, 1: second moment of histograms, 2: single extensible link, 3: closed form
    pub model: u8,
    pub n: usize,
    pub calls: u64,
    pub warm: u64,
    pub par: Par,
    pub b: usize,
    pub seed: u64,
}
impl Sp {
    pub fn to(&self) -> Vec<f64> {
        let p = &self.par;
        vec![self.what as f64, self.model as f64, self.n as f64, self.calls as f64, self.warm as f64, p.theta, p.mean, p.sd, p.gmax, p.kappa, self.b as f64, self.seed as f64]
    }
    pub fn from(p: &[f64]) -> Sp {
        Sp { what: p[0] as u8, model: p[1] as u8, n: p[2] as usize, calls: p[3] as u64, warm: p[4] as u64, par: Par { theta: p[5], mean: p[6], sd: p[7], gmax: p[8], kappa: p[9] }, b: p[10] as usize, seed: p[11] as u64 }
    }
}

pub fn stat(ctx: &mut Ctx, c: &Case) -> Verdict {
    let s = Sp::from(&c.p);
    let mut suspects: Vec<String> = vec![];
    for stage in 0..2u64 {
        let mut q = s.clone();
        q.seed = seam::mix(s.seed ^ stage << 60);
        q.calls <<= 2 * stage;
        let (end, words, draws) = computed(q.seed, 900, |v| {
            for (name, p) in tests(&q) {
                v.push(p.to_bits());
                v.push(name.len() as u64);
                v.extend(name.bytes().map(|b| b as u64));
            }
        });
        match end {
            End::Ok => {}
            End::Exit(72) => return Ok(Some(Viol { class: "panic".into(), detail: format!("a call with a healthy generator panicked: {q:?}") })),
            End::Exit(n) => return Err(format!("statistics: exit {n}")),
            End::Signal(n) if n == 27 || n == 14 => return Ok(Some(Viol { class: "hang".into(), detail: format!("a call did not return: {q:?}") })),
            e => return Ok(Some(Viol { class: "crash".into(), detail: format!("{e:?}: {q:?}") })),
        }
        ctx.st.add("runs", 1);
        ctx.st.add("draws", draws);
        ctx.st.add("calls", q.calls + q.warm);
        ctx.st.add("links_sampled", (q.calls + q.warm) * q.n as u64);
        let mut res: Vec<(String, f64)> = vec![];
        let mut i = 0;
        while i < words.len() {
            let p = f64::from_bits(words[i]);
            let k = words[i + 1] as usize;
            res.push((words[i + 2..i + 2 + k].iter().map(|b| *b as u8 as char).collect(), p));
            i += 2 + k;
        }
        ctx.st.add("statistical_tests", res.len() as u64);
        for (_, p) in &res {
            ctx.digest = seam::mix(ctx.digest ^ p.to_bits());
            ctx.st.sigs.insert(ctx.digest);
        }
        let lim = if stage == 0 { 1e-6 } else { 1e-8 };
        let bad: Vec<(String, f64)> = res.into_iter().filter(|(n, p)| !(*p >= lim) && (stage == 0 || suspects.contains(n))).collect();
        if std::env::var("DST_DEBUG").is_ok() && !bad.is_empty() {
            eprintln!("stage {stage} {q:?} {bad:?}");
        }
        if stage == 0 {
            if bad.is_empty() {
                return Ok(None);
            }
            ctx.st.add("second_stages", 1);
            suspects = bad.into_iter().map(|x| x.0).collect();
        } else if let Some((n, p)) = bad.first() {
            let class = n.split(' ').next().unwrap().to_string();
            return Ok(Some(Viol { class, detail: format!("{n}: p = {p:.1e} over {} calls ({} links, {})", q.calls, q.n, mc::MODELS[q.model as usize]) }));
        }
    }
    Ok(None)
}

const K: usize = 64;
const J: usize = 8;
fn cell(x: f64, k: usize) -> usize {
    ((x * k as f64) as usize).min(k - 1)
}
fn tests(s: &Sp) -> Vec<(String, f64)> {
    match s.what {
        0 => configurations(s),
        1 => moments(s),
        2 => single(s),
        _ => closed_form(s),
    }
}
fn warm(s: &Sp) {
    let mut r = rand::rng();
    for _ in 0..s.warm {
        mc::len(s.model, s.n, &s.par, &mut r);
    }
}
/// Mean squared length for unit links at cosine `c` with variance `v` of the lengths.
fn msq(n: usize, c: f64, mean: f64, v: f64) -> f64 {
    let mut s = n as f64 * (mean * mean + v);
    let mut ck = 1.0;
    for k in 1..n {
        ck *= c;
        s += 2.0 * (n - k) as f64 * ck * mean * mean;
    }
    s
}

struct Joint {
    name: &'static str,
    a: usize,
    b: usize,
    lag: usize,
    t: Vec<u64>,
}
fn configurations(s: &Sp) -> Vec<(String, f64)> {
    warm(s);
    let n = s.n;
    let free = s.model == FJC || s.model == EFJC;
    let ext = s.model >= EFJC;
    let torsion = !free && s.par.theta.sin() > 0.05;
    // channels: FJC: height, azimuth, dot with predecessor, dihedral; FRC: torsion; extensible: length
    let names = ["height", "azimuth", "dot", "dihedral", "torsion", "length"];
    let nc = 6;
    let on = |c: usize| match c { 0..=3 => free, 4 => torsion, _ => ext && s.par.sd > 0.0 };
    let mut pooled = vec![vec![0u64; K]; nc];
    let mut pos = vec![vec![vec![0u64; K]; 4]; nc];
    let mut each = vec![vec![[0u32; J]; n]; nc];
    const ENDS: [f64; 3] = [1e-2, 1e-3, 6e-5];
    let mut ends = vec![[[0u64; 2]; 3]; nc];
    let mut joints: Vec<Joint> = vec![];
    let main: Vec<usize> = [0, 1, 4, 5].into_iter().filter(|c| on(*c)).collect();
    let mut lags = vec![1, 2, 3, 4, 8, n / 2, n.saturating_sub(1)];
    // and others, which differ from unit to unit
    // (the same for the fresh run that confirms)
    let mut pick = seam::Prng::new(s.b as u64);
    for k in 0..3 {
        lags.push(1 + pick.below(if k == 0 { n as u64 } else { n.min(70) as u64 }) as usize);
    }
    lags.retain(|l| *l >= 1 && *l < n);
    lags.sort();
    lags.dedup();
    for &a in &main {
        for &b in &main {
            for &l in &lags {
                if a == b || l <= 2 {
                    joints.push(Joint { name: "within", a, b, lag: l, t: vec![0; J * J] });
                }
            }
            if a < b {
                joints.push(Joint { name: "same-link", a, b, lag: 0, t: vec![0; J * J] });
            }
            joints.push(Joint { name: "last-call", a, b, lag: 0, t: vec![0; J * J] });
            if a == b {
                joints.push(Joint { name: "call-before-last", a, b, lag: 0, t: vec![0; J * J] });
                joints.push(Joint { name: "last-link-to-first", a, b, lag: 0, t: vec![0; J * J] });
            }
        }
    }
    if free {
        joints.push(Joint { name: "within", a: 2, b: 2, lag: 1, t: vec![0; J * J] });
        joints.push(Joint { name: "within", a: 3, b: 3, lag: 1, t: vec![0; J * J] });
        joints.push(Joint { name: "dot-call", a: 0, b: 0, lag: 0, t: vec![0; K] });
    }
    // the parity of the halves in which three to five values fall
    let mut odd: Vec<(Vec<(usize, usize, usize)>, u64, u64)> = vec![];
    for k in 0..if main.is_empty() { 0 } else { 48 } {
        let size = *pick.pick(&[3, 3, 3, 4, 4, 5]);
        let reach = *pick.pick(&[2u64, 3, 3, 6, 14, 40]).min(&(n as u64));
        let across = k % 6 == 5;
        let mut v: Vec<(usize, usize, usize)> = vec![];
        let one = if pick.chance(0.5) { Some(*pick.pick(&main)) } else { None };
        for _ in 0..size {
            v.push((one.unwrap_or(*pick.pick(&main)), if v.is_empty() { 0 } else { pick.below(reach) as usize }, if across && !v.is_empty() { pick.below(3) as usize } else { 0 }));
        }
        v.sort();
        v.dedup();
        if v.len() > 2 {
            odd.push((v, 0, 0));
        }
    }
    odd.sort();
    odd.dedup();
    let mut dots: Vec<Vec<u64>> = vec![vec![0; K]; lags.len()];
    let mut coin: Vec<Vec<u64>> = vec![vec![]; nc];
    let (mean, sd) = (if ext { s.par.mean } else { 1.0 }, if ext { s.par.sd } else { 0.0 });
    let want = msq(n, if free { 0.0 } else { s.par.theta.cos() }, mean, sd * sd);
    let (mut r1, mut r2, mut rc) = (0.0f64, 0.0f64, 0.0f64);
    let mut rv = [0.0f64; 3];
    let mut prev_r = [0.0f64; 3];
    let mut x: Vec<f64> = vec![];
    let mut rng: ThreadRng = rand::rng();
    let blank = || vec![vec![f64::NAN; n]; nc];
    let (mut ch, mut p1, mut p2) = (blank(), blank(), blank());
    let mut pu: Vec<[f64; 3]> = vec![];
    let keep = 200_000u64;
    let mut len = vec![0.0; n];
    for call in 0..s.calls {
        x.clear();
        mc::cfg(s.model, n, &s.par, &mut rng, &mut x);
        std::mem::swap(&mut p2, &mut p1);
        std::mem::swap(&mut p1, &mut ch);
        let l = links(&x);
        let mut u: Vec<[f64; 3]> = Vec::with_capacity(n);
        for i in 0..n {
            let d = dot(&l[i], &l[i]).sqrt();
            u.push([l[i][0] / d, l[i][1] / d, l[i][2] / d]);
            len[i] = d;
            if on(5) {
                ch[5][i] = normal_cdf((d - s.par.mean) / s.par.sd);
            }
        }
        if free {
            for i in 0..n {
                ch[0][i] = (u[i][2] + 1.0) / 2.0;
                ch[1][i] = (u[i][1].atan2(u[i][0]) / (2.0 * PI)).rem_euclid(1.0);
                ch[2][i] = if i > 0 { (dot(&u[i], &u[i - 1]) + 1.0) / 2.0 } else { f64::NAN };
                ch[3][i] = if i > 1 { dihedral(&u[i - 2], &u[i - 1], &u[i]) } else { f64::NAN };
            }
            for (k, lag) in lags.iter().enumerate() {
                for i in *lag..n {
                    dots[k][cell((dot(&u[i], &u[i - lag]) + 1.0) / 2.0, K)] += 1;
                }
            }
        }
        if torsion {
            for i in 0..n {
                ch[4][i] = match i {
                    0 => (u[0][2].atan2(u[0][1]) / (2.0 * PI)).rem_euclid(1.0),
                    1 => dihedral(&[1.0, 0.0, 0.0], &u[0], &u[1]),
                    _ => dihedral(&u[i - 2], &u[i - 1], &u[i]),
                };
            }
        }
        for c in 0..nc {
            if !on(c) {
                continue;
            }
            for i in 0..n {
                if !ch[c][i].is_nan() {
                    pooled[c][cell(ch[c][i], K)] += 1;
                    each[c][i][cell(ch[c][i], J)] += 1;
                    let (x, y) = (ch[c][i], if c == 5 { normal_cdf((s.par.mean - len[i]) / s.par.sd) } else { 1.0 - ch[c][i] });
                    if x < ENDS[0] || y < ENDS[0] {
                        for (k, e) in ENDS.iter().enumerate() {
                            ends[c][k][0] += (x < *e) as u64;
                            ends[c][k][1] += (y < *e) as u64;
                        }
                    }
                }
            }
            for (k, i) in [0, 1, n / 2, n - 1].into_iter().enumerate() {
                if i < n && !ch[c][i].is_nan() {
                    pos[c][k][cell(ch[c][i], K)] += 1;
                }
            }
            if (c < 2 || c == 4 || c == 5 && s.par.sd >= 0.003 * s.par.mean) && ((call * n as u64) < keep / 2 || (s.calls - call) * (n as u64) <= keep / 2) {
                coin[c].extend(ch[c].iter().map(|v| (v.min(1.0 - v) * (1u64 << 35) as f64) as u64));
            }
        }
        for j in &mut joints {
            let mut put = |a: f64, b: f64, t: &mut Vec<u64>| {
                if !a.is_nan() && !b.is_nan() {
                    t[cell(a, J) * J + cell(b, J)] += 1;
                }
            };
            match j.name {
                "within" => for i in j.lag..n { put(ch[j.a][i - j.lag], ch[j.b][i], &mut j.t) },
                "same-link" => for i in 0..n { put(ch[j.a][i], ch[j.b][i], &mut j.t) },
                "last-call" => for i in 0..n { put(p1[j.a][i], ch[j.b][i], &mut j.t) },
                "call-before-last" => for i in 0..n { put(p2[j.a][i], ch[j.b][i], &mut j.t) },
                "last-link-to-first" => put(p1[j.a][n - 1], ch[j.b][0], &mut j.t),
                _ => if !pu.is_empty() { for i in 0..n { j.t[cell((dot(&pu[i], &u[i]) + 1.0) / 2.0, K)] += 1 } },
            }
        }
        if call > 1 {
            for (set, even, all) in &mut odd {
                let far = set.iter().map(|s| s.1).max().unwrap();
                for i in far..n {
                    let mut bit = false;
                    for (c, lag, ago) in set.iter() {
                        let v = [&ch, &p1, &p2][*ago][*c][i - lag];
                        bit ^= v < 0.5;
                    }
                    *even += !bit as u64;
                    *all += 1;
                }
            }
        }
        let e = [x[3 * n - 3], x[3 * n - 2], x[3 * n - 1]];
        let q = dot(&e, &e);
        r1 += q - want;
        r2 += (q - want) * (q - want);
        rc += dot(&e, &prev_r);
        for k in 0..3 {
            rv[k] += e[k];
        }
        prev_r = e;
        pu = u;
    }
    let mut out: Vec<(String, f64)> = vec![];
    for c in 0..nc {
        if !on(c) {
            continue;
        }
        out.push((format!("{} pooled", names[c]), chi2_uniform(&pooled[c])));
        for k in 0..4 {
            if pos[c][k].iter().sum::<u64>() > 0 {
                out.push((format!("{} at link {k}", names[c]), chi2_uniform(&pos[c][k])));
            }
        }
        // every link, and stretches of links
        let mut sum = vec![[0u64; J]; 14];
        for i in 0..n {
            let t: Vec<u64> = each[c][i].iter().map(|x| *x as u64).collect();
            for (k, x) in t.iter().enumerate() {
                sum[(i + 1).ilog2() as usize][k] += x;
            }
            if t.iter().sum::<u64>() > 0 {
                out.push((format!("{} at each link {i}", names[c]), chi2_uniform(&t)));
            }
        }
        for (k, t) in sum.iter().enumerate() {
            if t.iter().sum::<u64>() > 0 {
                out.push((format!("{} beyond link {}", names[c], 1 << k), chi2_uniform(t)));
            }
        }
        // the ends of the distribution
        let all = pooled[c].iter().sum::<u64>() as f64;
        for (k, e) in ENDS.iter().enumerate() {
            for side in 0..2 {
                out.push((format!("{} {} beyond {e}", names[c], ["lower end", "upper end"][side]), poisson_two(ends[c][k][side], all * e)));
            }
        }
        // repeated values
        for (part, half) in [("early", 0usize), ("late", 1)] {
            let v = &coin[c];
            let h = v.len().min((keep / 2) as usize);
            if half == 1 && v.len() <= h {
                continue;
            }
            let mut w: Vec<u64> = if half == 0 { v[..h].to_vec() } else { v[v.len() - h..].to_vec() };
            w.sort();
            let rep = w.windows(2).filter(|p| p[0] == p[1]).count() as u64;
            let lambda = h as f64 * h as f64 / 2.0 / (1u64 << 34) as f64;
            if h > 0 {
                out.push((format!("repeated {} {part}", names[c]), poisson_p(rep, lambda)));
            }
        }
    }
    for (k, t) in dots.iter().enumerate() {
        if free {
            out.push((format!("correlated dot lag {}", lags[k]), chi2_uniform(t)));
        }
    }
    for j in &joints {
        let p = if j.name == "dot-call" { chi2_uniform(&j.t) } else { independence(&j.t, J) };
        out.push((format!("correlated {} {}/{} lag {}", j.name, names[j.a], names[j.b], j.lag), p));
    }
    for (set, even, all) in &odd {
        if *all > 1000 {
            let text: Vec<String> = set.iter().map(|(c, lag, ago)| format!("{}-{lag}-{ago}", names[*c])).collect();
            out.push((format!("parity of {}", text.join("/")), normal_p((*even as f64 - *all as f64 / 2.0) / (*all as f64 / 4.0).sqrt())));
        }
    }
    let cn = s.calls as f64;
    let m = r1 / cn;
    let var = if s.model == FJC { 2.0 * (n * (n - 1)) as f64 / 3.0 } else { r2 / cn - m * m };
    if m.abs() > 1e-9 * want {
        out.push(("mean-square end-to-end length".into(), normal_p(m / (var.max(1e-18 * want * want) / cn).sqrt())));
    }
    if free {
        let v1 = n as f64 * (mean * mean + sd * sd) / 3.0;
        for k in 0..3 {
            out.push((format!("mean end-to-end vector {k}"), normal_p(rv[k] / (v1 * cn).sqrt())));
        }
        out.push(("correlated end-to-end vectors".into(), normal_p(rc / (3.0 * v1 * v1 * cn).sqrt())));
    }
    // the length sampler, on its own
    let (mut l1, mut l2, mut lp, mut lc) = (0.0f64, 0.0f64, f64::NAN, 0.0f64);
    for _ in 0..s.calls {
        let v = mc::len(s.model, n, &s.par, &mut rng);
        let q = v * v;
        l1 += q - want;
        l2 += (q - want) * (q - want);
        if !lp.is_nan() {
            lc += (q - want) * (lp - want);
        }
        lp = q;
    }
    let m = l1 / cn;
    let var = (l2 / cn - m * m).max(0.0);
    if m.abs() > 1e-9 * want {
        out.push(("mean-square sampled length".into(), normal_p(m / (var.max(1e-18 * want * want) / cn).sqrt())));
    }
    if var > 1e-9 * want * want {
        out.push(("correlated lengths".into(), normal_p(lc / (var * (cn - 1.0).sqrt()))));
    }
    out
}
/// Azimuth of `c` about `b`, measured from `a`, in turns.
fn dihedral(a: &[f64; 3], b: &[f64; 3], c: &[f64; 3]) -> f64 {
    let n1 = mc::cross(a, b);
    let n2 = mc::cross(b, c);
    let m = mc::cross(&n1, b);
    (dot(&m, &n2).atan2(dot(&n1, &n2)) / (2.0 * PI)).rem_euclid(1.0)
}

/// Second moment of a sampled radial distribution.
fn moments(s: &Sp) -> Vec<(String, f64)> {
    warm(s);
    let (c, q) = mc::hist(s.model, s.b, s.n, &s.par, s.calls as usize);
    let w = 2.0 * c[0];
    let g2 = |x: f64| x * x + w * w / 12.0;
    let m: f64 = c.iter().zip(&q).map(|(c, q)| g2(*c) * q * w).sum();
    let m2: f64 = c.iter().zip(&q).map(|(c, q)| g2(*c).powi(2) * q * w).sum();
    let ext = s.model >= EFJC;
    let cos = if s.model == FJC || s.model == EFJC { 0.0 } else { s.par.theta.cos() };
    let want = msq(s.n, cos, 1.0, if ext { 1.0 / s.par.kappa } else { 0.0 }) / (s.n * s.n) as f64;
    let se = ((m2 - m * m).max(0.0) / s.calls as f64).sqrt();
    // the density varies over a bin: allow for the error of Sheppard's correction,
    // and for any distribution within the bins where the density is not smooth
    let m1: f64 = c.iter().zip(&q).map(|(c, q)| c * q * w).sum();
    let smooth = s.n >= 8 && m - m1 * m1 > 9.0 * w * w;
    let slack = if smooth { w * w / 6.0 } else { w * m.sqrt() + w * w };
    let d = ((m - want).abs() - slack).max(0.0);
    let total: f64 = q.iter().map(|q| q * w).sum();
    vec![("mean-square radial distribution".into(), if d == 0.0 { 1.0 } else { normal_p(d / se.max(1e-12)) }), ("normalization radial distribution".into(), if (total - 1.0).abs() < 1e-6 { 1.0 } else { 0.0 })]
}
/// One extensible link: its length distribution is known in closed form.
fn single(s: &Sp) -> Vec<(String, f64)> {
    let (c, q) = mc::hist(s.model, s.b, 1, &s.par, s.calls as usize);
    let w = 2.0 * c[0];
    let sd = 1.0 / s.par.kappa.sqrt();
    let f = |x: f64| normal_cdf((x - 1.0) / sd) - normal_cdf((-x - 1.0) / sd);
    let counts: Vec<u64> = q.iter().map(|q| (q * w * s.calls as f64).round() as u64).collect();
    let expect: Vec<f64> = (0..s.b).map(|i| (f((i + 1) as f64 * w) - f(i as f64 * w)) * s.calls as f64).collect();
    vec![("radial-distribution of one extensible link".into(), chi2(&counts, &expect))]
}
/// The sampled and the analytical radial distribution of the freely jointed chain.
fn closed_form(s: &Sp) -> Vec<(String, f64)> {
    use polymers::physics::single_chain::fjc::thermodynamics::isometric::{nondimensional_equilibrium_radial_distribution as p, FJC as Model};
    warm(s);
    let (c, q) = mc::hist(FJC, s.b, s.n, &s.par, s.calls as usize);
    let w = 1.0 / s.b as f64;
    let n = s.n as u8;
    let m = Model::init(n, 1.0, 1.0);
    let mut out = vec![];
    for (name, f) in [("function", Box::new(|x: f64| p(&n, &x)) as Box<dyn Fn(f64) -> f64>), ("method", Box::new(|x: f64| m.nondimensional_equilibrium_radial_distribution(&x)))] {
        let k = 64;
        let expect: Vec<f64> = (0..s.b)
            .map(|i| {
                // midpoint panels between the kinks at multiples of 2/n would be exact; many panels suffice
                let h = w / k as f64;
                // Gauss-Legendre, 2 points per panel
                (0..k).map(|j| { let m = i as f64 * w + (j as f64 + 0.5) * h; let d = h / 2.0 / 3f64.sqrt(); (f(m - d) + f(m + d)) * h / 2.0 }).sum::<f64>() * s.calls as f64
            })
            .collect();
        let counts: Vec<u64> = q.iter().map(|q| (q * w * s.calls as f64).round() as u64).collect();
        let total: f64 = expect.iter().sum::<f64>() / s.calls as f64;
        if std::env::var("DST_DEBUG").is_ok() {
            eprintln!("n {} total {total}", s.n);
        }
        let off = counts.iter().zip(&expect).any(|(c, e)| !e.is_finite() || *e < -1e-3 || (*e < 1e-3 && *c > 3));
        out.push((format!("radial-distribution against closed form ({name})"), if off { 0.0 } else { chi2(&counts, &expect) }));
        // single bins
        for i in 0..s.b {
            let pr = expect[i] / s.calls as f64;
            let v = expect[i] * (1.0 - pr);
            if v > 100.0 {
                out.push((format!("bin against closed form ({name}) {i}"), normal_p((counts[i] as f64 - expect[i]) / v.sqrt())));
            }
        }
        let grid = c.iter().enumerate().all(|(i, c)| (c - (i as f64 + 0.5) * w).abs() < 1e-9);
        out.push(("bin-grid".into(), if grid { 1.0 } else { 0.0 }));
    }
    out
}
const _: u8 = EFRC + FRC;
