//! Statistics for the sampled properties.
pub fn ln_gamma(x: f64) -> f64 {
    let c = [76.18009172947146, -86.50532032941677, 24.01409824083091, -1.231739572450155, 0.1208650973866179e-2, -0.5395239384953e-5];
    let t = x + 5.5 - (x + 0.5) * (x + 5.5).ln();
    let s = c.iter().enumerate().fold(1.000000000190015, |s, (i, c)| s + c / (x + 1.0 + i as f64));
    -t + (2.5066282746310005 * s / x).ln()
}
/// Upper regularised incomplete gamma function.
pub fn gamma_q(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    if x < a + 1.0 {
        let (mut s, mut t, mut n) = (1.0 / a, 1.0 / a, a);
        for _ in 0..10000 {
            n += 1.0;
            t *= x / n;
            s += t;
            if t < s * 1e-16 {
                break;
            }
        }
        1.0 - s * (-x + a * x.ln() - ln_gamma(a)).exp()
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..10000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            d = if d.abs() < 1e-300 { 1e-300 } else { d };
            c = b + an / c;
            c = if c.abs() < 1e-300 { 1e-300 } else { c };
            d = 1.0 / d;
            let e = d * c;
            h *= e;
            if (e - 1.0).abs() < 1e-15 {
                break;
            }
        }
        (-x + a * x.ln() - ln_gamma(a)).exp() * h
    }
}
/// Probability of a deviation at least as large, for counts with given expectations.
pub fn chi2(counts: &[u64], expect: &[f64]) -> f64 {
    let (mut s, mut k) = (0.0, 0);
    // cells with small expectation are merged with their successors
    let (mut c0, mut e0) = (0.0, 0.0);
    for (c, e) in counts.iter().zip(expect) {
        c0 += *c as f64;
        e0 += e;
        if e0 >= 40.0 {
            s += (c0 - e0) * (c0 - e0) / e0;
            k += 1;
            c0 = 0.0;
            e0 = 0.0;
        }
    }
    if c0 > 0.0 || e0 > 0.0 {
        // remainder: compared on its own, leniently
        s += (c0 - e0) * (c0 - e0) / (e0 + 5.0);
        k += 1;
    }
    if k < 2 {
        return 1.0;
    }
    gamma_q((k - 1) as f64 / 2.0, s / 2.0)
}
pub fn chi2_uniform(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    chi2(counts, &vec![e; counts.len()])
}
/// Two-sided p-value of a standard normal deviation.
pub fn normal_p(z: f64) -> f64 {
    if z.is_nan() {
        return 0.0;
    }
    gamma_q(0.5, z * z / 2.0)
}
pub fn normal_cdf(z: f64) -> f64 {
    let q = gamma_q(0.5, z * z / 2.0) / 2.0;
    if z > 0.0 { 1.0 - q } else { q }
}
/// Independence of the rows and columns of a square table. Valid for tables of
/// overlapping pairs of one sequence as well, since only the interactions count.
pub fn independence(t: &[u64], k: usize) -> f64 {
    let n: u64 = t.iter().sum();
    if (n as f64) < 20.0 * (k * k) as f64 {
        return 1.0;
    }
    let row: Vec<f64> = (0..k).map(|i| t[i * k..i * k + k].iter().sum::<u64>() as f64).collect();
    let col: Vec<f64> = (0..k).map(|j| (0..k).map(|i| t[i * k + j]).sum::<u64>() as f64).collect();
    let mut s = 0.0;
    for i in 0..k {
        for j in 0..k {
            let e = row[i] * col[j] / n as f64;
            if e > 0.0 {
                s += (t[i * k + j] as f64 - e).powi(2) / e;
            }
        }
    }
    gamma_q(((k - 1) * (k - 1)) as f64 / 2.0, s / 2.0)
}
/// Probability of at least `k` events where `l` are expected.
pub fn poisson_p(k: u64, l: f64) -> f64 {
    if k == 0 { 1.0 } else { (1.0 - gamma_q(k as f64, l)).max(0.0) }
}
/// Either side.
pub fn poisson_two(k: u64, l: f64) -> f64 {
    (2.0 * poisson_p(k, l).min(gamma_q(k as f64 + 1.0, l))).min(1.0)
}
