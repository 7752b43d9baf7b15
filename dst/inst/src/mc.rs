//! Dispatch from run-time sizes to the const-generic Monte Carlo functions.
use polymers::physics::single_chain as sc;
use rand_distr::Normal;
use sc::efjc::thermodynamics::isometric::monte_carlo as efjc;
use sc::efrc::thermodynamics::isometric::monte_carlo as efrc;
use sc::fjc::thermodynamics::isometric::monte_carlo as fjc;
use sc::frc::thermodynamics::isometric::monte_carlo as frc;

pub const FJC: u8 = 0;
pub const FRC: u8 = 1;
pub const EFJC: u8 = 2;
pub const EFRC: u8 = 3;
pub const MODELS: [&str; 4] = ["fjc", "frc", "efjc", "efrc"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Par {
    pub theta: f64,
    /// Mean and deviation of the link length (extensible configurations).
    pub mean: f64,
    pub sd: f64,
    /// Limit and stiffness (extensible radial distributions).
    pub gmax: f64,
    pub kappa: f64,
}

pub fn variate() -> f64 {
    use rand_distr::Distribution;
    rand_distr::StandardNormal.sample(&mut rand::rng())
}
fn cfg_n<const N: usize>(model: u8, p: &Par, rng: &mut rand::rngs::ThreadRng, out: &mut Vec<f64>) {
    let c: [[f64; 3]; N] = match model {
        FJC => fjc::random_configuration::<N>(rng),
        FRC => frc::random_configuration::<N>(&p.theta, rng),
        EFJC => efjc::random_configuration::<N>(Normal::new(p.mean, p.sd).unwrap(), rng),
        _ => efrc::random_configuration::<N>(&p.theta, Normal::new(p.mean, p.sd).unwrap(), rng),
    };
    out.extend(c.iter().flatten());
}
fn len_n<const N: usize>(model: u8, p: &Par, rng: &mut rand::rngs::ThreadRng) -> f64 {
    match model {
        FJC => fjc::random_nondimensional_end_to_end_length::<N>(rng),
        FRC => frc::random_nondimensional_end_to_end_length::<N>(&p.theta, rng),
        EFJC => efjc::random_nondimensional_end_to_end_length::<N>(Normal::new(p.mean, p.sd).unwrap(), rng),
        _ => efrc::random_nondimensional_end_to_end_length::<N>(&p.theta, Normal::new(p.mean, p.sd).unwrap(), rng),
    }
}
fn hist_n<const B: usize, const N: usize>(model: u8, p: &Par, samples: usize) -> (Vec<f64>, Vec<f64>) {
    let (c, q): ([f64; B], [f64; B]) = match model {
        FJC => fjc::nondimensional_equilibrium_radial_distribution::<B, N>(samples),
        FRC => frc::nondimensional_equilibrium_radial_distribution::<B, N>(&p.theta, samples),
        EFJC => efjc::nondimensional_equilibrium_radial_distribution::<B, N>(&p.gmax, &p.kappa, samples),
        _ => efrc::nondimensional_equilibrium_radial_distribution::<B, N>(&p.gmax, &p.kappa, &p.theta, samples),
    };
    (c.to_vec(), q.to_vec())
}

macro_rules! sizes { ($($n:literal)*) => {
    pub const NS: &[usize] = &[$($n),*];
    pub fn cfg(model: u8, n: usize, p: &Par, rng: &mut rand::rngs::ThreadRng, out: &mut Vec<f64>) {
        match n { $($n => cfg_n::<$n>(model, p, rng, out),)* _ => unreachable!() }
    }
    pub fn len(model: u8, n: usize, p: &Par, rng: &mut rand::rngs::ThreadRng) -> f64 {
        match n { $($n => len_n::<$n>(model, p, rng),)* _ => unreachable!() }
    }
} }
sizes!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 75 77 80 90 96 99 100 101 111 120 127 128 129 150 192 200 250 255 256 257 300 333 400 500 511 512 513 600 777 1000 1024 1025 1500 2048 3000 4096 5000);

macro_rules! hists { ($(($b:literal $n:literal))*) => {
    pub const HS: &[(usize, usize)] = &[$(($b, $n)),*];
    pub fn hist(model: u8, b: usize, n: usize, p: &Par, samples: usize) -> (Vec<f64>, Vec<f64>) {
        match (b, n) { $(($b, $n) => hist_n::<$b, $n>(model, p, samples),)* _ => unreachable!() }
    }
} }
hists!((1 1) (2 1) (3 1) (7 1) (10 1) (16 1) (32 1) (100 1) (1 2) (2 2) (5 2) (8 2) (10 2) (33 2) (64 2) (1 3) (3 3) (4 3) (10 3) (25 3) (50 3) (128 3)
    (2 4) (6 4) (10 4) (20 4) (256 4) (1 5) (10 5) (12 5) (40 5) (10 6) (20 6) (9 7) (10 7) (30 7) (1 8) (10 8) (15 8) (50 8) (100 8) (1000 8) (10 9) (20 9) (10 10) (24 10) (20 11) (10 12) (31 12)
    (20 13) (20 14) (10 15) (5 16) (10 16) (64 16) (10 17) (20 18) (20 19) (20 20) (20 21) (20 22) (20 23) (10 24) (20 24) (7 25) (10 32) (17 33) (10 50) (100 50) (10 64) (2 65) (10 100) (50 100) (3 128) (10 129) (10 200) (20 256) (10 257) (10 500) (4 1000) (512 8) (500 3) (2 1024) (300 2) (2000 2) (20 5) (20 7) (20 8) (12 10) (20 12) (20 15) (20 16) (20 17) (50 20) (30 30) (25 40) (20 60) (20 77));
/// `polymers::...::frc::...::cross`
pub fn cross(u: &[f64; 3], v: &[f64; 3]) -> [f64; 3] {
    frc::cross(u, v)
}
