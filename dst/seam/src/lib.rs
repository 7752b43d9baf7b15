//! The simulator's seams: everything nondeterministic the code under test can
//! reach (generator, scheduler, blocking, clock, entropy, allocator) goes
//! through this crate.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod cov;
pub mod rng;
pub mod sched;
pub mod sys;

/// SplitMix64 finaliser.
#[inline(always)]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The simulator's own PRNG: every scheduling and fault decision comes from here.
#[derive(Clone, Copy)]
pub struct Prng(pub u64);
impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(mix(seed ^ 0x5851F42D4C957F2D))
    }
    /// An independent generator labelled `k`.
    pub fn fork(&self, k: u64) -> Prng {
        Prng(mix(self.0 ^ mix(k.wrapping_add(0x9E3779B97F4A7C15))))
    }
    #[inline(always)]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn geom(&mut self, mean: f64) -> u64 {
        let u = 1.0 - self.f64();
        (-(u.ln()) * mean).ceil().max(1.0) as u64
    }
}

/// Called by the simulated `rand::ThreadRng`.
#[inline(never)] // must not be inlined into instrumented code
pub fn rng_next_u64() -> u64 {
    rng::next_u64()
}
#[inline(never)]
pub fn rng_handle() {
    rng::handle()
}
