#![allow(static_mut_refs)]
mod checks;
mod driver;
mod exec;
mod gen;
mod judge;
mod minimise;
mod sample;
mod scen;
mod stats;
#[global_allocator]
static A: seam::alloc::SimAlloc = seam::alloc::SimAlloc;
fn main() {
    std::process::exit(driver::main());
}
