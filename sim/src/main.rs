//! Deterministic simulation of krates. See DESIGN.md in the parent directory.

mod cargo;
mod cfg;
mod config;
mod doc;
mod dump;
mod json;
#[allow(unused_unsafe)]
mod kernel;
mod ledger;
mod model;
mod observe;
mod peer;
mod rng;
mod runner;
mod runs;
mod scan;
mod sim;
mod world;

fn main() {
    std::process::exit(runner::main());
}
