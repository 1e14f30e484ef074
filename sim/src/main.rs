//! `vsim`: deterministic simulation of code built on vecmat.
//!
//!   vsim check <PROP> <quick|thorough> <seed> <verif-dir>   decide one property
//!   vsim replay <file>                                      re-execute a replay file
//!   vsim configs <list> <quick|thorough> <seed> <verif-dir> decide C16 over the configurations in the list
//!   vsim selftest <seed> <runs>                             determinism of the simulator itself
//!   vsim one <machine> <seed> <index>                       print the trace of one run
//!   vsim worker                                             (internal) execute runs for the supervisor

mod describe;
mod elems;
mod fmt;
#[cfg(feature = "approx")]
mod approx;
mod assign;
mod bend;
mod conc;
mod hist;
mod iter;
#[cfg(feature = "rand")]
mod laws;
mod numops;
mod reenter;
mod rings;
#[cfg(feature = "rand")]
mod rng;
mod run;
mod runner;
mod sim;
mod stream;
mod transf;
mod util;
mod vecops;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["worker"] => run::worker(false),
        ["worker", "live"] => run::worker(true),
        ["check", prop, tier, seed, dir] => runner::check(prop, tier, seed.parse().unwrap_or(1), dir),
        ["configs", list, tier, seed, dir] => runner::cfgs::check(list, tier, seed.parse().unwrap_or(1), dir),
        ["replay", file, list] => runner::cfgs::replay(&std::fs::read_to_string(file).unwrap_or_default(), file, list),
        ["replay", file] => runner::replay(file),
        ["selftest", seed, runs] => runner::selftest(seed.parse().unwrap(), runs.parse().unwrap()),
        ["one", machine, seed, idx] => run::one(machine, seed.parse().unwrap(), idx.parse().unwrap()),
        _ => {
            eprintln!("usage: see the head of main.rs");
            2
        }
    };
    std::process::exit(code);
}
