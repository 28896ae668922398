//! Deterministic simulation of ikal, with fault injection.
//!
//!     ikal-sim run C01          explores; seed in VERIF_SEED, tier in VERIF_TIER
//!     ikal-sim replay FILE      runs a recorded failure again
//!     ikal-sim selftest         runs many seeds twice, and compares the event logs

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod ctx;
mod doc;
#[path = "gen.rs"]
mod gen_;
mod host;
mod model;
mod n01;
mod probe;
mod rrule;
mod runner;
mod sched;
mod seam;
mod series;
mod stamps;
mod tape;
mod tz;

#[global_allocator]
static ALLOCATOR: seam::Allocator = seam::Allocator;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();

    let code = match args.as_slice() {
        ["run", property] => runner::run(property),
        ["replay", file] => runner::replay(file),
        ["selftest", n] => runner::selftest(n.parse().unwrap()),
        _ => {
            eprintln!("usage: ikal-sim run PROPERTY | replay FILE | selftest RUNS");
            2
        }
    };

    std::process::exit(code);
}
