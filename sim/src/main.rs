//! Deterministic simulation of the vercre issuance and presentation system.

mod audit;
mod choice;
mod evidence;
mod exec;
mod issue;
#[cfg(feature = "macros")]
mod macros;
mod matching;
mod model;
mod net;
mod oracle;
mod pool;
mod present;
mod prov;
mod runner;
mod scripts;
mod seam;
mod setup;
mod vccheck;
mod vmodel;
mod wallet;
mod watch;
mod wire;
mod world;

fn main() {
    std::process::exit(runner::main());
}
