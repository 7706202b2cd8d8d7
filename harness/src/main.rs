//! Conformance driver: executes traces of operations on the real library and
//! records one observation (a list of strings) per operation.
//!
//! usage: csv_driver SCRIPT OUT [FIRST]
//! SCRIPT: one JSON trace per line, {"id":..,"w":world,"ops":[..]}.
//! OUT: one JSON line per operation, {"t":trace index,"i":op index,"o":[..]}.
#![allow(clippy::all)]

#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;

mod util;
mod run;
mod mpc;
mod basic;
mod engine;
mod csv;
mod schemes;
mod system;
mod text;

pub use run::World;

fn world(name: &str) -> Box<dyn World> {
    match name {
        "mpc" => Box::new(mpc::Mpc::default()),
        "buoy" => Box::new(basic::Buoy::None),
        "engine" => Box::new(engine::Engine),
        "csv" => Box::new(csv::Csv::default()),
        "schemes" => Box::new(schemes::Schemes),
        "seals" => Box::new(schemes::Seals),
        "digest" => Box::new(basic::Dig::default()),
        "merkle" => Box::new(basic::Mrk),
        "system" => Box::new(system::System::default()),
        "text" => Box::new(text::Text),
        "reserved" => Box::new(basic::Rsv),
        _ => panic!("unknown world {name}"),
    }
}

fn main() { run::main(world) }
