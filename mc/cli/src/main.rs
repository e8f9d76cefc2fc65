#![allow(clippy::all)]
extern crate dreammaker as dm;
mod frags;
mod p22_config;
mod p30_cli;
mod p39_dmdoc;
mod p44_env;
#[allow(dead_code)]
#[path = "../../map/src/scene.rs"]
mod scene;

fn main() {
    mc_common::run(&[("P22", p22_config::check), ("P30", p30_cli::check), ("P39", p39_dmdoc::check), ("P44", p44_env::check)]);
}
