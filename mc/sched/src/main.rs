#![allow(clippy::all)]
extern crate dreammaker as dm;
mod explore;
mod p23_threads;
#[allow(dead_code)]
#[path = "../../map/src/scene.rs"]
mod scene;

fn main() {
    mc_common::run(&[("P23", p23_threads::check)]);
}
