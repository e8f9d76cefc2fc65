#![allow(clippy::all)]
extern crate dreammaker as dm;
mod p11_dmm;
mod p12_dmi;
mod p13_image;
mod p14_minimap;
mod p26_passes;
mod p27_smooth;
mod scene;

fn main() {
    mc_common::run(&[("P11", p11_dmm::check), ("P12", p12_dmi::check), ("P13", p13_image::check), ("P14", p14_minimap::check), ("P26", p26_passes::check), ("P27", p27_smooth::check)]);
}
