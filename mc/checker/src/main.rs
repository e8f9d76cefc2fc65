#![allow(clippy::all)]
extern crate dreammaker as dm;
mod p16_block;
mod p17_rules;
mod p18_flow;
mod p19_names;
mod p21_robust;
mod p25_switch;
mod p31_kwargs;
mod p33_pure;
mod p34_access;
mod util;

fn main() {
    mc_common::run(&[("P16", p16_block::check), ("P17", p17_rules::check), ("P18", p18_flow::check), ("P19", p19_names::check), ("P21", p21_robust::check), ("P25", p25_switch::check), ("P31", p31_kwargs::check), ("P33", p33_pure::check), ("P34", p34_access::check)]);
}
