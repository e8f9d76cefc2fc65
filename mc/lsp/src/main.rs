#![allow(clippy::all)]
mod debug;
mod lsp;
mod p28_docs;
mod p29_nav;
mod p32_refs;
mod p35_symbols;
mod p36_complete;
mod p37_text;
mod p38_hover;
mod p40_breakpoints;
mod p41_views;
mod p42_control;
mod p43_launch;

fn main() {
    mc_common::run(&[("P28", p28_docs::check), ("P29", p29_nav::check), ("P32", p32_refs::check), ("P35", p35_symbols::check), ("P36", p36_complete::check), ("P37", p37_text::check), ("P38", p38_hover::check), ("P40", p40_breakpoints::check), ("P41", p41_views::check), ("P42", p42_control::check), ("P43", p43_launch::check)]);
}
