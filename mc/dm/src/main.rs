#![allow(clippy::all)]
extern crate dreammaker as dm;
mod p02_lexer;
mod p03_indent;
mod p04_cond;
mod p05_macro;
mod p06_include;
mod p07_expr;
mod p08_fold;
mod p09_const;
mod p10_print;
mod p15_tree;
mod astfmt;
mod p20_docs;
mod p24_stmt;
mod util;

fn main() {
    mc_common::run(&[("P02", p02_lexer::check), ("P03", p03_indent::check), ("P04", p04_cond::check), ("P05", p05_macro::check), ("P06", p06_include::check), ("P07", p07_expr::check), ("P08", p08_fold::check), ("P09", p09_const::check), ("P10", p10_print::check), ("P15", p15_tree::check), ("P20", p20_docs::check), ("P24", p24_stmt::check)]);
}
