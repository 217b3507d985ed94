//! The parser generator (/repo/crates/parser-generator, a copy of its source with one module added that opens it:
//! vlib.prepare_gen) against an LALR(1) construction of its own.
#![allow(dead_code, unexpected_cfgs)]
#[macro_use]
#[path = "../../core/src/entries.rs"]
mod entries;
#[path = "../../core/src/cursor.rs"]
mod cursor;
#[cfg(feature = "emit")]
mod emit;
/// what the generator writes is explored in a build of its own
#[cfg(not(feature = "emit"))]
mod emit {
    pub fn parser() {}
}
mod grammar;
mod tables;

entries! {
    h_grammar => tables::rules,
    h_prec => tables::prec,
    h_classic => tables::classic,
    h_text => tables::text,
    h_parser => emit::parser,
    h_matrix => tables::matrix,
}
