//! The lexer's transition tables against automata built from scan.l by /verif/refgen.
#![allow(dead_code, unexpected_cfgs)]
#[macro_use]
#[path = "../../core/src/entries.rs"]
mod entries;
mod dfa;

entries! {
    h_dfa => dfa::step,
}
