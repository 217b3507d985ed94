//! The parse tables of the crate against tables computed from gram.y by /verif/refgen.
#![allow(dead_code, unexpected_cfgs)]
#[macro_use]
#[path = "../../core/src/entries.rs"]
mod entries;
#[path = "../../core/src/reflex.rs"]
mod reflex;
#[path = "../../core/src/refparse.rs"]
mod refparse;
mod tables;

entries! {
    h_actions => tables::actions,
    h_gotos => tables::gotos,
    h_kinds => tables::kinds,
    h_bounds => tables::bounds,
}
