//! The regular-expression compiler (/repo/crates/automata) against a matcher written from flex's documentation.
#![allow(dead_code, unexpected_cfgs)]
#[macro_use]
#[path = "../../core/src/entries.rs"]
mod entries;
mod graph;
mod pat;

entries! {
    h_pattern => pat::one,
    h_rules => pat::rules,
    h_graph => graph::graph,
}
