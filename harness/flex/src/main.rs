//! The scanner generator (/repo/crates/lexer-generator, a copy of its source with its private parts opened:
//! vlib.prepare_flex).
#![allow(dead_code, unexpected_cfgs)]
#[macro_use]
#[path = "../../core/src/entries.rs"]
mod entries;
#[cfg(not(feature = "whole"))]
mod file;
#[cfg(feature = "whole")]
mod file {
    pub fn file() {}
    pub fn regex() {}
}
#[path = "../../core/src/cursor.rs"]
mod cursor;
#[cfg(feature = "emit")]
mod emit;
/// what the generator writes is explored in a build of its own
#[cfg(not(feature = "emit"))]
mod emit {
    pub fn emit() {}
    pub fn tables() {}
}
/// and what it writes from its resources, in another
#[cfg(feature = "whole")]
mod whole;
#[cfg(not(feature = "whole"))]
mod whole {
    pub fn whole() {}
}
#[path = "../../auto/src/pat.rs"]
mod pat;

entries! {
    h_flex => file::file,
    h_rule_regex => file::regex,
    h_emit => emit::emit,
    h_emit_tables => emit::tables,
    h_whole => whole::whole,
}
