//! Harness for the crate postgresql-cst-parser-wasm: the text it shows for a result of `parse`.
#![allow(dead_code, unexpected_cfgs)]

#[macro_use]
#[path = "../../core/src/entries.rs"]
mod entries;
#[path = "../../core/src/common.rs"]
mod common;
mod show;
#[path = "../../core/src/templates.rs"]
mod templates;

entries! {
    h_show_free => show::free,
    h_show_templates => show::templates,
}
