//! Harnesses for the crate postgresql-cst-parser. Every `h_*` function is an entry point of the
//! symbolic engine; the native build runs the same function on a recorded input.
#![allow(dead_code, unexpected_cfgs)]

#[macro_use]
mod entries;
mod common;
#[cfg(feature = "hooks")]
mod lexing;
#[cfg(not(feature = "hooks"))]
mod lexing {
    pub fn lex_free() {}
    pub fn lex_templates() {}
}
mod reflex;
mod refparse;
mod rel;
mod templates;
mod whole;

entries! {
    h_lex_free => lexing::lex_free,
    h_lex_templates => lexing::lex_templates,
    h_whole_free => whole::free,
    h_whole_templates => whole::templates,
    h_sentences => rel::sentences,
    h_rel_trivia => rel::trivia,
    h_rel_case => rel::case,
    h_uescape => rel::uescape,
    h_rel_lists => rel::lists,
    h_history => rel::history,
}
