//! `parse_sql` against what `parse` returns for the same text.
use crate::common::*;
use postgresql_cst_parser::{parse, NodeOrToken, ParserError, ResolvedNode};
use postgresql_cst_parser_wasm::parse_sql;
use std::fmt::Write;
use symrt as sym;

/// one line a node or token: two spaces for each level, the kind, the bytes it covers, and the text of a token
fn tree(n: &ResolvedNode, depth: usize, out: &mut String) {
    let r = n.text_range();
    indent(depth, out);
    write!(out, "{:?}@{}..{}\n", n.kind(), usize::from(r.start()), usize::from(r.end())).unwrap();
    for c in n.children_with_tokens() {
        match c {
            NodeOrToken::Node(c) => tree(c, depth + 1, out),
            NodeOrToken::Token(t) => {
                indent(depth + 1, out);
                write!(out, "{:?}\n", t).unwrap();
            }
        }
    }
}

fn indent(n: usize, out: &mut String) {
    for _ in 0..n {
        out.push_str("  ");
    }
}

fn error(e: &ParserError) -> String {
    match e {
        ParserError::ParseError { message, start_byte_pos, end_byte_pos } => {
            format!("Error: ParseError {{ message: {:?}, start_byte_pos: {}, end_byte_pos: {} }}", message, start_byte_pos, end_byte_pos)
        }
        ParserError::ScanReport(r) => {
            format!("Error: ScanReport(ScanReport {{ message: {:?}, detail: {:?}, position_in_bytes: {} }})", r.message, r.detail, r.position_in_bytes)
        }
        ParserError::ScanError { message } => format!("Error: ScanError {{ message: {:?} }}", message),
    }
}

fn check(b: &[u8]) {
    let text = to_str(b);
    let shown = parse_sql(text);
    let want = match parse(text) {
        Ok(root) => {
            sym::reach("tree");
            let mut s = String::new();
            tree(&root, 0, &mut s);
            s
        }
        Err(e) => {
            sym::reach("error");
            error(&e)
        }
    };
    let (shown, want) = (shown.as_bytes(), want.as_bytes());
    sym::check(shown.len() == want.len() && same(shown, want), "the text shown is the tree or the error of parse");
    sym::done();
}

/// params: 0 = free bytes, 1 = prefix
pub fn free() {
    let mut b = crate::templates::PREFIXES[sym::param(1)].as_bytes().to_vec();
    b.extend_from_slice(&sym::utf8(sym::param(0)));
    check(&b);
}

/// params: 0 = family, 1 = longer holes
pub fn templates() {
    let set = crate::templates::set(sym::param(0));
    let i = sym::choose(set.len());
    sym::label(set[i]);
    let b = fill(set[i], sym::param(1));
    check(&b);
}
