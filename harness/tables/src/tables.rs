use crate::refparse::{self, *};
use cstree::{RawSyntaxKind, Syntax};
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use postgresql_cst_parser::verif_hooks as real;
use postgresql_cst_parser::verif_hooks::TokenKind;
use std::collections::HashMap;
use symrt as sym;

include!(concat!(env!("VERIF_REF"), "/span.rs"));

const NONE: u32 = 0xffff;
const REAL_ERROR: i16 = 0x7fff;

fn kind(name: &str) -> TokenKind {
    let b = name.as_bytes();
    if name == "$end" {
        return real::end_kind();
    }
    if b.len() == 3 && b[0] == b'\'' {
        return TokenKind::RAW(name[1..2].to_string());
    }
    match name {
        "IDENT" => TokenKind::IDENT,
        "SCONST" => TokenKind::SCONST,
        "USCONST" => TokenKind::USCONST,
        "BCONST" => TokenKind::BCONST,
        "XCONST" => TokenKind::XCONST,
        "ICONST" => TokenKind::ICONST,
        "FCONST" => TokenKind::FCONST,
        "PARAM" => TokenKind::PARAM,
        "Op" => TokenKind::Op,
        "TYPECAST" => TokenKind::TYPECAST,
        "DOT_DOT" => TokenKind::DOT_DOT,
        "COLON_EQUALS" => TokenKind::COLON_EQUALS,
        "EQUALS_GREATER" => TokenKind::EQUALS_GREATER,
        "LESS_EQUALS" => TokenKind::LESS_EQUALS,
        "GREATER_EQUALS" => TokenKind::GREATER_EQUALS,
        "NOT_EQUALS" => TokenKind::NOT_EQUALS,
        _ => TokenKind::KEYWORD(name.to_string()),
    }
}

pub struct Map {
    /// reference terminal -> the crate's
    term: Vec<u32>,
    /// reference nonterminal -> the crate's
    nonterm: Vec<u32>,
    /// reference state -> the crate's
    state: Vec<u32>,
    /// reference rule -> nonterminal, length
    rule: Vec<(u16, u16)>,
    /// the crate's rule -> reference nonterminal, length
    real_rule: Vec<(u16, u16)>,
}

pub fn map() -> Map {
    let mut m = Map { term: Vec::new(), nonterm: Vec::new(), state: vec![NONE; NSTATES], rule: Vec::new(), real_rule: Vec::new() };
    for t in TERMINALS.iter() {
        m.term.push(real::terminal_id(&kind(t)).unwrap_or(NONE));
    }
    let mut by_name: HashMap<&str, u16> = HashMap::new();
    for (i, n) in NONTERMINALS.iter().enumerate() {
        m.nonterm.push(real::nonterminal_id(n));
        by_name.insert(n, i as u16);
    }
    for i in 0..NRULES {
        let (l, n) = refparse::rule(i);
        m.rule.push((l as u16, n as u16));
    }
    for i in 0..real::num_rules() {
        let (l, n) = real::rule(i);
        m.real_rule.push((by_name.get(l).copied().unwrap_or(0xffff), n as u16));
    }
    m.state[0] = 0;
    for &(s, p, x) in SPAN.iter() {
        let q = m.state[p as usize];
        if q == NONE {
            continue;
        }
        let x = x as usize;
        if x < NTERM {
            if m.term[x] != NONE {
                let a = real::action(q, m.term[x]);
                // an edge that is missing shows when the actions of the predecessor are compared
                if a > 0 && a != REAL_ERROR {
                    m.state[s as usize] = (a - 1) as u32;
                }
            }
        } else {
            let g = real::goto(q, m.nonterm[x - NTERM]);
            if g >= 0 {
                m.state[s as usize] = g as u32;
            }
        }
    }
    m
}

/// an index below n: the upper part is a case split, the lower one symbolic
fn index(n: usize) -> usize {
    let hi = sym::choose((n + 255) / 256);
    let lo = sym::bytes(1)[0];
    let i = hi * 256 + lo as usize;
    sym::assume(i < n);
    i
}

/// In every state and on every terminal, the crate does what the LALR(1) automaton of gram.y does.
/// params: 0 = first state, 1 = stride
pub fn actions() {
    let m = map();
    let stride = sym::param(1).max(1);
    let s = sym::param(0) + stride * sym::choose((NSTATES - sym::param(0) + stride - 1) / stride);
    if m.state[s] == NONE {
        // reported at the state it should be reached from
        return;
    }
    sym::reach("state");
    let t = index(NTERM);
    let want = refparse::action(s, t);
    let id = m.term[t];
    if id == NONE {
        sym::check(want == ERR, "a terminal the grammar uses has a number");
        return;
    }
    let got = real::action(m.state[s], id);
    let err = got == REAL_ERROR;
    sym::check(err == (want == ERR), "the tables reject a token if and only if gram.y does");
    if err {
        return;
    }
    sym::check((got > 0) == (want > 0) && (got < 0) == (want < 0), "the tables shift, reduce or accept as gram.y does");
    if want > 0 {
        sym::reach("shift");
        sym::check(m.state[(want - 1) as usize] == (got - 1) as u32, "a shift goes to the state of gram.y's automaton");
    } else if want < 0 {
        sym::reach("reduce");
        let w = m.rule[(-(want as i32) - 1) as usize];
        let g = (-(got as i32) - 1) as usize;
        sym::check(g < m.real_rule.len(), "a reduction is by a rule of gram.y");
        let g = m.real_rule[g];
        sym::check(w.0 == g.0, "a reduction makes the nonterminal of gram.y's rule");
        sym::check(w.1 == g.1, "a reduction takes as many symbols as gram.y's rule");
    } else {
        sym::reach("accept");
    }
}

/// Likewise for the state after a reduction, wherever gram.y's automaton has one.
pub fn gotos() {
    let m = map();
    let stride = sym::param(1).max(1);
    let s = sym::param(0) + stride * sym::choose((NSTATES - sym::param(0) + stride - 1) / stride);
    if m.state[s] == NONE {
        return;
    }
    let n = index(NNONTERM);
    let want = refparse::goto(s, n);
    let got = real::goto(m.state[s], m.nonterm[n]);
    if want >= 0 {
        sym::reach("goto");
        sym::check(got >= 0 && m.state[want as usize] == got as u32, "a reduction continues in the state of gram.y's automaton");
    } else {
        sym::check(got < 0, "there is no continuation gram.y does not have");
    }
}

/// Every state and symbol can be looked up.
pub fn bounds() {
    let s = sym::choose(real::num_states());
    let t = index(real::num_terminals() as usize);
    let a = real::action(s as u32, t as u32);
    if a > 0 && a != REAL_ERROR {
        sym::check(((a - 1) as usize) < real::num_states(), "a shift goes to a state");
    } else if a < 0 {
        sym::check(((-(a as i32) - 1) as usize) < real::num_rules(), "a reduction has a rule");
    }
    sym::reach("lookup");
}

/// Symbols are numbered so that each has its own syntax kind, the one named after it.
pub fn kinds() {
    let i = sym::choose(NTERM + NNONTERM + 1);
    if i < NTERM {
        let id = match real::terminal_id(&kind(TERMINALS[i])) {
            Some(id) => id,
            None => return,
        };
        sym::reach("terminal");
        sym::check(id < real::num_terminals(), "a terminal's number is below the number of terminals");
        sym::check(SyntaxKind::from_raw(RawSyntaxKind(id)) == TERMINAL_KINDS[i], "a terminal has the kind named after it");
    } else if i < NTERM + NNONTERM {
        sym::reach("nonterminal");
        let n = i - NTERM;
        let id = real::nonterminal_id(NONTERMINALS[n]) + real::num_terminals();
        sym::check(SyntaxKind::from_raw(RawSyntaxKind(id)) == NONTERMINAL_KINDS[n], "a nonterminal has the kind named after it");
    } else {
        let n = real::num_terminals() as usize + NNONTERM;
        let k = index(n);
        sym::reach("raw");
        sym::check(SyntaxKind::from_raw(RawSyntaxKind(k as u32)).into_raw().0 == k as u32, "raw numbers of kinds are their own");
    }
}
