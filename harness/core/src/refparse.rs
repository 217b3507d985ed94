//! Independent reference for `parse`: reflex.rs for the text, parser.c's one-token lookahead filter,
//! and an LR driver over tables which /verif/refgen computes from gram.y (not from /repo's generator).
use crate::reflex::{self, E, K};
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use std::collections::HashMap;

include!(concat!(env!("VERIF_REF"), "/names.rs"));

#[repr(C, align(8))]
struct Aligned<B: ?Sized>(B);
static TABLES: &Aligned<[u8]> = &Aligned(*include_bytes!(concat!(env!("VERIF_REF"), "/tables.bin")));

#[inline(always)]
fn word(i: usize) -> i16 {
    // the file is a sequence of native i16
    assert!(2 * i + 1 < TABLES.0.len());
    unsafe { *(TABLES.0.as_ptr() as *const i16).add(i) }
}
const A0: usize = 16;
const G0: usize = A0 + NSTATES * ABLK;
const R0: usize = G0 + NSTATES * GBLK;
const B0: usize = R0 + NRULES * 2;
pub const ERR: i16 = 0x7fff;

/// > 0: shift and go to state a - 1; < 0: reduce rule -a - 1; 0: accept
pub fn action(s: usize, t: usize) -> i16 {
    word(B0 + (word(A0 + s * ABLK + (t >> 6)) as u16 as usize) * 64 + (t & 63))
}
pub fn goto(s: usize, n: usize) -> i16 {
    word(B0 + (word(G0 + s * GBLK + (n >> 6)) as u16 as usize) * 64 + (n & 63))
}
/// left-hand side (index of the nonterminal), length
pub fn rule(r: usize) -> (usize, usize) {
    (word(R0 + 2 * r) as usize, word(R0 + 2 * r + 1) as usize)
}

pub const COMMENT: u16 = 0xfffe;
pub const SQL_COMMENT: u16 = 0xfffd;
pub const UNKNOWN: u16 = 0xffff;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok {
    pub t: u16,
    pub start: usize,
    pub end: usize,
}

pub struct Ref {
    kw: HashMap<&'static str, u16>,
}

pub fn fold(c: u8) -> u8 {
    c + (((c.wrapping_sub(b'A') < 26) as u8) << 5)
}

fn kwid(name: &str) -> u16 {
    for i in 0..NTERM {
        if TERMINALS[i] == name {
            return i as u16;
        }
    }
    UNKNOWN
}

/// tokens that turn the one before them into its _LA variant
struct La {
    format: u16,
    json: u16,
    not: u16,
    nulls: u16,
    with: u16,
    without: u16,
    between: [u16; 5],
    firstlast: [u16; 2],
    time: u16,
    ordinality: u16,
    nchar: u16,
}

pub struct Full {
    r: Ref,
    la: La,
}

impl Full {
    /// also lets the code under test set up what it keeps for the life of the process, before the input is chosen
    pub fn new() -> Full {
        let _ = postgresql_cst_parser::parse("select a not in (1)");
        let mut kw = HashMap::new();
        for &(s, _, t) in KEYWORDS.iter() {
            kw.insert(s, t);
        }
        Full {
            r: Ref { kw },
            la: La {
                format: kwid("FORMAT"),
                json: kwid("JSON"),
                not: kwid("NOT"),
                nulls: kwid("NULLS_P"),
                with: kwid("WITH"),
                without: kwid("WITHOUT"),
                between: [kwid("BETWEEN"), kwid("IN_P"), kwid("LIKE"), kwid("ILIKE"), kwid("SIMILAR")],
                firstlast: [kwid("FIRST_P"), kwid("LAST_P")],
                time: kwid("TIME"),
                ordinality: kwid("ORDINALITY"),
                nchar: kwid("NCHAR"),
            },
        }
    }

    /// terminal of an identifier-shaped word
    pub fn keyword(&self, w: &[u8]) -> Option<u16> {
        let mut v: Vec<u8> = Vec::with_capacity(w.len());
        for &c in w {
            v.push(fold(c));
        }
        let s = unsafe { std::str::from_utf8_unchecked(&v) };
        self.r.kw.get(s).copied()
    }

    /// tokens as the scanner returns them, comments included
    pub fn scan(&self, b: &[u8]) -> Result<Vec<Tok>, E> {
        let mut v = Vec::new();
        for t in reflex::scan(b)? {
            let k = match t.k {
                K::Word => self.keyword(&b[t.start..t.end]).unwrap_or(T_IDENT),
                K::NChar => self.la.nchar,
                K::UWord | K::Ident | K::UIdent => T_IDENT,
                K::SConst | K::USConst => T_SCONST,
                K::BConst => T_BCONST,
                K::XConst => T_XCONST,
                K::IConst => T_ICONST,
                K::FConst => T_FCONST,
                K::Param => T_PARAM,
                K::Op => T_OP,
                K::Typecast => T_TYPECAST,
                K::DotDot => T_DOT_DOT,
                K::ColonEquals => T_COLON_EQUALS,
                K::EqualsGreater => T_EQUALS_GREATER,
                K::LessEquals => T_LESS_EQUALS,
                K::GreaterEquals => T_GREATER_EQUALS,
                K::NotEquals => T_NOT_EQUALS,
                K::CComment => COMMENT,
                K::SqlComment => SQL_COMMENT,
                K::Char(c) => char_terminal(c),
            };
            v.push(Tok { t: k, start: t.start, end: t.end });
        }
        Ok(v)
    }

    /// base_yylex: a few keywords depend on the token that follows (comments do not count)
    pub fn filter(&self, v: &mut [Tok]) {
        let la = &self.la;
        let mut next = UNKNOWN;
        let mut i = v.len();
        while i > 0 {
            i -= 1;
            let t = v[i].t;
            if t == COMMENT || t == SQL_COMMENT {
                continue;
            }
            let k = if t == la.format && next == la.json {
                T_FORMAT_LA
            } else if t == la.not && la.between.contains(&next) {
                T_NOT_LA
            } else if t == la.nulls && la.firstlast.contains(&next) {
                T_NULLS_LA
            } else if t == la.with && (next == la.time || next == la.ordinality) {
                T_WITH_LA
            } else if t == la.without && next == la.time {
                T_WITHOUT_LA
            } else {
                t
            };
            v[i].t = k;
            next = t;
        }
    }

    pub fn tokens(&self, b: &[u8]) -> Result<Vec<Tok>, E> {
        let mut v = self.scan(b)?;
        self.filter(&mut v);
        Ok(v)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Node {
    /// index into the tokens
    Leaf(usize),
    Inner {
        nt: usize,
        /// range in Tree::kids
        from: usize,
        to: usize,
        /// number of tokens below
        tokens: usize,
    },
}

#[derive(Debug)]
pub struct Tree {
    pub nodes: Vec<Node>,
    pub kids: Vec<usize>,
    pub root: usize,
}

/// Err(i): the token that cannot continue (i == number of tokens: the end of the input)
pub fn derive(toks: &[Tok]) -> Result<Tree, usize> {
    let mut t = Tree { nodes: Vec::new(), kids: Vec::new(), root: 0 };
    let mut states: Vec<usize> = vec![0];
    let mut vals: Vec<usize> = Vec::new();
    let mut i = 0;
    loop {
        while i < toks.len() && (toks[i].t == COMMENT || toks[i].t == SQL_COMMENT) {
            i += 1;
        }
        let s = states[states.len() - 1];
        let look = if i < toks.len() { toks[i].t as usize } else { 0 };
        if look >= NTERM {
            return Err(i);
        }
        let a = action(s, look);
        if a == ERR {
            return Err(i);
        }
        if a > 0 {
            vals.push(t.nodes.len());
            t.nodes.push(Node::Leaf(i));
            states.push((a - 1) as usize);
            i += 1;
        } else if a < 0 {
            let (lhs, len) = rule((-(a as i32) - 1) as usize);
            let from = t.kids.len();
            let base = vals.len() - len;
            let mut tokens = 0;
            for k in base..vals.len() {
                let x = vals[k];
                t.kids.push(x);
                tokens += match t.nodes[x] {
                    Node::Leaf(_) => 1,
                    Node::Inner { tokens, .. } => tokens,
                };
            }
            let to = t.kids.len();
            vals.truncate(base);
            states.truncate(states.len() - len);
            vals.push(t.nodes.len());
            t.nodes.push(Node::Inner { nt: lhs, from, to, tokens });
            let g = goto(states[states.len() - 1], lhs);
            assert!(g >= 0);
            states.push(g as usize);
        } else {
            t.root = vals[0];
            return Ok(t);
        }
    }
}

pub fn kind_of(t: u16) -> SyntaxKind {
    match t {
        COMMENT => SyntaxKind::C_COMMENT,
        SQL_COMMENT => SyntaxKind::SQL_COMMENT,
        _ => TERMINAL_KINDS[t as usize],
    }
}
