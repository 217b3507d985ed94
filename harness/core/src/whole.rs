//! `parse` against the reference: tree, trivia, errors.
use crate::common::*;
use crate::reflex;
use crate::refparse::*;
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use postgresql_cst_parser::{parse, NodeOrToken, ParserError, ResolvedNode};
use symrt as sym;

/// What to hold the result against
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum What {
    /// every text is covered exactly
    Lossless,
    /// white space and comments
    Trivia,
    /// nodes and tokens are the derivation of gram.y
    Tree,
    /// where and why a text is rejected
    Errors,
    /// kinds of the terminals only
    Tokens,
    /// nothing but the run itself: no panic, an end
    Safe,
}

pub const KEEP_EMPTY: bool = cfg!(feature = "keep-empty");

pub fn is_trivia(k: SyntaxKind) -> bool {
    k == SyntaxKind::Whitespace || k == SyntaxKind::C_COMMENT || k == SyntaxKind::SQL_COMMENT
}

/// The expected events, trivia left out
fn expect(t: &Tree, toks: &[Tok], n: usize, out: &mut Vec<Ev>) {
    match t.nodes[n] {
        Node::Leaf(i) => out.push(Ev::Leaf(Leaf { kind: kind_of(toks[i].t), start: toks[i].start, end: toks[i].end, text: String::new() })),
        Node::Inner { nt, from, to, tokens } => {
            if tokens == 0 && !KEEP_EMPTY {
                return;
            }
            out.push(Ev::Open(NONTERMINAL_KINDS[nt], 0, 0));
            for k in from..to {
                expect(t, toks, t.kids[k], out);
            }
            out.push(Ev::Close);
        }
    }
}

/// leaves are the input, in order; a node spans its children
pub fn lossless(root: &ResolvedNode, b: &[u8]) {
    let r = root.text_range();
    sym::check(usize::from(r.start()) == 0 && usize::from(r.end()) == b.len(), "the root covers the whole input");
    sym::check(root.kind() == SyntaxKind::Root, "the top node is Root");
    let end = cover(root, 0, b);
    sym::check(end == b.len(), "the leaves cover the whole input");
}

fn cover(n: &ResolvedNode, at: usize, b: &[u8]) -> usize {
    let r = n.text_range();
    sym::check(usize::from(r.start()) == at, "a node starts where the text before it ends");
    let mut p = at;
    for c in n.children_with_tokens() {
        match c {
            NodeOrToken::Node(c) => p = cover(c, p, b),
            NodeOrToken::Token(t) => {
                let x = t.text().as_bytes();
                let r = t.text_range();
                sym::check(usize::from(r.start()) == p && usize::from(r.end()) == p + x.len(), "a leaf starts where the text before it ends");
                sym::check(!x.is_empty(), "no leaf is empty");
                sym::check(p + x.len() <= b.len() && same(x, &b[p..p + x.len()]), "the text of a leaf is the input at its position");
                p += x.len();
            }
        }
    }
    sym::check(usize::from(r.end()) == p, "a node ends where its last child ends");
    p
}

/// white space and comments: the leaves of each gap between tokens
fn trivia(root: &ResolvedNode, b: &[u8], toks: &[Tok], tree: &Tree) {
    let ev = events(root);
    let lv = leaves(&ev);
    let mut p = 0;
    let mut k = 0;
    for t in toks {
        if t.start > p {
            sym::check(k < lv.len() && lv[k].kind == SyntaxKind::Whitespace && lv[k].start == p && lv[k].end == t.start, "a run of white space is one Whitespace leaf");
            k += 1;
        }
        sym::check(k < lv.len() && lv[k].start == t.start && lv[k].end == t.end, "each token and each comment is one leaf");
        sym::check(
            match t.t {
                COMMENT => lv[k].kind == SyntaxKind::C_COMMENT,
                SQL_COMMENT => lv[k].kind == SyntaxKind::SQL_COMMENT,
                _ => !is_trivia(lv[k].kind),
            },
            "comments, and nothing else, are comment leaves",
        );
        k += 1;
        p = t.end;
    }
    if p < b.len() {
        sym::check(k < lv.len() && lv[k].kind == SyntaxKind::Whitespace && lv[k].start == p && lv[k].end == b.len(), "a run of white space is one Whitespace leaf");
        k += 1;
    }
    sym::check(k == lv.len(), "there are no other leaves");
    // trivia stay outside the nodes: at the end of none but the root, at the start of one only if what the grammar
    // puts there is empty
    let mut i = 0;
    let mut lead: Vec<bool> = Vec::new();
    leading_empty(tree, tree.root, &mut lead);
    let mut node = 0;
    while i + 1 < ev.len() {
        if let (Ev::Leaf(l), Ev::Close) = (&ev[i], &ev[i + 1]) {
            if is_trivia(l.kind) {
                sym::check(i + 2 == ev.len(), "no node but the root ends with trivia");
            }
        }
        if let Ev::Open(..) = &ev[i] {
            if i > 0 {
                if let Ev::Leaf(l) = &ev[i + 1] {
                    if is_trivia(l.kind) && node < lead.len() {
                        sym::check(lead[node], "a node begins with trivia only after an empty constituent");
                    }
                }
                node += 1;
            }
        }
        i += 1;
    }
}

/// for each non-empty node in document order: is its first child empty?
fn leading_empty(t: &Tree, n: usize, out: &mut Vec<bool>) {
    if let Node::Inner { from, to, tokens, .. } = t.nodes[n] {
        if tokens == 0 && !KEEP_EMPTY {
            return;
        }
        let e = from < to && matches!(t.nodes[t.kids[from]], Node::Inner { tokens: 0, .. });
        out.push(e);
        for k in from..to {
            leading_empty(t, t.kids[k], out);
        }
    }
}

/// kinds (and, for tokens, spans) of the tree without trivia
pub fn stripped(ev: &[Ev]) -> Vec<&Ev> {
    ev.iter().filter(|e| !matches!(e, Ev::Leaf(l) if is_trivia(l.kind))).collect()
}

fn same_tree(root: &ResolvedNode, b: &[u8], toks: &[Tok], tree: &Tree) {
    let ev = events(root);
    let got = stripped(&ev);
    let mut want = vec![Ev::Open(SyntaxKind::Root, 0, 0)];
    expect(tree, toks, tree.root, &mut want);
    want.push(Ev::Close);
    sym::check(got.len() == want.len(), "the tree has the nodes of the derivation");
    for (g, w) in got.iter().zip(want.iter()) {
        match (g, w) {
            (Ev::Open(k, ..), Ev::Open(l, ..)) => sym::check(k == l, "a node has the kind of its nonterminal"),
            (Ev::Close, Ev::Close) => (),
            (Ev::Leaf(x), Ev::Leaf(y)) => {
                sym::check(x.kind == y.kind, "a leaf has the kind of its terminal");
                sym::check(x.start == y.start && x.end == y.end, "a leaf is the token's text");
                sym::check(x.end <= b.len() && same(x.text.as_bytes(), &b[x.start..x.end]), "a leaf is the token's text");
            }
            _ => sym::fail("the tree has the shape of the derivation"),
        }
    }
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3)
}

/// a digest of the outcome, compared with the compiled program's on sampled paths
fn observe(r: &Result<ResolvedNode, ParserError>) {
    let mut h = 0xcbf29ce484222325u64;
    match r {
        Ok(root) => {
            for e in events(root) {
                h = match e {
                    Ev::Open(k, s, e) => mix(mix(mix(h, k as u32 as u64), s as u64), e as u64),
                    Ev::Leaf(l) => mix(mix(mix(h, l.kind as u32 as u64 + 100000), l.start as u64), l.end as u64),
                    Ev::Close => mix(h, 7),
                }
            }
        }
        Err(ParserError::ParseError { start_byte_pos, end_byte_pos, .. }) => h = mix(mix(mix(h, 1), *start_byte_pos as u64), *end_byte_pos as u64),
        Err(ParserError::ScanError { message }) => h = mix(mix(h, 2), message.len() as u64),
        Err(ParserError::ScanReport(r)) => h = mix(mix(h, 3), r.position_in_bytes as u64),
    }
    sym::observe(&h.to_le_bytes());
}

pub fn check(f: &Full, b: &[u8], w: What) {
    let s = to_str(b);
    let real = parse(s);
    observe(&real);
    if w == What::Safe {
        match &real {
            Err(ParserError::ParseError { start_byte_pos, end_byte_pos, .. }) => {
                sym::check(start_byte_pos <= end_byte_pos && *end_byte_pos <= b.len(), "the range of an error lies within the text");
                sym::check(s.is_char_boundary(*start_byte_pos) && s.is_char_boundary(*end_byte_pos), "the range of an error is one of characters");
            }
            Err(ParserError::ScanReport(r)) => sym::check(r.position_in_bytes <= b.len(), "the position of a report lies within the text"),
            _ => (),
        }
        sym::reach(match real {
            Ok(_) => "tree",
            Err(ParserError::ParseError { .. }) => "syntax error",
            Err(_) => "scan error",
        });
        return;
    }
    for (i, &c) in b.iter().enumerate() {
        if c == 0 {
            match real {
                Err(ParserError::ScanReport(r)) => sym::check(r.position_in_bytes == i, "a null character is reported at its position"),
                _ => sym::fail("a null character is rejected"),
            }
            return;
        }
    }
    let toks = match f.tokens(b) {
        Ok(t) => t,
        Err(e) => {
            sym::reach("scan error");
            match (real, e) {
                (Ok(_), _) => sym::fail("a text that cannot be scanned is rejected"),
                (Err(ParserError::ScanError { message }), reflex::E::Msg(m)) => {
                    if w == What::Errors {
                        sym::check(message == m, "the message says what is wrong with the token")
                    }
                }
                (Err(ParserError::ScanReport(r)), reflex::E::At(m, p)) => {
                    if w == What::Errors {
                        sym::check(r.message == m, "the message says what is wrong with the token");
                        sym::check(r.position_in_bytes == p, "the report points at the token");
                    }
                }
                (Err(_), _) => {
                    if w == What::Errors {
                        sym::fail("a text that cannot be scanned is reported as a scan error")
                    }
                }
            }
            return;
        }
    };
    match (real, derive(&toks)) {
        (Ok(root), Ok(tree)) => {
            sym::reach("tree");
            match w {
                What::Lossless => lossless(&root, b),
                What::Trivia => trivia(&root, b, &toks, &tree),
                What::Tree => same_tree(&root, b, &toks, &tree),
                What::Tokens => same_tree(&root, b, &toks, &tree),
                What::Errors | What::Safe => (),
            }
        }
        (Err(e), Err(i)) => {
            sym::reach("syntax error");
            if w == What::Errors {
                let (s, e2) = if i < toks.len() { (toks[i].start, toks[i].end) } else { (b.len(), b.len()) };
                match e {
                    ParserError::ParseError { message, start_byte_pos, end_byte_pos } => {
                        sym::check(start_byte_pos == s, "a syntax error starts at the first token that cannot continue");
                        sym::check(end_byte_pos == e2, "a syntax error ends with the first token that cannot continue");
                        let mut want = String::from("syntax error at byte position ");
                        want.push_str(&s.to_string());
                        sym::check(message.ends_with(&want), "the message of a syntax error gives its position");
                    }
                    _ => sym::fail("a text that can be scanned is rejected with a syntax error"),
                }
            }
        }
        (Ok(_), Err(_)) => sym::fail("a text that is not a sentence of gram.y is rejected"),
        (Err(_), Ok(_)) => sym::fail("a sentence of gram.y is accepted"),
    }
}

pub fn what() -> What {
    match sym::param(7) {
        0 => What::Lossless,
        1 => What::Trivia,
        2 => What::Tree,
        3 => What::Errors,
        5 => What::Safe,
        _ => What::Tokens,
    }
}

/// a template: the one parameter 2 names, or any
pub fn pick(n: usize) -> usize {
    match sym::param(2) {
        0 => sym::choose(n),
        i => i - 1,
    }
}

/// params: 0 = template set, 1 = growth of the holes, 7 = what to check
pub fn templates() {
    let f = Full::new();
    let set = crate::templates::set(sym::param(0));
    let i = pick(set.len());
    sym::label(set[i]);
    let b = fill(set[i], sym::param(1));
    check(&f, &b, what());
}

/// params: 0 = free bytes, 1 = prefix, 7 = what to check
pub fn free() {
    let f = Full::new();
    let mut b = crate::templates::PREFIXES[sym::param(1)].as_bytes().to_vec();
    b.extend_from_slice(&sym::utf8(sym::param(0)));
    check(&f, &b, what());
}
