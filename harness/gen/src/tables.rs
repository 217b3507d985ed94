use crate::grammar::*;
use parser_generator::verif as g;
use symrt as sym;

fn term(s: &str) -> g::Component {
    g::Component::Terminal(g::TokenKind::from(s))
}

/// the generator's tables for the text of a grammar are those of the grammar
fn compare(text: &str, gr: &Grammar) {
    let bison = g::parse_bison(text);
    sym::check(bison.rules.len() == gr.rules.len(), "every rule of the grammar is read");
    if bison.rules.len() != gr.rules.len() {
        return;
    }
    let component = |s: &Sym| match s {
        Sym::T(k) => term(&gr.terms[*k]),
        Sym::N(k) => g::Component::NonTerminal(gr.nonterms[*k].clone()),
    };
    for (b, r) in bison.rules.iter().zip(&gr.rules) {
        sym::check(b.name == gr.nonterms[r.0] && b.components.len() == r.1.len() && b.components.iter().zip(&r.1).all(|(x, y)| *x == component(y)), "a rule is read as it is written");
    }
    let t = gr.tables();
    if t.odd {
        sym::reach("outside");
        return;
    }
    let mut lalr = g::Lalr::new(&bison);
    lalr.build_lalr1_parse_table();
    let n = lalr.state_set.states.len();
    sym::check(n == t.action.len(), "there is a state for each LR(0) item set");
    let tid: Vec<_> = gr.terms.iter().map(|s| term(s)).chain([lalr.end_rule_component.clone()]).collect();
    // a terminal that only a precedence mentions, or none at all, need not be known
    let tid: Vec<_> = tid.iter().map(|c| lalr.id_mapper.contains(c).then(|| lalr.id_mapper.to_component_id(c))).collect();
    let nid: Vec<_> = gr.nonterms.iter().map(|s| lalr.id_mapper.to_component_id(&g::Component::NonTerminal(s.clone()))).collect();
    // the states that a text leads to, side by side
    let mut pairs = vec![(0usize, 0usize)];
    let mut i = 0;
    while i < pairs.len() {
        let (a, b) = pairs[i];
        i += 1;
        let mut meet = |x: usize, y: usize| {
            if !pairs.contains(&(x, y)) {
                // one state of ours for each of theirs
                sym::check(!pairs.iter().any(|p| p.0 == x || p.1 == y), "the states correspond");
                pairs.push((x, y));
            }
        };
        for (k, id) in tid.iter().enumerate() {
            let got = id.and_then(|id| lalr.action_table.get(&(a, id)));
            match (got, t.action[b][k]) {
                (None | Some(g::Action::Error), Act::Error) => (),
                (Some(g::Action::Accept), Act::Accept) => sym::reach("accept"),
                (Some(g::Action::Reduce(r)), Act::Reduce(q)) => {
                    sym::check(*r == q, "the rule that is reduced is the right one");
                    sym::reach("reduce")
                }
                (Some(g::Action::Shift(x)), Act::Shift(y)) => {
                    meet(*x, y);
                    sym::reach("shift")
                }
                _ => sym::fail("the action of every state and terminal is the right one"),
            }
        }
        for (k, id) in nid.iter().enumerate() {
            match (lalr.goto_table.get(&(a, *id)), t.goto[b][k]) {
                (None, None) => (),
                (Some(x), Some(y)) => {
                    meet(*x, y);
                    sym::reach("goto")
                }
                _ => sym::fail("the state after every nonterminal is the right one"),
            }
        }
    }
    if t.conflict {
        sym::reach("conflict");
    }
    if sym::param(1) == 1 {
        compressed(&lalr, sym::choose(2) == 1);
    }
}

fn parts(lalr: &g::Lalr) -> (Vec<g::Component>, Vec<g::Component>) {
    let all = &lalr.id_mapper.components;
    (all.iter().filter(|c| matches!(c, g::Component::Terminal(_))).cloned().collect(), all.iter().filter(|c| matches!(c, g::Component::NonTerminal(_))).cloned().collect())
}

fn pick(c: bool, a: i16, b: i16) -> i16 {
    let m = -(c as i16);
    (a & m) | (b & !m)
}

#[cfg(not(feature = "tables"))]
fn compressed(_: &g::Lalr, _: bool) {}

/// the compressed tables give back every cell
#[cfg(feature = "tables")]
fn compressed(lalr: &g::Lalr, gotos: bool) {
    let (terms, nonterms) = parts(lalr);
    let n = lalr.state_set.states.len();
    let mut want = Vec::new();
    for s in 0..n {
        for c in &terms {
            let id = lalr.id_mapper.to_component_id(c);
            want.push(match lalr.action_table.get(&(s, id)) {
                None | Some(g::Action::Error) => 0x7fff,
                Some(g::Action::Accept) => 0,
                Some(g::Action::Shift(s)) => *s as i16 + 1,
                Some(g::Action::Reduce(r)) => -(*r as i16) - 1,
            });
        }
    }
    let b = sym::bytes(2);
    let (s, k) = (b[0] as usize, b[1] as usize);
    if !gotos {
        let (offset, values, check, default) = g::actions(lalr, &terms);
        sym::assume((s < n) & (k < terms.len()));
        let i = offset[s] as usize + k;
        sym::check(i < values.len() && i < check.len(), "a cell is in the table");
        let got = pick(check[i] != k as i16, 0x7fff, pick(values[i] == 0x7ffe, default[s], values[i]));
        sym::check(got == want[s * terms.len() + k], "every cell of the compressed action table is that of the full one");
        sym::reach("cell");
    } else {
        let (offset, values, check) = g::gotos(lalr, &nonterms);
        let mut want = Vec::new();
        for s in 0..n {
            for c in &nonterms {
                let id = lalr.id_mapper.to_component_id(c);
                want.push(lalr.goto_table.get(&(s, id)).map_or(-1, |x| *x as i16));
            }
        }
        sym::assume((s < n) & (k < nonterms.len()));
        let i = offset[s] as usize + k;
        sym::check(i < values.len() && i < check.len(), "a cell is in the table");
        let got = pick(check[i] != k as i16, -1, values[i]);
        sym::check(got == want[s * nonterms.len() + k], "every cell of the compressed goto table is that of the full one");
        sym::reach("goto cell");
    }
}

fn slot(b: u8, out: &mut Vec<Sym>, nt: &[u8]) {
    if b == b' ' {
        return;
    }
    if let Some(k) = nt.iter().position(|c| *c == b) {
        out.push(Sym::N(k));
    } else if b == b'a' {
        out.push(Sym::T(0));
    } else {
        out.push(Sym::T(1));
    }
}

/// shapes of small grammars: how many symbols the alternatives of each nonterminal have at most
const SHAPES: &[&[&[usize]]] = &[
    &[&[2, 1], &[2]],
    &[&[2], &[2, 1]],
    &[&[3], &[1, 1]],
    &[&[2, 2]],
    &[&[3, 1]],
    &[&[1, 1], &[1, 1]],
    &[&[2, 2, 1]],
    &[&[2], &[1, 1], &[1]],
    &[&[2, 2], &[2]],
    &[&[3, 1], &[2]],
    &[&[2, 1], &[2, 1]],
    &[&[4], &[1, 1]],
    &[&[2], &[2], &[2]],
    &[&[2, 1], &[2], &[1, 1]],
    &[&[2, 2, 2]],
    &[&[3, 3]],
    &[&[3], &[2, 2]],
    &[&[3, 2], &[2, 1]],
    &[&[2], &[2, 1], &[2]],
    &[&[2, 2, 1], &[2]],
];

/// Every grammar of a shape: its symbols are any of two terminals, the nonterminals, or missing.
/// param 0: shape
pub fn rules() {
    let shape = SHAPES[sym::param(0)];
    let nt: &[u8] = &b"SAB"[..shape.len()];
    let mut letters = b"ab ".to_vec();
    letters.extend(nt);
    let mut gr = Grammar { terms: vec!["a".into(), "b".into()], nonterms: nt.iter().map(|c| (*c as char).to_string()).collect(), prec: vec![None; 3], ..Default::default() };
    let mut text = b"%%\n".to_vec();
    for (k, alts) in shape.iter().enumerate() {
        text.push(nt[k]);
        for (j, n) in alts.iter().enumerate() {
            text.push(if j == 0 { b':' } else { b'|' });
            let v = sym::bytes_in(*n, &letters);
            let mut rhs = Vec::new();
            for i in 0..*n {
                // what is missing comes last
                if i + 1 < *n {
                    sym::assume((v[i] != b' ') | (v[i + 1] == b' '));
                }
                slot(v[i], &mut rhs, nt);
                text.push(b' ');
                text.push(v[i]);
            }
            gr.rules.push((k, rhs));
        }
        text.extend(b" ;\n");
    }
    text.extend(b"%%\n");
    gr.rule_prec = vec![None; gr.rules.len()];
    if !gr.useful() {
        return;
    }
    compare(std::str::from_utf8(&text).unwrap(), &gr);
}

/// Expressions with operators whose precedence and associativity are declared in any way.
/// param 0: lines of declarations, param 2: how the rules look
pub fn prec() {
    let ops = ["'+'", "'*'", "NEG"];
    let mut gr = Grammar { terms: ["'+'", "'*'", "NEG", "n"].iter().map(|s| s.to_string()).collect(), nonterms: vec!["E".into()], prec: vec![None; 5], ..Default::default() };
    let mut text = String::from("/* operators */\n%token <str> n\n");
    let mut level = 0;
    for _ in 0..sym::param(0) {
        let (word, assoc) = [("%left", Assoc::Left), ("%right", Assoc::Right), ("%nonassoc", Assoc::Non)][sym::choose(3)];
        // one or two of the operators that have none yet
        let mut names = String::new();
        for (k, op) in ops.iter().enumerate() {
            if gr.prec[k].is_none() && sym::choose(2) == 0 {
                gr.prec[k] = Some((level, assoc));
                names.push_str(if names.is_empty() { "\t" } else { [" ", "\n\t\t"][sym::choose(2)] });
                names.push_str(op);
            }
        }
        if names.is_empty() {
            return;
        }
        text.push_str(word);
        text.push_str(&names);
        text.push_str(["\n", "\t/* and so on */\n"][sym::param(3)]);
        level += 1;
    }
    text.push_str("%%\nE: E '+' E { $$ = f($1, $3); }");
    let mut rp = vec![gr.prec[0]];
    // %prec of any operator
    let with = |text: &mut String, own: Option<(usize, Assoc)>| match sym::choose(if gr.prec[2].is_some() { 3 } else { 2 }) {
        0 => own,
        k => {
            text.push_str(" %prec ");
            if k == 2 {
                text.push_str("NEG");
                gr.prec[2]
            } else {
                // %prec takes a name
                text.push_str("n");
                gr.prec[3]
            }
        }
    };
    let p;
    match sym::param(2) {
        0 => {
            text.push_str("\n | '+' E");
            p = with(&mut text, gr.prec[0]);
            gr.rules.push((0, vec![Sym::T(0), Sym::N(0)]));
        }
        1 => {
            text.push_str("\n | E '+'");
            p = with(&mut text, gr.prec[0]);
            gr.rules.push((0, vec![Sym::N(0), Sym::T(0)]));
        }
        _ => {
            // the last terminal counts
            text.push_str("\n | E '+' E NEG E");
            p = with(&mut text, gr.prec[2]);
            gr.rules.push((0, vec![Sym::N(0), Sym::T(0), Sym::N(0), Sym::T(2), Sym::N(0)]));
        }
    }
    rp.push(p);
    rp.push(gr.prec[1]);
    gr.rules.insert(0, (0, vec![Sym::N(0), Sym::T(0), Sym::N(0)]));
    gr.rules.push((0, vec![Sym::N(0), Sym::T(1), Sym::N(0)]));
    text.push_str("\n | E '*' E\n | n ;\n%%\n");
    gr.rules.push((0, vec![Sym::T(3)]));
    rp.push(gr.prec[3]);
    gr.rule_prec = rp;
    sym::label(&text.replace('\n', " "));
    compare(&text, &gr);
}

/// Grammars known for telling the constructions apart, with their letters exchanged in any way
const CLASSIC: &[&str] = &[
    // LALR(1), not SLR(1)
    "S:L'='R|R;L:'*'R|i;R:L",
    // LR(1), not LALR(1): merging makes two reductions meet
    "S:aAd|bBd|aBe|bAe;A:c;B:c",
    // not SLR(1): what follows a nonterminal depends on where it is
    "S:aAc|bAdc;A:z|",
    // nothing, at every place
    "S:ABC;A:a|;B:b|;C:c|",
    // lists with and without separators
    "S:L;L:L','e|e;e:x|x'('L')'",
    "S:M;M:e M|;e:a|b",
    // the dangling else
    "S:iES|iESlS|x;E:e",
    // mutual recursion through empty ones
    "S:AaB;A:B|a;B:A|b|",
    // lookahead that travels through several unit rules
    "S:Aa|bAc|dc|bda;A:d",
    "S:Aa|Bb;A:C;B:C;C:c",
    "S:aSb|A;A:cA|",
    "S:E;E:E'+'T|T;T:T'*'F|F;F:'('E')'|n",
];

pub fn classic() {
    let k = sym::choose(CLASSIC.len());
    let src = CLASSIC[k];
    sym::label(src);
    let mut gr = Grammar::default();
    let lhs: Vec<&str> = src.split(';').collect();
    for r in &lhs {
        gr.nonterms.push(r[..1].to_string());
    }
    // one place of the grammar, or none, holds another symbol
    let total: usize = 1 + src.bytes().filter(|b| b.is_ascii_alphabetic()).count();
    let change = if sym::param(2) == 1 { sym::choose(total) } else { 0 };
    let mut letters: Vec<u8> = src.bytes().filter(|b| b.is_ascii_alphabetic()).collect();
    letters.sort();
    letters.dedup();
    let other = if change > 0 { letters[sym::choose(letters.len())] } else { 0 };
    let mut seen = 0;
    let mut text = String::from("%%\n");
    for (i, r) in lhs.iter().enumerate() {
        text.push_str(&r[..1]);
        text.push_str(":");
        seen += 1;
        if seen == change {
            return;
        }
        for (j, alt) in r[2..].split('|').enumerate() {
            if j > 0 {
                text.push_str("\n  | ");
            }
            let mut rhs = Vec::new();
            let b = alt.as_bytes();
            let mut p = 0;
            while p < b.len() {
                let mut name = if b[p] == b'\'' {
                    p += 3;
                    alt[p - 3..p].to_string()
                } else {
                    p += 1;
                    alt[p - 1..p].to_string()
                };
                if name == " " {
                    continue;
                }
                if name.len() == 1 {
                    seen += 1;
                    if seen == change {
                        name = (other as char).to_string();
                    }
                }
                text.push_str(" ");
                text.push_str(&name);
                rhs.push(match gr.nonterms.iter().position(|n| *n == name) {
                    Some(k) => Sym::N(k),
                    None => {
                        let k = gr.terms.iter().position(|n| *n == name).unwrap_or_else(|| {
                            gr.terms.push(name);
                            gr.terms.len() - 1
                        });
                        Sym::T(k)
                    }
                });
            }
            gr.rules.push((i, rhs));
        }
        text.push_str(";\n");
    }
    text.push_str("%%\n");
    gr.prec = vec![None; gr.terms.len() + 1];
    gr.rule_prec = vec![None; gr.rules.len()];
    if !gr.useful() {
        return;
    }
    compare(&text, &gr);
}

/// any action and goto table of a few states and symbols
/// param 0: states, param 2: terminals, param 3: 1 = gotos
#[cfg(not(feature = "tables"))]
pub fn matrix() {}

#[cfg(feature = "tables")]
pub fn matrix() {
    let (n, t) = (sym::param(0), sym::param(2));
    let mut names = String::from("%%\nS: A");
    for k in 0..t - 1 {
        names.push_str(" ");
        names.push((b'a' + k as u8) as char);
    }
    names.push_str("; A: a;\n%%\n");
    let bison = g::parse_bison(&names);
    let mut lalr = g::Lalr::new(&bison);
    let (terms, nonterms) = parts(&lalr);
    let gotos = sym::param(3) == 1;
    for s in 0..n {
        lalr.state_set.states.push(g::state());
        let mut any = false;
        if gotos {
            for c in &nonterms {
                let id = lalr.id_mapper.to_component_id(c);
                let x = sym::choose(3);
                if x > 0 {
                    lalr.goto_table.insert((s, id), x - 1);
                }
            }
            continue;
        }
        for c in &terms {
            let id = lalr.id_mapper.to_component_id(c);
            let a = match sym::choose(4) {
                0 => None,
                1 => Some(g::Action::Shift(0)),
                2 => Some(g::Action::Reduce(0)),
                _ => Some(g::Action::Shift(1)),
            };
            if let Some(a) = a {
                any = true;
                lalr.action_table.insert((s, id), a);
            }
        }
        if !any {
            return;
        }
    }
    compressed(&lalr, gotos);
}

/// Any text around and in the rules of a grammar file that does not matter.
/// param 0: 0 = comments and white space, 1 = actions, 2 = names and literals; param 2: free characters; param 3: 1 = an action with a literal or a comment
pub fn text() {
    let n = sym::param(2);
    let mut gr = Grammar { terms: vec!["'+'".into(), "NUM".into()], nonterms: vec!["S".into(), "expr_1".into()], prec: vec![None; 3], rule_prec: vec![None; 4], ..Default::default() };
    use Sym::*;
    gr.rules = vec![(0, vec![N(1), T(0), N(0)]), (0, vec![N(1)]), (1, vec![T(1)]), (1, vec![])];
    let mut tokens = vec!["S", ":", "expr_1", "'+'", "S", "{}", "|", "expr_1", "{}", ";", "expr_1", ":", "NUM", "{}", "|", ";", ""];
    let mut out = Vec::from("%{\n#include \"x.h\"\n%}\n%token <str>\tNUM\n%type <node> S\n\texpr_1\n\n%%\n\n");
    let (mut name, mut lit) = (String::new(), String::new());
    match sym::param(0) {
        2 => {
            // any name for the nonterminal or the terminal, any character for the literal
            let which = sym::choose(3);
            let mut letters: Vec<u8> = (b'a'..=b'z').chain(b'A'..=b'Z').collect();
            if which == 2 {
                let v = sym::bytes(1);
                sym::assume((v[0] > b' ') & (v[0] < 127) & (v[0] != b'\'') & (v[0] != b'\\'));
                lit = String::from_utf8([b"'", &v[..], b"'"].concat()).unwrap();
                gr.terms[0] = lit.clone();
                tokens[3] = &lit;
            } else {
                let mut v = sym::bytes_in(1, &letters);
                letters.extend(b"0123456789_");
                v.extend(sym::bytes_in(n, &letters));
                sym::assume(!((v == b"S") | (v == b"NUM") | (v == b"expr_1")));
                name = String::from_utf8(v).unwrap();
                if which == 0 {
                    gr.nonterms[1] = name.clone();
                    for t in &mut tokens {
                        if *t == "expr_1" {
                            *t = &name;
                        }
                    }
                } else {
                    gr.terms[1] = name.clone();
                    tokens[12] = &name;
                }
            }
        }
        _ => (),
    }
    let actions = [5, 8, 13];
    let place = match sym::param(0) {
        0 => sym::choose(tokens.len()),
        1 => actions[sym::choose(3)],
        _ => 99,
    };
    for (i, t) in tokens.iter().enumerate() {
        out.push(b' ');
        if i == place && sym::param(0) == 0 {
            let set = b"*/{};|:'%a \n";
            match sym::choose(3) {
                0 => {
                    let v = sym::bytes_in(n, set);
                    for w in v.windows(2) {
                        sym::assume((w[0] != b'*') | (w[1] != b'/'));
                    }
                    out.extend(b"/*");
                    out.extend(&v);
                    out.extend(b"*/");
                }
                1 => {
                    let v = sym::bytes_in(n, set);
                    for c in &v {
                        sym::assume(*c != b'\n');
                    }
                    out.extend(b"//");
                    out.extend(&v);
                    out.push(b'\n');
                }
                _ => {
                    let v = sym::bytes_in(n, b" \t\n\r\x0c");
                    out.extend(&v);
                }
            }
            out.push(b' ');
        }
        if i == place && sym::param(0) == 1 {
            // pieces of C: braces in pairs, outside of literals and comments
            const PIECES: [&[u8]; 8] = [b"'\"'", b"'\\''", b"\"'\"", b"'{'", b"\"}\\\"{\"", b"/* } ' */", b"// {\"\n", b"\"/*\""];
            let mut v = Vec::new();
            let k = if sym::param(3) > 0 { 1 + sym::choose(PIECES.len()) } else { 0 };
            let at = if k > 0 { sym::choose(n + 1) } else { n + 1 };
            let free = sym::bytes_in(n, b"{};|:%a \n/*$@");
            let mut depth = 0i32;
            let mut ok = true;
            for i in 0..n + 1 {
                if i == at {
                    v.extend(PIECES[k - 1]);
                }
                if i < n {
                    depth += (free[i] == b'{') as i32 - (free[i] == b'}') as i32;
                    ok &= depth >= 0;
                    v.push(free[i]);
                }
            }
            sym::assume(ok & (depth == 0));
            // no other comment in it
            let mut i = 0;
            for j in 0..n {
                if j == at {
                    i += PIECES[k - 1].len();
                }
                let next = if i + 1 < v.len() { v[i + 1] } else { b'}' };
                sym::assume((v[i] != b'/') | ((next != b'*') & (next != b'/')));
                i += 1;
            }
            out.push(b'{');
            out.extend(&v);
            out.push(b'}');
        } else {
            out.extend(t.as_bytes());
        }
    }
    // a line that begins with %% ends the rules, wherever it is
    let open = b"\n%%\n\n".len();
    let from = out.windows(open).position(|w| w == b"\n%%\n\n").unwrap() + open;
    for w in out[from..].windows(3) {
        sym::assume((w[0] != b'\n') | (w[1] != b'%') | (w[2] != b'%'));
    }
    out.extend(b"\n%%\nint f() { return 1; }\n");
    let text = match String::from_utf8(out) {
        Ok(t) => t,
        Err(_) => return,
    };
    sym::reach("text");
    compare(&text, &gr);
}
