//! The generated parser and syntax kinds, read back.
use crate::cursor::{form, same, trying, Cursor};
use crate::grammar::*;
use parser_generator::verif as g;
use symrt as sym;

const NAMED: &[&str] = &["IDENT", "SELECT", "Op", "ICONST", "NOT_EQUALS", "NULLS_LA", "DOT_DOT", "IN_P", "A", "C_1"];

fn array(text: &str, name: &str) -> Vec<i64> {
    let mut c = Cursor::new(text);
    let what = "a table is a constant";
    c.go(&format!(" {name}:"));
    c.must("[", what);
    c.word();
    c.must(";", what);
    let n = c.number();
    c.must("]", what);
    c.must("=", what);
    c.must("[", what);
    let mut v = Vec::new();
    while !c.eat("]") {
        v.push(c.signed());
        c.eat(",");
    }
    sym::check(v.len() == n, "a table is as long as its type says");
    v
}

fn constant(text: &str, name: &str) -> usize {
    let mut c = Cursor::new(text);
    c.go(&format!("fn {name}()"));
    c.go("{");
    c.number()
}

/// a driver such as the one of the parser crate, on the tables read back
struct Driver {
    action: Vec<i64>,
    action_check: Vec<i64>,
    action_index: Vec<i64>,
    default: Vec<i64>,
    goto: Vec<i64>,
    goto_check: Vec<i64>,
    goto_index: Vec<i64>,
}

impl Driver {
    fn action(&self, s: usize, t: usize) -> i64 {
        let i = self.action_index[s] as usize + t;
        if self.action_check[i] != t as i64 {
            0x7fff
        } else if self.action[i] == 0x7ffe {
            self.default[s]
        } else {
            self.action[i]
        }
    }

    fn goto(&self, s: usize, n: usize) -> i64 {
        let i = self.goto_index[s] as usize + n;
        if self.goto_check[i] != n as i64 {
            -1
        } else {
            self.goto[i]
        }
    }
}

/// A grammar of some shapes with any of some terminals and an operator of any character.
/// param 0: 0 = any two other tokens, 1 = a token and its neighbour in the list, 2 = two operators
pub fn parser() {
    use Sym::*;
    let mut gr = Grammar::default();
    gr.terms = vec!["'+'".into(), "SELECT".into(), "Op".into()];
    gr.nonterms = vec!["stmt".into(), "x".into(), "opt_y".into()];
    gr.rules = vec![(0, vec![N(0), T(0), N(1)]), (0, vec![N(1)]), (1, vec![T(1), N(2)]), (2, vec![]), (2, vec![T(2)])];
    trying(true);
    read(gr);
    trying(false);
    let mut gr = Grammar::default();
    let mode = sym::param(0);
    let literal = || {
        let v = sym::bytes(1);
        sym::assume((v[0] > b' ') & (v[0] < 127) & !v[0].is_ascii_alphanumeric() & (v[0] != b'\'') & (v[0] != b'\\') & (v[0] != b'"') & (v[0] != b'_'));
        format!("'{}'", v[0] as char)
    };
    let lit = literal();
    let i = sym::choose(if mode == 2 { 1 } else { NAMED.len() });
    let a = if mode == 2 { literal() } else { NAMED[i].to_string() };
    let b = if mode == 0 { NAMED[sym::choose(NAMED.len())] } else { NAMED[(i + 1) % NAMED.len()] };
    if a == b || a == lit {
        return;
    }
    gr.terms = vec![lit, a, b.into()];
    let x = ["x", "b_expr"][sym::choose(if mode == 2 { 1 } else { 2 })].to_string();
    gr.nonterms = vec!["stmt".into(), x, "opt_y".into()];
    gr.rules = match sym::choose(if mode == 2 { 1 } else { 5 }) {
        // lists
        0 => vec![(0, vec![N(0), T(0), N(1)]), (0, vec![N(1)]), (1, vec![T(1), N(2)]), (2, vec![]), (2, vec![T(2)])],
        // what follows decides
        1 => vec![(0, vec![N(1), T(0)]), (0, vec![N(2), T(2)]), (1, vec![T(1)]), (2, vec![T(1)])],
        2 => vec![(0, vec![T(1), N(1), T(2)]), (1, vec![N(1), T(0), N(2)]), (1, vec![N(2)]), (2, vec![T(0)]), (2, vec![])],
        // nothing at all
        3 => vec![(0, vec![N(1), N(2)]), (1, vec![]), (1, vec![T(0)]), (2, vec![]), (2, vec![T(1), T(2), T(2)])],
        _ => vec![(0, vec![N(1)]), (1, vec![T(0), N(1), T(1)]), (1, vec![N(2)]), (2, vec![T(2)])],
    };
    read(gr);
}

/// what is written for the grammar
fn read(mut gr: Grammar) {
    use Sym::*;
    gr.prec = vec![None; gr.terms.len() + 1];
    gr.rule_prec = vec![None; gr.rules.len() + 1];
    let mut text = String::from("%%\n");
    for n in 0..gr.nonterms.len() {
        text.push_str(&gr.nonterms[n]);
        let mut sep = ": ";
        for r in gr.rules.iter().filter(|r| r.0 == n) {
            text.push_str(sep);
            sep = " | ";
            for s in &r.1 {
                text.push_str(match s {
                    T(k) => &gr.terms[*k],
                    N(k) => &gr.nonterms[*k],
                });
                text.push(' ');
            }
        }
        text.push_str(";\n");
    }
    text.push_str("%%\n");
    let t = gr.tables();
    if t.odd || t.conflict {
        return;
    }
    sym::label(&text);
    let bison = g::parse_bison(&text);
    let mut lalr = g::Lalr::new(&bison);
    lalr.build_lalr1_parse_table();
    parser_generator::written::take();
    g::emit(&bison, &lalr);
    let files = parser_generator::written::take();
    let file = |end: &str| files.iter().find(|f| f.0.ends_with(end)).map(|f| f.1.as_str()).unwrap_or("");
    let (p, k) = (file("postgresql-cst-parser/src/parser.rs"), file("postgresql-cst-parser/src/syntax_kind.rs"));
    form(!p.is_empty() && !k.is_empty(), "the parser and the syntax kinds are written");
    sym::reach("written");

    // numbers of the terminals
    let mut c = Cursor::new(p);
    let what = "every token the grammar uses has its number";
    c.go("fn token_kind_to_component_id");
    c.go("match kind");
    c.go("{");
    let mut ids: Vec<Option<usize>> = vec![None; gr.terms.len()];
    let mut comments = Vec::new();
    let mut end = None;
    let mut count = 0;
    while c.eat("TokenKind::") {
        let w = c.word();
        let which: Option<String> = if w == "RAW" || w == "KEYWORD" {
            c.must("(s) if s ==", what);
            let q = c.quoted();
            Some(if w == "RAW" { format!("'{q}'") } else { q })
        } else {
            Some(w)
        };
        c.must("=>", what);
        let id = c.number();
        c.must(",", what);
        let which = which.unwrap();
        if which == "C_COMMENT" || which == "SQL_COMMENT" {
            comments.push((which, id));
            continue;
        }
        count += 1;
        if which == "'$end'" {
            end = Some(id);
            continue;
        }
        match gr.terms.iter().position(|t| same(t, &which)) {
            Some(i) => {
                sym::check(ids[i].is_none(), what);
                ids[i] = Some(id);
            }
            None => sym::fail("no token has a number that the grammar does not use"),
        }
    }
    let used = |i: usize| gr.rules.iter().any(|r| r.1.contains(&T(i)));
    sym::check((0..3).all(|i| ids[i].is_some() == used(i)), what);
    sym::check(end == Some(constant(p, "end_rule_id")), "the end of the text is a terminal of its own");
    let nt = constant(p, "num_terminal_symbol");
    sym::check(nt == count, "the number of terminals is given");
    let mut all: Vec<usize> = ids.iter().flatten().copied().chain(end).collect();
    all.sort();
    sym::check(all.iter().enumerate().all(|(i, &x)| i == x), "terminals have the numbers from 0");
    let mut c = Cursor::new(p);
    c.go("fn end_rule_kind()");
    c.go("{");
    c.must("TokenKind::RAW(\"$end\".to_string())", "the end of the text has its token");

    // numbers of the nonterminals
    let nn = constant(p, "num_non_terminal_symbol");
    let mut c = Cursor::new(p);
    let what = "every nonterminal has its number";
    c.go("fn rule_name_to_component_id");
    c.go("match name");
    c.go("{");
    let mut nid: Vec<Option<usize>> = vec![None; gr.nonterms.len()];
    let mut top = None;
    loop {
        c.gap();
        if !c.here("\"") {
            break;
        }
        let q = c.quoted();
        c.must("=>", what);
        let id = c.number();
        c.must(",", what);
        match gr.nonterms.iter().position(|t| *t == q) {
            Some(i) => nid[i] = Some(id),
            None => {
                sym::check(top.is_none(), "no other nonterminal has a number than the start");
                top = Some(id);
            }
        }
    }
    sym::check(nid.iter().all(|x| x.is_some()), what);
    let mut all: Vec<usize> = nid.iter().flatten().copied().chain(top).collect();
    all.sort();
    sym::check(all.len() == nn && all.iter().enumerate().all(|(i, &x)| i == x), "nonterminals have the numbers from 0");
    // comments come after both
    sym::check(comments.len() == 2 && comments.iter().all(|x| x.1 == nt + nn || x.1 == nt + nn + 1) && comments[0].1 != comments[1].1, "comments have the numbers after all symbols");

    // rules
    let mut c = Cursor::new(p);
    let what = "the rules are those of the grammar";
    c.go(" RULES:");
    c.go("=");
    c.must("[", what);
    let mut rules = Vec::new();
    while !c.eat("]") {
        c.must("Rule", what);
        c.must("{", what);
        c.must("name:", what);
        let n = c.quoted();
        c.must(",", what);
        c.must("len:", what);
        rules.push((n, c.number()));
        c.eat(",");
        c.must("}", what);
        c.eat(",");
    }
    sym::check(rules.len() >= gr.rules.len() && gr.rules.iter().zip(&rules).all(|(r, w)| gr.nonterms[r.0] == w.0 && r.1.len() == w.1), what);

    // kinds
    let mut c = Cursor::new(k);
    let what = "there is a syntax kind for every number";
    c.go("enum SyntaxKind");
    c.must("{", what);
    let mut kinds = Vec::new();
    while !c.eat("}") {
        kinds.push(c.word());
        c.must(",", what);
    }
    sym::check(kinds.len() == nt + nn + 4, what);
    sym::check((0..kinds.len()).all(|i| !kinds[i].is_empty() && !kinds[i].as_bytes()[0].is_ascii_digit() && !kinds[..i].contains(&kinds[i])), "every number has a kind of its own");
    if kinds.len() == nt + nn + 4 {
        for (n, id) in gr.nonterms.iter().zip(&nid) {
            sym::check(id.map_or(false, |i| kinds[nt + i] == *n), "a nonterminal's kind has its name");
        }
        for (t, id) in gr.terms.iter().zip(&ids).filter(|x| !x.0.starts_with('\'')) {
            sym::check(id.map_or(true, |i| kinds[i] == *t), "a token's kind has its name");
        }
        for (n, i) in &comments {
            sym::check(kinds[*i] == *n, "a comment's kind has its name");
        }
        sym::check(kinds[nt + nn + 2] == "Whitespace" && kinds[nt + nn + 3] == "Root", "white space and the root come last");
    }

    // the tables, from the start state side by side with a construction of our own
    let d = Driver {
        action: array(p, "ACTION_TABLE"),
        action_check: array(p, "ACTION_CHECK_TABLE"),
        action_index: array(p, "ACTION_TABLE_INDEX"),
        default: array(p, "ACTION_DEF_RULE_TABLE"),
        goto: array(p, "GOTO_TABLE"),
        goto_check: array(p, "GOTO_CHECK_TABLE"),
        goto_index: array(p, "GOTO_TABLE_INDEX"),
    };
    let mut tid: Vec<Option<usize>> = ids.clone();
    tid.push(end);
    let mut pairs = vec![(0usize, 0usize)];
    let mut i = 0;
    while i < pairs.len() {
        let (a, b) = pairs[i];
        i += 1;
        for (k, id) in tid.iter().enumerate() {
            let Some(id) = id else { continue };
            match (d.action(a, *id), t.action[b][k]) {
                (0x7fff, Act::Error) | (0, Act::Accept) => (),
                (x, Act::Shift(y)) if x > 0 && x != 0x7fff => {
                    if !pairs.contains(&(x as usize - 1, y)) {
                        pairs.push((x as usize - 1, y));
                    }
                }
                (x, Act::Reduce(q)) if x < 0 => sym::check(-x - 1 == q as i64, "the tables that are written are those of the grammar"),
                _ => sym::fail("the tables that are written are those of the grammar"),
            }
        }
        for (k, id) in nid.iter().enumerate() {
            match (d.goto(a, id.unwrap()), t.goto[b][k]) {
                (-1, None) => (),
                (x, Some(y)) if x >= 0 => {
                    if !pairs.contains(&(x as usize, y)) {
                        pairs.push((x as usize, y));
                    }
                }
                _ => sym::fail("the tables that are written are those of the grammar"),
            }
        }
    }
    sym::check(pairs.len() == t.action.len() && d.action_index.len() == t.action.len(), "the tables that are written are those of the grammar");
    sym::reach("tables");
}
