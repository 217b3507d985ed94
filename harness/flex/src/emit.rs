//! The parts of the generated scanner, read back.
use crate::cursor::{form, same, text, trying, Cursor};
use crate::pat;
use lexer_generator::verif as g;
use symrt as sym;

/// `=> { action }`
fn arm(c: &mut Cursor, action: &str) {
    c.must("=>", "an arm has an action");
    c.must("{", "an arm has an action");
    c.says(action.trim(), "a rule has the action written for it");
    c.must("}", "a rule has the action written for it and nothing else");
    c.eat(",");
}

/// param 0: rules; param 1: free characters in the action of one; param 2: up to how many start conditions
pub fn emit() {
    trying(true);
    let rule = |s: &[&str], p: &str, a: &str| g::Rule { states: s.iter().map(|s| s.to_string()).collect(), pattern: p.into(), actions: a.into() };
    read(&["INITIAL", "A"], vec![rule(&["INITIAL"], "{x}+", "{ f(); }\n"), rule(&["A"], "ab{y}", "|\n"), rule(&["INITIAL", "A"], "<<EOF>>", "{ g(); }\n")]);
    trying(false);
    let (n, free) = (sym::param(0), sym::param(1));
    let names: &[&str] = [&["INITIAL"][..], &["INITIAL", "A"], &["INITIAL", "xB", "A1"]][sym::choose(sym::param(2))];
    let mut rules: Vec<g::Rule> = Vec::new();
    let place = sym::choose(n);
    for i in 0..n {
        let set = 1 + sym::choose((1 << names.len()) - 1);
        let states: Vec<String> = (0..names.len()).filter(|s| set >> s & 1 == 1).map(|s| names[s].to_string()).collect();
        let pattern = ["{x}+", "<<EOF>>", "ab{y}", "[^*/]"][sym::choose(if n > 2 { 2 } else { 4 })].to_string();
        let actions = if i == place {
            let v = sym::bytes(free);
            for c in &v {
                sym::assume((*c == b'\n') | ((*c >= b' ') & (*c < 127) & (*c != b'/')));
            }
            text(v)
        } else {
            ["{ f(); }\n", "|\n", " ;\n"][sym::choose(3)].to_string()
        };
        rules.push(g::Rule { states, pattern, actions });
    }
    // a rule that shares its action has one to share it with
    sym::assume(rules[n - 1].actions.trim() != "|");
    let used = |s: &str| rules.iter().any(|r| r.states.iter().any(|t| t == s));
    if !names.iter().all(|s| used(s)) {
        return;
    }
    sym::reach(if rules.iter().any(|r| r.actions.trim() == "|") { "shared" } else { "own" });
    read(names, rules);
}

fn read(names: &[&str], rules: Vec<g::Rule>) {
    let n = rules.len();
    let share: Vec<bool> = rules.iter().map(|r| r.actions.trim() == "|").collect();
    // whose action a rule has
    let own: Vec<usize> = (0..n).map(|i| (i..n).find(|&j| !share[j]).unwrap()).collect();
    let mut label = String::new();
    for r in &rules {
        label.push_str(&format!("<{}>{} ", r.states.join(","), r.pattern));
    }
    sym::label(&label);
    let f = g::FlexFile {
        all_states: names.iter().map(|s| s.to_string()).collect(),
        definitions: vec![
            g::Definition { name: "x".into(), def: "[a-b]".into() },
            g::Definition { name: "y".into(), def: "{x}|c".into() },
        ],
        rules,
        rest_code: String::new(),
    };
    // the start conditions
    let t = g::states(&f);
    let mut c = Cursor::new(&t);
    for s in names {
        let w = c.word();
        sym::check(w == *s, "the start conditions are those of the file");
        c.eat(",");
    }
    sym::check(c.done(), "the start conditions are those of the file");

    // names of the rules
    let t = g::kinds(&f);
    let mut c = Cursor::new(&t);
    let mut kinds: Vec<String> = Vec::new();
    while !c.done() {
        let w = c.word();
        sym::check(!w.is_empty() && !kinds.contains(&w), "every rule has a name of its own");
        if w.is_empty() {
            return;
        }
        kinds.push(w);
        c.eat(",");
    }

    // the rules
    let t = g::defs(&f);
    let mut c = Cursor::new(&t);
    let mut rule_of: Vec<(String, usize)> = Vec::new();
    let mut seen: Vec<(String, usize)> = names.iter().map(|s| (s.to_string(), 0)).collect();
    while !c.done() {
        let what = "a rule is its start condition, pattern and name";
        c.must("Rule", what);
        c.must("{", what);
        c.must("state", what);
        c.must(":", what);
        c.must("State::", what);
        let s = c.word();
        let Some(e) = seen.iter_mut().find(|e| e.0 == s) else {
            sym::check(false, "a rule has a start condition of the file");
            return;
        };
        // the next rule of that start condition
        let next = (e.1..n).find(|&i| f.rules[i].states.contains(&s));
        let Some(i) = next else {
            sym::check(false, "a start condition has no more rules than the file gives it");
            return;
        };
        e.1 = i + 1;
        c.must(",", what);
        c.must("pattern", what);
        c.must(":", what);
        c.must("regex::bytes::Regex::new(r#\"(?-u)^(", what);
        let (p, _) = g::pattern(&f, &f.rules[i].pattern);
        c.says(&p, "a rule has its own pattern");
        c.must(")\"#).unwrap()", what);
        c.must(",", what);
        c.must("kind", what);
        c.must(":", what);
        c.must("RuleKind::", what);
        let k = c.word();
        sym::check(kinds.contains(&k) && !rule_of.iter().any(|r| r.0 == k), "every rule has a name of its own");
        rule_of.push((k, i));
        c.must(",", what);
        c.must("eof", what);
        c.must(":", what);
        let eof = c.word();
        sym::check((eof == "true") == (f.rules[i].pattern == "<<EOF>>"), "the rules for the end of the file are marked, and only those");
        c.eat(",");
        c.must("}", what);
        c.eat(",");
    }
    for (s, i) in &seen {
        sym::check(!(*i..n).any(|i| f.rules[i].states.contains(s)), "a start condition has all its rules");
    }
    sym::check(rule_of.len() == kinds.len(), "every name is that of a rule");

    // whether two rules do the same
    let text_of = |i: usize| f.rules[own[i]].actions.trim();
    let alike = |i: usize, j: usize| own[i] == own[j] || same(text_of(i), text_of(j));

    // actions by name
    let t = g::actions(&f);
    let mut c = Cursor::new(&t);
    let mut count = 0;
    let mut group: Vec<usize> = Vec::new();
    while !c.done() {
        c.must("RuleKind::", "an arm is for a rule");
        let k = c.word();
        let Some((_, i)) = rule_of.iter().find(|r| r.0 == k) else {
            sym::check(false, "an arm is for a rule");
            return;
        };
        count += 1;
        group.push(*i);
        if !c.eat("|") {
            sym::check(group.iter().all(|&j| alike(j, *i)), "a rule without an action of its own has that of the next");
            arm(&mut c, text_of(*i));
            group.clear();
        }
    }
    sym::check(count == kinds.len() && group.is_empty(), "every rule has one arm");

    // actions by number
    let t = g::by_index(&f);
    let mut c = Cursor::new(&t);
    let mut seen = vec![false; n];
    for _ in 0..n {
        let i = c.number();
        sym::check(i < n && !seen[i], "every rule has one arm");
        seen[i] = true;
        group.push(i);
        if !c.eat("|") {
            sym::check(group.iter().all(|&j| alike(j, i)), "a rule without an action of its own has that of the next");
            arm(&mut c, text_of(i));
            group.clear();
        }
    }
    sym::check(group.is_empty(), "every rule has one arm");
    c.must("255", "no rule, no action");
    c.must("=>", "an arm has an action");
    c.must("{", "an arm has an action");
    while c.eat("{") || c.eat("}") {}
    c.eat(",");
    sym::check(c.done() || c.here("_"), "no rule, no action");
}

/// The automata as they are written: of each start condition, that of its rules, for texts of any length.
/// param 0: rules; param 1: up to how many start conditions
pub fn tables() {
    use automata::dfa::{DFAState, DFA, INVALID_STATE};
    trying(true);
    written(&["INITIAL"], vec![g::Rule { states: vec!["INITIAL".into()], pattern: "a".into(), actions: ";".into() }]);
    trying(false);
    let n = sym::param(0);
    let names: &[&str] = [&["INITIAL"][..], &["INITIAL", "A"], &["INITIAL", "xB", "A1"]][sym::choose(sym::param(1))];
    let mut rules: Vec<g::Rule> = Vec::new();
    let mut nodes = Vec::new();
    for _ in 0..n {
        let set = 1 + sym::choose((1 << names.len()) - 1);
        let states: Vec<String> = (0..names.len()).filter(|s| set >> s & 1 == 1).map(|s| names[s].to_string()).collect();
        let (pattern, node) = pat::rule(sym::choose(pat::RULES));
        nodes.push(node);
        rules.push(g::Rule { states, pattern: pattern.to_string(), actions: ";".into() });
    }
    if !names.iter().all(|s| rules.iter().any(|r| r.states.iter().any(|t| t == s))) {
        return;
    }
    let mut label = String::new();
    for r in &rules {
        label.push_str(&format!("<{}>{} ", r.states.join(","), r.pattern));
    }
    sym::label(&label);
    let on: Vec<Vec<String>> = rules.iter().map(|r| r.states.clone()).collect();
    let found = written(names, rules);
    let s = sym::choose(names.len());
    let (trans, accept) = (&found[s].0, &found[s].1[0]);
    sym::check(found[s].1.len() == 1 && trans.len() == accept.len(), "every state accepts a rule or none");
    let states = (0..trans.len())
        .map(|i| {
            let mut transitions = [INVALID_STATE; 256];
            for b in 0..256 {
                if trans[i][b] != 255 {
                    transitions[b] = trans[i][b];
                }
            }
            let a = accept[i];
            DFAState { transitions, accept_lexer_rule_id: if a == 255 { None } else { Some(a as u32) } }
        })
        .collect();
    let mine: Vec<(usize, &pat::Node)> = nodes.iter().enumerate().filter(|(i, _)| on[*i].iter().any(|t| t == names[s])).map(|(i, n)| (i, n)).collect();
    pat::always(&DFA { states }, &mine);
}

/// the tables of each start condition, as they are written
fn written(names: &[&str], rules: Vec<g::Rule>) -> Vec<(Vec<Vec<usize>>, Vec<Vec<usize>>)> {
    let f = g::FlexFile {
        all_states: names.iter().map(|s| s.to_string()).collect(),
        definitions: pat::names().0.iter().map(|(n, d)| g::Definition { name: n.to_string(), def: d.to_string() }).collect(),
        rules,
        rest_code: String::new(),
    };
    let (t, map) = g::dfa(&f);
    let mut c = Cursor::new(&t);
    let mut read: Vec<(String, Vec<Vec<usize>>)> = Vec::new();
    let what = "the tables are constants";
    while !c.done() {
        c.must("pub", what);
        c.must("const", what);
        let name = c.word();
        c.must(":", what);
        let two = c.eat("[[u8; 256];");
        if !two {
            c.must("[u8;", what);
        }
        let len = c.number();
        c.must("]", what);
        c.must("=", what);
        let mut rows = Vec::new();
        if two {
            c.must("[", what);
            while !c.eat("]") {
                rows.push(c.numbers());
                c.eat(",");
            }
            sym::check(rows.len() == len && rows.iter().all(|r| r.len() == 256), "a table is as long as its type says");
        } else {
            rows.push(c.numbers());
            sym::check(rows[0].len() == len, "a table is as long as its type says");
        }
        c.must(";", what);
        read.push((name, rows));
    }
    // which tables a start condition has
    let mut c = Cursor::new(&map);
    let mut found = Vec::new();
    let what = "the tables of a start condition are its transitions and what its states accept";
    for s in 0..names.len() {
        let k = c.number();
        sym::check(k == s, "every start condition has its tables");
        c.must("=>", what);
        c.must("(", what);
        let a = c.word();
        c.must(".as_slice()", what);
        c.must(",", what);
        let b = c.word();
        c.must(".as_slice()", what);
        c.must(")", what);
        c.must(",", what);
        let (Some(a), Some(b)) = (read.iter().find(|t| t.0 == a), read.iter().find(|t| t.0 == b)) else {
            form(false, what);
            return found;
        };
        found.push((a.1.clone(), b.1.clone()));
    }
    sym::check(c.done(), "every start condition has its tables");
    found
}
