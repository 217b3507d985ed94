//! The scanner generator from its resources to the files it writes.
use crate::cursor::{form, same, text, trying, Cursor};
use lexer_generator::{generate, given, written};
use symrt as sym;

fn word(n: usize, low: bool) -> String {
    let v = sym::bytes(n);
    for (i, &c) in v.iter().enumerate() {
        let letter = if low { (c >= b'a') & (c <= b'z') } else { (c >= b'A') & (c <= b'Z') };
        sym::assume(letter | (c == b'_') | ((i > 0) & (c >= b'0') & (c <= b'9')));
    }
    text(v)
}

/// behind the next `t`, before anything symbolic
fn go(c: &mut Cursor, t: &str) {
    let b = t.as_bytes();
    let mut at = c.at;
    while at + b.len() <= c.s.len() {
        if c.s[at] == b[0] && &c.s[at..at + b.len()] == b {
            c.at = at + b.len();
            return;
        }
        at += 1;
    }
    form(false, t);
}

/// param 0: lines of the keyword list; param 1: up to how many characters a keyword has
pub fn whole() {
    trying(true);
    read(&["A"], "{ f(); }", "PG_KEYWORD(\"ab\", AB, RESERVED_KEYWORD, BARE_LABEL)\n", &[("ab".into(), "AB".into())]);
    trying(false);
    let mut list = String::from(["/*\n * kwlist.h: see PG_KEYWORD(\"x\", X)\n */\n\n", ""][sym::choose(if sym::param(0) < 3 { 2 } else { 1 })]);
    let mut want = Vec::new();
    for _ in 0..sym::param(0) {
        let kind = sym::choose(6);
        if kind < 4 {
            let name = word(1 + sym::choose(sym::param(1)), true);
            let value = word(1 + sym::choose(2), false);
            list.push_str("PG_KEYWORD(\"");
            list.push_str(&name);
            list.push_str("\", ");
            list.push_str(&value);
            list.push_str(["_P", ""][kind % 2]);
            list.push_str([", UNRESERVED_KEYWORD, BARE_LABEL)", ", TYPE_FUNC_NAME_KEYWORD, AS_LABEL)\t\t/* (old, new) */"][kind / 2]);
            want.push((name, value + ["_P", ""][kind % 2]));
        } else {
            list.push_str(["/* name, value, category, is-bare-label */", ""][kind - 4]);
        }
        list.push('\n');
    }
    if sym::choose(2) == 1 {
        // the last line need not be ended
        list.pop();
    }
    let some = if sym::param(0) < 2 { 2 } else { 1 };
    let states: &[&str] = [&["A"][..], &["xb", "A"]][sym::choose(some)];
    let action = ["{ f(); }", "{\n\tif (a)\n\t{\n\t\treturn b;\n\t}\n}"][sym::choose(some)];
    read(states, action, &list, &want);
}

fn read(states: &[&str], action: &str, list: &str, want: &[(String, String)]) {
    let mut scan = String::new();
    for s in states {
        scan.push_str("%x ");
        scan.push_str(s);
        scan.push('\n');
    }
    scan.push_str("x\t\t[ab]\n%%\n{x}\t\t");
    scan.push_str(action);
    scan.push('\n');
    for s in states {
        scan.push_str(&format!("<{s}>c\t\t{{ in_{s}(); }}\n"));
    }
    scan.push_str("%%\n");
    given::clear();
    given::set("scan.l", scan);
    given::set("kwlist.h", list.to_string());
    written::take();
    generate();
    let files = written::take();
    let find = |end: &str| files.iter().find(|f| f.0.ends_with(end)).map(|f| f.1.as_str()).unwrap_or("");
    let (a, b) = (find("postgresql-cst-parser/src/lexer/generated.rs"), find("parser_generator/lexer/generated.rs"));
    form(!a.is_empty(), "the scanner is written");
    sym::check(same(a, b), "the parser and its generator get the same scanner");
    sym::check(files.len() == 2, "nothing else is written");
    sym::reach("written");

    // the keywords
    let mut c = Cursor::new(a);
    go(&mut c, "fn get_keyword_map");
    go(&mut c, "for (kw, tok) in [");
    let what = "a keyword is its name and its token";
    let mut seen = vec![false; want.len()];
    while !c.eat("]") {
        c.must("(", what);
        let name = c.quoted();
        c.must(",", what);
        let token = c.quoted();
        c.must(")", what);
        c.eat(",");
        let i = (0..want.len()).find(|&i| !seen[i] && same(&want[i].0, &name) && same(&want[i].1, &token));
        sym::check(i.is_some(), "every keyword of the scanner is one of the list");
        let Some(i) = i else { return };
        seen[i] = true;
    }
    sym::check(seen.iter().all(|s| *s), "every keyword of the list is one of the scanner");
    c.must("{", what);
    c.must("map.insert(kw, tok);", what);

    // the start conditions
    let mut c = Cursor::new(a);
    go(&mut c, "pub enum State");
    c.must("{", "the start conditions are an enumeration");
    let mut n = 0;
    while !c.eat("}") {
        let w = c.word();
        sym::check(w == if n == 0 { "INITIAL" } else if n <= states.len() { states[n - 1] } else { "" }, "the start conditions are those of the file");
        if w.is_empty() {
            return;
        }
        n += 1;
        c.eat(",");
    }
    sym::check(n == states.len() + 1, "the start conditions are those of the file");

    // the actions
    let mut c = Cursor::new(a);
    go(&mut c, "match pattern_index");
    c.must("{", "actions by number");
    for i in 0..n {
        let k = c.number();
        sym::check(k == i, "every rule has its action");
        c.must("=>", "an arm has an action");
        c.must("{", "an arm has an action");
        let own = if i == 0 { action.to_string() } else { format!("{{ in_{}(); }}", states[i - 1]) };
        c.says(&own, "every rule has its action");
        c.must("}", "an arm has an action");
        c.eat(",");
    }

    // what each start condition does with a byte
    for s in 0..n {
        let mut c = Cursor::new(a);
        let q = format!("TRANSITION_TABLE_{s}:");
        go(&mut c, &q);
        go(&mut c, "=");
        c.must("[", "the tables are lists of numbers");
        let row = c.numbers();
        let mut c = Cursor::new(a);
        let q = format!("ACCEPT_TABLE_{s}:");
        go(&mut c, &q);
        go(&mut c, "=");
        let accept = c.numbers();
        form(row.len() == 256, "the tables are lists of numbers");
        for (b, r) in [(b'a', 0), (b'b', 0), (b'c', s), (b'd', 255)] {
            // the start conditions are exclusive
            let r = if (s == 0) == (b < b'c') { r } else { 255 };
            let t = row[b as usize];
            let got = if t < accept.len() { accept[t] } else { 255 };
            sym::check(got == r, "a start condition has the automaton of its rules");
        }
    }
}
