//! Scanner files put together from pieces, read back.
use lexer_generator::verif as g;
use symrt as sym;

struct Rule {
    states: Vec<String>,
    pattern: String,
    actions: String,
}

fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}

fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut d = (a.len() != b.len()) as u8;
    for i in 0..a.len().min(b.len()) {
        d |= a[i] ^ b[i];
    }
    d == 0
}

/// param 0: 0 = the definitions are free, 1 = the rules; param 1: pieces in a row; param 2: free characters
pub fn file() {
    let (what, n, free) = (sym::param(0), sym::param(1), sym::param(2));
    let mut out = String::from("%option 8bit\n\n%{\n/* foo\t%x bar */\n%% \nfoo\tbar\n%}\n");
    let mut states = vec!["INITIAL".to_string(), "A".to_string(), "B1".to_string()];
    let mut defs: Vec<(String, String)> = Vec::new();
    let mut rules: Vec<Rule> = Vec::new();
    let letters: Vec<u8> = (b'a'..=b'z').chain(b'A'..=b'Z').collect();
    out.push_str("%x A\n%x B1\n");
    if what == 0 {
        let mut spent = false;
        for i in 0..n {
            match sym::choose(7) {
                0 => {
                    let s = text(sym::bytes_in(1 + sym::choose(2), &letters));
                    out.push_str("%x ");
                    out.push_str(&s);
                    out.push('\n');
                    states.push(s);
                }
                1 | 2 => {
                    // a name and what it stands for, which has white space inside at most
                    let mut name = sym::bytes_in(1, b"abcxyzABCXYZ_");
                    name.push([b'1', b'_', b'x'][i % 3]);
                    let mut def = Vec::new();
                    if spent {
                        def.extend(b"[^\\n\\r]*\"#a\"");
                    } else {
                        spent = true;
                        def = sym::bytes(free);
                        for c in &def {
                            sym::assume((*c >= b' ') & (*c < 127));
                        }
                        sym::assume((def[0] != b' ') & (def[free - 1] != b' '));
                    }
                    out.push_str(std::str::from_utf8(&name).unwrap());
                    out.push_str(["\t", "\t\t"][sym::choose(2)]);
                    let (name, def) = (text(name), text(def));
                    out.push_str(&def);
                    out.push_str(["\n", " \t\n", "\r\n"][sym::choose(3)]);
                    defs.push((name, def));
                }
                3 => out.push('\n'),
                4 => out.push_str("%option noyywrap\n"),
                5 => {
                    // verbatim code
                    out.push_str("%{\n");
                    let v = sym::bytes_in(free, b"a\t%}x{ \n");
                    let v = text(v);
                    let end = v.split('\n').any(|l| l == "%}");
                    sym::assume(!end);
                    out.push_str(&v);
                    out.push_str("\n%}\n");
                }
                _ => {
                    out.push_str("/* c\n * ");
                    let v = sym::bytes(free);
                    for c in &v {
                        sym::assume((*c >= b' ') & (*c < 127));
                    }
                    out.push_str(&text(v));
                    out.push_str("\n */\n");
                }
            }
        }
    } else {
        defs.push(("x".into(), "[a-b]".into()));
        out.push_str("x\t[a-b]\n");
    }
    out.push_str("%%\n");
    if what == 0 {
        out.push_str("{x}\t{ f(); }\n");
        rules.push(Rule { states: vec!["INITIAL".into()], pattern: "{x}".into(), actions: "{ f(); }".into() });
    } else {
        // the free characters are in the pattern or the action of one rule
        let place = sym::choose(n);
        let mut group: Option<Vec<String>> = None;
        for i in 0..n {
            let lists: [(&str, &[&str]); 3] = [("<A>", &["A"]), ("<A,B1>", &["A", "B1"]), ("<INITIAL,B1,A>", &["INITIAL", "B1", "A"])];
            // a group opens or ends before this rule
            if group.is_none() {
                if sym::choose(2) == 1 {
                    let l = &lists[sym::choose(2)];
                    out.push_str(l.0);
                    out.push_str("{\n");
                    group = Some(l.1.iter().map(|s| s.to_string()).collect());
                }
            } else if sym::choose(2) == 1 {
                out.push_str("}\n");
                group = None;
            }
            let mut states: Vec<String> = group.clone().unwrap_or(vec!["INITIAL".to_string()]);
            if group.is_none() {
                let k = sym::choose(4);
                if k < 3 {
                    out.push_str(lists[k].0);
                    states = lists[k].1.iter().map(|s| s.to_string()).collect();
                }
            }
            let mut pattern = ["{x}", "[^*/]+", "\\*+\\/", "<<EOF>>"][i % 4].to_string();
            let mut actions = ["{ f(); }", "|", ";", "{\n\t\tif (x) {\n\t}\n\n }"][i * 7 % 4].to_string();
            if i == place {
                if sym::choose(2) == 0 {
                    let v = sym::bytes(free);
                    for c in &v {
                        sym::assume((*c > b' ') & (*c < 127));
                    }
                    // what begins a list of states, ends a group or the rules
                    sym::assume((v[0] != b'<') & (v[0] != b'}') & (v[0] != b'%'));
                    pattern = text(v);
                } else {
                    let v = sym::bytes_in(free, b"{}\n\ta;<%x");
                    // braces come in pairs
                    let (mut d, mut ok) = (0i32, true);
                    for c in &v {
                        d += (*c == b'{') as i32 - (*c == b'}') as i32;
                        ok &= d >= 0;
                    }
                    sym::assume(ok & (d == 0));
                    actions = format!("{{{}}}", text(v));
                }
            }
            out.push_str(&pattern);
            out.push_str(["\t", " \t "][sym::choose(2)]);
            out.push_str(&actions);
            out.push('\n');
            if sym::choose(2) == 1 {
                out.push_str("\n");
            }
            rules.push(Rule { states, pattern, actions });
        }
        if group.is_some() {
            out.push_str("}\n");
        }
    }
    let rest = "int f() {\n\treturn 1; /* %% */\n}\n";
    out.push_str("%%\n");
    out.push_str(rest);
    sym::reach("file");
    let f = g::parse_flex_file(&out);
    sym::check(f.all_states.len() == states.len() && f.all_states.iter().zip(&states).all(|(a, b)| same(a, b)), "the start conditions are those the file declares");
    sym::check(f.definitions.len() == defs.len(), "the definitions are those of the file");
    for (d, w) in f.definitions.iter().zip(&defs) {
        sym::check(same(&d.name, &w.0) & same(&d.def, &w.1), "a definition is read as it is written");
    }
    sym::check(f.rules.len() == rules.len(), "the rules are those of the file");
    for (r, w) in f.rules.iter().zip(&rules) {
        sym::check(r.states.len() == w.states.len() && r.states.iter().zip(&w.states).all(|(a, b)| same(a, b)), "a rule has the start conditions the file gives it");
        sym::check(same(&r.pattern, &w.pattern), "a pattern is read as it is written");
        sym::check(same(r.actions.trim(), w.actions.trim()), "an action is read as it is written");
    }
    sym::check(same(&f.rest_code, rest), "what follows the rules is read as it is written");
}

/// The regular expression made of a pattern stands for the same texts.
/// param 0: free bytes of the input; param 1: 1 = repetitions as well
#[cfg(feature = "generator")]
pub fn regex() {
    use crate::pat;
    let k = sym::choose(pat::FORMS);
    // octal, and what means something in quotes
    if matches!(k, 26 | 27 | 33 | 34 | 42 | 43 | 48) {
        return;
    }
    let (t, mut node) = pat::form(k);
    sym::label(t);
    let mut p = if matches!(k, 41 | 46) { format!("({t})") } else { t.to_string() };
    if sym::param(1) == 1 {
        node = pat::post(sym::choose(10), &mut p, node);
    }
    let mut file = String::new();
    for (n, d) in pat::names().0 {
        file.push_str(&format!("{n}\t{d}\n"));
    }
    file.push_str(&format!("f\t{p}\ng_1\t\t({{f}})\n%%\n{{g_1}}\t;\n%%\n"));
    let f = g::parse_flex_file(&file);
    sym::check(f.rules.len() == 1, "the rules are those of the file");
    let (r, eof) = g::pattern(&f, &f.rules[0].pattern);
    sym::check(!eof, "only <<EOF>> is the end of the text");
    let e = regex::bytes::Regex::new(&format!("(?-u)^({r})$")).unwrap();
    let b = sym::bytes(sym::param(0));
    for c in &b {
        sym::assume(*c != 0);
    }
    let mut from = vec![false; b.len() + 1];
    from[0] = true;
    let want = pat::ends(&node, &b, &from)[b.len()];
    let got = e.is_match(&b);
    sym::reach(if got { "match" } else { "no match" });
    sym::check(got == want, "the regular expression of a rule stands for the texts of its pattern");
}

#[cfg(not(feature = "generator"))]
pub fn regex() {}
