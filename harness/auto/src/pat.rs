use automata::dfa::{DFA, INVALID_STATE};
use automata::{to_flex_pattern_dfa, FlexPatternDef, NameDefinition};
use symrt as sym;

/// What a pattern means
#[derive(Clone)]
pub enum Node {
    Set(Vec<u8>),
    /// any byte but these; the zero byte stands for the end of the input and is never one of them
    Not(Vec<u8>),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(Box<Node>, usize, Option<usize>),
}

fn cat(s: &str) -> Node {
    Node::Cat(s.bytes().map(|b| Node::Set(vec![b])).collect())
}

fn set(s: &[u8]) -> Node {
    Node::Set(s.to_vec())
}

fn not(s: &[u8]) -> Node {
    Node::Not(s.to_vec())
}

fn range(a: u8, b: u8) -> Node {
    Node::Set((a..=b).collect())
}

fn rep(n: Node, min: usize, max: Option<usize>) -> Node {
    Node::Rep(Box::new(n), min, max)
}

/// where a match of `n` can end that begins at one of the places `from`
pub fn ends(n: &Node, text: &[u8], from: &[bool]) -> Vec<bool> {
    match n {
        Node::Set(_) | Node::Not(_) => {
            let mut t = [false; 256];
            match n {
                Node::Set(v) => v.iter().for_each(|&b| t[b as usize] = true),
                Node::Not(v) => {
                    t = [true; 256];
                    t[0] = false;
                    v.iter().for_each(|&b| t[b as usize] = false)
                }
                _ => (),
            }
            let mut r = vec![false; from.len()];
            for i in 0..text.len() {
                r[i + 1] = from[i] & t[text[i] as usize];
            }
            r
        }
        Node::Cat(v) => {
            let mut at = from.to_vec();
            for n in v {
                at = ends(n, text, &at);
            }
            at
        }
        Node::Alt(v) => {
            let mut r = vec![false; from.len()];
            for n in v {
                join(&mut r, &ends(n, text, from));
            }
            r
        }
        Node::Rep(n, min, max) => {
            let mut at = from.to_vec();
            for _ in 0..*min {
                at = ends(n, text, &at);
            }
            let mut r = at.clone();
            // longer than the text, a repetition can only match more empty texts
            for _ in 0..max.map_or(text.len(), |m| m - *min) {
                at = ends(n, text, &at);
                join(&mut r, &at);
            }
            r
        }
    }
}

fn join(a: &mut [bool], b: &[bool]) {
    for i in 0..a.len() {
        a[i] |= b[i];
    }
}

pub fn names() -> (Vec<(&'static str, &'static str)>, Vec<(&'static str, Node)>) {
    (
        vec![("ab", "a|b"), ("x", "[a-c]"), ("twice", "{ab}{2}"), ("digit_1", "0b?")],
        vec![
            ("ab", set(b"ab")),
            ("x", range(b'a', b'c')),
            ("twice", rep(set(b"ab"), 2, Some(2))),
            ("digit_1", Node::Cat(vec![set(b"0"), rep(set(b"b"), 0, Some(1))])),
        ],
    )
}

pub const FORMS: usize = 50;
/// the ways to write something that a repetition applies to
pub fn form(k: usize) -> (&'static str, Node) {
    let n = names().1;
    match k {
        0 => ("a", set(b"a")),
        1 => (".", not(b"\n")),
        2 => ("[ab]", set(b"ab")),
        3 => ("[^ab]", not(b"ab")),
        4 => ("[a-c]", range(b'a', b'c')),
        5 => ("[^a-c]", not(b"abc")),
        6 => ("[a-bd-e]", set(b"abde")),
        7 => ("[0-9a-f_]", set(b"0123456789abcdef_")),
        8 => ("[-a]", set(b"-a")),
        9 => ("[a-]", set(b"a-")),
        10 => ("[^-a]", not(b"-a")),
        11 => ("[\\n]", set(b"\n")),
        12 => ("[^\\n\\r]", not(b"\n\r")),
        13 => ("[\\t-\\r]", range(9, 13)),
        14 => ("[\\]a]", set(b"]a")),
        15 => ("[\\^a]", set(b"^a")),
        16 => ("[a^]", set(b"a^")),
        17 => ("[\\\\]", set(b"\\")),
        18 => ("[a\\-c]", set(b"a-c")),
        19 => ("[\\x80-\\xff]", range(0x80, 0xff)),
        20 => ("[*.+?|(){}\"$]", set(b"*.+?|(){}\"$")),
        21 => ("[ \\t\\n\\r\\f\\v]", set(b" \t\n\r\x0c\x0b")),
        22 => ("\\n", set(b"\n")),
        23 => ("\\t", set(b"\t")),
        24 => ("\\x61", set(b"a")),
        25 => ("\\xfF", set(b"\xff")),
        26 => ("\\101", set(b"A")),
        27 => ("\\b", set(b"\x08")),
        28 => ("\\*", set(b"*")),
        29 => ("\\\\", set(b"\\")),
        30 => ("\\.", set(b".")),
        31 => ("\\\"", set(b"\"")),
        32 => ("\"a\"", set(b"a")),
        33 => ("\"*\"", set(b"*")),
        34 => ("(\"a.|\")", cat("a.|")),
        35 => ("\\{", set(b"{")),
        36 => ("{ab}", n[0].1.clone()),
        37 => ("{x}", n[1].1.clone()),
        38 => ("{twice}", n[2].1.clone()),
        39 => ("{digit_1}", n[3].1.clone()),
        40 => ("'", set(b"'")),
        41 => ("\"ab\"", cat("ab")),
        42 => ("\\7", set(b"\x07")),
        43 => ("[\\x2a-\\57]", range(42, 47)),
        44 => ("[^'\\\\]", not(b"'\\")),
        45 => ("\"\\\"\"", set(b"\"")),
        46 => ("\"a\\nb\"", cat("a\nb")),
        47 => ("\"\\\\\"", set(b"\\")),
        48 => ("\"\\x61[\"", cat("a[")),
        _ => ("\\a", set(b"\x07")),
    }
}

/// repetitions
pub fn post(k: usize, out: &mut String, n: Node) -> Node {
    let (t, min, max) = match k {
        0 => return n,
        1 => ("*", 0, None),
        2 => ("+", 1, None),
        3 => ("?", 0, Some(1)),
        4 => ("{2}", 2, Some(2)),
        5 => ("{1,2}", 1, Some(2)),
        6 => ("{0,2}", 0, Some(2)),
        7 => ("{3}", 3, Some(3)),
        8 => ("{1}", 1, Some(1)),
        _ => ("{2,3}", 2, Some(3)),
    };
    out.push_str(t);
    rep(n, min, max)
}

/// any pattern made of `left` single characters, groups, alternatives and repetitions
fn any(left: &mut usize, depth: usize, reps: usize, out: &mut String) -> Node {
    let mut alts = Vec::new();
    loop {
        let mut parts = Vec::new();
        loop {
            let k = sym::choose(if depth > 0 { 3 } else { 2 });
            let mut n;
            if k == 2 {
                out.push('(');
                n = any(left, depth - 1, reps, out);
                out.push(')');
            } else {
                *left -= 1;
                let (t, m) = match k {
                    0 => ("a", set(b"a")),
                    _ => ("b", set(b"b")),
                };
                out.push_str(t);
                n = m;
            }
            n = post(sym::choose(reps), out, n);
            parts.push(n);
            if *left == 0 || sym::choose(2) == 0 {
                break;
            }
        }
        alts.push(if parts.len() == 1 { parts.pop().unwrap() } else { Node::Cat(parts) });
        if *left == 0 || sym::choose(2) == 0 {
            break;
        }
        out.push('|');
    }
    if alts.len() == 1 {
        alts.pop().unwrap()
    } else {
        Node::Alt(alts)
    }
}

fn name_defs() -> Vec<NameDefinition> {
    names().0.iter().map(|(n, d)| NameDefinition { name: n.to_string(), definition: d.to_string() }).collect()
}

/// fork on the value of a number below n
fn pin(x: usize, n: usize) -> usize {
    for k in 0..n {
        if x == k {
            return k;
        }
    }
    sym::fail("a transition leads to a state of the automaton");
    sym::done();
    0
}

/// After each of the bytes, the automaton accepts the earliest rule that matches just them, and none if there is none
fn compare(d: &DFA, rules: &[(usize, &Node)], text: &[u8]) -> Option<usize> {
    let mut from = vec![false; text.len() + 1];
    from[0] = true;
    let ends: Vec<(usize, Vec<bool>)> = rules.iter().map(|&(i, n)| (i, ends(n, text, &from))).collect();
    let n = d.states.len();
    sym::check(n > 0, "there is a start state");
    let mut s = Some(0);
    let mut longest = None;
    for i in 0..=text.len() {
        let got = s.and_then(|s: usize| d.states[s].accept_lexer_rule_id);
        let mut earlier = false;
        for (r, e) in &ends {
            // the rule is the one accepted if and only if it matches and none before it does
            sym::check((got == Some(*r as u32)) == (e[i] & !earlier), "the automaton accepts the first rule that matches, and only that");
            earlier |= e[i];
        }
        if let Some(g) = got {
            sym::check(rules.iter().any(|r| r.0 == g as usize), "the automaton accepts a rule of its state");
            longest = Some(g as usize);
            sym::reach("match");
        }
        if i < text.len() {
            if let Some(p) = s {
                let q = d.states[p].transitions[text[i] as usize];
                s = if q == INVALID_STATE { None } else { Some(pin(q, n)) };
            }
            if s.is_none() {
                sym::reach("end of the match");
            }
        }
    }
    longest
}

/// The same for texts of any length: from every pair of what the automaton and the rules' positions can reach together,
/// on any byte, both accept the same. A position is a place in a rule where one byte is read.
#[derive(Default)]
struct Positions {
    sets: Vec<[bool; 256]>,
    follow: Vec<u64>,
}

struct Part {
    empty: bool,
    first: u64,
    last: u64,
}

impl Positions {
    fn add(&mut self, n: &Node) -> Part {
        match n {
            Node::Set(_) | Node::Not(_) => {
                self.sets.push(match n {
                    Node::Set(v) => {
                        let mut t = [false; 256];
                        v.iter().for_each(|&b| t[b as usize] = true);
                        t
                    }
                    Node::Not(v) => {
                        let mut t = [true; 256];
                        t[0] = false;
                        v.iter().for_each(|&b| t[b as usize] = false);
                        t
                    }
                    _ => unreachable!(),
                });
                self.follow.push(0);
                let m = 1 << (self.sets.len() - 1);
                Part { empty: false, first: m, last: m }
            }
            Node::Cat(v) => v.iter().fold(Part { empty: true, first: 0, last: 0 }, |a, n| {
                let b = self.add(n);
                self.then(a, b)
            }),
            Node::Alt(v) => v.iter().fold(Part { empty: false, first: 0, last: 0 }, |a, n| {
                let b = self.add(n);
                Part { empty: a.empty | b.empty, first: a.first | b.first, last: a.last | b.last }
            }),
            Node::Rep(n, min, max) => {
                let mut a = Part { empty: true, first: 0, last: 0 };
                for _ in 0..*min {
                    let b = self.add(n);
                    a = self.then(a, b);
                }
                match max {
                    None => {
                        let b = self.add(n);
                        self.link(b.last, b.first);
                        self.then(a, Part { empty: true, ..b })
                    }
                    Some(m) => {
                        for _ in *min..*m {
                            let b = self.add(n);
                            a = self.then(a, Part { empty: true, ..b });
                        }
                        a
                    }
                }
            }
        }
    }
    fn link(&mut self, last: u64, first: u64) {
        for i in 0..self.follow.len() {
            if last >> i & 1 == 1 {
                self.follow[i] |= first;
            }
        }
    }
    fn then(&mut self, a: Part, b: Part) -> Part {
        self.link(a.last, b.first);
        Part { empty: a.empty & b.empty, first: a.first | if a.empty { b.first } else { 0 }, last: b.last | if b.empty { a.last } else { 0 } }
    }
}

pub fn always(d: &DFA, rules: &[(usize, &Node)]) {
    let mut ps = Positions::default();
    let parts: Vec<(usize, Part)> = rules.iter().map(|&(i, n)| (i, ps.add(n))).collect();
    assert!(ps.sets.len() < 64);
    // the positions that read a byte
    let mut reads = vec![0u64; 256];
    for (i, s) in ps.sets.iter().enumerate() {
        for b in 0..256 {
            if s[b] {
                reads[b] |= 1 << i;
            }
        }
    }
    let first = parts.iter().fold(0, |m, p| m | p.1.first);
    let next = |m: u64| (0..ps.follow.len()).fold(0, |n, i| if m >> i & 1 == 1 { n | ps.follow[i] } else { n });
    sym::check(!d.states.is_empty(), "there is a start state");
    let want = parts.iter().find(|p| p.1.empty).map(|p| p.0 as u32);
    sym::check(d.states[0].accept_lexer_rule_id == want, "the start state accepts the first rule that matches nothing");
    // a pair: a state, and the positions that may be read next
    let mut pairs: Vec<(usize, u64)> = vec![(0, first)];
    let mut i = 0;
    while i < pairs.len() {
        let (q, m) = pairs[i];
        i += 1;
        let mut last = (q, !0);
        for b in 0..256 {
            let p = if q == INVALID_STATE { q } else { d.states[q].transitions[b] };
            let r = m & reads[b];
            if (p, r) != last {
                last = (p, r);
                if p != INVALID_STATE && p >= d.states.len() {
                    sym::fail("a transition leads to a state of the automaton");
                    return;
                }
                let n = (p, next(r));
                if !pairs.contains(&n) {
                    pairs.push(n);
                }
            }
        }
    }
    let (q, m) = pairs[sym::choose(pairs.len())];
    let accepts: Vec<u32> = (0..256)
        .map(|b| match if q == INVALID_STATE { q } else { d.states[q].transitions[b] } {
            INVALID_STATE => !0,
            p => d.states[p].accept_lexer_rule_id.unwrap_or(!0),
        })
        .collect();
    let byte = sym::bytes(1)[0] as usize;
    let got = accepts[byte];
    let read = m & reads[byte];
    let mut earlier = false;
    let mut known = got == !0;
    for (r, p) in &parts {
        let e = read & p.last != 0;
        sym::check((got == *r as u32) == (e & !earlier), "the automaton accepts the first rule that matches, and only that");
        earlier |= e;
        known |= got == *r as u32;
    }
    sym::check(known, "the automaton accepts a rule of its state");
    if earlier {
        sym::reach("match");
    } else {
        sym::reach("no match");
    }
}

fn def(states: &[usize], p: &str) -> FlexPatternDef {
    FlexPatternDef { state_set: states.to_vec(), pattern: p.to_string() }
}

/// One pattern and any bytes.
/// param 0: 0 = patterns of up to param 1 single characters with param 2 kinds of repetition, groups nested up to param 4;
/// 1 = every way to write a character or class, alone and between others; param 3: bytes of input, 0 = of any length
pub fn one() {
    let mut p = String::new();
    let node = if sym::param(0) == 0 {
        let mut left = sym::param(1);
        any(&mut left, sym::param(4), sym::param(2), &mut p)
    } else {
        let (t, n) = form(sym::choose(FORMS));
        match sym::choose(4) {
            0 => {
                p.push_str(t);
                post(sym::choose(10), &mut p, n)
            }
            1 => {
                p.push_str("a");
                p.push_str(t);
                let n = post(sym::choose(3), &mut p, n);
                p.push_str("b");
                Node::Cat(vec![set(b"a"), n, set(b"b")])
            }
            2 => {
                p.push_str(t);
                let n = post(sym::choose(2), &mut p, n);
                p.push_str("|bc");
                Node::Alt(vec![n, cat("bc")])
            }
            _ => {
                // two of them
                let (t2, n2) = form(sym::choose(FORMS));
                p.push_str(t);
                p.push_str(t2);
                Node::Cat(vec![n, n2])
            }
        }
    };
    sym::label(&p);
    let d = to_flex_pattern_dfa(&[def(&[0], &p)], &name_defs());
    sym::check(d.len() == 1, "there is an automaton for each state");
    if sym::param(3) == 0 {
        always(&d[0], &[(0, &node)]);
        return;
    }
    let text = sym::bytes(sym::param(3));
    let longest = compare(&d[0], &[(0, &node)], &text);
    // `match_bytes` follows the automaton; it takes what is after its end as the end of the input
    let mut no_zero = true;
    for &b in &text {
        no_zero &= b != 0;
    }
    if no_zero {
        sym::check(d[0].match_bytes(&text).map(|x| x as usize) == longest, "match_bytes gives the rule of the longest match");
    }
}

pub const RULES: usize = 14;
pub fn rule(k: usize) -> (&'static str, Node) {
    let n = names().1;
    match k {
        0 => ("a", set(b"a")),
        1 => ("ab*", Node::Cat(vec![set(b"a"), rep(set(b"b"), 0, None)])),
        2 => ("[a-c]+", rep(range(b'a', b'c'), 1, None)),
        3 => (".", not(b"\n")),
        4 => ("<<EOF>>", Node::Set(vec![0])),
        5 => ("{twice}", n[2].1.clone()),
        6 => ("abc?", Node::Cat(vec![set(b"a"), set(b"b"), rep(set(b"c"), 0, Some(1))])),
        7 => ("\"ab\"|c", Node::Alt(vec![cat("ab"), set(b"c")])),
        8 => ("[^b]*b", Node::Cat(vec![rep(not(b"b"), 0, None), set(b"b")])),
        9 => ("{ab}c", Node::Cat(vec![set(b"ab"), set(b"c")])),
        10 => ("b(a|b)", Node::Cat(vec![set(b"b"), set(b"ab")])),
        11 => ("[\\x80-\\xff]+", rep(range(0x80, 0xff), 1, None)),
        12 => ("a*", rep(set(b"a"), 0, None)),
        _ => ("a{2}", rep(set(b"a"), 2, Some(2))),
    }
}

/// Several rules in several states: the automaton of a state knows the rules of that state and takes the first that matches.
/// param 0: how many rules, param 1: how many states, param 3: bytes of input, 0 = of any length
pub fn rules() {
    let (n, states) = (sym::param(0), sym::param(1));
    let mut rs = Vec::new();
    let mut label = String::new();
    for _ in 0..n {
        let (t, m) = rule(sym::choose(RULES));
        let mut at = Vec::new();
        if states == 1 {
            at.push(0);
        } else {
            // any set of states but the empty one, in either order
            match sym::choose(4) {
                0 => at.push(0),
                1 => at.push(1),
                2 => at.extend([0, 1]),
                _ => at.extend([1, 0]),
            }
        }
        label.push_str(t);
        label.push(' ');
        rs.push((t, m, at));
    }
    // the states are numbered from 0; one may have no rules
    let count = 1 + rs.iter().flat_map(|r| r.2.iter().copied()).max().unwrap_or(0);
    sym::label(&label);
    let defs: Vec<FlexPatternDef> = rs.iter().map(|r| def(&r.2, r.0)).collect();
    let d = to_flex_pattern_dfa(&defs, &name_defs());
    sym::check(d.len() == count, "there is an automaton for each state");
    let s = sym::choose(count);
    let mine: Vec<(usize, &Node)> = rs.iter().enumerate().filter(|(_, r)| r.2.contains(&s)).map(|(i, r)| (i, &r.1)).collect();
    if sym::param(3) == 0 {
        always(&d[s], &mine);
    } else {
        compare(&d[s], &mine, &sym::bytes(sym::param(3)));
    }
}
