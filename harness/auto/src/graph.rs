//! Automata given by their states and edges: the deterministic automaton accepts what the other does.
use automata::dfa::{construct_dfa_with_state_mapping, INVALID_STATE};
use automata::nfa::{NFAState, Transition, NFA};
use symrt as sym;

/// param 0: states; param 1: edges; param 2: 0 = any rule at any state, 1 = three ways, 2 = sets of states; param 3: bytes of the text for the
/// two matchers, 0 = the automaton itself, for texts of any length
pub fn graph() {
    let (n, e) = (sym::param(0), sym::param(1));
    let label = [None, Some(b'a'), Some(b'b')];
    let mut edges: Vec<usize> = Vec::new();
    let mut rule: Vec<Option<u32>> = vec![None; n];
    if sym::param(2) == 2 {
        // the start state leads to any set of states with one byte and, unless param 4, to any with the other; empty edges
        // between those
        for l in 1..3 - sym::param(4) {
            let set = sym::choose(1 << (n - 1));
            edges.extend((1..n).filter(|i| set >> (i - 1) & 1 == 1).map(|i| i * 3 + l));
        }
        let mut low = 0;
        let most = (n - 1) * (n - 1);
        for _ in 0..e {
            low += sym::choose(most + 1 - low);
            if low == most {
                break;
            }
            let (from, to) = (low / (n - 1) + 1, low % (n - 1));
            // not to itself, but to the start
            edges.push((from * n + if to >= from { to + 1 } else { to }) * 3);
            low += 1;
        }
        let (i, j) = [(n - 3, n - 2), (n - 1, n - 2), (1, n - 1)][sym::choose(3)];
        rule[i] = Some(0);
        rule[j] = Some(1);
    } else {
        // edges in ascending order, each from, to, label (nothing, or one of two bytes)
        let mut low = 0;
        for _ in 0..e {
            low += sym::choose(n * n * 3 - low);
            edges.push(low);
        }
        if sym::param(2) == 0 {
            for i in 0..n {
                rule[i] = [None, Some(0), Some(1)][sym::choose(3)];
            }
        } else {
            let k = sym::choose(3);
            rule[k] = Some(if k == 1 { 0 } else { 2 });
            rule[n - 1] = Some(1);
        }
    }
    let mut s = String::new();
    for &x in &edges {
        s.push_str(&format!("{}-{}>{} ", x / 3 / n, label[x % 3].map_or('.', |b| b as char), x / 3 % n));
    }
    sym::label(&format!("{s}{rule:?}"));

    // by sets of states
    let close = |mut m: u32| {
        loop {
            let o = m;
            for &x in &edges {
                if x % 3 == 0 && m >> (x / 3 / n) & 1 == 1 {
                    m |= 1 << (x / 3 % n);
                }
            }
            if m == o {
                return m;
            }
        }
    };
    let step = |m: u32, l: usize| close(edges.iter().filter(|&&x| l > 0 && x % 3 == l && m >> (x / 3 / n) & 1 == 1).fold(0, |k, x| k | 1 << (x / 3 % n)));
    let accepts = |m: u32| (0..n).filter(|i| m >> i & 1 == 1).filter_map(|i| rule[i]).min();

    let nfa: &'static NFA<'static> = Box::leak(Box::new(NFA::new()));
    let states: Vec<&'static NFAState<'static>> = (0..n).map(|_| nfa.new_state()).collect();
    // the last edge first: the order they are added in means nothing
    for &x in edges.iter().rev() {
        states[x / 3 / n].add_transition(states[x / 3 % n], label[x % 3].map_or(Transition::Epsilon, Transition::Char));
    }
    for i in 0..n {
        if let Some(r) = rule[i] {
            states[i].set_accept(r);
        }
    }
    let mut map = Vec::new();
    let d = construct_dfa_with_state_mapping(states[0], Some(&mut map));

    if sym::param(3) > 0 {
        let text = sym::bytes(sym::param(3));
        let (mut m, mut best, mut any) = (close(1), accepts(close(1)), accepts(close(1)).is_some());
        for &b in &text {
            sym::assume(b != 0);
            let l = if b == b'a' { 1 } else if b == b'b' { 2 } else { 0 };
            m = step(m, l);
            if accepts(m).is_some() {
                best = accepts(m);
                any = true;
            }
            if m == 0 {
                break;
            }
        }
        sym::check(nfa.matches_bytes(states[0], &text) == any, "matches_bytes finds an accepted beginning of the text if there is one");
        sym::check(d.match_bytes(&text) == best, "match_bytes gives the first rule of the longest accepted beginning");
        sym::reach("text");
        return;
    }

    sym::check(!d.states.is_empty() && map.len() == d.states.len(), "every state stands for a set of states");
    let start = close(1);
    sym::check(d.states[0].accept_lexer_rule_id == accepts(start), "a state accepts the first rule of its set");
    let mut pairs = vec![(0, start)];
    let mut i = 0;
    while i < pairs.len() {
        let (q, m) = pairs[i];
        i += 1;
        let mut ids = map[q].clone();
        ids.sort();
        let want: Vec<usize> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| states[i].state_id).collect();
        sym::check(ids == want, "every state stands for the set of states the text leads to");
        for l in 1..3 {
            let p = d.states[q].transitions[label[l].unwrap() as usize];
            if p == INVALID_STATE {
                continue;
            }
            if p >= d.states.len() {
                sym::fail("a transition leads to a state of the automaton");
                return;
            }
            let k = (p, step(m, l));
            if !pairs.contains(&k) {
                pairs.push(k);
            }
        }
    }
    let (q, m) = pairs[sym::choose(pairs.len())];
    let next: Vec<(bool, u32)> = d.states[q]
        .transitions
        .iter()
        .map(|&p| if p == INVALID_STATE { (false, !0) } else { (true, d.states[p].accept_lexer_rule_id.unwrap_or(!0)) })
        .collect();
    let byte = sym::bytes(1)[0];
    let l = if byte == b'a' { 1 } else if byte == b'b' { 2 } else { 0 };
    let k = step(m, l);
    let (is, rule) = next[byte as usize];
    sym::check(is == (k != 0), "there is a transition where the text can go on, and only there");
    sym::check(rule == accepts(k).unwrap_or(!0), "a state accepts the first rule of its set");
    sym::reach(if k != 0 { "goes on" } else { "ends" });
}
