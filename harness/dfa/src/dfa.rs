use postgresql_cst_parser::verif_hooks::{get_dfa_table, State};
use symrt as sym;

include!(concat!(env!("VERIF_REF"), "/lexdfa.rs"));

const DEAD: u16 = 0xffff;
const NONE: u16 = 0xffff;

fn state(name: &str) -> Option<State> {
    Some(match name {
        "INITIAL" => State::INITIAL,
        "xb" => State::xb,
        "xc" => State::xc,
        "xd" => State::xd,
        "xh" => State::xh,
        "xq" => State::xq,
        "xqs" => State::xqs,
        "xe" => State::xe,
        "xdolq" => State::xdolq,
        "xui" => State::xui,
        "xus" => State::xus,
        "xeu" => State::xeu,
        _ => return None,
    })
}

/// One step of the two automata from any pair of states they reach together, on any byte: they accept the same rule.
/// Hence, by induction, on every text of any length the longest match and its rule are those of scan.l.
pub fn step() {
    let c = sym::choose(LEX_STARTS.len());
    sym::label(LEX_STARTS[c]);
    let st = match state(LEX_STARTS[c]) {
        Some(s) => s,
        None => {
            sym::fail("every start condition of scan.l is a state of the lexer");
            return;
        }
    };
    let (tr, ac) = get_dfa_table(st);
    let (rtr, rac) = LEX_DFA[c];
    let next = |r: u16, q: u16, b: usize| -> (u16, u16) {
        let x = if r == DEAD {
            DEAD
        } else {
            match tr[r as usize][b] {
                255 => DEAD,
                x => x as u16,
            }
        };
        let y = if q == DEAD { DEAD } else { rtr[q as usize][b] };
        (x, y)
    };
    let accepts = |r: u16, q: u16| -> (u16, u16) {
        let x = if r == DEAD || ac[r as usize] == 255 { NONE } else { ac[r as usize] as u16 };
        let y = if q == DEAD { NONE } else { rac[q as usize] };
        (x, y)
    };
    // the pairs of states a text can lead to
    let nq = rtr.len() + 1;
    let mut seen = vec![false; (tr.len() + 1) * nq];
    let slot = |r: u16, q: u16| -> usize { (if r == DEAD { tr.len() } else { r as usize }) * nq + if q == DEAD { nq - 1 } else { q as usize } };
    let mut pairs: Vec<(u16, u16)> = vec![(0, 0)];
    seen[slot(0, 0)] = true;
    let mut i = 0;
    while i < pairs.len() {
        let (r, q) = pairs[i];
        i += 1;
        let mut last = (DEAD, DEAD);
        for b in 0..256 {
            let p = next(r, q, b);
            if p == last || p == (DEAD, DEAD) {
                continue;
            }
            last = p;
            let k = slot(p.0, p.1);
            if !seen[k] {
                seen[k] = true;
                pairs.push(p);
            }
        }
    }
    let (a, b) = accepts(0, 0);
    sym::check((a == NONE) == (b == NONE), "the empty match is that of scan.l");
    let k = sym::choose(pairs.len());
    let (r, q) = pairs[k];
    let byte = sym::bytes(1)[0] as usize;
    let (r, q) = next(r, q, byte);
    let (a, b) = accepts(r, q);
    sym::check((a == NONE) == (b == NONE), "a text is matched if and only if a pattern of scan.l matches it");
    if a != NONE && b != NONE {
        sym::reach("match");
        sym::check((a as usize) < LEX_ACTION.len() && LEX_ACTION[a as usize] == LEX_ACTION[b as usize], "the rule that matches is the first one of scan.l that does");
    }
    if r == DEAD {
        sym::reach("end of the match");
    }
}
