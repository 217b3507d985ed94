//! Small grammars and their LALR(1) tables: canonical LR(1) item sets, merged by core.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sym {
    T(usize),
    N(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Assoc {
    Left,
    Right,
    Non,
}

#[derive(Default, Clone)]
pub struct Grammar {
    /// the terminals as they are written in the grammar; the end of the input comes after them
    pub terms: Vec<String>,
    pub nonterms: Vec<String>,
    pub rules: Vec<(usize, Vec<Sym>)>,
    /// precedence of a terminal
    pub prec: Vec<Option<(usize, Assoc)>>,
    /// precedence of a rule
    pub rule_prec: Vec<Option<(usize, Assoc)>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    Error,
    Shift(usize),
    Reduce(usize),
    Accept,
}

pub struct Tables {
    /// [state][terminal, the end last]
    pub action: Vec<Vec<Act>>,
    /// [state][nonterminal]
    pub goto: Vec<Vec<Option<usize>>>,
    /// a shift and several reductions meet, or a reduction meets the end of the parse: outside the bounds
    pub odd: bool,
    pub conflict: bool,
}

impl Grammar {
    fn rhs(&self, r: usize) -> &[Sym] {
        if r == self.rules.len() {
            &[Sym::N(0)]
        } else {
            &self.rules[r].1
        }
    }

    /// every nonterminal can be reached and gives a text, as bison demands
    pub fn useful(&self) -> bool {
        let n = self.nonterms.len();
        let mut gives = vec![false; n];
        let mut seen = vec![false; n];
        seen[0] = true;
        for _ in 0..n + 1 {
            for (l, r) in &self.rules {
                if r.iter().all(|s| match s {
                    Sym::T(_) => true,
                    Sym::N(k) => gives[*k],
                }) {
                    gives[*l] = true;
                }
                if seen[*l] {
                    for s in r {
                        if let Sym::N(k) = s {
                            seen[*k] = true;
                        }
                    }
                }
            }
        }
        gives.iter().all(|x| *x) && seen.iter().all(|x| *x)
    }

    fn first(&self) -> (Vec<bool>, Vec<u32>) {
        let n = self.nonterms.len();
        let (mut empty, mut first) = (vec![false; n], vec![0u32; n]);
        loop {
            let mut more = false;
            for (l, r) in &self.rules {
                let (f, e) = Self::first_of(r, &empty, &first);
                if first[*l] | f != first[*l] || (e && !empty[*l]) {
                    first[*l] |= f;
                    empty[*l] |= e;
                    more = true;
                }
            }
            if !more {
                return (empty, first);
            }
        }
    }

    fn first_of(r: &[Sym], empty: &[bool], first: &[u32]) -> (u32, bool) {
        let mut f = 0;
        for s in r {
            match s {
                Sym::T(k) => return (f | 1 << k, false),
                Sym::N(k) => {
                    f |= first[*k];
                    if !empty[*k] {
                        return (f, false);
                    }
                }
            }
        }
        (f, true)
    }

    pub fn tables(&self) -> Tables {
        let (empty, first) = self.first();
        let end = self.terms.len();
        // an item: rule, place of the dot, lookaheads
        type Item = (usize, usize, u32);
        let closure = |kernel: Vec<Item>| -> Vec<Item> {
            let mut v = kernel;
            let mut i = 0;
            while i < v.len() {
                let (r, d, la) = v[i];
                i += 1;
                let rhs = self.rhs(r);
                if let Some(Sym::N(k)) = rhs.get(d) {
                    let (mut f, e) = Self::first_of(&rhs[d + 1..], &empty, &first);
                    if e {
                        f |= la;
                    }
                    for (q, (l, _)) in self.rules.iter().enumerate() {
                        if l == k {
                            match v.iter_mut().position(|x| x.0 == q && x.1 == 0) {
                                Some(p) => {
                                    if v[p].2 | f != v[p].2 {
                                        v[p].2 |= f;
                                        i = i.min(p);
                                    }
                                }
                                None => v.push((q, 0, f)),
                            }
                        }
                    }
                }
            }
            v.sort();
            v
        };
        // canonical LR(1) states
        let mut states = vec![closure(vec![(self.rules.len(), 0, 1 << end)])];
        let mut edges: Vec<Vec<(Sym, usize)>> = Vec::new();
        let mut i = 0;
        while i < states.len() {
            let s = states[i].clone();
            let mut out: Vec<(Sym, usize)> = Vec::new();
            for &(r, d, _) in &s {
                let Some(&x) = self.rhs(r).get(d) else { continue };
                if out.iter().any(|o| o.0 == x) {
                    continue;
                }
                let t = closure(s.iter().filter(|it| self.rhs(it.0).get(it.1) == Some(&x)).map(|it| (it.0, it.1 + 1, it.2)).collect());
                let k = match states.iter().position(|u| *u == t) {
                    Some(k) => k,
                    None => {
                        states.push(t);
                        states.len() - 1
                    }
                };
                out.push((x, k));
            }
            edges.push(out);
            i += 1;
        }
        // merged by core
        let core = |s: &Vec<Item>| -> Vec<(usize, usize)> { s.iter().map(|i| (i.0, i.1)).collect() };
        let mut cores: Vec<Vec<(usize, usize)>> = Vec::new();
        let mut merged: Vec<Vec<Item>> = Vec::new();
        let mut of = Vec::new();
        for s in &states {
            let c = core(s);
            match cores.iter().position(|x| *x == c) {
                Some(k) => {
                    for (a, b) in merged[k].iter_mut().zip(s) {
                        a.2 |= b.2;
                    }
                    of.push(k);
                }
                None => {
                    of.push(cores.len());
                    cores.push(c);
                    merged.push(s.clone());
                }
            }
        }
        let mut t = Tables { action: vec![vec![Act::Error; end + 1]; merged.len()], goto: vec![vec![None; self.nonterms.len()]; merged.len()], odd: false, conflict: false };
        for (i, es) in edges.iter().enumerate() {
            for (x, k) in es {
                match x {
                    Sym::T(a) => t.action[of[i]][*a] = Act::Shift(of[*k]),
                    Sym::N(a) => t.goto[of[i]][*a] = Some(of[*k]),
                }
            }
        }
        for (i, s) in merged.iter().enumerate() {
            for a in 0..=end {
                let red: Vec<usize> = s.iter().filter(|it| it.1 == self.rhs(it.0).len() && it.2 >> a & 1 == 1).map(|it| it.0).collect();
                let Some(&r) = red.iter().min() else { continue };
                t.conflict |= red.len() > 1;
                if let Act::Shift(_) = t.action[i][a] {
                    t.conflict = true;
                    if red.len() > 1 {
                        t.odd = true;
                    }
                    if let (Some(p), Some(q)) = (self.rule_prec[r], self.prec[a]) {
                        if p.0 > q.0 || (p.0 == q.0 && q.1 == Assoc::Left) {
                            t.action[i][a] = Act::Reduce(r);
                        } else if p.0 == q.0 && q.1 == Assoc::Non {
                            t.action[i][a] = Act::Error;
                        }
                    }
                } else if r == self.rules.len() {
                    t.action[i][a] = Act::Accept;
                } else {
                    t.action[i][a] = Act::Reduce(r);
                    t.odd |= red.contains(&self.rules.len());
                }
            }
        }
        t
    }
}
