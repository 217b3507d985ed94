//! A stand-in for the crate regex in the symbolic build: leftmost-first matching by bounded backtracking. Patterns
//! match bytes. Native replays use the real crate.
use std::borrow::Cow;

type Set = [bool; 256];

enum Op {
    Byte(Box<Set>),
    Split(usize, usize),
    Jump(usize),
    Save(usize),
    Start,
    End,
    Match,
}

struct Prog {
    ops: Vec<Op>,
    groups: usize,
}

#[derive(Debug, Clone)]
pub struct Error(String);

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Error {}

enum Ast {
    Empty,
    Set(Box<Set>),
    Start,
    End,
    Group(Option<usize>, Box<Ast>),
    Cat(Vec<Ast>),
    Alt(Vec<Ast>),
    Repeat(Box<Ast>, usize, Option<usize>, bool),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    groups: usize,
    fold: bool,
    dot_nl: bool,
}

fn err<T>(m: &str) -> Result<T, Error> {
    Err(Error(m.to_string()))
}

impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }

    fn alt(&mut self) -> Result<Ast, Error> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some(b'|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ast::Alt(v) })
    }

    fn cat(&mut self) -> Result<Ast, Error> {
        let mut v = Vec::new();
        while let Some(c) = self.peek() {
            if c == b'|' || c == b')' {
                break;
            }
            let mut a = self.atom()?;
            while let Some(c) = self.peek() {
                let (lo, hi) = match c {
                    b'*' => (0, None),
                    b'+' => (1, None),
                    b'?' => (0, Some(1)),
                    b'{' => {
                        self.i += 1;
                        let lo = self.number()?;
                        let mut hi = Some(lo);
                        if self.peek() == Some(b',') {
                            self.i += 1;
                            hi = if self.peek() == Some(b'}') { None } else { Some(self.number()?) };
                        }
                        if self.peek() != Some(b'}') {
                            return err("repetition");
                        }
                        (lo, hi)
                    }
                    _ => break,
                };
                self.i += 1;
                let lazy = self.peek() == Some(b'?');
                self.i += lazy as usize;
                a = Ast::Repeat(Box::new(a), lo, hi, !lazy);
            }
            v.push(a);
        }
        Ok(match v.len() {
            0 => Ast::Empty,
            1 => v.pop().unwrap(),
            _ => Ast::Cat(v),
        })
    }

    fn number(&mut self) -> Result<usize, Error> {
        let from = self.i;
        let mut n = 0;
        while let Some(c @ b'0'..=b'9') = self.peek() {
            n = n * 10 + (c - b'0') as usize;
            self.i += 1;
        }
        if from == self.i { err("number") } else { Ok(n) }
    }

    fn one(&self, c: u8) -> Box<Set> {
        let mut s = Box::new([false; 256]);
        s[c as usize] = true;
        if self.fold && c.is_ascii_alphabetic() {
            s[(c ^ 32) as usize] = true;
        }
        s
    }

    /// after the backslash
    fn escape(&mut self) -> Result<Box<Set>, Error> {
        let Some(c) = self.peek() else { return err("escape") };
        self.i += 1;
        let class = |f: fn(u8) -> bool, not: bool| {
            let mut s = Box::new([false; 256]);
            for c in 0..=255u8 {
                s[c as usize] = f(c) != not;
            }
            s
        };
        Ok(match c {
            b'n' => self.one(b'\n'),
            b't' => self.one(b'\t'),
            b'r' => self.one(b'\r'),
            b'f' => self.one(12),
            b'v' => self.one(11),
            b'a' => self.one(7),
            b'x' => {
                let h = |c: Option<u8>| c.and_then(|c| (c as char).to_digit(16)).unwrap_or(0) as u8;
                let v = h(self.peek()) * 16 + h(self.b.get(self.i + 1).copied());
                self.i += 2;
                self.one(v)
            }
            b'd' | b'D' => class(|c| c.is_ascii_digit(), c == b'D'),
            b's' | b'S' => class(|c| matches!(c, b' ' | 9..=13), c == b'S'),
            b'w' | b'W' => class(|c| c.is_ascii_alphanumeric() || c == b'_', c == b'W'),
            c if c.is_ascii_punctuation() || c >= 128 => self.one(c),
            _ => return err("unknown escape"),
        })
    }

    fn class(&mut self) -> Result<Box<Set>, Error> {
        let not = self.peek() == Some(b'^');
        self.i += not as usize;
        let mut s: Box<Set> = Box::new([false; 256]);
        let from = self.i;
        loop {
            let Some(c) = self.peek() else { return err("class") };
            self.i += 1;
            if c == b']' && self.i > from + 1 {
                break;
            }
            let item = if c == b'\\' { self.escape()? } else { self.one(c) };
            let single = |t: &Set| {
                let v: Vec<usize> = (0..256).filter(|&k| t[k]).collect();
                (v.len() == 1).then(|| v[0])
            };
            if self.peek() == Some(b'-') && self.b.get(self.i + 1).is_some_and(|c| *c != b']') {
                self.i += 1;
                let d = self.peek().unwrap();
                self.i += 1;
                let hi = if d == b'\\' { self.escape()? } else { self.one(d) };
                match (single(&item), single(&hi)) {
                    (Some(a), Some(b)) if a <= b => {
                        for k in a..=b {
                            s[k] = true;
                        }
                    }
                    _ => return err("range"),
                }
                continue;
            }
            for k in 0..256 {
                s[k] |= item[k];
            }
        }
        if not {
            for k in 0..256 {
                s[k] = !s[k];
            }
        }
        Ok(s)
    }

    fn atom(&mut self) -> Result<Ast, Error> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            b'(' => {
                let mut group = None;
                if self.b[self.i..].starts_with(b"?:") {
                    self.i += 2;
                } else if self.peek() == Some(b'?') {
                    self.i += 1;
                    let mut on = true;
                    loop {
                        let Some(c) = self.peek() else { return err("flags") };
                        self.i += 1;
                        match c {
                            b'-' => on = false,
                            b'i' => self.fold = on,
                            b's' => self.dot_nl = on,
                            b'u' => (),
                            b')' => return Ok(Ast::Empty),
                            _ => return err("unsupported flag"),
                        }
                    }
                } else {
                    self.groups += 1;
                    group = Some(self.groups);
                }
                let a = self.alt()?;
                if self.peek() != Some(b')') {
                    return err("unclosed group");
                }
                self.i += 1;
                Ast::Group(group, Box::new(a))
            }
            b'[' => Ast::Set(self.class()?),
            b'.' => {
                let mut s = Box::new([true; 256]);
                s[10] = self.dot_nl;
                Ast::Set(s)
            }
            b'^' => Ast::Start,
            b'$' => Ast::End,
            b'\\' => Ast::Set(self.escape()?),
            b'*' | b'+' | b'?' | b'{' => return err("nothing to repeat"),
            c => Ast::Set(self.one(c)),
        })
    }
}

impl Prog {
    fn new(p: &str) -> Result<Prog, Error> {
        let mut q = P { b: p.as_bytes(), i: 0, groups: 0, fold: false, dot_nl: false };
        let a = q.alt()?;
        if q.i < q.b.len() {
            return err("unopened group");
        }
        let mut prog = Prog { ops: Vec::new(), groups: q.groups + 1 };
        prog.emit(&a);
        prog.ops.push(Op::Match);
        Ok(prog)
    }

    fn emit(&mut self, a: &Ast) {
        match a {
            Ast::Empty => (),
            Ast::Set(s) => self.ops.push(Op::Byte(s.clone())),
            Ast::Start => self.ops.push(Op::Start),
            Ast::End => self.ops.push(Op::End),
            Ast::Group(None, a) => self.emit(a),
            Ast::Group(Some(k), a) => {
                self.ops.push(Op::Save(2 * k));
                self.emit(a);
                self.ops.push(Op::Save(2 * k + 1));
            }
            Ast::Cat(v) => v.iter().for_each(|a| self.emit(a)),
            Ast::Alt(v) => {
                let mut ends = Vec::new();
                for (i, a) in v.iter().enumerate() {
                    if i + 1 == v.len() {
                        self.emit(a);
                        break;
                    }
                    let s = self.ops.len();
                    self.ops.push(Op::Jump(0));
                    self.emit(a);
                    ends.push(self.ops.len());
                    self.ops.push(Op::Jump(0));
                    self.ops[s] = Op::Split(s + 1, self.ops.len());
                }
                let n = self.ops.len();
                for e in ends {
                    self.ops[e] = Op::Jump(n);
                }
            }
            Ast::Repeat(a, lo, hi, greedy) => {
                for _ in 0..*lo {
                    self.emit(a);
                }
                let split = |x: usize, y: usize| if *greedy { Op::Split(x, y) } else { Op::Split(y, x) };
                match hi {
                    None => {
                        let s = self.ops.len();
                        self.ops.push(Op::Jump(0));
                        self.emit(a);
                        self.ops.push(Op::Jump(s));
                        self.ops[s] = split(s + 1, self.ops.len());
                    }
                    Some(hi) => {
                        let mut splits = Vec::new();
                        for _ in *lo..*hi {
                            splits.push(self.ops.len());
                            self.ops.push(Op::Jump(0));
                            self.emit(a);
                        }
                        let n = self.ops.len();
                        for s in splits {
                            self.ops[s] = split(s + 1, n);
                        }
                    }
                }
            }
        }
    }

    /// leftmost-first match at or after `from`: the slots of its groups
    fn find(&self, b: &[u8], from: usize) -> Option<Vec<usize>> {
        let anchored = matches!(self.ops[0], Op::Start);
        let mut at = from;
        loop {
            let mut slots = vec![usize::MAX; self.groups * 2];
            if self.run(b, at, &mut slots) {
                slots[0] = at;
                return Some(slots);
            }
            at += 1;
            if at > b.len() || anchored {
                return None;
            }
        }
    }

    fn run(&self, b: &[u8], at: usize, slots: &mut Vec<usize>) -> bool {
        let width = b.len() + 1;
        let mut seen = vec![false; self.ops.len() * width];
        enum Job {
            Go(usize, usize),
            Restore(usize, usize),
        }
        let mut jobs = vec![Job::Go(0, at)];
        while let Some(j) = jobs.pop() {
            let (mut pc, mut i) = match j {
                Job::Restore(k, v) => {
                    slots[k] = v;
                    continue;
                }
                Job::Go(pc, i) => (pc, i),
            };
            loop {
                let k = pc * width + i;
                if seen[k] {
                    break;
                }
                seen[k] = true;
                match &self.ops[pc] {
                    Op::Byte(s) => {
                        if i < b.len() && s[b[i] as usize] {
                            pc += 1;
                            i += 1;
                        } else {
                            break;
                        }
                    }
                    Op::Split(x, y) => {
                        jobs.push(Job::Go(*y, i));
                        pc = *x;
                    }
                    Op::Jump(x) => pc = *x,
                    Op::Save(k) => {
                        jobs.push(Job::Restore(*k, slots[*k]));
                        slots[*k] = i;
                        pc += 1;
                    }
                    Op::Start => {
                        if i != 0 {
                            break;
                        }
                        pc += 1;
                    }
                    Op::End => {
                        if i != b.len() {
                            break;
                        }
                        pc += 1;
                    }
                    Op::Match => {
                        slots[1] = i;
                        return true;
                    }
                }
            }
        }
        false
    }
}

/// what was compiled so far, by the address and the text of the pattern
static mut COMPILED: Vec<(usize, String, &'static Prog)> = Vec::new();

#[allow(static_mut_refs)]
fn prog(at: usize, p: &str) -> &'static Prog {
    // the harnesses have one thread
    unsafe {
        for (a, q, g) in COMPILED.iter() {
            if *a == at && q == p {
                return g;
            }
        }
        let g: &'static Prog = Box::leak(Box::new(Prog::new(p).expect("pattern")));
        COMPILED.push((at, p.to_string(), g));
        g
    }
}

macro_rules! flavour {
    ($text:ty, $bytes:expr, $sub:ident) => {
        #[derive(Clone, Debug)]
        pub struct Regex {
            pattern: String,
            at: usize,
        }

        #[derive(Clone, Copy, Debug)]
        pub struct Match<'h> {
            text: &'h $text,
            start: usize,
            end: usize,
        }

        #[allow(clippy::len_without_is_empty)]
        impl<'h> Match<'h> {
            pub fn start(&self) -> usize {
                self.start
            }
            pub fn end(&self) -> usize {
                self.end
            }
            pub fn len(&self) -> usize {
                self.end - self.start
            }
            pub fn is_empty(&self) -> bool {
                self.end == self.start
            }
            pub fn range(&self) -> std::ops::Range<usize> {
                self.start..self.end
            }
            pub fn $sub(&self) -> &'h $text {
                &self.text[self.start..self.end]
            }
        }

        #[derive(Debug)]
        pub struct Captures<'h> {
            text: &'h $text,
            slots: Vec<usize>,
        }

        impl<'h> Captures<'h> {
            pub fn get(&self, i: usize) -> Option<Match<'h>> {
                let (s, e) = (*self.slots.get(2 * i)?, *self.slots.get(2 * i + 1)?);
                (s != usize::MAX && e != usize::MAX).then(|| Match { text: self.text, start: s, end: e })
            }
            pub fn len(&self) -> usize {
                self.slots.len() / 2
            }
        }

        impl std::ops::Index<usize> for Captures<'_> {
            type Output = $text;
            fn index(&self, i: usize) -> &$text {
                self.get(i).unwrap().$sub()
            }
        }

        impl Regex {
            pub fn new(p: &str) -> Result<Regex, crate::Error> {
                Ok(Regex { pattern: p.to_string(), at: p.as_ptr() as usize })
            }
            pub fn as_str(&self) -> &str {
                &self.pattern
            }
            fn prog(&self) -> &'static crate::Prog {
                crate::prog(self.at, &self.pattern)
            }
            pub fn captures_at<'h>(&self, h: &'h $text, at: usize) -> Option<Captures<'h>> {
                self.prog().find($bytes(h), at).map(|slots| Captures { text: h, slots })
            }
            pub fn captures<'h>(&self, h: &'h $text) -> Option<Captures<'h>> {
                self.captures_at(h, 0)
            }
            pub fn find_at<'h>(&self, h: &'h $text, at: usize) -> Option<Match<'h>> {
                self.captures_at(h, at).and_then(|c| c.get(0))
            }
            pub fn find<'h>(&self, h: &'h $text) -> Option<Match<'h>> {
                self.find_at(h, 0)
            }
            pub fn is_match(&self, h: &$text) -> bool {
                self.find(h).is_some()
            }
            pub fn captures_iter<'r, 'h>(&'r self, h: &'h $text) -> impl Iterator<Item = Captures<'h>> + 'r
            where
                'h: 'r,
            {
                let mut at = 0;
                std::iter::from_fn(move || {
                    if at > h.len() {
                        return None;
                    }
                    let c = self.captures_at(h, at)?;
                    let m = c.get(0).unwrap();
                    at = if m.end == m.start { m.end + 1 } else { m.end };
                    Some(c)
                })
            }
            pub fn find_iter<'r, 'h>(&'r self, h: &'h $text) -> impl Iterator<Item = Match<'h>> + 'r
            where
                'h: 'r,
            {
                self.captures_iter(h).map(|c| c.get(0).unwrap())
            }
        }
    };
}

flavour!(str, str::as_bytes, as_str);

impl Regex {
    pub fn replace_all<'h, F: FnMut(&Captures<'_>) -> String>(&self, h: &'h str, mut f: F) -> Cow<'h, str> {
        let mut out = String::new();
        let mut last = 0;
        for c in self.captures_iter(h) {
            let m = c.get(0).unwrap();
            out.push_str(&h[last..m.start]);
            out.push_str(&f(&c));
            last = m.end;
        }
        if last == 0 && out.is_empty() {
            return Cow::Borrowed(h);
        }
        out.push_str(&h[last..]);
        Cow::Owned(out)
    }
}

pub mod bytes {
    fn id(b: &[u8]) -> &[u8] {
        b
    }
    flavour!([u8], id, as_bytes);
}
