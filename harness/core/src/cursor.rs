//! Reading back a text that was written.
use symrt as sym;

pub fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}

pub fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut d = (a.len() != b.len()) as u8;
    for i in 0..a.len().min(b.len()) {
        d |= a[i] ^ b[i];
    }
    d == 0
}

static mut TRYING: bool = false;

/// While the first, simple text is read: where that is not written in the way read here, nothing can be said about the
/// others, and the run ends quietly.
pub fn trying(on: bool) {
    unsafe { TRYING = on }
}

/// something of the syntax read here
pub fn form(ok: bool, what: &str) {
    if !ok {
        if !unsafe { TRYING } {
            sym::fail(what);
        }
        sym::reach("not in the form known");
        sym::assume(false);
    }
}

pub struct Cursor<'a> {
    pub s: &'a [u8],
    pub at: usize,
}

impl<'a> Cursor<'a> {
    pub fn new(s: &'a str) -> Self {
        Cursor { s: s.as_bytes(), at: 0 }
    }

    /// white space and comments
    pub fn gap(&mut self) {
        while self.at < self.s.len() {
            if self.s[self.at].is_ascii_whitespace() {
                self.at += 1;
            } else if self.s[self.at..].starts_with(b"//") {
                while self.at < self.s.len() && self.s[self.at] != b'\n' {
                    self.at += 1;
                }
            } else {
                break;
            }
        }
    }

    pub fn done(&mut self) -> bool {
        self.gap();
        self.at == self.s.len()
    }

    pub fn here(&self, t: &str) -> bool {
        let t = t.as_bytes();
        if self.at + t.len() > self.s.len() {
            return false;
        }
        let mut d = 0;
        for i in 0..t.len() {
            d |= t[i] ^ self.s[self.at + i];
        }
        d == 0
    }

    pub fn eat(&mut self, t: &str) -> bool {
        self.gap();
        let r = self.here(t);
        if r {
            self.at += t.len();
        }
        r
    }

    /// what is written around the content
    pub fn must(&mut self, t: &str, what: &str) {
        let r = self.eat(t);
        form(r, what);
    }

    /// content
    pub fn says(&mut self, t: &str, what: &str) {
        let r = self.eat(t);
        sym::check(r, what);
    }

    pub fn word(&mut self) -> String {
        self.gap();
        let a = self.at;
        while self.at < self.s.len() && (self.s[self.at].is_ascii_alphanumeric() || self.s[self.at] == b'_') {
            self.at += 1;
        }
        text(self.s[a..self.at].to_vec())
    }

    pub fn number(&mut self) -> usize {
        let w = self.word();
        form(!w.is_empty() && w.len() < 18 && w.bytes().all(|c| c.is_ascii_digit()), "a number");
        let mut n = 0;
        for c in w.bytes() {
            n = n * 10 + (c - b'0') as usize;
        }
        n
    }

    pub fn signed(&mut self) -> i64 {
        if self.eat("-") {
            -(self.number() as i64)
        } else {
            self.number() as i64
        }
    }

    /// what stands between quotes
    pub fn quoted(&mut self) -> String {
        self.must("\"", "a text is in quotes");
        let a = self.at;
        while self.at < self.s.len() && self.s[self.at] != b'"' {
            self.at += 1;
        }
        let t = text(self.s[a..self.at].to_vec());
        self.must("\"", "a text is in quotes");
        t
    }

    /// go behind the next `t`
    pub fn go(&mut self, t: &str) {
        let r = self.find(t);
        form(r, t);
    }

    pub fn find(&mut self, t: &str) -> bool {
        while self.at < self.s.len() {
            if self.here(t) {
                self.at += t.len();
                return true;
            }
            self.at += 1;
        }
        false
    }

    pub fn numbers(&mut self) -> Vec<usize> {
        let what = "the tables are lists of numbers";
        self.must("[", what);
        let mut v = Vec::new();
        while !self.eat("]") {
            v.push(self.number());
            self.eat(",");
        }
        v
    }
}
