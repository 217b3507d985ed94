use postgresql_cst_parser::{NodeOrToken, ResolvedNode, syntax_kind::SyntaxKind};
use symrt as sym;

/// Text with holes. `{c<n>}` is a run of n bytes (plus the parameter `grow`) of class c:
///   u any UTF-8 text, t trivia characters, o operator characters, n number characters,
///   q quoting characters, w ASCII word characters, l ASCII letters, s white space.
/// `{{` is a literal brace; `{r<n>x}` is n copies of the character x; `{R<n>:text}` is n copies of the text;
/// `{m<n>}` is one character of n bytes; `{x}` one of the characters outside ASCII listed below;
/// `{c<n>}`, `{p<n>}`, `{k<n>}`, `{j<n>}`, `{N<n>}` are 0 to n pieces (plus `grow`) of trivia, operators, quoting, quoting (fewer), numbers.
pub fn fill(t: &str, grow: usize) -> Vec<u8> {
    let b = t.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'{' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        if b[i + 1] == b'{' {
            out.push(b'{');
            i += 2;
            continue;
        }
        if b[i + 1] == b'W' {
            // a word of any length a keyword can have
            let n = 1 + sym::choose(17);
            out.extend_from_slice(&sym::bytes_in(n, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"));
            i += 3;
            continue;
        }
        if b[i + 1] == b'R' {
            // a string many times
            let mut n = 0usize;
            i += 2;
            while b[i] != b':' {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            let from = i + 1;
            while b[i] != b'}' {
                i += 1;
            }
            for _ in 0..n {
                out.extend_from_slice(&b[from..i]);
            }
            i += 1;
            continue;
        }
        let class = b[i + 1];
        let mut n = 0usize;
        i += 2;
        while b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if class == b'r' {
            if b[i] == b'!' {
                i += 1;
            }
            for _ in 0..n {
                out.push(b[i]);
            }
            i += 2;
            continue;
        }
        // `!` keeps the size of the hole whatever `grow` is
        let grow = if b[i] == b'!' {
            i += 1;
            0
        } else {
            grow
        };
        i += 1;
        if let Some(set) = pieces(class) {
            // up to n pieces in a row
            for _ in 0..sym::choose(n + grow + 1) {
                out.extend_from_slice(set[sym::choose(set.len())].as_bytes());
            }
            continue;
        }
        if class == b'x' {
            // a character outside ASCII whose neighbours matter: letters with a case of another length, look-alikes of ASCII, spaces, emoji
            let lead: &[u8] = [
                &[0xc3][..], &[0xc4], &[0xc5], &[0xe1, 0xba], &[0xe2, 0x84], &[0xe2, 0x80], &[0xe3, 0x80], &[0xef, 0xbb], &[0xef, 0xbc], &[0xef, 0xbd], &[0xf0, 0x9f, 0x98],
            ][sym::choose(11)];
            out.extend_from_slice(lead);
            let last = sym::bytes(1)[0];
            sym::assume(last & 0xc0 == 0x80);
            out.push(last);
            continue;
        }
        let n = n + grow;
        let v = match class {
            b'u' => sym::utf8(n),
            b'm' => {
                let v = sym::utf8(n - grow);
                sym::assume(v[0] >= [0, 0, 0xc0, 0xe0, 0xf0][n - grow]);
                v
            }
            b't' => sym::bytes_in(n, b" \t\n\r\x0b\x0c-/*x'"),
            b'o' => sym::bytes_in(n, b"~!@#^&|`?+-*/%<>=:.,;()[]"),
            b'n' => sym::bytes_in(n, b"0123456789_.eExXoObBaAfFgG+-$"),
            b'q' => sym::bytes_in(n, b"'\"\\$ \n\t-ueEUbnNxX&0dD8_aA"),
            b'w' => sym::bytes_in(n, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789$"),
            b'i' => sym::bytes_in(n, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"),
            b'l' => sym::bytes_in(n, b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
            b'd' => sym::bytes_in(n, b"0123456789"),
            b'h' => sym::bytes_in(n, b"0123456789abcdefABCDEF"),
            b's' => sym::bytes_in(n, b" \t\n\r\x0b\x0c"),
            _ => panic!("bad template"),
        };
        out.extend_from_slice(&v);
    }
    out
}

/// Fragments whose combination matters more than their bytes.
fn pieces(class: u8) -> Option<&'static [&'static str]> {
    Some(match class {
        b'c' => &[" ", "\n", "--x\n", "/*y*/"],
        b'p' => &["--", "/*", "*/", "+", "-", "/", "*", "@", "<", "="],
        b'k' => &["'", "''", "\\'", "\"", "$$", "$a$", "\n", " ", "--x\n", "/*", "*/", "e'", "u&'", "U&\"", "b'", "x'", "n'", "a"],
        b'j' => &["'", "''", "\\", "\"", "$$", "$a$", "\n", "--", "/*", "*/", "a"],
        b'N' => &["0", "1", "_", "e", "E-", ".", "0x", "0b1", "0o7", "8", "$", "2147483647", "a"],
        _ => return None,
    })
}

pub fn to_str(v: &[u8]) -> &str {
    // the harness generates UTF-8 only
    unsafe { std::str::from_utf8_unchecked(v) }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Leaf {
    pub kind: SyntaxKind,
    pub start: usize,
    pub end: usize,
    pub text: String,
}

/// An element of the tree in document order
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    Open(SyntaxKind, usize, usize),
    Leaf(Leaf),
    Close,
}

pub fn events(root: &ResolvedNode) -> Vec<Ev> {
    let mut v = Vec::new();
    walk(root, &mut v);
    v
}

fn walk(n: &ResolvedNode, v: &mut Vec<Ev>) {
    let r = n.text_range();
    v.push(Ev::Open(n.kind(), usize::from(r.start()), usize::from(r.end())));
    for c in n.children_with_tokens() {
        match c {
            NodeOrToken::Node(c) => walk(c, v),
            NodeOrToken::Token(t) => {
                let r = t.text_range();
                v.push(Ev::Leaf(Leaf {
                    kind: t.kind(),
                    start: usize::from(r.start()),
                    end: usize::from(r.end()),
                    text: t.text().to_string(),
                }))
            }
        }
    }
    v.push(Ev::Close);
}

pub fn leaves(ev: &[Ev]) -> Vec<&Leaf> {
    ev.iter()
        .filter_map(|e| match e {
            Ev::Leaf(l) => Some(l),
            _ => None,
        })
        .collect()
}

/// Are the two byte strings equal? One expression, no branching on the contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
