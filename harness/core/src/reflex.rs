//! An independent scanner for the lexical grammar of scan.l (standard_conforming_strings on,
//! UTF-8), written from its rule definitions: at each position the longest rule wins, the first
//! one on a tie. Works directly on bytes, one token at a time, with no state machine.

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K {
    /// identifier-shaped word: a keyword or IDENT depending on its spelling
    Word,
    /// the n of n'...': the keyword NCHAR
    NChar,
    /// the u of u&x: an identifier of one letter
    UWord,
    Ident,
    UIdent,
    SConst,
    USConst,
    BConst,
    XConst,
    IConst,
    FConst,
    Param,
    Op,
    Typecast,
    DotDot,
    ColonEquals,
    EqualsGreater,
    LessEquals,
    GreaterEquals,
    NotEquals,
    CComment,
    SqlComment,
    /// single character token
    Char(u8),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct T {
    pub k: K,
    pub start: usize,
    pub end: usize,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum E {
    Msg(&'static str),
    /// an error with a position
    At(&'static str, usize),
}

pub fn is_space(c: u8) -> bool {
    c == b' ' || (9..=13).contains(&c)
}
fn is_newline(c: u8) -> bool {
    c == b'\n' || c == b'\r'
}
fn ident_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c >= 0x80 || c == b'_'
}
fn ident_cont(c: u8) -> bool {
    ident_start(c) || c.is_ascii_digit() || c == b'$'
}
fn dolq_cont(c: u8) -> bool {
    ident_start(c) || c.is_ascii_digit()
}
fn op_char(c: u8) -> bool {
    matches!(
        c,
        b'~' | b'!' | b'@' | b'#' | b'^' | b'&' | b'|' | b'`' | b'?' | b'+' | b'-' | b'*' | b'/' | b'%' | b'<' | b'>' | b'='
    )
}
fn self_char(c: u8) -> bool {
    matches!(
        c,
        b',' | b'(' | b')' | b'[' | b']' | b'.' | b';' | b':' | b'+' | b'-' | b'*' | b'/' | b'%' | b'^' | b'<' | b'>' | b'='
    )
}

fn at(b: &[u8], i: usize) -> Option<u8> {
    b.get(i).copied()
}
fn is(b: &[u8], i: usize, c: u8) -> bool {
    i < b.len() && b[i] == c
}
fn is_f(b: &[u8], i: usize, f: fn(u8) -> bool) -> bool {
    i < b.len() && f(b[i])
}

/// end of digit(_?digit)* at i, or i
fn decint(b: &[u8], i: usize, digit: fn(u8) -> bool) -> usize {
    let mut p = i;
    if !is_f(b, p, digit) {
        return i;
    }
    p += 1;
    loop {
        if is_f(b, p, digit) {
            p += 1;
        } else if is(b, p, b'_') && is_f(b, p + 1, digit) {
            p += 2;
        } else {
            return p;
        }
    }
}
fn dec(c: u8) -> bool {
    c.is_ascii_digit()
}
fn hex(c: u8) -> bool {
    c.is_ascii_hexdigit()
}
fn oct(c: u8) -> bool {
    (b'0'..=b'7').contains(&c)
}
fn bin(c: u8) -> bool {
    c == b'0' || c == b'1'
}
/// end of (_?digit)+ at i, or i
fn radint(b: &[u8], i: usize, digit: fn(u8) -> bool) -> usize {
    let p = if is(b, i, b'_') { i + 1 } else { i };
    let q = decint(b, p, digit);
    if q == p {
        i
    } else {
        q
    }
}
/// b[i..j] is a number part ending in a decinteger that starts at d (d == j: it ends in '.').
/// Longest extension by an identifier, dropping part of the trailing decinteger if needed.
fn junk(b: &[u8], d: usize, j: usize) -> Option<usize> {
    let mut ok = is_f(b, j, ident_start);
    let mut p = d + 1;
    while p < j && !ok {
        // the decinteger may also stop before an underscore
        ok = b[p] == b'_';
        p += 1;
    }
    if !ok {
        return None;
    }
    let mut e = j;
    while is_f(b, e, ident_cont) {
        e += 1;
    }
    Some(e)
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum N {
    Dec,
    Hex,
    Oct,
    Bin,
    BadHex,
    BadOct,
    BadBin,
    Numeric,
    NumericFail,
    Real,
    Junk,
}

/// Does the integer (digits of the given radix with underscores) fit a positive i32?
pub fn fits_i32(digits: &[u8], radix: usize) -> bool {
    let max: &[u8] = match radix {
        10 => b"2147483647",
        16 => b"7fffffff",
        8 => b"17777777777",
        _ => b"1111111111111111111111111111111",
    };
    let mut d: Vec<u8> = Vec::new();
    for &c in digits {
        if c == b'_' {
            continue;
        }
        if d.is_empty() && c == b'0' {
            continue;
        }
        d.push(c | 0x20 & ((c >> 1) & 0x20)); // letters to lower case, digits unchanged
    }
    if d.len() != max.len() {
        return d.len() < max.len();
    }
    for i in 0..d.len() {
        if d[i] != max[i] {
            return d[i] < max[i];
        }
    }
    true
}

/// number at i (a digit, or '.' followed by a digit): token, or error
fn number(b: &[u8], i: usize) -> Result<T, E> {
    let mut best: Option<(usize, N)> = None;
    let mut add = |len_end: usize, n: N| match best {
        Some((e, _)) if e >= len_end => (),
        _ => best = Some((len_end, n)),
    };
    // candidates in rule order, so that the first one keeps a tie
    let d = decint(b, i, dec);
    let zero = is(b, i, b'0');
    if d > i {
        add(d, N::Dec);
    }
    if zero {
        for (lo, up, f, good, bad) in [
            (b'x', b'X', hex as fn(u8) -> bool, N::Hex, N::BadHex),
            (b'o', b'O', oct, N::Oct, N::BadOct),
            (b'b', b'B', bin, N::Bin, N::BadBin),
        ] {
            if is(b, i + 1, lo) || is(b, i + 1, up) {
                let e = radint(b, i + 2, f);
                if e > i + 2 {
                    add(e, good);
                }
                add(if is(b, i + 2, b'_') { i + 3 } else { i + 2 }, bad);
            }
        }
    }
    // numeric: the part up to nend; its last decinteger starts at nlast (== nend when it ends in '.')
    let mut numeric: Option<(usize, usize)> = None;
    if is(b, d, b'.') {
        let f = decint(b, d + 1, dec);
        if d > i || f > d + 1 {
            numeric = Some((f, d + 1));
        }
    }
    if let Some((e, _)) = numeric {
        add(e, N::Numeric);
    }
    if d > i && is(b, d, b'.') && is(b, d + 1, b'.') {
        add(d + 2, N::NumericFail);
    }
    // real: mantissa is the decinteger or the numeric
    let mut mant: Vec<usize> = Vec::new();
    if d > i {
        mant.push(d);
    }
    if let Some((e, _)) = numeric {
        mant.push(e);
    }
    let mut reals: Vec<(usize, usize)> = Vec::new();
    for &m in &mant {
        if is(b, m, b'e') || is(b, m, b'E') {
            let s = if is(b, m + 1, b'+') || is(b, m + 1, b'-') { m + 2 } else { m + 1 };
            let e = decint(b, s, dec);
            if e > s {
                reals.push((e, s));
                add(e, N::Real);
            }
            if s == m + 2 {
                add(s, N::Junk); // realfail
            }
        }
    }
    if d > i {
        if let Some(e) = junk(b, i, d) {
            add(e, N::Junk);
        }
    }
    if let Some((e, last)) = numeric {
        if let Some(x) = junk(b, last, e) {
            add(x, N::Junk);
        }
    }
    for &(e, last) in &reals {
        if let Some(x) = junk(b, last, e) {
            add(x, N::Junk);
        }
    }
    let (end, n) = best.unwrap();
    let int = |end: usize, radix: usize, skip: usize| {
        let k = if fits_i32(&b[i + skip..end], radix) { K::IConst } else { K::FConst };
        Ok(T { k, start: i, end })
    };
    match n {
        N::Dec => int(end, 10, 0),
        N::NumericFail => int(end - 2, 10, 0),
        N::Hex => int(end, 16, 2),
        N::Oct => int(end, 8, 2),
        N::Bin => int(end, 2, 2),
        N::BadHex => Err(E::Msg("invalid hexadecimal integer")),
        N::BadOct => Err(E::Msg("invalid octal integer")),
        N::BadBin => Err(E::Msg("invalid binary integer")),
        N::Numeric | N::Real => Ok(T { k: K::FConst, start: i, end }),
        N::Junk => Err(E::Msg("trailing junk after numeric literal")),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Q {
    Bit,
    Hex,
    Plain,
    Esc,
    Uni,
}

/// After a closing quote at p: Some(position after the quote that continues the literal)
fn continues(b: &[u8], p: usize) -> Option<usize> {
    let mut q = p;
    let mut nl = false;
    while is_f(b, q, is_space) {
        if is_newline(b[q]) {
            nl = true;
        }
        q += 1;
    }
    if nl && is(b, q, b'\'') {
        Some(q + 1)
    } else {
        None
    }
}

fn hexval(b: &[u8]) -> u32 {
    let mut v = 0u32;
    for &c in b {
        let d = if c.is_ascii_digit() { c - b'0' } else { (c | 0x20) - b'a' + 10 };
        v = (v << 4) | d as u32;
    }
    v
}

/// \uXXXX or \UXXXXXXXX at i: Ok(Some((value, end))), Ok(None) if not a Unicode escape
fn uescape(b: &[u8], i: usize) -> Result<Option<(u32, usize)>, E> {
    let n = match at(b, i + 1) {
        Some(b'u') => 4,
        Some(b'U') => 8,
        _ => return Ok(None),
    };
    let mut k = 0;
    while k < n && is_f(b, i + 2 + k, hex) {
        k += 1;
    }
    if k < n {
        return Err(E::At("invalid Unicode escape", i));
    }
    Ok(Some((hexval(&b[i + 2..i + 2 + n]), i + 2 + n)))
}

/// quoted literal whose opening quote has been consumed: end of the token
fn quoted(b: &[u8], start: usize, q: Q) -> Result<usize, E> {
    let mut i = start;
    loop {
        let Some(c) = at(b, i) else {
            return Err(E::Msg(match q {
                Q::Bit => "unterminated bit string literal",
                Q::Hex => "unterminated hexadecimal string literal",
                _ => "unterminated quoted string",
            }));
        };
        if c == b'\'' {
            if q != Q::Bit && q != Q::Hex && is(b, i + 1, b'\'') {
                i += 2;
                continue;
            }
            match continues(b, i + 1) {
                Some(p) => i = p,
                None => return Ok(i + 1),
            }
            continue;
        }
        if c == b'\\' && q == Q::Esc {
            if i + 1 >= b.len() {
                i += 1;
                continue;
            }
            if let Some((v, e)) = uescape(b, i)? {
                if (0xD800..=0xDBFF).contains(&v) {
                    // must be followed by the second half of the pair
                    if !is(b, e, b'\\') {
                        return Err(E::Msg("invalid Unicode surrogate pair"));
                    }
                    match uescape(b, e)? {
                        Some((w, e2)) if (0xDC00..=0xDFFF).contains(&w) => i = e2,
                        _ => return Err(E::Msg("invalid Unicode surrogate pair")),
                    }
                    continue;
                }
                if (0xDC00..=0xDFFF).contains(&v) {
                    return Err(E::Msg("invalid Unicode surrogate pair"));
                }
                if v == 0 || v > 0x10FFFF {
                    return Err(E::Msg("invalid Unicode escape value"));
                }
                i = e;
                continue;
            }
            // octal, hexadecimal or single-character escape: never hides a quote but the escaped one
            i += 2;
            continue;
        }
        i += 1;
    }
}

/// "..." whose opening quote has been consumed
fn delimited(b: &[u8], start: usize) -> Result<usize, E> {
    let mut i = start;
    let mut n = 0;
    loop {
        let Some(c) = at(b, i) else {
            return Err(E::Msg("unterminated quoted identifier"));
        };
        if c == b'"' {
            if is(b, i + 1, b'"') {
                n += 1;
                i += 2;
                continue;
            }
            if n == 0 {
                return Err(E::Msg("zero-length delimited identifier"));
            }
            return Ok(i + 1);
        }
        n += 1;
        i += 1;
    }
}

fn operator(b: &[u8], i: usize) -> Result<T, E> {
    let mut l = 0;
    while is_f(b, i + l, op_char) {
        l += 1;
    }
    let two = |i: usize| -> Option<K> {
        match (b[i], b[i + 1]) {
            (b'=', b'>') => Some(K::EqualsGreater),
            (b'<', b'=') => Some(K::LessEquals),
            (b'>', b'=') => Some(K::GreaterEquals),
            (b'<', b'>') => Some(K::NotEquals),
            (b'!', b'=') => Some(K::NotEquals),
            _ => None,
        }
    };
    // the operator ends at an embedded comment start
    let mut n = l;
    let mut j = 1;
    while j + 1 < l {
        if (b[i + j] == b'-' && b[i + j + 1] == b'-') || (b[i + j] == b'/' && b[i + j + 1] == b'*') {
            n = j;
            break;
        }
        j += 1;
    }
    // a trailing + or - is not part of a multi-character operator made only of SQL operator characters
    let mut special = false;
    let mut j = 0;
    while j < n {
        if matches!(b[i + j], b'~' | b'!' | b'@' | b'#' | b'^' | b'&' | b'|' | b'`' | b'?' | b'%') {
            special = true;
        }
        j += 1;
    }
    if !special {
        while n > 1 && (b[i + n - 1] == b'+' || b[i + n - 1] == b'-') {
            n -= 1;
        }
    }
    let k = if n == 1 && self_char(b[i]) {
        K::Char(b[i])
    } else if n == 2 && two(i).is_some() {
        two(i).unwrap()
    } else {
        if n >= 64 {
            return Err(E::Msg("operator too long"));
        }
        K::Op
    };
    Ok(T { k, start: i, end: i + n })
}

/// $tag$ at i: end of the delimiter
fn dolq_delim(b: &[u8], i: usize) -> Option<usize> {
    let mut p = i + 1;
    if is_f(b, p, ident_start) {
        while is_f(b, p, dolq_cont) {
            p += 1;
        }
    }
    if is(b, p, b'$') {
        Some(p + 1)
    } else {
        None
    }
}

/// The token at i (not white space, not the end)
pub fn token(b: &[u8], i: usize) -> Result<T, E> {
    let t = |k: K, end: usize| Ok(T { k, start: i, end });
    let c = b[i];
    if c == b'-' && is(b, i + 1, b'-') {
        let mut p = i + 2;
        while p < b.len() && !is_newline(b[p]) {
            p += 1;
        }
        return t(K::SqlComment, p);
    }
    if c == b'/' && is(b, i + 1, b'*') {
        let mut depth = 1;
        let mut p = i + 2;
        loop {
            if p >= b.len() {
                return Err(E::Msg("unterminated /* comment"));
            }
            if b[p] == b'*' && is(b, p + 1, b'/') {
                depth -= 1;
                p += 2;
                if depth == 0 {
                    return t(K::CComment, p);
                }
            } else if b[p] == b'/' && is(b, p + 1, b'*') {
                depth += 1;
                p += 2;
            } else {
                p += 1;
            }
        }
    }
    if c == b'\'' {
        return t(K::SConst, quoted(b, i + 1, Q::Plain)?);
    }
    if is(b, i + 1, b'\'') {
        if c == b'b' || c == b'B' {
            return t(K::BConst, quoted(b, i + 2, Q::Bit)?);
        }
        if c == b'x' || c == b'X' {
            return t(K::XConst, quoted(b, i + 2, Q::Hex)?);
        }
        if c == b'e' || c == b'E' {
            return t(K::SConst, quoted(b, i + 2, Q::Esc)?);
        }
        if c == b'n' || c == b'N' {
            return t(K::NChar, i + 1);
        }
    }
    if (c == b'u' || c == b'U') && is(b, i + 1, b'&') {
        if is(b, i + 2, b'\'') {
            return t(K::USConst, quoted(b, i + 3, Q::Uni)?);
        }
        if is(b, i + 2, b'"') {
            return t(K::UIdent, delimited(b, i + 3)?);
        }
        return t(K::UWord, i + 1);
    }
    if c == b'"' {
        return t(K::Ident, delimited(b, i + 1)?);
    }
    if ident_start(c) {
        let mut p = i + 1;
        while is_f(b, p, ident_cont) {
            p += 1;
        }
        return t(K::Word, p);
    }
    if dec(c) || (c == b'.' && is_f(b, i + 1, dec)) {
        return number(b, i);
    }
    if c == b'$' {
        if is_f(b, i + 1, dec) {
            let mut p = i + 1;
            while is_f(b, p, dec) {
                p += 1;
            }
            if !fits_i32(&b[i + 1..p], 10) {
                return Err(E::Msg("parameter number too large"));
            }
            return t(K::Param, p);
        }
        let Some(d) = dolq_delim(b, i) else {
            return t(K::Char(c), i + 1);
        };
        let n = d - i;
        let mut p = d;
        loop {
            if p + n > b.len() {
                return Err(E::Msg("unterminated dollar-quoted string"));
            }
            let mut j = 0;
            while j < n && b[p + j] == b[i + j] {
                j += 1;
            }
            if j == n {
                return t(K::SConst, p + n);
            }
            p += 1;
        }
    }
    if c == b':' {
        if is(b, i + 1, b':') {
            return t(K::Typecast, i + 2);
        }
        if is(b, i + 1, b'=') {
            return t(K::ColonEquals, i + 2);
        }
        return t(K::Char(c), i + 1);
    }
    if c == b'.' && is(b, i + 1, b'.') {
        return t(K::DotDot, i + 2);
    }
    if op_char(c) {
        return operator(b, i);
    }
    t(K::Char(c), i + 1)
}

/// The whole input: tokens (comments included)
pub fn scan(b: &[u8]) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if is_space(b[i]) {
            i += 1;
            continue;
        }
        let t = token(b, i)?;
        i = t.end;
        v.push(t);
    }
    Ok(v)
}
