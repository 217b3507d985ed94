use crate::common::*;
use crate::reflex::{self, E, K};
use postgresql_cst_parser::verif_hooks::{lex, TokenKind};
use postgresql_cst_parser::ParserError;
use symrt as sym;

fn kind_matches(k: K, r: &TokenKind) -> bool {
    match (k, r) {
        (K::Word, TokenKind::IDENT | TokenKind::KEYWORD(_)) => true,
        (K::NChar, TokenKind::KEYWORD(s)) => s == "NCHAR",
        (K::UWord, TokenKind::IDENT) => true,
        (K::Ident, TokenKind::IDENT) => true,
        (K::UIdent, TokenKind::UIDENT | TokenKind::IDENT) => true,
        (K::SConst, TokenKind::SCONST) => true,
        (K::USConst, TokenKind::USCONST | TokenKind::SCONST) => true,
        (K::BConst, TokenKind::BCONST) => true,
        (K::XConst, TokenKind::XCONST) => true,
        (K::IConst, TokenKind::ICONST) => true,
        (K::FConst, TokenKind::FCONST) => true,
        (K::Param, TokenKind::PARAM) => true,
        (K::Op, TokenKind::Op) => true,
        (K::Typecast, TokenKind::TYPECAST) => true,
        (K::DotDot, TokenKind::DOT_DOT) => true,
        (K::ColonEquals, TokenKind::COLON_EQUALS) => true,
        (K::EqualsGreater, TokenKind::EQUALS_GREATER) => true,
        (K::LessEquals, TokenKind::LESS_EQUALS) => true,
        (K::GreaterEquals, TokenKind::GREATER_EQUALS) => true,
        (K::NotEquals, TokenKind::NOT_EQUALS) => true,
        (K::CComment, TokenKind::C_COMMENT) => true,
        (K::SqlComment, TokenKind::SQL_COMMENT) => true,
        (K::Char(c), TokenKind::RAW(s)) => s.len() == 1 && s.as_bytes()[0] == c,
        _ => false,
    }
}

/// `lex` against the independent scanner of reflex.rs: same tokens, same spans, same errors.
pub fn compare(b: &[u8]) {
    let s = to_str(b);
    let real = lex(s);
    match &real {
        Ok(v) => {
            sym::observe(&[0, v.len() as u8]);
            for t in v {
                sym::observe(&[t.start_byte_pos as u8, t.end_byte_pos as u8]);
            }
        }
        Err(e) => sym::observe(&[1, matches!(e, ParserError::ScanReport(_)) as u8]),
    }
    for (i, &c) in b.iter().enumerate() {
        if c == 0 {
            sym::reach("null");
            match real {
                Err(ParserError::ScanReport(r)) => sym::check(r.position_in_bytes == i, "a null character is reported at its position"),
                _ => sym::fail("a null character is rejected"),
            }
            return;
        }
    }
    let want = reflex::scan(b);
    match (real, want) {
        (Ok(r), Ok(w)) => {
            sym::reach("tokens");
            sym::check(r.len() == w.len(), "the number of tokens is that of scan.l");
            for (t, x) in r.iter().zip(w.iter()) {
                sym::check(t.start_byte_pos == x.start, "a token starts where scan.l says");
                sym::check(t.end_byte_pos == x.end, "a token ends where scan.l says");
                sym::check(kind_matches(x.k, &t.kind), "a token has the kind scan.l says");
                sym::check(same(t.value.as_bytes(), &b[x.start..x.end]), "the value of a token is its text");
            }
        }
        (Err(e), Err(x)) => {
            sym::reach("error");
            match (e, x) {
                (ParserError::ScanError { message }, E::Msg(m)) => sym::check(message == m, "the scan error is that of scan.l"),
                (ParserError::ScanReport(r), E::At(m, p)) => {
                    sym::check(r.message == m, "the scan error is that of scan.l");
                    sym::check(r.position_in_bytes == p, "the scan error points where scan.l says");
                }
                _ => sym::fail("the scan error is that of scan.l"),
            }
        }
        (Ok(_), Err(_)) => sym::fail("an input scan.l rejects is rejected"),
        (Err(_), Ok(_)) => sym::fail("an input scan.l accepts is accepted"),
    }
}

/// every UTF-8 string of n bytes
pub fn lex_free() {
    let _ = lex("select a");
    let n = sym::param(0);
    let b = sym::utf8(n);
    compare(&b);
}

pub fn lex_templates() {
    let _ = lex("select a");
    let i = crate::whole::pick(crate::templates::LEX.len());
    sym::label(crate::templates::LEX[i]);
    let b = fill(crate::templates::LEX[i], sym::param(0));
    compare(&b);
}
