//! Relations between parses of related texts, and every production of the grammar in a sentence.
use crate::common::*;
use crate::refparse::*;
use crate::whole;
use postgresql_cst_parser::syntax_kind::SyntaxKind;
use postgresql_cst_parser::{parse, ParserError};
use symrt as sym;

include!(concat!(env!("VERIF_REF"), "/sentences.rs"));

/// the text of every terminal
fn spell(toks: &mut Vec<&'static str>) {
    // (terminals gram.y does not have are UNKNOWN)
    for t in TERMINALS.iter() {
        let b = t.as_bytes();
        toks.push(if b.len() == 3 && b[0] == b'\'' { &t[1..2] } else { "" });
    }
    for &(s, _, t) in KEYWORDS.iter() {
        if t != UNKNOWN {
            toks[t as usize] = s;
        }
    }
    for (t, s) in [
        (T_IDENT, "a"),
        (T_SCONST, "'s'"),
        (T_BCONST, "b'1'"),
        (T_XCONST, "x'1'"),
        (T_ICONST, "1"),
        (T_FCONST, "1.5"),
        (T_PARAM, "$1"),
        (T_OP, "~"),
        (T_TYPECAST, "::"),
        (T_DOT_DOT, ".."),
        (T_COLON_EQUALS, ":="),
        (T_EQUALS_GREATER, "=>"),
        (T_LESS_EQUALS, "<="),
        (T_GREATER_EQUALS, ">="),
        (T_NOT_EQUALS, "<>"),
        (T_NOT_LA, "not"),
        (T_NULLS_LA, "nulls"),
        (T_WITH_LA, "with"),
        (T_WITHOUT_LA, "without"),
        (T_FORMAT_LA, "format"),
    ] {
        if t != UNKNOWN {
            toks[t as usize] = s;
        }
    }
}

fn any_case(out: &mut Vec<u8>, w: &[u8]) {
    for &c in w {
        if c.is_ascii_lowercase() {
            out.push(sym::bytes_in(1, &[c, c - 32])[0]);
        } else {
            out.push(c);
        }
    }
}

/// params: 0 = first sentence, 1 = stride, 3 = 1: comments in every gap,
/// 7 = what to check. One sentence per production that has one; symbolic are one identifier, one
/// number, one gap and the case of one keyword.
pub fn sentences() {
    let f = Full::new();
    let mut words = Vec::with_capacity(NTERM);
    spell(&mut words);
    let stride = sym::param(1).max(1);
    let n = (SENTENCES.len() - sym::param(0) + stride - 1) / stride;
    let k = sym::param(0) + sym::choose(n) * stride;
    let (rule, toks) = SENTENCES[k];
    let comments = sym::param(3) == 1;
    let at = if toks.is_empty() { 0 } else { k % toks.len() };
    let mut b: Vec<u8> = Vec::new();
    let mut ident = true;
    let mut number = true;
    let mut cased = false;
    for (i, &t) in toks.iter().enumerate() {
        let w = words[t as usize].as_bytes();
        if i > 0 {
            if comments {
                b.extend_from_slice(match if i == at { sym::choose(4) } else { i % 4 } {
                    0 => b" /*c*/ ",
                    1 => b"/**/",
                    2 => b" --\n",
                    _ => b"\n/* */--\n ",
                });
            } else if i == at {
                b.extend_from_slice(&sym::bytes_in(1, b" \t\n"));
            } else {
                b.push(b' ');
            }
        }
        if t == T_IDENT && ident {
            ident = false;
            b.extend_from_slice(&sym::bytes_in(1, b"cf_Z"));
        } else if t == T_ICONST && number {
            number = false;
            b.extend_from_slice(&sym::bytes_in(1, b"0159"));
        } else if i >= at && !cased && w.len() > 1 && w[0].is_ascii_lowercase() && t != T_BCONST && t != T_XCONST {
            cased = true;
            any_case(&mut b, w);
        } else {
            b.extend_from_slice(w);
        }
    }
    let _ = rule;
    sym::label(to_str(&b[..0]));
    whole::check(&f, &b, whole::what());
}

/// what stays when white space and comments go
#[derive(PartialEq, Eq)]
enum Shape {
    Tree(Vec<Ev>),
    /// start, end
    Syntax(usize, usize),
    Scan,
}

fn shape(s: &str) -> Shape {
    match parse(s) {
        Ok(r) => {
            let mut v = events(&r);
            v.retain(|e| !matches!(e, Ev::Leaf(l) if whole::is_trivia(l.kind)));
            Shape::Tree(v)
        }
        Err(ParserError::ParseError { start_byte_pos, end_byte_pos, .. }) => Shape::Syntax(start_byte_pos, end_byte_pos),
        Err(_) => Shape::Scan,
    }
}

/// same nodes, same kinds; leaf texts equal (`fold`: up to the case of ASCII letters outside quotes)
fn alike(a: &[Ev], b: &[Ev], fold: bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (x, y) in a.iter().zip(b.iter()) {
        match (x, y) {
            (Ev::Open(k, ..), Ev::Open(l, ..)) if k == l => (),
            (Ev::Close, Ev::Close) => (),
            (Ev::Leaf(x), Ev::Leaf(y)) if x.kind == y.kind => {
                if x.text.len() != y.text.len() {
                    return false;
                }
                if !fold && !same(x.text.as_bytes(), y.text.as_bytes()) {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}

/// `~` marks a place where white space and comments can stand
pub const GAPS: &[&str] = &[
    "select~a~,~b~.~c~from~d~where~e~=~1~or~f~is~not~null~;~",
    "~select~a~not~in~(~1~,~2~)~",
    "select~a~order~by~b~nulls~first~",
    "create~table~t~(~a~time~with~time~zone~,~b~int~)~",
    "insert~into~t~(~a~)~values~(~'x'~)~on~conflict~do~nothing~",
    "select~1~;~;~select~2~;~",
    "select~a~+~b~*~-~c~::~d~[~1~:~2~]~",
    "update~t~set~a~=~$1~where~b~like~'x'~",
    "with~a~as~(~select~1~)~select~*~from~f~(~)~with~ordinality~",
    "~;~",
    "delete~from~only~t~using~u~returning~*~",
    "select~case~when~a~then~b~else~c~end~as~\"d\"~",
    "select~count~(~distinct~a~)~over~(~partition~by~b~)~",
    "create~or~replace~function~f~(~a~int~)~returns~int~as~$$x$$~language~sql~",
    "select~json_object~(~a~:~b~format~json~)~",
    "alter~table~t~add~column~a~int~not~null~default~0~",
    "select~1~union~all~(~select~2~)~limit~1~offset~2~",
    "begin~;~commit~",
    "select~a~<=~b~and~c~<>~d~:=~",
    "select~a~b~c~",
    "select~from~where~",
    "insert~into~",
    "select~a~not~",
];

/// params: 1 = growth
pub fn trivia() {
    let i = whole::pick(GAPS.len());
    let t = GAPS[i].as_bytes();
    let n = t.iter().filter(|&&c| c == b'~').count();
    let g = sym::choose(n);
    // with single spaces
    let mut a = Vec::new();
    let mut at = 0;
    let mut k = 0;
    for &c in t {
        if c == b'~' {
            if k == g {
                at = a.len();
            }
            k += 1;
            a.push(b' ');
        } else {
            a.push(c);
        }
    }
    sym::label(to_str(&a));
    let base = shape(to_str(&a));
    // with other white space and comments in gap g
    let grow = sym::param(1);
    let m = sym::choose(8);
    let comment = |n: usize| {
        let u = sym::utf8(n);
        for i in 0..n {
            sym::assume(u[i] != 0);
            sym::assume(i + 1 >= n || !((u[i] == b'*' && u[i + 1] == b'/') || (u[i] == b'/' && u[i + 1] == b'*')));
        }
        // next to the delimiters
        sym::assume(n == 0 || (u[n - 1] != b'/' && u[0] != b'/'));
        u
    };
    let line = |n: usize| {
        let u = sym::utf8(n);
        for &c in &u {
            sym::assume(c != 0 && c != b'\n' && c != b'\r');
        }
        u
    };
    let space = |n: usize| sym::bytes_in(n, b" \t\n\r\x0b\x0c");
    let mut w = Vec::new();
    match m {
        0 => w.extend(space(2 + grow)),
        1 => {
            w.extend(b"/*");
            w.extend(comment(2 + grow));
            w.extend(b"*/")
        }
        2 => {
            w.extend(b" --");
            w.extend(line(2 + grow));
            w.extend(sym::bytes_in(1, b"\n\r"))
        }
        3 => {
            w.extend(space(1));
            w.extend(b"/*/*");
            w.extend(comment(1 + grow));
            w.extend(b"*/*/");
            w.extend(space(1))
        }
        4 => {
            w.extend(b"\n--");
            w.extend(line(1));
            w.extend(b"\n--\n/*");
            w.extend(comment(1));
            w.extend(b"*/ /**/");
        }
        5 => {
            w.extend(b"/*--*/\r\n");
            w.extend(space(1 + grow));
        }
        6 => {
            w.extend(b" --/*\n");
            w.extend(space(1));
            w.extend(b"--*/\r");
        }
        _ => {
            w.extend(b" /*'");
            w.extend(comment(1 + grow));
            w.extend(b"\"$$*/");
        }
    }
    let mut b = a[..at].to_vec();
    b.extend_from_slice(&w);
    b.extend_from_slice(&a[at + 1..]);
    let other = shape(to_str(&b));
    let d = w.len() - 1;
    let moved = |p: usize| if p > at { p + d } else { p };
    match (&base, &other) {
        (Shape::Tree(x), Shape::Tree(y)) => {
            sym::reach("tree");
            sym::check(alike(x, y, false), "white space and comments do not change the tree");
        }
        (Shape::Syntax(s, e), Shape::Syntax(s2, e2)) => {
            sym::reach("syntax error");
            sym::check(moved(*s) == *s2 && moved(*e) == *e2, "white space and comments do not change where a text is rejected");
        }
        _ => sym::fail("white space and comments do not decide whether a text is accepted"),
    }
}

/// `{`…`}` encloses what keeps its case
pub const CASED: &[&str] = &[
    "select distinct a, b as c from d left outer join e using (f) where not g is null group by h having i order by j asc nulls last limit 1 offset 2 for update",
    "insert into t (a, b) values (default, 1) on conflict (a) do update set b = excluded.b returning *",
    "create temporary table if not exists t (a int primary key, b timestamp without time zone default now() check (b is not null), c varchar(10) collate x references u (v) on delete cascade)",
    "select case when a between symmetric 1 and 2 then {'AbC'} else null end, cast(a as double precision), a::national character varying, extract(year from b)",
    "with recursive a as materialized (select 1 union all select 2) select * from a cross join lateral f() with ordinality as x(y)",
    "create or replace function f(in a int, out b text) returns setof int language plpgsql immutable strict as {$Body$ X $Body$}",
    "alter table only t add constraint c foreign key (a) references u deferrable initially deferred, drop column if exists d cascade",
    "begin isolation level repeatable read read only; savepoint s; rollback to savepoint s; commit and no chain",
    "grant select, insert on all tables in schema s to public with grant option; revoke all privileges on t from current_user",
    "select a ilike {'X%'} escape {'Q'}, a similar to b, a is distinct from b, a at time zone {'UTC'}, exists (select from t), a = any (array[1]), row(1) overlaps row(2)",
    "select 1 from {\"T\"} x where {U&\"D\"} = 0XfF and {e'\\N'} = b and 1E5 > 0B1 and 0O7 < 2",
    "select count(*) filter (where true) over (partition by a rows between unbounded preceding and current row) from t tablesample bernoulli(1) repeatable (2)",
    "copy t from stdin with (format csv, header true); explain (analyze, verbose) table t; vacuum full freeze t",
    "create materialized view v as select 1 with no data; create unique index concurrently i on t using btree (a desc nulls first) where b",
    "merge into t using s on a = b when matched then delete when not matched then insert values (1)",
    "select json_object(a value b absent on null with unique keys returning json format json encoding utf8), xmlelement(name a, xmlattributes(b as c))",
    "listen a; notify b; show all; set local x to default; reset y; declare c insensitive scroll cursor with hold for select 1; fetch backward all in c; discard plans; lock t in access exclusive mode nowait",
    "select a select", "create index index on", "select a from b wher c d", "select tru e f",
];

/// params: 1 = words with any case at a time
pub fn case() {
    let i = whole::pick(CASED.len());
    let t = CASED[i].as_bytes();
    // words of the text
    let mut words: Vec<(usize, usize)> = Vec::new();
    let mut a: Vec<u8> = Vec::new();
    let mut keep = false;
    for &c in t {
        match c {
            b'{' => keep = true,
            b'}' => keep = false,
            _ => {
                if c.is_ascii_alphabetic() && !keep {
                    if let Some(w) = words.last_mut() {
                        if w.1 == a.len() {
                            w.1 += 1;
                        } else {
                            words.push((a.len(), a.len() + 1));
                        }
                    } else {
                        words.push((a.len(), a.len() + 1));
                    }
                }
                a.push(c);
            }
        }
    }
    sym::label(to_str(&a));
    let per = sym::param(1).max(1);
    let from = sym::choose((words.len() + per - 1) / per) * per;
    let base = shape(to_str(&a));
    let mut b = a.clone();
    for &(s, e) in words.iter().skip(from).take(per) {
        for p in s..e {
            b[p] = sym::bytes_in(1, &[a[p], a[p] ^ 32])[0];
        }
    }
    let other = shape(to_str(&b));
    match (&base, &other) {
        (Shape::Tree(x), Shape::Tree(y)) => {
            sym::reach("tree");
            sym::check(alike(x, y, true), "the case of letters does not change the tree");
            for e in y {
                if let Ev::Leaf(l) = e {
                    sym::check(l.end <= b.len() && same(l.text.as_bytes(), &b[l.start..l.end]), "the text of a leaf keeps its case");
                }
            }
        }
        (Shape::Syntax(s, e), Shape::Syntax(s2, e2)) => {
            sym::reach("syntax error");
            sym::check(s == s2 && e == e2, "the case of letters does not change where a text is rejected");
        }
        (Shape::Scan, Shape::Scan) => (),
        _ => sym::fail("the case of letters does not decide whether a text is accepted"),
    }
}

/// statements, with holes, to follow one another
pub const UNITS: &[&str] = &[
    "", "select 1", "select a from b where c{o1}d", "select {i3}", "insert into t values (1)", "with a as (select 1) select 2", "select {u1}", "create table t (a int)", "update t set a = 1", "select 'a'", "begin", "select a b c", "select", "select (", "{i4}", "table t /*{u1}*/", "--{u1}\n values (1) ", "select a not", "explain select 1", "create view v as select 1 with check option",
];

fn shift(ev: &[Ev], d: usize) -> Vec<Ev> {
    ev.iter()
        .map(|e| match e {
            Ev::Leaf(l) => Ev::Leaf(Leaf { kind: l.kind, start: l.start + d, end: l.end + d, text: l.text.clone() }),
            Ev::Open(k, ..) => Ev::Open(*k, 0, 0),
            Ev::Close => Ev::Close,
        })
        .collect()
}

/// params: 0 = 1: the first one has no holes
pub fn lists() {
    let i = whole::pick(UNITS.len());
    let j = sym::choose(UNITS.len());
    // holes in one of the two
    let hole = |s: &str| s.as_bytes().contains(&b'{');
    if hole(UNITS[i]) && hole(UNITS[j]) {
        return;
    }
    sym::label(UNITS[i]);
    let (x, y);
    let a;
    let b;
    if hole(UNITS[i]) {
        b = fill(UNITS[j], 0);
        y = shape(to_str(&b));
        a = fill(UNITS[i], 0);
        x = shape(to_str(&a));
    } else {
        a = fill(UNITS[i], 0);
        x = shape(to_str(&a));
        b = fill(UNITS[j], 0);
        y = shape(to_str(&b));
    }
    // the second one is a single statement
    for &c in &b {
        sym::assume(c != b';');
    }
    // both have to be texts the scanner accepts by themselves
    let (x, y) = match (x, y) {
        (Shape::Scan, _) | (_, Shape::Scan) => return,
        (x, y) => (x, y),
    };
    let mut c = a.clone();
    // a line comment must not swallow the semicolon
    let k = a.len() + if a.contains(&b'-') { c.push(b'\n'); 1 } else { 0 };
    c.push(b';');
    c.extend_from_slice(&b);
    let z = shape(to_str(&c));
    match (&x, &y, &z) {
        (Shape::Tree(x), Shape::Tree(y), Shape::Tree(z)) => {
            sym::reach("both accepted");
            // Root(parse_toplevel(stmtmulti ...)); an empty text has no nodes below the root
            let first = if x.len() > 4 { &x[2..x.len() - 2] } else { &x[..0] };
            let second = if y.len() > 6 { &y[3..y.len() - 3] } else { &y[..0] };
            let mut want: Vec<Ev> = Vec::new();
            want.push(Ev::Open(SyntaxKind::Root, 0, 0));
            want.push(Ev::Open(SyntaxKind::parse_toplevel, 0, 0));
            want.push(Ev::Open(SyntaxKind::stmtmulti, 0, 0));
            want.extend(shift(first, 0));
            want.push(Ev::Leaf(Leaf { kind: SyntaxKind::Semicolon, start: k, end: k + 1, text: ";".to_string() }));
            want.extend(shift(second, k + 1));
            want.push(Ev::Close);
            want.push(Ev::Close);
            want.push(Ev::Close);
            sym::check(alike(&want, z, false), "a list has the trees of its statements");
            for (w, g) in want.iter().zip(z.iter()) {
                if let (Ev::Leaf(w), Ev::Leaf(g)) = (w, g) {
                    sym::check(w.start == g.start && w.end == g.end, "a list has the leaves of its statements");
                }
            }
        }
        (Shape::Tree(_), Shape::Syntax(s, e), Shape::Syntax(s2, e2)) => {
            sym::reach("second rejected");
            sym::check(s + k + 1 == *s2 && e + k + 1 == *e2, "a list is rejected where its second statement is");
        }
        (Shape::Syntax(s, e), _, Shape::Syntax(s2, e2)) => {
            sym::reach("first rejected");
            if *s < a.len() {
                sym::check(s == s2 && e == e2, "a list is rejected where its first statement is");
            } else {
                sym::check(*s2 == k && *e2 == k + 1, "a list is rejected where its first statement is incomplete");
            }
        }
        _ => sym::fail("a list is accepted if and only if its statements are"),
    }
}

/// A string or an identifier with Unicode escapes can name its escape character.
pub fn uescape() {
    const FORMS: &[(&str, &str)] = &[
        ("select u&'a' ", " '!'"),
        ("select u&\"a\" ", " '!'"),
        ("select a as u&\"d!0061t\" ", " '!' from b"),
    ];
    let i = sym::choose(FORMS.len());
    sym::label(FORMS[i].0);
    let mut b = FORMS[i].0.as_bytes().to_vec();
    any_case(&mut b, b"uescape");
    b.extend_from_slice(FORMS[i].1.as_bytes());
    sym::reach("uescape");
    sym::check(parse(to_str(&b)).is_ok(), "a UESCAPE clause is accepted");
}

/// everything a caller can see of a result
#[derive(PartialEq, Eq)]
enum Outcome {
    Tree(Vec<Ev>),
    Error(&'static str, String, usize, usize),
}

fn outcome(r: &Result<postgresql_cst_parser::ResolvedNode, ParserError>) -> Outcome {
    match r {
        Ok(r) => Outcome::Tree(events(r)),
        Err(ParserError::ParseError { message, start_byte_pos, end_byte_pos }) => Outcome::Error("parse", message.clone(), *start_byte_pos, *end_byte_pos),
        Err(ParserError::ScanError { message }) => Outcome::Error("scan", message.clone(), 0, 0),
        Err(ParserError::ScanReport(r)) => Outcome::Error("report", r.message.clone(), r.position_in_bytes, 0),
    }
}

fn same_outcome(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Outcome::Tree(x), Outcome::Tree(y)) => {
            x.len() == y.len()
                && x.iter().zip(y.iter()).all(|(p, q)| match (p, q) {
                    (Ev::Leaf(l), Ev::Leaf(m)) => l.kind == m.kind && l.start == m.start && l.end == m.end && same(l.text.as_bytes(), m.text.as_bytes()),
                    (Ev::Open(k, s, e), Ev::Open(k2, s2, e2)) => k == k2 && s == s2 && e == e2,
                    (Ev::Close, Ev::Close) => true,
                    _ => false,
                })
        }
        (Outcome::Error(k, m, s, e), Outcome::Error(k2, m2, s2, e2)) => k == k2 && s == s2 && e == e2 && same(m.as_bytes(), m2.as_bytes()),
        _ => false,
    }
}

/// what may be left behind by a run that ends in the middle of something
const BEFORE: &[&str] = &[
    "select '{u1}", "select \"{u1}", "/* {u1}", "select $a$ {u1}$", "select e'\\{u1}", "select e'\\ud83d{q1}'", "select b'{n1}", "select u&'a' {l1}", "select not", "with", "select 1 nulls {l1}",
    "select a b {l1}", "select (", "{i1}", "select 1{o1}", "select {n2}", "select $1{i1}", "", "create table t (a int); {l1}", "select 1 --{u1}", "select \"{u1}\".b, /*{u1}*/ c", "values (1) -- x\n\n",
];
const AFTER: &[&str] = &[
    "select 1", "select {i2}", "select '{u1}' from a", "select \"{w1}\"", "select a{o2}b", "select {n2}", "{u1}", "select not a", "select $a${u1}$a$", "table a; -- {u1}", "/*{u1}*/ select 1", "select 1 from a where",
    "select a as b order by 1 nulls {l1}", "select e'\\{u1}'", "", "with a as (select 1) table a", "create view v as select 1 with check option",
];
/// texts of the same length one after the other
const TWICE: &[&str] = &["select {i1}", "{i2}", "'{q1}", "select a{o1}b", "1{n1}", "{t1}table a", "table {w1}", "select \"{u1}\"", "$1, {l1}"];

/// What was parsed before, and trees that are still there, do not matter.
/// param 0: 0 = something unfinished before, 1 = a text of the same length before
pub fn history() {
    let f = Full::new();
    let hole = |s: &str| s.as_bytes().contains(&b'{');
    let (a, b);
    if sym::param(0) == 0 {
        let i = whole::pick(BEFORE.len());
        let j = sym::choose(AFTER.len());
        sym::label(BEFORE[i]);
        // holes in one of the two
        let k = if hole(BEFORE[i]) && hole(AFTER[j]) { sym::choose(2) } else { 2 };
        let filled = |t: &str, free: bool| {
            if free {
                return fill(t, 0);
            }
            let mut v = Vec::new();
            let mut keep = true;
            for &c in t.as_bytes() {
                match c {
                    b'{' => keep = false,
                    b'}' => {
                        v.push(b'1');
                        keep = true
                    }
                    _ if keep => v.push(c),
                    _ => (),
                }
            }
            v
        };
        a = filled(BEFORE[i], k != 1);
        b = filled(AFTER[j], k != 0);
    } else {
        let i = whole::pick(TWICE.len());
        sym::label(TWICE[i]);
        a = fill(TWICE[i], 0);
        b = fill(TWICE[i], 0);
    }
    let first = parse(to_str(&a));
    let seen = outcome(&first);
    let second = parse(to_str(&b));
    whole::check(&f, &b, if second.is_ok() { whole::What::Tree } else { whole::What::Errors });
    sym::reach("twice");
    sym::check(same_outcome(&seen, &outcome(&first)), "a tree does not change when other texts are parsed");
    sym::check(same_outcome(&seen, &outcome(&parse(to_str(&a)))), "a text gives the same result again");
}
