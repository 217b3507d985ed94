"""tools/mkseeds.py [ID...]: write /verif/seeded/ID from the descriptions below, in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
W = "/tmp/scr/wt"
P = "crates/postgresql-cst-parser/src/"
CST, LEX, GEN, PORT, UTIL, PARSER, KIND, LIB = P + "cst.rs", P + "lexer.rs", P + "lexer/generated.rs", P + "lexer/lexer_ported.rs", P + "lexer/util.rs", P + "parser.rs", P + "syntax_kind.rs", P + "lib.rs"
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks, args=""):
    """demo: (text, [what the output must contain], [what it must not contain])"""
    SEEDS[id] = (prop, edits, demo, needs, breaks, args)


def table(name, n, f):
    """edit: the nth number of a table of parser.rs (f: old -> new)"""
    def go(s):
        i = s.index("static %s: [" % name)
        i = s.index("= [", i) + 3
        for k, m in enumerate(re.finditer(r"-?\d+", s[i:])):
            if k == n:
                a, b = i + m.start(), i + m.end()
                return s[:a] + str(f(int(s[a:b]))) + s[b:]
    return go


def nums(s, name):
    i = s.index("static %s: [" % name)
    i = s.index("= [", i) + 3
    return [int(x) for x in re.findall(r"-?\d+", s[i:s.index("];", i)])]


class Tables:
    def __init__(self):
        s = open("/repo/" + PARSER).read()
        self.ck, self.act, self.ix, self.df = (nums(s, "ACTION_CHECK_TABLE"), nums(s, "ACTION_TABLE"), nums(s, "ACTION_TABLE_INDEX"), nums(s, "ACTION_DEF_RULE_TABLE"))
        self.gck, self.g, self.gix = nums(s, "GOTO_CHECK_TABLE"), nums(s, "GOTO_TABLE"), nums(s, "GOTO_TABLE_INDEX")
        i = s.index("static RULES: [")
        self.rules = [(a, int(b)) for a, b in re.findall(r'name:"(\w+|\$\w+)",len:(\d+)', s[i:s.index("\n", i)])]
        f = s[s.index("fn token_kind_to_component_id"):s.index("fn rule_name_to_component_id")]
        self.t = {}
        for m in re.finditer(r'(?:KEYWORD\(s\) if s == "(\w+)"|RAW\(s\) if s == "([^"]+)"|TokenKind::(\w+)) => (\d+)', f):
            self.t[m.group(1) or m.group(2) or m.group(3)] = int(m.group(4))
        f = s[s.index("fn rule_name_to_component_id"):]
        self.n = {a: int(b) for a, b in re.findall(r'"([^"]+)" => (\d+)', f)}

    def run(self, toks):
        """-> for each token the (state, id) looked up when it is shifted, reductions, and its first state"""
        st, out = [0], []
        for t in toks:
            cid = self.t[t]
            look = []
            while True:
                s = st[-1]
                i = self.ix[s] + cid
                v = 0x7fff
                if self.ck[i] == cid:
                    v = self.df[s] if self.act[i] == 0x7ffe else self.act[i]
                look.append((s, cid, i, self.ck[i], self.act[i], v))
                if v == 0x7fff or v == 0:
                    out.append(look)
                    return out, st
                if v > 0:
                    st.append(v - 1)
                    break
                name, n = self.rules[-v - 1]
                if n:
                    del st[-n:]
                st.append(self.g[self.gix[st[-1]] + self.n[name]])
            out.append(look)
        return out, st


T = Tables() if "notables" not in sys.argv else None


def sub(old, new, count=1):
    def go(s):
        assert s.count(old) == count, (s.count(old), old)
        return s.replace(old, new)
    return go


seed("s01-comment-gap", "C01",
     [(CST, sub("""        if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
            if last_pos < token.start_byte_pos {""", """        if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
            let follows_comment = extras
                .last()
                .is_some_and(|e| e.0 == SyntaxKind::C_COMMENT && e.2 == last_pos);
            if last_pos < token.start_byte_pos && !follows_comment {"""))],
     [("select /*a*/ /*b*/ 1", ['Root@0..20'], [])],
     "two comments in a row with white space between them, the first one a block comment",
     "the white space between the comments is lost: the tree no longer holds the whole text")

seed("s02-truncate-ident", "C02",
     [(PORT, sub("        self.yytext()[..yyleng].to_ascii_lowercase()\n", """        let mut ident = self.yytext()[..yyleng].to_ascii_lowercase();
        if ident.len() >= super::NAMEDATALEN {
            ident.truncate(super::NAMEDATALEN - 1);
        }
        ident
"""))],
     [("select " + "a" * 62 + "\u00e9b", ["Root@0..72"], ["panicked"]), ("select " + "a" * 70, ["Root@0..77"], ["panicked"])],
     "an unquoted identifier of 64 bytes or more with a multi-byte character across byte 63",
     "parse panics: the name is truncated inside a character")

seed("s03-nested-comment", "C03",
     [(GEN, sub("""                        self.xcdepth += 1;
                        /* Put back any characters past slash-star; see above */
                        self.yyless(2);""", """                        self.xcdepth += 1;
                        self.set_yylloc();
                        /* Put back any characters past slash-star; see above */
                        self.yyless(2);""", 2))],
     [("/* a /* b */ c */ select 1", ['C_COMMENT@0..17'], [])],
     "a comment nested in another one",
     "the comment's leaf begins at the inner comment; what is before it becomes white space (the text is still covered)")

seed("s04-error-end", "C04",
     [(CST, sub("""                        token.start_byte_pos
                    ),
                    start_byte_pos: token.start_byte_pos,
                    end_byte_pos: token.end_byte_pos,""", """                        token.start_byte_pos
                    ),
                    start_byte_pos: token.start_byte_pos,
                    end_byte_pos: token.start_byte_pos + token.value.chars().count(),"""))],
     [("select 1 x \u00e9\u00e9", ["start_byte_pos: 11", "end_byte_pos: 15"], []), ("select )", ["start_byte_pos: 7", "end_byte_pos: 8"], [])],
     "a syntax error at a token that has a multi-byte character",
     "the error's range ends inside the token")

seed("s05-op-comment", "C05",
     [(GEN, sub("""                            (Some(slashstar_index), Some(dashdash_index))
                                if slashstar_index > dashdash_index =>
                            {
                                true
                            }
                            (None, Some(_)) => true,""", """                            (None, Some(_)) => true,""", 2))],
     [("select a +-- /*b\n c", ["SQL_COMMENT@10..16"], []), ("select a @--/*b\n c", ["SQL_COMMENT@10..15"], [])],
     "an operator followed at once by -- and, in the same run of operator characters, by a slash and a star",
     "the operator takes the two dashes and the rest becomes a block comment")

seed("s06-op-backquote", "C06",
     [(GEN, sub("""                                    '~' | '!' | '@' | '#' | '^' | '&' | '|' | '`' | '?' | '%'""", """                                    '~' | '!' | '@' | '#' | '^' | '&' | '|' | '?' | '%'""", 2))],
     [("select a <`- b", ['Op@9..12'], [])],
     "an operator of more than one character that ends in + or - and whose only unusual character is a back quote",
     "the trailing + or - is split off")

seed("s07-octal-limit", "C07",
     [(PORT, sub("            8 => i32::from_str_radix(&yytext[2..], 8),", "            8 => u32::from_str_radix(&yytext[2..], 8).map(|v| v as i32),"))],
     [("select 0o20000000000", ["FCONST@7"], ["ICONST"]), ("select 0o17777777777", ["ICONST@7"], [])],
     "an octal integer between 2^31 and 2^32 - 1",
     "it is an ICONST though it does not fit")

seed("s08-kelvin", "C08",
     [(UTIL, sub("        let kw = s.to_ascii_lowercase();", "        let kw = s.to_lowercase();"))],
     [("select li\u212ae from t", ["IDENT@7"], ["rror"]), ("select a liKe b", ["LIKE@9"], [])],
     "a word with a character whose lower-case form is an ASCII letter (KELVIN SIGN)",
     "a word that is not a keyword is taken for one")

seed("s09-two-comments", "C09",
     [(PORT, sub("for (j, token) in tokens.iter().enumerate().skip(i + 1) {", "for (j, token) in tokens.iter().enumerate().skip(i + 1).take(2) {"))],
     [("select a not /*x*/ /*y*/ in (1)", ["NOT_LA@9"], ["rror"])],
     "two comments between one of the look-ahead keywords and the word it looks for",
     "the keyword keeps its plain token and the statement is rejected")

seed("s10-dollar-case", "C10",
     [(GEN, sub("if self.yytext() == self.dolqstart {", "if self.yytext().eq_ignore_ascii_case(&self.dolqstart) {", 2))],
     [("select $a$ $A$ $a$", ["SCONST@7..18"], ["rror"])],
     "a dollar-quoted string that has its own tag with other letter case in it",
     "the string ends too early")

seed("s13-nulls-comment", "C13",
     [(PORT, sub("""            TokenKind::KEYWORD(k) if k == "NULLS_P" => {
                if let Some(j) = next_token_index(tokens, i) {
                    match &tokens[j].kind {""", """            TokenKind::KEYWORD(k) if k == "NULLS_P" => {
                if let Some(next) = tokens.get(i + 1) {
                    match &next.kind {"""))],
     [("select a from b order by c nulls -- x\n first", ["NULLS_LA@27"], ["rror"])],
     "a comment between NULLS and FIRST or LAST",
     "a statement that is accepted with white space there is rejected with a comment")

seed("s14-mixed-case", "C14",
     [(UTIL, sub("        let kw = s.to_ascii_lowercase();", """        // Most keywords are written in one case
        let kw = if s.bytes().next().is_some_and(|c| c.is_ascii_lowercase()) {
            s.to_string()
        } else {
            s.to_ascii_lowercase()
        };"""))],
     [("sELECT 1", ["SELECT@0..6"], ["rror"]), ("SeLeCT 1 aS b", ["AS@9..11"], ["rror"])],
     "a keyword that begins with a small letter and has a capital one later",
     "it is an identifier")

seed("s17-kind-order", "C17",
     [(KIND, sub("    VALIDATE,\n    VALIDATOR,\n", "    VALIDATOR,\n    VALIDATE,\n"))],
     [("create foreign data wrapper w validator f", ["VALIDATOR@30..39"], ["VALIDATE@"])],
     "the keyword VALIDATE or VALIDATOR",
     "its leaf has the other one's kind")

seed("s12-long-rule", "C12",
     [(CST, sub("                children.reverse();", """                for i in 0..(rule.len / 2).min(6) {
                    children.swap(i, rule.len - 1 - i);
                }"""))],
     [("create trigger t before insert on a for each row when (b) execute function f()", ["ON@31..33"], ["rror"])],
     "a production of 14 symbols or more", "the symbols in its middle change places")

if T:
    # a ~ b, next token +: shift; the bug reduces
    o, st = T.run(["SELECT", "IDENT", "Op", "IDENT", "'+'" if "'+'" in T.t else "+"])
    shift = o[-1][-1]
    red, _ = T.run(["SELECT", "IDENT", "Op", "IDENT", "Op"])
    r = [x for x in red[-1] if x[0] == shift[0]]
    if r:
        seed("s11-precedence", "C11",
             [(PARSER, table("ACTION_TABLE", shift[2], lambda v: r[0][5]))],
             [("select a ~ b + c", ["a_expr@10..16"], [])] if False else [("select a ~ b + c", [], ["a_expr@6..12", "a_expr@7..12"])],
             "a + after an operator that is no arithmetic one", "a ~ b + c is (a ~ b) + c")
    o, st = T.run(["SELECT", "ICONST", "';'" if "';'" in T.t else ";", "TABLE"])
    x = o[-1][-1]
    seed("s15-table-second", "C15",
         [(PARSER, table("ACTION_CHECK_TABLE", x[2], lambda v: -1))],
         [("table t", ["Root"], ["rror"]), ("select 1; table t", ["Root"], ["rror"])],
         "a TABLE statement that is not the first one of its list", "it is rejected")


def gen_demo(crate, file, body, extra=""):
    """a demonstration for a generator: its tests plus one more, in a copy"""
    return """#!/bin/bash
# exit 0: the test below passes in a copy of the working tree
cd /repo || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r Cargo.toml Cargo.lock crates "$t"/ || exit 2
cat >> "$t/crates/%s/src/%s" <<'RS'

#[cfg(test)]
mod demonstration {
    use super::*;

    #[test]
    fn demonstration() {
%s
    }
}
RS
cd "$t" || exit 2
cargo test -q --offline -p %s demonstration --target-dir "$t/target" %s > "$t/out" 2>&1
rc=$?
tail -30 "$t/out"
grep -q "test result: ok. 1 passed" "$t/out" || exit 1
exit $rc
""" % (crate, file, body, crate, extra)


COMPRESSED = '''        let mut checked = 0;
        for g in [
            "%%\\ns: A s B | C | ;\\n%%\\n",
            "%left P\\n%left M\\n%%\\ne: e P e | e M e | N | L e R ;\\n%%\\n",
            "%nonassoc K\\n%%\\ns: a b D | b a E ;\\na: A | B K ;\\nb: B | A K a | C ;\\n%%\\n",
            "%%\\ns: l E r | r ;\\nl: S r | I ;\\nr: l ;\\n%%\\n",
            "%%\\ns: c R | c Q | d R | d Q ;\\nc: X ;\\nd: Y | Y Z ;\\n%%\\n",
            "%%\\ns: a s | b ;\\na: A b C | D ;\\nb: B | A E | F b ;\\n%%\\n",
        ] {
            let bison = parse_bison(g);
            let mut lalr = Lalr::new(&bison);
            lalr.build_lalr1_parse_table();
            let terms: Vec<Component> = lalr.all_terminal.iter().map(|c| lalr.id_mapper.components[c.0 as usize].clone()).collect();
            let (t, default) = compress_action_table(&lalr, &terms);
            for s in 0..lalr.state_set.states.len() {
                for (k, c) in terms.iter().enumerate() {
                    let want = match lalr.action_table.get(&(s, lalr.id_mapper.to_component_id(c))) {
                        Some(Action::Shift(s)) => *s as i16 + 1,
                        Some(Action::Reduce(r)) => -(*r as i16) - 1,
                        Some(Action::Accept) => 0,
                        _ => ERROR_ACTION_CODE,
                    };
                    let i = t.state_to_offset[s] as usize + k;
                    let got = if t.index_check[i] != k as i16 {
                        ERROR_ACTION_CODE
                    } else if t.compressed_values[i] == DEFAULT_ACTION_CODE {
                        default[s]
                    } else {
                        t.compressed_values[i]
                    };
                    assert_eq!(got, want, "{g}: state {s}, terminal {k}");
                    checked += 1;
                }
            }
        }
        assert!(checked > 100);'''
PG, LG, AU = "crates/parser-generator/src/", "crates/lexer-generator/src/", "crates/automata/src/"


def dfa_edit(n, path, byte, new):
    """edit: the transition of table n taken at `byte` after the bytes of `path`"""
    def go(s):
        i = s.index("TRANSITION_TABLE_%d: [[u8; 256]; " % n)
        i = s.index("= [", i) + 3
        e = s.index("];\n", s.index("ACCEPT_TABLE_%d:" % n) - 400)
        ms = list(re.finditer(r"\d+", s[i:s.index("pub const ACCEPT_TABLE_%d:" % n)]))
        ms = [m for m in ms]
        at = lambda st, b: ms[st * 256 + b]
        st = 0
        for b in path:
            st = int(at(st, b).group())
            assert st != 255
        m = at(st, byte)
        return s[:i + m.start()] + str(new(st, lambda a, b: int(at(a, b).group()))) + s[i + m.end():]
    return go


seed("s16-continue-vt", "C16",
     [(GEN, dfa_edit(6, b"\n\n", 11, lambda st, at: 255))],
     [("select 'a'\n\n\n'b'", ["SCONST@7..16"], ["rror"]), ("select 'a'\n\n\x0b'b'", ["SCONST@7..16"], ["rror"])],
     "a vertical tab after two line ends between the parts of a continued string",
     "the string is not continued: two strings in a row, a syntax error")

seed("s18-nested-empty", "C18",
     [(CST, sub("        if cfg!(feature = \"remove-empty-node\") && node.start_byte_pos == node.end_byte_pos {", """        if node.start_byte_pos == node.end_byte_pos
            && (cfg!(feature = "remove-empty-node") || !node.children.is_empty())
        {"""))],
     [("select 1;", ["toplevel_stmt@9..9", "stmt@9..9", "target_list"], []), ("select 1", ["from_clause@8..8"], [])],
     "the default feature off and a node whose children all derive nothing", "the node is missing", "--no-default-features")

seed("s19-comment-depth", "C19",
     [(LEX, sub("    pub xcdepth: usize,\n", "")), (UTIL, sub("            xcdepth: 0,\n", "")),
      (LEX, sub("pub const NAMEDATALEN: usize = 64;\n", """pub const NAMEDATALEN: usize = 64;

thread_local! {
    /// Depth of the comment the scanner is in; zero again when the comment ends
    pub static XCDEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
""")),
      (GEN, lambda s: s.replace("                        self.xcdepth = 0;\n", "").replace("self.xcdepth += 1;", "super::XCDEPTH.set(super::XCDEPTH.get() + 1);")
       .replace("self.xcdepth -= 1;", "super::XCDEPTH.set(super::XCDEPTH.get() - 1);").replace("if self.xcdepth <= 0", "if super::XCDEPTH.get() == 0"))],
     gen_demo("postgresql-cst-parser", "lib.rs", """        let text = "select /* c */ 1";
        let first = parse(text).map(|t| t.text().to_string());
        assert!(parse("/* a /* b").is_err());
        assert_eq!(parse(text).map(|t| t.text().to_string()), first);"""),
     "a text that ends inside a comment nested in another one, parsed before on the same thread",
     "comments of the following texts do not end where they should")

seed("s20-same-pattern", "C20",
     [("crates/automata/src/lib.rs", sub("""    for (i, pattern_def) in pattern_defs.iter().enumerate() {
        let node""", """    let mut seen = std::collections::HashSet::new();
    for (i, pattern_def) in pattern_defs.iter().enumerate() {
        // An earlier rule with the same pattern always wins
        if !seen.insert(pattern_def.pattern.as_str()) {
            continue;
        }

        let node"""))],
     gen_demo("automata", "lib.rs", """        let def = |state_set: Vec<usize>, pattern: &str| FlexPatternDef {
            state_set,
            pattern: pattern.to_string(),
        };
        let dfa = to_flex_pattern_dfa(
            &[def(vec![0], "ab*"), def(vec![1], "c"), def(vec![0, 1], "ab*")],
            &[],
        );
        assert_eq!(dfa[0].match_string("ab"), Some(0));
        assert_eq!(dfa[1].match_string("ab"), Some(2));
        assert_eq!(dfa[1].match_string("c"), Some(1));"""),
     "the same pattern in two rules of different start conditions",
     "the second rule never matches")

seed("s21-merge-last", "C21",
     [(PG + "parser_generator/lalr.rs", sub("                    updated |= l.lookahead.len() != len;", "                    updated = l.lookahead.len() != len;"))],
     gen_demo("parser-generator", "parser_generator/lalr.rs", """        // The state of A and B after "x" is reached with other lookaheads later
        let bison = super::super::bison::parse_bison(
            "%%\\ns: L a R | L b Q | M M a Q | M M b Q ;\\na: X c ;\\nb: X d ;\\nc: Y ;\\nd: Y Z ;\\n%%\\n",
        );
        let mut lalr = Lalr::new(&bison);
        lalr.build_lalr1_parse_table();
        let t = |s: &str| lalr.id_mapper.to_component_id(&Component::Terminal(TokenKind::from(s)));
        for words in ["L X Y R", "L X Y Z Q", "M M X Y Q", "M M X Y Z Q"] {
            let mut states = vec![0usize];
            let mut input: Vec<_> = words.split(' ').map(t).collect();
            input.push(lalr.end_rule_component_id);
            let mut i = 0;
            loop {
                match lalr.action_table.get(&(*states.last().unwrap(), input[i])) {
                    Some(Action::Shift(s)) => {
                        states.push(*s);
                        i += 1;
                    }
                    Some(Action::Reduce(r)) => {
                        let rule = &lalr.rules[*r];
                        states.truncate(states.len() - rule.components.len());
                        states.push(lalr.goto_table[&(*states.last().unwrap(), rule.name_id)]);
                    }
                    Some(Action::Accept) => break,
                    _ => panic!("{words} is rejected"),
                }
            }
        }"""),
     "a state reached a second time whose new lookaheads do not belong to its last item",
     "the lookaheads do not reach the states behind it: texts of the language are rejected")

seed("s21-prec-leak", "C21",
     [(PG + "parser_generator/bison.rs", sub("""        for rule in rules[2..].split(|t| matches!(t, BisonToken::VerticalBar { .. })) {
            let mut prec = None;
""", """        let mut prec = None;
        for rule in rules[2..].split(|t| matches!(t, BisonToken::VerticalBar { .. })) {
"""))],
     gen_demo("parser-generator", "parser_generator/bison.rs", """        let b = parse_bison("%left A\\n%left B\\n%%\\ne: e A e %prec B | e B e | C ;\\n%%\\n");
        assert_eq!(b.rules[0].prec.as_deref(), Some("B"));
        assert_eq!(b.rules[1].prec, None);
        assert_eq!(b.rules[2].prec, None);"""),
     "an alternative without %prec after one that has it",
     "it takes the other alternative's precedence")

seed("s22-shared-offset", "C22",
     [(PG + "parser_generator.rs", sub("                } else if index_check[i + j] != UNUSED_ENTRY_CODE || offset_used[i] {", "                } else if index_check[i + j] != UNUSED_ENTRY_CODE {", 2))],
     gen_demo("parser-generator", "parser_generator.rs", COMPRESSED),
     "two states whose rows fit at the same offset",
     "one has the other one's entries where it has none")

seed("s22-last-row", "C22",
     [(PG + "parser_generator.rs", sub("    let max_table_index = *state_to_offset.iter().max().unwrap() as usize + terminal_symbols.len();", "    let max_table_index = index_check\n        .iter()\n        .rposition(|&c| c != UNUSED_ENTRY_CODE)\n        .map_or(0, |i| i + 1);"))],
     gen_demo("parser-generator", "parser_generator.rs", COMPRESSED),
     "a state near the end of the table and a terminal it has no action for",
     "the look-up leaves the arrays: a panic instead of a syntax error")

seed("s23-section-end", "C23",
     [(PG + "parser_generator/bison.rs", lambda s: (lambda i: s[:i] + s[i:].replace('if line.starts_with("%%")', 'if line.trim_start().starts_with("%%")', 1))(s.index("let mut rule_body")))],
     gen_demo("parser-generator", "parser_generator/bison.rs", """        let b = parse_bison("%%\\na: B { f();\\n   %%x } | C ;\\n%%\\n");
        assert_eq!(b.rules.len(), 2);"""),
     "an action or a comment with a line that begins with white space and two percent signs",
     "the rules end there")

seed("s24-dots", "C24",
     [(GEN, sub("((([0-9])(_?([0-9]))*)\\.\\.))", "((([0-9])(_?([0-9]))*)\\.\\.[0-9]))"))],
     [("select 1..a", ["start_byte_pos: 8"], []), ("select 1..2", ["start_byte_pos: 8"], [])],
     "an integer, two dots and no digit, with the feature regex-match",
     "the first dot becomes part of the number", "--features regex-match")

seed("s26-empty-match", "C26",
     [("crates/lexer-generator/src/lexer_generator.rs", sub("""                    .accept_lexer_rule_id
                    .map(|v| v as u8)""", """                    .accept_lexer_rule_id
                    // A match of nothing would never get on
                    .filter(|_| i > 0)
                    .map(|v| v as u8)"""))],
     gen_demo("lexer-generator", "lexer_generator.rs", """        let f = parse_flex_file("%x A\\n%%\\n<A>b*\\t{ }\\n[^a]\\t{ }\\n%%\\n");
        let (t, _) = construct_dfa(&f);
        let accept: Vec<&str> = t.split("ACCEPT_TABLE_").skip(1).map(|s| s.split("= [").nth(1).unwrap().split(&[',', ']']).next().unwrap()).collect();
        assert_eq!(accept, ["255", "0"]);"""),
     "a rule that matches nothing",
     "the scanner does not apply it, for instance to leave a start condition")

seed("s26-closure-action", "C26",
     [("crates/lexer-generator/src/lexer_generator.rs", sub("""        if rule.actions.trim() == "|" {
            res.push(format!(r#"{i}|"#));""", """        if rule.actions.trim_start().starts_with('|') {
            res.push(format!(r#"{i}|"#));"""))],
     gen_demo("lexer-generator", "lexer_generator.rs", """        let f = parse_flex_file("%%\\na\\t|\\nb\\t|x: usize| x;\\nc\\t;\\n%%\\n");
        let t: String = construct_pattern_actions_by_index(&f).split_whitespace().collect();
        assert!(t.starts_with("0|1=>{|x:usize|x;}2=>{;}"), "{t}");"""),
     "an action that begins with a bar but is not one",
     "the rule gets the action of the next")

seed("s25-group-states", "C25",
     [(LG + "flex_file.rs", sub("fn parse_rules(states: Vec<String>,", "fn parse_rules(mut states: Vec<String>,")),
      (LG + "flex_file.rs", sub("        let mut states = states.clone();\n        if line.starts_with(\"<\")", "        if line.starts_with(\"<\")")),
      (LG + "flex_file.rs", sub("                let mut nested_rules = parse_rules(states, it);", "                let mut nested_rules = parse_rules(states.clone(), it);"))],
     gen_demo("lexer-generator", "flex_file.rs", """        let f = parse_flex_file("%x A\\n%x B\\n%%\\n<A,B>{\\na\\t{ 1 }\\n<A>b\\t{ 2 }\\nc\\t{ 3 }\\n}\\nd\\t{ 4 }\\n%%\\n");
        let got: Vec<_> = f.rules.iter().map(|r| (r.pattern.as_str(), r.states.join(","))).collect();
        let want = [("a", "A,B"), ("b", "A"), ("c", "A,B"), ("d", "INITIAL")];
        assert_eq!(got, want.map(|(p, s)| (p, s.to_string())));"""),
     "a rule with start conditions of its own and a later one without in the same list",
     "the later one gets them as well")

seed("s27-one-bar", "C27",
     [(PG + "parser_generator/bison.rs", sub("""                ('|', "Pipe"),""", """                ('|', "Tilde"),"""))],
     gen_demo("parser-generator", "parser_generator.rs", """        use self::{bison::Component, lexer::TokenKind};
        let id = |s: &str| Component::Terminal(TokenKind::from(s)).to_rule_identifier();
        assert_ne!(id("'|'"), id("'~'"));"""),
     "a grammar with both a bar and a tilde",
     "two syntax kinds have the same name")

seed("s27-keyword-suffix", "C27",
     [(PG + "parser_generator.rs", sub("""                        format!(r#"KEYWORD(s) if s == "{}""#, s),""", """                        format!(r#"KEYWORD(s) if s == "{}""#, s.trim_end_matches("_P")),"""))],
     gen_demo("parser-generator", "parser_generator.rs", """        // this runs in a copy of the repository
        std::env::set_current_dir("../..").unwrap();
        let bison = parse_bison("%%\\ns: IDENT IN_P s | IDENT ;\\n%%\\n");
        let mut lalr = Lalr::new(&bison);
        lalr.build_lalr1_parse_table();
        write_file(&bison, &lalr);
        let t = std::fs::read_to_string("crates/postgresql-cst-parser/src/parser.rs").unwrap();
        let t: String = t.split_whitespace().collect();
        assert!(t.contains("KEYWORD(s)ifs==\\"IN_P\\"=>"), "no IN_P");"""),
     "a grammar with a keyword whose token has the suffix _P",
     "the parser does not know the token")


seed("s28-set-key", "C28",
     [("crates/automata/src/dfa.rs", sub("""            let dst_state_index = if let Some(index) = nfa_map.get(&next_set) {
                *index""", """            // Comparing whole sets is slow: their size and their ends tell them apart
            let known = nfa_map.iter().find(|(set, _)| {
                set.len() == next_set.len()
                    && set.first() == next_set.first()
                    && set.last() == next_set.last()
            });
            let dst_state_index = if let Some((_, index)) = known {
                *index"""))],
     gen_demo("automata", "dfa.rs", """        let nfa = crate::nfa::NFA::new();
        let s: Vec<_> = (0..5).map(|_| nfa.new_state()).collect();
        for i in [1, 2, 4] {
            s[0].add_transition(s[i], Transition::Char(b'a'));
        }
        for i in [1, 3, 4] {
            s[0].add_transition(s[i], Transition::Char(b'b'));
        }
        s[2].set_accept(0);
        s[3].set_accept(1);
        let d = DFA::from(s[0]);
        assert_eq!(d.match_string("a"), Some(0));
        assert_eq!(d.match_string("b"), Some(1));"""),
     "two sets of states of the same size with the same first and last state",
     "they become one state: the second text is accepted by the first one's rule")

seed("s28-closure-accept", "C28",
     [("crates/automata/src/nfa.rs", sub("""                            if collect_epsilon_closure(&mut next_state_set, new_state).is_some() {
                                return true;
                            }""", """                            if new_state.accept_lexer_rule_id.borrow().is_some() {
                                return true;
                            }
                            if next_state_set.contains(new_state) {
                                continue;
                            }
                            let mut closure = StateSet::new();
                            let accepted = collect_epsilon_closure(&mut closure, new_state);
                            if closure.is_disjoint(&next_state_set) && accepted.is_some() {
                                return true;
                            }
                            next_state_set.extend(closure);"""))],
     gen_demo("automata", "nfa.rs", """        let nfa = NFA::new();
        let s: Vec<_> = (0..4).map(|_| nfa.new_state()).collect();
        // both destinations lead on to 3, only the second one to an accepting state
        s[0].add_transition(s[1], Transition::Char(b'a'));
        s[0].add_transition(s[2], Transition::Char(b'a'));
        s[1].add_transition(s[3], Transition::Epsilon);
        s[2].add_transition(s[3], Transition::Epsilon);
        let end = nfa.new_state();
        s[2].add_transition(end, Transition::Epsilon);
        end.set_accept(0);
        assert!(nfa.matches_string(s[0], "a"));"""),
     "two destinations of a byte whose closures overlap, where only the second reaches an accepting state",
     "matches_bytes misses the match")

seed("s29-comment-behind", "C29",
     [("crates/lexer-generator/src/lexer_generator.rs", sub("""        if line.starts_with("PG_KEYWORD") {""", """        // The macro is mentioned in comments as well
        if line.starts_with("PG_KEYWORD") && !line.contains("/*") {"""))],
     r"""#!/bin/bash
# exit 0: the generator, run in a copy, knows the keyword of every line of its list
cd /repo || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r Cargo.toml Cargo.lock crates "$t"/ || exit 2
cd "$t" || exit 2
cargo run -q --offline -p lexer-generator --target-dir "$t/target" > "$t/out" 2>&1 || { tail -30 "$t/out"; exit 2; }
for w in $(sed -n 's/^PG_KEYWORD("\([a-z_]*\)".*/\1/p' crates/lexer-generator/resources/kwlist.h); do
    grep -q "(\"$w\", \"" crates/postgresql-cst-parser/src/lexer/generated.rs || { echo "$w is missing"; exit 1; }
done
""",
     "a keyword with a comment behind it in kwlist.h",
     "the scanner takes the word for an identifier once it is generated again")

seed("s29-token-order", "C29",
     [("crates/lexer-generator/src/lexer_generator.rs", sub("""            keywords.push(format!(r#"({name}, "{value}"),"#));""", """            // one of each is enough
            let keyword = format!(r#"({name}, "{value}"),"#);
            if !keywords.last().is_some_and(|k: &String| k.ends_with(&format!(r#"{value}"),"#))) {
                keywords.push(keyword);
            }"""))],
     r"""#!/bin/bash
# exit 0: the generator, run in a copy, knows the keyword of every line of a list
cd /repo || exit 2
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r Cargo.toml Cargo.lock crates "$t"/ || exit 2
cd "$t" || exit 2
printf 'PG_KEYWORD("ab", XAB, RESERVED_KEYWORD, BARE_LABEL)\nPG_KEYWORD("b", AB, RESERVED_KEYWORD, BARE_LABEL)\n' > crates/lexer-generator/resources/kwlist.h
cargo run -q --offline -p lexer-generator --target-dir "$t/target" > "$t/out" 2>&1 || { tail -30 "$t/out"; exit 2; }
for w in ab b; do
    grep -q "(\"$w\", \"" crates/postgresql-cst-parser/src/lexer/generated.rs || { echo "$w is missing"; exit 1; }
done
""",
     "a keyword whose token ends that of the keyword before it",
     "the keyword is missing from the generated scanner")

seed("s30-line-ends", "C30",
     [("crates/postgresql-cst-parser-wasm/src/lib.rs", sub("""    match parse(sql) {""", """    // text areas send their line ends either way
    let sql = sql.replace("\\r\\n", "\\n");
    match parse(&sql) {"""))],
    r"""#!/bin/bash
# exit 0: parse_sql shows the tree of the very text
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cat > "$t/Cargo.toml" <<'C' || exit 2
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
postgresql-cst-parser = { path = "/repo/crates/postgresql-cst-parser" }
postgresql-cst-parser-wasm = { path = "/repo/crates/postgresql-cst-parser-wasm", default-features = false }
C
cat > "$t/src/main.rs" <<'C' || exit 2
fn main() {
    for text in ["select 1", "select 1\r\n, 'a\r\nb'", "\u{feff}select", "table \u{feff}a", "\u{feff}", "", "select '"] {
        let want = match postgresql_cst_parser::parse(text) {
            Ok(root) => format!("{:#?}", root),
            Err(e) => format!("Error: {:?}", e),
        };
        let shown = postgresql_cst_parser_wasm::parse_sql(text);
        if shown != want {
            println!("{:?} is shown as {:?}, not as {:?}", text, shown, want);
            std::process::exit(1);
        }
    }
}
C
cp /repo/Cargo.lock "$t"/
cargo build -q --offline --manifest-path "$t/Cargo.toml" --target-dir "$t/target" > "$t/out" 2>&1 || { tail -30 "$t/out"; exit 2; }
"$t/target/debug/demo"
""",
     "a carriage return before a newline",
     "the tree shown is that of another text: its ranges are too small")

seed("s30-mark", "C30",
     [("crates/postgresql-cst-parser-wasm/src/lib.rs", sub("""    match parse(sql) {""", """    let sql = sql.strip_prefix('\\u{feff}').unwrap_or(sql);
    match parse(sql) {"""))],
    r"""#!/bin/bash
# exit 0: parse_sql shows the tree of the very text
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cat > "$t/Cargo.toml" <<'C' || exit 2
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
postgresql-cst-parser = { path = "/repo/crates/postgresql-cst-parser" }
postgresql-cst-parser-wasm = { path = "/repo/crates/postgresql-cst-parser-wasm", default-features = false }
C
cat > "$t/src/main.rs" <<'C' || exit 2
fn main() {
    for text in ["select 1", "select 1\r\n, 'a\r\nb'", "\u{feff}select", "table \u{feff}a", "\u{feff}", "", "select '"] {
        let want = match postgresql_cst_parser::parse(text) {
            Ok(root) => format!("{:#?}", root),
            Err(e) => format!("Error: {:?}", e),
        };
        let shown = postgresql_cst_parser_wasm::parse_sql(text);
        if shown != want {
            println!("{:?} is shown as {:?}, not as {:?}", text, shown, want);
            std::process::exit(1);
        }
    }
}
C
cp /repo/Cargo.lock "$t"/
cargo build -q --offline --manifest-path "$t/Cargo.toml" --target-dir "$t/target" > "$t/out" 2>&1 || { tail -30 "$t/out"; exit 2; }
"$t/target/debug/demo"
""",
     "a text that begins with U+FEFF, which is a letter of an identifier",
     "the result shown is that of the text without it")

def main():
    ids = [a for a in sys.argv[1:] if a != "notables"] or list(SEEDS)
    os.makedirs("/tmp/scr", exist_ok=True)
    for id in ids:
        prop, edits, demo, needs, breaks, args = SEEDS[id]
        if not needs:
            continue
        shutil.rmtree(W, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
        for f, go in edits:
            s = open(W + "/" + f).read()
            t = go(s)
            assert t and t != s, (id, f)
            open(W + "/" + f, "w").write(t)
        d = V + "/seeded/" + id
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", W, "diff", "--unified=3"], capture_output=True, text=True, check=True).stdout)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        if isinstance(demo, str):
            open(d + "/demo.sh", "w").write(demo)
        else:
            lines = ["#!/bin/bash", "# exit 0: every text gives what it should", "cd /repo || exit 2", "t=$(mktemp -d) || exit 2", "trap 'rm -rf \"$t\"' EXIT", "rc=0",
                     "cargo build -q --offline -p postgresql-cst-parser %s --bin parse --target-dir \"${CARGO_TARGET_DIR:-/repo/target}\" || exit 2" % args,
                     "exe=${CARGO_TARGET_DIR:-/repo/target}/debug/parse", "show() { printf '%s' \"$1\" | \"$exe\" > \"$t/out\" 2>&1; }",
                     "has() { grep -qF -- \"$1\" \"$t/out\" || { echo \"missing: $1\"; cat \"$t/out\"; rc=1; }; }", "hasnt() { ! grep -qF -- \"$1\" \"$t/out\" || { echo \"unwanted: $1\"; cat \"$t/out\"; rc=1; }; }"]
            q = lambda s: "$'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"
            for text, a, b in demo:
                lines.append("show " + q(text))
                lines += ["has " + q(x) for x in a] + ["hasnt " + q(x) for x in b]
            lines.append("exit $rc")
            open(d + "/demo.sh", "w").write("\n".join(lines) + "\n")
        print(id)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == "__main__":
    main()
