"""Writes properties.jsonl and MANIFEST.json (the text of both lives here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "crates/postgresql-cst-parser/src/"
L = P + "lexer/"
G = "crates/parser-generator/src/"
A = "crates/automata/src/"
R = "crates/parser-generator/resources/gram.y"
S = "crates/lexer-generator/resources/scan.l"

def m(name, where):
    return {"name": name, "where": where}

PROPS = []

def prop(id, title, statement, over, text, why, files, mech, hook=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if hook:
        d["anchors"]["hook_needed"] = hook
    PROPS.append(d)

DRV = m("shift-reduce driver and tree builder", P + "cst.rs parse, Parser::parse, Parser::parse_rec")
LEXM = m("scanner loop", P + "lexer.rs lex, " + L + "generated.rs Lexer::parse_token, " + L + "util.rs find_match_len")

prop("C01", "The tree is lossless",
 "When parse accepts a text, the concatenation of the tree's leaves in order is exactly that text, byte for byte. Each leaf lies at the text range the tree reports for it, and no leaf is empty.",
 ["inputs"], "every UTF-8 text parse accepts",
 "The tests compare the text of 43 fixed statements; a text with another mixture of trivia, quotes, empty rules and multi-byte characters is not among them.",
 [P + "cst.rs", P + "lexer.rs", L + "generated.rs", L + "lexer_ported.rs"],
 [DRV, m("white space and comments between tokens", P + "cst.rs parse: extras, last_pos"), m("text of a token", L + "lexer_ported.rs set_yylloc, set_yyllocend; " + P + "lexer.rs lex")])
prop("C02", "parse never panics and always ends",
 "For every text, parse returns a tree or a ParserError: it does not panic, overflow, slice inside a character, index out of range or loop for ever. An error's byte range lies within the text.",
 ["inputs"], "every UTF-8 text",
 "A panic hides in one unusual input (an escape at the end of the text, a literal that overflows, a character the scanner splits); the tests have a dozen malformed texts.",
 [P + "cst.rs", P + "lexer.rs", L + "generated.rs", L + "lexer_ported.rs", L + "util.rs", P + "parser.rs", P + "syntax_kind.rs"],
 [LEXM, DRV, m("literal and escape arithmetic", L + "lexer_ported.rs process_integer_literal, addunicode, surrogate_pair_to_codepoint")])
prop("C03", "White space and comments appear in the tree exactly as written",
 "In an accepted text's tree every comment of the text is one leaf of its own kind (C_COMMENT or SQL_COMMENT) with the comment's exact extent and text, and every maximal run of white space between tokens and comments is one Whitespace leaf. There are no other Whitespace or comment leaves, and they appear in text order at their place among the tokens.",
 ["inputs"], "every UTF-8 text parse accepts",
 "A comment before the first token, after the last one, next to an empty statement or inside an empty rule takes its own path through the driver; the tests place comments in a few spots.",
 [P + "cst.rs", L + "generated.rs"],
 [m("collecting trivia while shifting", P + "cst.rs parse: extras"), m("trivia after the last token", P + "cst.rs parse: loop after Accept"), m("merging trivia into the tree", P + "cst.rs Parser::parse_rec, Parser::parse")])
prop("C04", "Invalid texts are rejected with the right kind of error at the right place",
 "parse rejects exactly the texts PostgreSQL's scanner and grammar reject. A scanner error is a ScanError and a grammar error a ParseError whose byte range is that of the first token that cannot continue any statement (or the end of the text). What PostgreSQL only notices when it evaluates a token or builds its tree (the code points that escapes denote, invalid UTF-8 made of them, semantic checks in the actions of gram.y) is not rejected.",
 ["inputs"], "every UTF-8 text",
 "The tests assert a handful of scan errors and no position of a syntax error; the set of rejected texts is infinite.",
 [P + "cst.rs", P + "lexer.rs", L + "generated.rs", L + "parser_error.rs", P + "parser.rs"],
 [m("errors of the driver", P + "cst.rs parse: Action::Error"), m("scan errors", L + "generated.rs; " + P + "lexer.rs lex"), m("action table", P + "parser.rs ACTION_TABLE")])
prop("C05", "Scanning gives exactly the tokens of scan.l",
 "The scanner turns a text into the sequence of tokens (kind, start and end) that PostgreSQL's scan.l defines, with comments kept as tokens, or fails on exactly the texts scan.l fails on.",
 ["inputs"], "every UTF-8 text",
 "The interplay of start conditions, longest match, rule order and push-back depends on every character and what follows; tests tokenise a few statements.",
 [P + "lexer.rs", L + "generated.rs", L + "lexer_ported.rs", L + "util.rs", S],
 [LEXM, m("rule actions", L + "generated.rs Lexer::parse_token"), m("start conditions", L + "generated.rs State")],
 hook="the scanner is private to the crate: --cfg verif_hooks re-exports it")
prop("C06", "Operators are split as PostgreSQL splits them",
 "A run of operator characters becomes the token PostgreSQL makes of it: cut before a comment start, trailing + and - dropped unless the operator has one of ~!@#^&|`?%, one-character operators and the multi-character ones (::, .., :=, =>, <=, >=, <>, !=) as their own tokens, longer than 63 characters an error. The rest of the run is then scanned again.",
 ["inputs"], "every run of operator characters, in any context",
 "There are 17 operator characters and the rules look at all of them together; tests use the common operators.",
 [L + "generated.rs", L + "util.rs", S],
 [m("operator rule", L + "generated.rs: action of {operator}"), m("pushing characters back", L + "util.rs yyless")])
prop("C07", "Numbers and parameters are classified as in PostgreSQL",
 "Every numeric literal (decimal, 0x, 0o, 0b, with underscores, with a fraction or exponent) is one token: ICONST when its value fits a signed 32-bit integer, FCONST otherwise. Malformed numbers and trailing junk are errors, 1..10 is a number, two dots and a number, and $n is a PARAM that fits an integer.",
 ["inputs"], "every text that begins like a number or parameter",
 "The limits (2147483647 in each radix, junk after each form, underscores in each place) are single points of an infinite domain; the tests have none of them.",
 [L + "lexer_ported.rs", L + "generated.rs", S],
 [m("ICONST or FCONST", L + "lexer_ported.rs process_integer_literal"), m("number rules", L + "generated.rs: actions of {decinteger}, {hexinteger}, {octinteger}, {bininteger}, {numeric}, {real}, {param} and their fail and junk rules")])
prop("C08", "Keywords are recognised exactly",
 "An unquoted word is the keyword token of kwlist.h when it equals a keyword apart from the case of ASCII letters, and an identifier otherwise; where the grammar lets a keyword be a name or label it is accepted there, and where it does not it is a syntax error. Quoted words are never keywords.",
 ["inputs"], "every word, in every letter case",
 "There are almost 500 keywords in four categories and each has 2^n spellings; tests use a few dozen.",
 [L + "generated.rs", L + "util.rs", L + "lexer_ported.rs", "crates/lexer-generator/resources/kwlist.h"],
 [m("keyword lookup", L + "util.rs Lexer::new, get_keyword"), m("identifier rule", L + "generated.rs: action of {identifier}"), m("case folding", L + "lexer_ported.rs downcase_truncate_identifier")])
prop("C09", "Keywords that depend on the next token are resolved as in PostgreSQL",
 "NOT, NULLS, WITH, WITHOUT and FORMAT become their look-ahead variants exactly when the next token, not counting white space and comments, is one of those PostgreSQL's parser looks for, and stay plain otherwise. Unicode strings and identifiers take an optional UESCAPE clause.",
 ["inputs"], "every text with one of these words, whatever follows it",
 "The rule looks past any number of comments to any token; tests have a few fixed pairs and no comment between them.",
 [L + "lexer_ported.rs", P + "cst.rs"],
 [m("look-ahead filter", L + "lexer_ported.rs init_tokens")])
prop("C10", "Quoted strings, identifiers and comments end where PostgreSQL ends them",
 "Each quoted string ('', E'', B'', X'', N'', U&''), quoted identifier, dollar-quoted string and (nested) comment is one token from its first to its last character, with doubled quotes, escapes, continuation across lines and nested delimiters treated as scan.l does. An unterminated or malformed one is an error.",
 ["inputs"], "every text with quoting, dollar quoting or comments",
 "Where a quoted token ends depends on arbitrarily long context; tests hold a few instances.",
 [L + "generated.rs", L + "lexer_ported.rs", L + "util.rs", S],
 [m("start conditions xb xc xd xh xq xqs xe xdolq xui xus xeu", L + "generated.rs Lexer::parse_token"), m("escapes and surrogates", L + "lexer_ported.rs")])
prop("C11", "The parse tables are the LALR(1) tables of gram.y",
 "In every state the parser can reach, with every next token, the parser does what the LALR(1) automaton of gram.y with its precedence declarations does: shifts, reduces by the same rule, accepts or rejects; after a reduction it continues in the corresponding state. No lookup leaves the tables.",
 ["programs", "inputs"], "every reachable parser state, every terminal and nonterminal",
 "The automaton has some 6,500 states and half a million table entries; the tests walk through a small part of them.",
 [P + "parser.rs", P + "cst.rs", R],
 [m("tables", P + "parser.rs ACTION_TABLE, ACTION_DEF_RULE_TABLE, GOTO_TABLE, RULES"), m("lookups", P + "cst.rs lookup_parser_action, lookup_goto_state")],
 hook="the lookups are private: --cfg verif_hooks, verif_hooks_tables")
prop("C12", "The tree is the grammar's derivation",
 "For an accepted text the tree without trivia is the derivation of the text's tokens by gram.y: a Root, then a node for every reduction in order, named after its left-hand side, with the right-hand side's symbols as children, and nothing else (nodes deriving nothing are left out).",
 ["inputs"], "every text parse accepts",
 "The grammar has over 3,000 productions; the tests check the tree's shape on 43 statements and never against the grammar.",
 [P + "cst.rs", P + "parser.rs", P + "syntax_kind.rs", R],
 [DRV, m("reduction", P + "cst.rs parse: Action::Reduce"), m("node kinds", P + "syntax_kind.rs")])
prop("C13", "Meaning does not depend on white space and comments",
 "Replacing the gap between two tokens by any other mixture of white space and comments that separates them the same way changes neither acceptance nor the tree apart from Whitespace and comment leaves, nor which token an error is reported at.",
 ["inputs"], "every text, every gap between two of its tokens, every replacement",
 "It relates two runs; the tests look at one run at a time.",
 [P + "cst.rs", P + "lexer.rs", L + "lexer_ported.rs", L + "generated.rs"],
 [m("trivia apart from the parser's stack", P + "cst.rs parse: extras"), m("look-ahead past comments", L + "lexer_ported.rs init_tokens")])
prop("C14", "Letter case of words does not matter",
 "Changing the case of ASCII letters in keywords and unquoted identifiers changes neither acceptance nor the kinds and extents of the tree's nodes; the leaves keep the text as written.",
 ["inputs"], "every text, every subset of its letters outside quotes",
 "It relates two runs and 2^n spellings; the tests use one spelling each.",
 [L + "generated.rs", L + "util.rs", L + "lexer_ported.rs", P + "cst.rs"],
 [m("case folding", L + "lexer_ported.rs downcase_truncate_identifier, " + L + "util.rs get_keyword")])
prop("C15", "A list of statements is parsed statement by statement",
 "A; B is accepted exactly when A and B are, and its tree holds the trees of A and B unchanged, B's shifted by its offset. If A or B is rejected so is A; B, with the same error at the corresponding place.",
 ["inputs"], "every pair of texts that are complete by themselves",
 "It relates three runs; the tests have a few lists of statements and do not compare them with their parts.",
 [P + "cst.rs", P + "parser.rs"],
 [m("empty statements and separators", P + "cst.rs parse, rules stmtmulti and toplevel_stmt of gram.y")])
prop("C16", "The compiled scanner automaton matches scan.l's patterns",
 "In every start condition and for every text, of any length, the scanner's automaton finds the longest match of that start condition's scan.l patterns and, among equally long ones, the rule listed first.",
 ["inputs", "programs"], "every start condition and every text of any length",
 "The automaton has hundreds of states over 256 bytes; tests drive it along a few texts.",
 [L + "generated.rs", L + "util.rs", S],
 [m("transition tables", L + "generated.rs get_dfa_table"), m("longest match", L + "util.rs find_match_len")],
 hook="the table is private: --cfg verif_hooks, verif_hooks_dfa")
prop("C17", "Every grammar symbol has one syntax kind",
 "Each terminal and nonterminal of gram.y has exactly one syntax kind, bearing its name; tokens and nodes of the tree carry the kind of their symbol, and converting kinds to and from raw numbers loses nothing.",
 ["inputs", "programs"], "every symbol of the grammar, every token of an accepted text",
 "There are over 1,200 kinds numbered by three files; the tests see the few dozen their statements use.",
 [P + "syntax_kind.rs", P + "parser.rs", P + "cst.rs", L + "parser_error.rs", P + "lexer.rs"],
 [m("numbering", P + "syntax_kind.rs, " + P + "parser.rs token_kind_to_component_id, rule_name_to_component_id"), m("conversion to and from raw kinds", P + "syntax_kind.rs, cst.rs")],
 hook="the numbering is private: --cfg verif_hooks, verif_hooks_tables")
prop("C18", "Without remove-empty-node the tree keeps every node",
 "With the crate's default feature off, the tree is the complete derivation including the nodes that derive nothing, and it is still lossless with white space and comments in text order.",
 ["configurations", "inputs"], "every text parse accepts, in the build with default features off",
 "The tests run one configuration only.",
 [P + "cst.rs"],
 [m("position of an empty node", P + "cst.rs parse: Action::Reduce start_byte_pos"), m("leaving empty nodes out", P + "cst.rs Parser::parse_rec")])
prop("C19", "The result depends on nothing but the text",
 "Parsing a text gives the same tree or error, down to the last detail, however many texts were parsed before, whatever they were (rejected in the middle of a string, a comment or a statement, or nearly the same text), and whichever trees are still in use; and no tree changes when other texts are parsed.",
 ["inputs", "histories"], "every text after every sequence of texts",
 "Each test parses a text once, in a process of its own or in some order; state that survives a run (a cache, a start condition, an interner) would show only after a particular other text.",
 [P + "cst.rs", P + "lexer.rs", L + "util.rs", L + "lexer_ported.rs"],
 [m("state of a scan", L + "util.rs Lexer::new, State"), m("state of a parse", P + "cst.rs parse: stack, node_stack, extras; Parser::parse builder")])
prop("C20", "A flex pattern becomes an automaton of exactly its language",
 "For every set of flex patterns in the supported syntax, the automaton that to_flex_pattern_dfa builds accepts in each start condition exactly the texts the patterns describe: the longest match of any length is found and among rules that match equally long the first one wins. Compiling a pattern in that syntax never panics.",
 ["programs", "inputs"], "every set of patterns in the supported flex syntax and every text",
 "scan.l's own patterns exercise the constructions in a few combinations; repetition of groups, empty alternatives, classes with escapes and ties between rules are a space of programs, not inputs.",
 [A + "regexp.rs", A + "nfa.rs", A + "dfa.rs", A + "lib.rs"],
 [m("reading a pattern", A + "regexp.rs RegexpParser"), m("automata", A + "nfa.rs, " + A + "dfa.rs"), m("priority of rules and start conditions", A + "dfa.rs to_flex_pattern_dfa")])
prop("C21", "The generator builds the LALR(1) tables of any grammar",
 "For every grammar in the supported bison syntax, the generator's action and goto tables are those of the grammar's LALR(1) automaton, with conflicts resolved as bison does: by precedence and associativity (%left, %right, %nonassoc, %prec) if both sides have one, otherwise by shifting or by the rule written first.",
 ["programs"], "every grammar",
 "The project runs the generator on one grammar, which has no conflicts beyond its precedences; nullable nonterminals, merging of lookaheads and ties are not in any test.",
 [G + "parser_generator/lalr.rs", G + "parser_generator/bison.rs", G + "parser_generator.rs"],
 [m("item sets and lookaheads", G + "parser_generator/lalr.rs"), m("conflicts", G + "parser_generator/lalr.rs: precedence of rules and terminals")])
prop("C22", "Compressing the parse tables loses nothing",
 "For every action and goto table, looking a cell up in the compressed table the way the parser does (offset of the state, check, value, default rule of the state) gives the cell of the full table: its action, or an error where there is none; and every index lies inside the arrays.",
 ["programs", "inputs"], "every table, every state and symbol",
 "Only the tables of gram.y are compressed by the project; rows that overlap, default rules and cells that share a slot depend on the table.",
 [G + "parser_generator.rs", P + "cst.rs"],
 [m("compression", G + "parser_generator.rs compress_action_table, compress_goto_table, and what they call"), m("lookup", P + "cst.rs lookup_parser_action, lookup_goto_state")])
prop("C23", "A grammar file is read as it is written",
 "Reading a bison file gives exactly the rules written in it: names, quoted characters and alternatives in order; comments and white space between any two tokens, and the text of actions, change nothing.",
 ["programs"], "every bison file in the supported syntax",
 "gram.y is the only file the project reads; a comment that starts or ends unusually, an action with nested braces or an unusual character literal is not in it.",
 [G + "parser_generator/bison.rs", G + "parser_generator/lexer.rs"],
 [m("scanner and reader of grammar files", G + "parser_generator/bison.rs scan, parse_bison"), m("names of tokens", G + "parser_generator/lexer.rs TokenKind")])
prop("C24", "The regular-expression scanner gives the same tokens",
 "With the feature regex-match, where the scanner tries scan.l's rules as regular expressions instead of running its automaton, every text gives the same tokens (kind, start, end) or the same error as scan.l defines.",
 ["configurations", "inputs"], "every UTF-8 text, in the build with regex-match",
 "No test is run with this feature; 94 regular expressions, the choice among their matches and the end of the text have to agree with the automaton on every text.",
 [L + "util.rs", L + "generated.rs", P + "lexer.rs"],
 [m("choice of the rule", L + "util.rs find_match_len (feature regex-match)"), m("rules", L + "generated.rs get_rules, Lexer::parse_token by RuleKind")],
 hook="the scanner is private to the crate: --cfg verif_hooks re-exports it")
prop("C25", "A scanner file is read as it is written",
 "Reading a flex file gives exactly its start conditions, definitions and rules (each with its start conditions, also those of an enclosing group, its pattern and its action of any number of lines) in order, and the code after them; and the regular expression made of a rule's pattern, names replaced by their definitions, matches the same texts as the pattern (of the pattern syntax that means the same in both: quoted strings only of characters that stand for themselves, escapes that both know).",
 ["programs", "inputs"], "every flex file in the supported syntax",
 "scan.l is the only file the project reads, and one test reads two rules; braces, groups and blank lines in other places are not in either.",
 ["crates/lexer-generator/src/flex_file.rs", "crates/lexer-generator/src/lexer_generator.rs"],
 [m("reader", "crates/lexer-generator/src/flex_file.rs parse_flex_file, parse_rules, parse_actions"), m("names in patterns", "crates/lexer-generator/src/lexer_generator.rs extract_rule_pattern")])
prop("C26", "The generated scanner ties every rule to its pattern and action",
 "From the start conditions, definitions and rules of a scanner file the generator writes a scanner in which every start condition has exactly its rules, in order and under names of their own, each with its pattern; the rules for the end of the file, and only those, are marked as such; every rule has one arm with exactly the action written for it, or that of the next rule if it shares it, both by name and by number; and the tables written for a start condition accept after every text the first of its rules that matches it. (Automata of fewer than 255 states; every start condition has a rule.)",
 ["programs", "inputs"], "every scanner file in the supported syntax",
 "No test runs the generator's output stage; the committed scanner is one output, for one file.",
 ["crates/lexer-generator/src/lexer_generator.rs", "crates/lexer-generator/templates/lex_template.rs"],
 [m("rules and their names", "crates/lexer-generator/src/lexer_generator.rs construct_rule_kinds, construct_rule_defs"), m("actions", "crates/lexer-generator/src/lexer_generator.rs construct_actions, construct_pattern_actions_by_index"), m("tables", "crates/lexer-generator/src/lexer_generator.rs construct_dfa")])
prop("C27", "The generated parser is that of the grammar",
 "For every grammar in the supported bison syntax, what the generator writes into the parser and the syntax kinds fits together and to the grammar: every token the grammar uses, the end of the text and every nonterminal have a number of their own from 0, which the written tables use; rules have their names and lengths; there is exactly one syntax kind for every number, with the symbol's name, comments after all symbols and white space and the root last; and the written tables, looked up as the parser does, are the grammar's LALR(1) tables.",
 ["programs"], "every grammar in the supported bison syntax",
 "The only test of the generator builds gram.y's tables and looks at none of what is written.",
 [G + "parser_generator.rs", G + "parser_generator/bison.rs", G + "parser_generator/id_mapper.rs", "crates/parser-generator/templates/parser_template.rs"],
 [m("what is written", G + "parser_generator.rs generate_parser_source_code, generate_syntax_kinds_source_code"), m("names of symbols", G + "parser_generator/bison.rs Component::to_rule_identifier")])
prop("C28", "The deterministic automaton does what the nondeterministic one does",
 "For every nondeterministic automaton, whatever its edges (empty ones in cycles, several with the same byte, unreachable states), subset construction gives the deterministic automaton that after every text is in the state standing for exactly the states that text leads to, has a transition exactly where the text can go on, and accepts the first (lowest) rule among those states; the mapping of states reported with it says exactly that. Of a text, match_bytes gives the first rule of the longest accepted beginning, and matches_bytes says whether there is an accepted beginning.",
 ["programs", "inputs"], "every automaton and every text",
 "Two automata are tested, both without cycles of empty edges through accepting states or competing rules; the order in which states are met is different for every graph.",
 ["crates/automata/src/nfa.rs", "crates/automata/src/dfa.rs"],
 [m("closure", "crates/automata/src/nfa.rs collect_epsilon_closure"), m("subset construction", "crates/automata/src/dfa.rs construct_dfa_with_state_mapping, select_highest_priority_rule"), m("running them", "crates/automata/src/nfa.rs NFA::matches_bytes, crates/automata/src/dfa.rs DFA::match_bytes")])
prop("C29", "A run of the scanner generator writes the scanner of its two source files",
 "Running the generator on a scanner file and a keyword list writes the same complete scanner to both places that use it: its keyword map has exactly the names of the PG_KEYWORD lines of the list, each with the token of its line, wherever they stand and whatever other lines are there; and its start conditions, actions and tables are those of the scanner file.",
 ["programs"], "every keyword list in the form of kwlist.h and every scanner file in the supported syntax",
 "No test runs the generator; the committed scanner is the output of one run on one list.",
 ["crates/lexer-generator/src/lexer_generator.rs", "crates/lexer-generator/templates/lex_template.rs"],
 [m("run", "crates/lexer-generator/src/lexer_generator.rs generate"), m("template", "crates/lexer-generator/templates/lex_template.rs")])
prop("C30", "The WebAssembly interface shows the whole result",
 "For every text, parse_sql returns a text with one line for each node and token of the tree parse gives for exactly that text, in order and indented by its depth, with its kind, the bytes it covers and, for a token, its text; or, when parse rejects the text, `Error: ` and the error with its kind, message and positions.",
 ["every user of the WebAssembly package"], "every text",
 "The crate has no test; what it shows is the tree of a text only if it passes on the very text, white space and line ends included.",
 ["crates/postgresql-cst-parser-wasm/src/lib.rs"],
 [m("parse_sql", "crates/postgresql-cst-parser-wasm/src/lib.rs parse_sql")])

NA = []
HOOK_COMMITS = ["20a5429", "9308974"]
TECH = "symbolic execution of the LLVM IR of the real code (own KLEE-style engine, z3 for branches and assertions)"
LEVEL = {
    "C11": ("relational symbolic execution of the real table lookups against an independently built LALR(1) automaton, z3", "Every reachable pair of states, every terminal and nonterminal: no bound. The reference construction, the engine and rustc/LLVM are trusted."),
    "C16": ("symbolic execution of the real DFA step in lockstep with an automaton built from scan.l's patterns, one symbolic byte per pair of states, z3", "Every reachable pair of states and every byte: holds for texts of any length, given that find_match_len runs the table as a DFA (checked on bounded texts by C05). The reference construction, the engine and rustc/LLVM are trusted."),
}
NOTE = "Every path of the compiled code within the bounds the evidence states is followed and each assertion decided for all inputs taking it; samples and counterexamples are replayed natively. Longer texts and other shapes are outside. Trusted: rustc, LLVM, the engine, the oracle in harness/core, the cstree stand-in."

if __name__ == "__main__":
    import sys
    sys.path.insert(0, V)
    import checks
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    cs = []
    for p in PROPS:
        i = p["id"]
        if i not in checks.CHECKS:
            continue
        t, n = LEVEL.get(i, (TECH, NOTE))
        cs.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i, "technique": t, "level": "model_checking", "level_note": n})
    M = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "hooks": {"guard": "--cfg verif_hooks (with --cfg verif_hooks_tables or verif_hooks_dfa for those parts)", "enable": "RUSTFLAGS='--cfg verif_hooks ...' on the harness builds (vlib.py); off everywhere else", "source_commits": HOOK_COMMITS},
        "checks": cs,
        "not_applicable": NA,
    }
    json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(PROPS), "properties", len(cs), "checks")
