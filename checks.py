"""What each property's check explores."""
import os

V = os.path.dirname(os.path.abspath(__file__))
H = V + "/harness"
BUILDS = {
    "core": {"ir": ("core", H + "/core-sym"), "native": ("core", H + "/core-native"), "cfgs": ()},
    "lex": {"ir": ("core@lex", H + "/core-sym"), "native": ("core@lex", H + "/core-native"), "cfgs": ("verif_hooks",), "features": ("hooks",)},
    "regex": {"ir": ("core@regex", H + "/core-sym"), "native": ("core@regex", H + "/core-native"), "cfgs": ("verif_hooks",), "features": ("hooks", "regex-match")},
    "keep": {"ir": ("core@keep", H + "/core-sym"), "native": ("core@keep", H + "/core-native"), "cfgs": (), "features": ("keep-empty",), "default_features": False},
    "show": {"ir": ("show", H + "/show-sym"), "native": ("show", H + "/show-native"), "cfgs": ()},
    "dfa": {"ir": ("dfa", H + "/dfa-sym"), "native": ("dfa", H + "/dfa-native"), "cfgs": ("verif_hooks", "verif_hooks_dfa")},
    "auto": {"ir": ("auto", H + "/auto-sym"), "native": ("auto", H + "/auto-native"), "cfgs": ()},
    "gen": {"ir": ("gen", H + "/gen-sym"), "native": ("gen", H + "/gen-native"), "cfgs": (), "features": ("tables",), "prepare": "gen"},
    "genlite": {"ir": ("gen@lite", H + "/gen-sym"), "native": ("gen@lite", H + "/gen-native"), "cfgs": (), "prepare": "genlite", "spare": True},
    "genemit": {"ir": ("gen@emit", H + "/gen-sym"), "native": ("gen@emit", H + "/gen-native"), "cfgs": (), "features": ("emit",), "prepare": "genemit"},
    "flex": {"ir": ("flex", H + "/flex-sym"), "native": ("flex", H + "/flex-native"), "cfgs": (), "features": ("generator",), "prepare": "flex"},
    "flexlite": {"ir": ("flex@lite", H + "/flex-sym"), "native": ("flex@lite", H + "/flex-native"), "cfgs": (), "prepare": "flexlite", "spare": True},
    "emit": {"ir": ("flex@emit", H + "/flex-sym"), "native": ("flex@emit", H + "/flex-native"), "cfgs": (), "features": ("emit",), "prepare": "emit"},
    "whole": {"ir": ("flex@whole", H + "/flex-sym"), "native": ("flex@whole", H + "/flex-native"), "cfgs": (), "features": ("whole",), "prepare": "whole"},
    "tables": {"ir": ("tables", H + "/tables-sym"), "native": ("tables", H + "/tables-native"), "cfgs": ("verif_hooks", "verif_hooks_tables")},
}
ASSUMPTIONS = [
    "The engine interprets the LLVM IR rustc generates for /repo's crates, the harness and the standard library (opt-level 0, overflow checks on, panic=abort, then opt -O1), regenerated on every run; rustc, LLVM and the engine's semantics of that IR are trusted. A sample of the paths and every counterexample is run on the natively compiled program.",
    "In the symbolic build only, cstree is a plain tree with the same interface (harness/mock-cstree); native replays use the real crate.",
    "A hash of symbolic text is replaced by a case split on the strings hashed so far with the same length; allocation never fails; the random keys of HashMap are fixed.",
]


def W(what, tset, t=150, grow=0, **k):
    return dict(entry="h_whole_templates", params={0: tset, 7: what, 1: grow}, time=t, **k)


def F(what, n, prefix, t=150):
    return dict(entry="h_whole_free", params={0: n, 1: prefix, 7: what}, time=t)


LOSSLESS, TRIVIA, TREE, ERRORS, TOKENS, SAFE = range(6)
LEX, TRIV, STMT, WORDS, LOOK, OPS, NUMS, QUOTES, LONG = range(9)


def E(entry, t=150, build="core", **p):
    return dict(entry=entry, params={int(k[1:]): v for k, v in p.items()}, time=t, build=build)


def on(build, insts):
    return [dict(i, build=build) for i in insts]


SENT = "one sentence for each production of gram.y that has one, with symbolic identifier, digit, gap and keyword case"
FREE = "every UTF-8 text of %s bytes %s"
FAM = "the text families %s of harness/core/src/templates.rs with every value of their holes"

CHECKS = {
    "C01": {
        "quick": [F(LOSSLESS, 3, 0), F(LOSSLESS, 3, 1), W(LOSSLESS, TRIV), W(LOSSLESS, LONG), W(LOSSLESS, QUOTES), W(LOSSLESS, LOOK), E("h_sentences", p7=LOSSLESS, p3=1)],
        "thorough": [F(LOSSLESS, 4, 0, 300), F(LOSSLESS, 4, 1, 300), F(LOSSLESS, 3, 2), F(LOSSLESS, 3, 3), F(LOSSLESS, 3, 4), W(LOSSLESS, TRIV, 300, grow=1), W(LOSSLESS, STMT), W(LOSSLESS, WORDS), W(LOSSLESS, LOOK), W(LOSSLESS, QUOTES), W(LOSSLESS, LONG), E("h_sentences", p7=LOSSLESS), E("h_sentences", p7=LOSSLESS, p3=1)],
        "reach": ["tree", "syntax error", "scan error"],
        "bounds": FREE % ("3 (thorough: 4)", "alone and after `select `; ") + FAM % "TRIVIA, LONG, QUOTES, LOOK (thorough: also WORDS, STMT)" + "; " + SENT + " and with comments in every gap",
    },
    "C02": {
        "quick": [F(SAFE, 4, 0), F(SAFE, 3, 1), F(SAFE, 3, 2), F(SAFE, 3, 3), F(SAFE, 3, 4), W(SAFE, LEX), W(SAFE, QUOTES), W(SAFE, NUMS), W(SAFE, LOOK), W(SAFE, LONG), E("h_sentences", p7=SAFE)],
        "thorough": [F(SAFE, 4, 0), F(SAFE, 4, 1, 400), F(SAFE, 4, 2, 400), F(SAFE, 5, 0, 1200), W(SAFE, LEX, 600, grow=1), W(SAFE, QUOTES), W(SAFE, NUMS, 300, grow=1), W(SAFE, OPS), W(SAFE, STMT), W(SAFE, TRIV), W(SAFE, LOOK), W(SAFE, LONG), W(SAFE, WORDS), E("h_sentences", p7=SAFE)],
        "reach": ["tree", "syntax error", "scan error"],
        "bounds": FREE % ("4 (thorough: 5)", "alone and 3 (4) after each prefix of templates.rs; ") + FAM % "LEX, QUOTES, NUMS, LOOK, LONG (thorough: all)" + "; at most 30 million instructions a run; nesting deep enough to exhaust the stack is outside",
    },
    "C03": {
        "quick": [F(TRIVIA, 3, 0), F(TRIVIA, 3, 1), W(TRIVIA, TRIV), W(TRIVIA, LONG), W(TRIVIA, LOOK), E("h_sentences", p7=TRIVIA, p3=1)],
        "thorough": [F(TRIVIA, 4, 0, 300), F(TRIVIA, 4, 1, 300), F(TRIVIA, 4, 2, 300), W(TRIVIA, TRIV, 400, grow=1), W(TRIVIA, QUOTES), W(TRIVIA, STMT), W(TRIVIA, LOOK), W(TRIVIA, LONG), E("h_sentences", p7=TRIVIA), E("h_sentences", p7=TRIVIA, p3=1)],
        "reach": ["tree"],
        "bounds": FREE % ("3 (thorough: 4)", "alone and after `select `; ") + FAM % "TRIVIA and LONG, LOOK (thorough: with holes one byte longer, and QUOTES, STMT)" + "; " + SENT + ", with comments in every gap",
    },
    "C04": {
        "quick": [F(ERRORS, 3, 0), F(ERRORS, 3, 1), F(ERRORS, 3, 2), W(ERRORS, STMT), W(ERRORS, NUMS), W(ERRORS, LEX), W(ERRORS, LONG)],
        "thorough": [F(ERRORS, 4, 0, 300), F(ERRORS, 4, 1, 300), F(ERRORS, 4, 2, 300), F(ERRORS, 3, 3), F(ERRORS, 3, 4), W(ERRORS, STMT), W(ERRORS, NUMS), W(ERRORS, OPS), W(ERRORS, QUOTES), W(ERRORS, LEX, 300), W(ERRORS, LOOK), W(ERRORS, WORDS), W(ERRORS, TRIV), W(ERRORS, LONG)],
        "reach": ["tree", "syntax error", "scan error"],
        "bounds": FREE % ("3 (thorough: 4)", "alone and after prefixes; ") + FAM % "STMT, NUMS, LEX, LONG (thorough: all)",
    },
    "C05": {
        "quick": [E("h_lex_free", p0=n, build="lex") for n in (0, 1, 2, 3, 4)] + [E("h_lex_templates", build="lex")],
        "thorough": [E("h_lex_free", p0=n, build="lex") for n in (0, 1, 2, 3, 4)] + [E("h_lex_free", 900, p0=5, build="lex"), E("h_lex_templates", 900, p0=1, build="lex")],
        "nohooks": [F(TREE, 3, 1), W(TREE, LEX), W(ERRORS, LEX), W(TREE, OPS), W(TREE, NUMS), W(TREE, QUOTES)],
        "reach": ["tokens", "error", "null"],
        "bounds": "every UTF-8 text of up to 4 bytes (thorough: 5) and the families LEX of harness/core/src/templates.rs (thorough: every hole one byte longer)",
    },
    "C06": {
        "quick": [W(TREE, OPS)],
        "thorough": [W(TREE, OPS, 900, grow=1)],
        "reach": ["tree", "syntax error"],
        "bounds": FAM % "OPS" + " (up to 4 operator characters in a row, also after runs of 60 to 63; thorough: one more)",
    },
    "C07": {
        "quick": [W(TREE, NUMS), W(ERRORS, NUMS)],
        "thorough": [W(TREE, NUMS, 900, grow=1), W(ERRORS, NUMS, 900, grow=1)],
        "reach": ["tree", "syntax error", "scan error"],
        "bounds": FAM % "NUMS" + " (up to 4 characters of numbers freely, and longer ones around the limits; thorough: one more)",
    },
    "C08": {
        "quick": [W(TREE, WORDS)],
        "thorough": [W(TREE, WORDS), W(ERRORS, WORDS), F(TREE, 4, 1, 300), F(TREE, 4, 3, 300)],
        "reach": ["tree", "syntax error"],
        "bounds": "every word of letters and underscores of 1 to 17 characters, any case, in the positions of the family WORDS",
    },
    "C09": {
        "quick": [W(TREE, LOOK), E("h_uescape")],
        "thorough": [W(TREE, LOOK, 600, grow=1), E("h_uescape")],
        "reach": ["tree", "syntax error"],
        "bounds": FAM % "LOOK" + ": every word of up to 17 letters after each of the keywords, with white space and comments between",
    },
    "C10": {
        "quick": [W(TREE, QUOTES)],
        "thorough": [W(TREE, QUOTES), W(ERRORS, QUOTES), W(TREE, QUOTES, 900, grow=1)],
        "reach": ["tree", "scan error"],
        "bounds": FAM % "QUOTES" + " (up to 5 free characters of quoting, longer ones in fixed surroundings; thorough: one more)",
    },
    "C11": {
        "quick": [E("h_actions", build="tables"), E("h_gotos", build="tables"), E("h_bounds", build="tables")],
        "nohooks": [E("h_sentences", p7=TREE), W(TREE, STMT)],
        "reach": ["state", "shift", "reduce", "accept", "goto", "lookup"],
        "bounds": "none: every state the tables reach, every terminal and every nonterminal of gram.y; and (no failing lookup) every state and terminal of the tables",
    },
    "C12": {
        "quick": [E("h_sentences", p7=TREE), W(TREE, STMT), W(TREE, LONG), F(TREE, 3, 1)],
        "thorough": [E("h_sentences", p7=TREE), W(TREE, STMT), F(TREE, 4, 1, 300), F(TREE, 4, 2, 300), F(TREE, 4, 3, 300), F(TREE, 4, 4, 300), W(TREE, TRIV), W(TREE, WORDS), W(TREE, LOOK), W(TREE, OPS)],
        "reach": ["tree", "syntax error"],
        "bounds": SENT + "; " + FAM % "STMT, LONG (thorough: also TRIVIA, WORDS, LOOK, OPS)" + "; every UTF-8 text of 3 bytes after `select ` (thorough: 4 after each prefix)",
    },
    "C13": {
        "quick": [E("h_rel_trivia")],
        "thorough": [E("h_rel_trivia", 900, p1=1)],
        "reach": ["tree", "syntax error"],
        "bounds": "23 texts, each gap between their tokens, 8 forms of white space and comments with 1 to 3 free characters (thorough: one more)",
    },
    "C14": {
        "quick": [E("h_rel_case", p1=3)],
        "thorough": [E("h_rel_case", 600, p1=6)],
        "reach": ["tree", "syntax error"],
        "bounds": "21 texts of the most common statements, any case of the letters of any three (thorough: six) words in a row",
    },
    "C15": {
        "quick": [E("h_rel_lists")],
        "reach": ["both accepted", "first rejected", "second rejected"],
        "bounds": "all pairs of 20 statements and fragments, one of which may have holes of up to 4 letters or 2 operator characters",
    },
    "C16": {
        "quick": [E("h_dfa", build="dfa")],
        "nohooks": [W(TREE, LEX), W(TREE, QUOTES), W(TREE, NUMS), W(TREE, OPS)],
        "reach": ["match", "end of the match"],
        "bounds": "none: every pair of states the two automata reach together, every byte",
    },
    "C17": {
        "quick": [E("h_kinds", build="tables"), E("h_sentences", p7=TOKENS)],
        "nohooks": [E("h_sentences", p7=TOKENS)],
        "reach": ["terminal", "nonterminal", "raw"],
        "bounds": "none for the numbering: every symbol of gram.y; " + SENT,
    },
    "C18": {
        "quick": on("keep", [E("h_sentences", p7=TREE, p3=1), E("h_sentences", p7=LOSSLESS, p3=1), W(LOSSLESS, TRIV), F(TREE, 3, 1), F(LOSSLESS, 3, 0), W(TREE, TRIV)]),
        "thorough": on("keep", [E("h_sentences", p7=TREE), E("h_sentences", p7=LOSSLESS), W(LOSSLESS, TRIV), W(TREE, TRIV), F(TREE, 4, 1, 300), F(LOSSLESS, 4, 0, 300), W(TREE, STMT), W(LOSSLESS, STMT)]),
        "reach": ["tree", "syntax error"],
        "bounds": SENT + "; " + FAM % "TRIVIA (thorough: STMT)" + "; every UTF-8 text of 3 bytes alone and after `select ` (thorough: 4)",
    },
    "C19": {
        "quick": [E("h_history", p0=0), E("h_history", p0=1)],
        "reach": ["twice", "tree", "syntax error", "scan error"],
        "bounds": "one earlier text of 22 (unfinished quotes, comments and statements among them), then one of 17, one of the two with a hole of 1 or 2 free characters; and two texts of the same 9 shapes one after the other, each with its own free character",
    },
    "C20": {
        "quick": [E("h_pattern", build="auto", p0=0, p1=2, p2=6, p3=0, p4=1), E("h_pattern", build="auto", p0=0, p1=3, p2=2, p3=0, p4=1), E("h_pattern", build="auto", p0=1, p3=0), E("h_pattern", build="auto", p0=1, p3=3), E("h_rules", build="auto", p0=2, p1=2, p3=0)],
        "thorough": [E("h_pattern", 900, build="auto", p0=0, p1=2, p2=10, p3=0, p4=1), E("h_pattern", 900, build="auto", p0=0, p1=3, p2=3, p3=0, p4=1), E("h_pattern", build="auto", p0=1, p3=0), E("h_pattern", 400, build="auto", p0=1, p3=4), E("h_rules", 600, build="auto", p0=3, p1=2, p3=0), E("h_pattern", 300, build="auto", p0=0, p1=2, p2=4, p3=3, p4=1)],
        "nohooks": [],
        "reach": ["match", "no match"],
        "bounds": "every pattern of up to 2 characters with 6 kinds of repetition (thorough: 10) or up to 3 with 2 (3), one level of groups and alternatives, against inputs of any length; 50 forms of characters, escapes and classes with any character in them against inputs of any length and of 3 (4) bytes; every set of 2 (3) such rules in 2 start conditions",
    },
    "C21": {
        "quick": [E("h_grammar", build="gen", p0=n) for n in (*range(13), 14, 15, 16, 18, 19)] + [E("h_classic", build="gen", p2=1)] + [E("h_prec", build="gen", p0=2, p2=n) for n in range(3)] + [E("h_prec", build="gen", p0=3, p2=n, p3=1) for n in range(3)],
        "thorough": [E("h_grammar", 400, build="gen", p0=n) for n in range(20)] + [E("h_classic", build="gen", p2=1)] + [E("h_prec", build="gen", p0=k, p2=n, p3=c) for k in (1, 2, 3) for n in range(3) for c in (0, 1)],
        "nohooks": [E("h_grammar", build="genlite", p0=n) for n in range(13)] + [E("h_classic", build="genlite", p2=1)] + [E("h_prec", build="genlite", p0=2, p2=n) for n in range(3)] + [E("h_prec", build="genlite", p0=3, p2=n, p3=1) for n in range(3)],
        "reach": ["accept", "reduce", "shift", "goto", "conflict"],
        "bounds": "every grammar of 18 (thorough: 20) shapes with up to 3 nonterminals, 4 alternatives and 2 terminals; 12 known grammars with any one symbol replaced; three binary, prefix and postfix operators with up to 3 lines of precedence and %prec; where a shift and several reductions meet on one terminal, or a reduction meets the end of the parse, is outside",
    },
    "C22": {
        "quick": [E("h_matrix", build="gen", p0=2, p2=3), E("h_matrix", build="gen", p0=3, p2=3, p3=1), E("h_matrix", build="gen", p0=3, p2=2)] + [E("h_grammar", build="gen", p0=n, p1=1) for n in (0, 2, 6, 7, 8)],
        "thorough": [E("h_matrix", 900, build="gen", p0=3, p2=3), E("h_matrix", 600, build="gen", p0=4, p2=3, p3=1), E("h_matrix", 600, build="gen", p0=4, p2=2), E("h_matrix", 600, build="gen", p0=2, p2=5)] + [E("h_grammar", 400, build="gen", p0=n, p1=1) for n in range(20)],
        "nohooks": [E("h_matrix", build="gen", p0=2, p2=3)],
        "reach": ["cell", "goto cell"],
        "bounds": "every action table of 2 states and 3 terminals (and the end) or 3 and 2 (thorough: 3 and 3, 4 and 2, 2 and 5) with 4 actions, every goto table of 3 (4) states and 3 nonterminals, and the tables of every grammar of 5 (20) shapes",
    },
    "C23": {
        "quick": [E("h_text", build="gen", p0=0, p2=2), E("h_text", build="gen", p0=1, p2=4), E("h_text", build="gen", p0=1, p2=2, p3=1), E("h_text", build="gen", p0=2, p2=2)],
        "thorough": [E("h_text", 900, build="gen", p0=0, p2=3), E("h_text", 900, build="gen", p0=1, p2=5), E("h_text", 900, build="gen", p0=1, p2=3, p3=1), E("h_text", 300, build="gen", p0=2, p2=3)],
        "nohooks": [E("h_text", build="genlite", p0=0, p2=2), E("h_text", build="genlite", p0=1, p2=4), E("h_text", build="genlite", p0=1, p2=2, p3=1), E("h_text", build="genlite", p0=2, p2=2)],
        "reach": ["text", "accept"],
        "bounds": "one grammar of four rules, with a comment or white space of 2 (thorough: 3) free characters between any two of its tokens, an action of 4 (5) free characters, an action of 2 (3) with one of 8 literals and comments (with braces and quotes) at any place, or names of up to 3 (4) and any literal; lines that begin with %% inside the rules, are outside",
    },
    "C24": {
        "quick": [E("h_lex_free", build="regex", p0=n) for n in (0, 1, 2, 3)] + [E("h_lex_templates", 200, build="regex"), E("h_lex_free", 100, build="regex", p0=4)],
        "thorough": [E("h_lex_free", 600, build="regex", p0=n) for n in (0, 1, 2, 3, 4)] + [E("h_lex_templates", 900, build="regex", p0=1)],
        "nohooks": [],
        "reach": ["tokens", "error", "null"],
        "assumptions": ["In the symbolic build only, the crate regex is harness/mock-regex, leftmost-first matching by bounded backtracking; native replays use the real crate."],
        "bounds": "every UTF-8 text of up to 4 bytes and the families LEX of harness/core/src/templates.rs (thorough: every hole one byte longer)",
    },
    "C25": {
        "quick": [E("h_flex", build="flex", p0=0, p1=3, p2=2), E("h_flex", build="flex", p0=1, p1=2, p2=3), E("h_flex", build="flex", p0=1, p1=3, p2=1), E("h_rule_regex", build="flex", p0=2, p1=1), E("h_rule_regex", build="flex", p0=4, p1=1)],
        "thorough": [E("h_flex", 600, build="flex", p0=0, p1=4, p2=2), E("h_flex", 600, build="flex", p0=0, p1=2, p2=4), E("h_flex", 600, build="flex", p0=1, p1=2, p2=5), E("h_flex", 600, build="flex", p0=1, p1=3, p2=3)] + [E("h_rule_regex", 300, build="flex", p0=n, p1=1) for n in (0, 1, 2, 3, 4, 5)],
        "nohooks": [E("h_flex", build="flexlite", p0=0, p1=3, p2=2), E("h_flex", build="flexlite", p0=1, p1=2, p2=3), E("h_flex", build="flexlite", p0=1, p1=3, p2=1)],
        "reach": ["file", "match", "no match"],
        "assumptions": ["In the symbolic build only, the crate regex is harness/mock-regex, leftmost-first matching by bounded backtracking; native replays use the real crate."],
        "bounds": "files of a fixed frame with up to 3 (thorough: 4) definitions, declarations, code and comment blocks of 7 kinds in any order, or up to 3 rules in any of 4 lists of start conditions and groups, with a definition, a block, a pattern or an action of 2 or 3 (5) free characters; 39 forms of patterns with 10 repetitions against texts of up to 4 (5) bytes. Outside: definitions not separated by a tab, several names after %x, %s, comments that look like definitions, patterns with white space, quotes around what means something in a regular expression",
    },
    "C26": {
        "quick": [E("h_emit", build="emit", p0=2, p1=2, p2=3), E("h_emit", build="emit", p0=3, p1=1, p2=2), E("h_emit_tables", build="emit", p0=2, p1=2)],
        "thorough": [E("h_emit", 900, build="emit", p0=3, p1=2, p2=3), E("h_emit", 600, build="emit", p0=2, p1=4, p2=2), E("h_emit_tables", 900, build="emit", p0=2, p1=3), E("h_emit_tables", 900, build="emit", p0=3, p1=2)],
        "nohooks": [],
        "reach": ["shared", "own", "match", "no match"],
        "assumptions": ["In the symbolic build only, the crate regex is harness/mock-regex, leftmost-first matching by bounded backtracking; native replays use the real crate."],
        "bounds": "every set of 2 or 3 rules in 1 to 3 start conditions, with 4 patterns and an action shared with the next rule, fixed, or of 1 or 2 (thorough: 4) free characters; the tables for every 2 (3) rules of 14 in 1 or 2 (3) start conditions, for inputs of any length. Outside: patterns with a quote before a number sign, actions with comments, automata of 255 states or more, start conditions without rules",
    },
    "C27": {
        "quick": [E("h_parser", build="genemit", p0=1), E("h_parser", build="genemit", p0=2)],
        "thorough": [E("h_parser", 900, build="genemit", p0=0), E("h_parser", 300, build="genemit", p0=2)],
        "nohooks": [],
        "reach": ["written", "tables"],
        "assumptions": ["The copy of the generator records the files it would write and does not call rustfmt."],
        "bounds": "grammars of 5 shapes with 3 nonterminals and 3 terminals, of which one is any printable character and the others two of 10 tokens next to each other (thorough: any two) or the second also any printable character. Outside: literals that are a quote or a backslash",
    },
    "C28": {
        "quick": [E("h_graph", build="auto", p0=3, p1=3, p2=1), E("h_graph", build="auto", p0=4, p1=3, p2=1), E("h_graph", build="auto", p0=2, p1=4, p2=0), E("h_graph", build="auto", p0=5, p1=1, p2=2), E("h_graph", build="auto", p0=5, p1=3, p2=2, p4=1), E("h_graph", build="auto", p0=5, p1=3, p2=2, p3=1, p4=1), E("h_graph", build="auto", p0=3, p1=3, p2=1, p3=2), E("h_graph", build="auto", p0=2, p1=3, p2=0, p3=3), E("h_graph", build="auto", p0=4, p1=2, p2=2, p3=2)],
        "thorough": [E("h_graph", 900, build="auto", p0=4, p1=4, p2=1), E("h_graph", 300, build="auto", p0=3, p1=3, p2=0), E("h_graph", 300, build="auto", p0=2, p1=6, p2=0), E("h_graph", 300, build="auto", p0=5, p1=2, p2=2), E("h_graph", 600, build="auto", p0=5, p1=4, p2=2, p4=1), E("h_graph", 600, build="auto", p0=4, p1=3, p2=1, p3=3), E("h_graph", 600, build="auto", p0=5, p1=2, p2=2, p3=2)],
        "nohooks": [],
        "reach": ["goes on", "ends", "text"],
        "bounds": "every automaton of 3 or 4 states with 3 edges (empty or with one of two bytes; thorough: 4) and of 2 with 4 (6), with none or one of up to three rules at a state; of 5 states where the start leads to any set of states with one byte and any with the other, with 1 (2) empty edges among them, or with one byte and 3 (4); texts of any length for the automaton, of up to 3 bytes for the two matchers, without zeros",
    },
    "C29": {
        "quick": [E("h_whole", build="whole", p0=1, p1=3), E("h_whole", build="whole", p0=2, p1=1)],
        "thorough": [E("h_whole", 900, build="whole", p0=3, p1=2), E("h_whole", 300, build="whole", p0=2, p1=3)],
        "nohooks": [],
        "reach": ["written"],
        "assumptions": ["The copy of the generator reads its resources from the harness, records the files it would write and does not call rustfmt.", "In the symbolic build only, the crate regex is harness/mock-regex, leftmost-first matching by bounded backtracking; native replays use the real crate."],
        "bounds": "keyword lists of 1 line with a free name of up to 3 characters or 2 (thorough: 3) with one of 1 (2), tokens of 1 or 2 free characters with or without _P, comments after and between them, empty lines, a last line that is not ended; scanner files with 1 or 2 start conditions and a fixed or nested action. Outside: white space around the names other than one space",
    },
    "C30": {
        "quick": [E("h_show_free", build="show", p0=3, p1=0)] + [E("h_show_free", build="show", p0=2, p1=n) for n in (1, 2, 4)] + [E("h_show_templates", build="show", p0=TRIV), dict(E("h_show_templates", build="show", p0=LONG), max_instr=120000000)],
        "thorough": [E("h_show_free", build="show", p0=n, p1=0) for n in (0, 1, 2, 3)] + [E("h_show_free", 300, build="show", p0=3, p1=n) for n in (1, 2, 3, 4)] + [E("h_show_templates", 400, build="show", p0=n) for n in (TRIV, STMT, LEX, LOOK, QUOTES, NUMS)] + [dict(E("h_show_templates", build="show", p0=LONG), max_instr=120000000)],
        "nohooks": [],
        "reach": ["tree", "error"],
        "assumptions": ["In the symbolic build only, the stand-in for cstree writes the text of a token as it is where cstree escapes it and shortens long ones; native replays use the real crate."],
        "bounds": FREE % ("3 (thorough: 3)", "alone and 2 (3) after three (four) of the prefixes; ") + FAM % "TRIVIA, LONG (thorough: also STMT, LEX, LOOK, QUOTES, NUMS)" + "; what JavaScript makes of the text is outside",
    },
}
