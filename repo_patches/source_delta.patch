From ae74b1b05cbfb8eb11edfbf3c8a112252c5bc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 01/18] fix: handle binary integer literals in
 process_integer_literal

`SELECT 0b1` panicked: radix 2 was missing from the match and hit unreachable!().
---
 .../parser-generator/src/parser_generator/lexer/lexer_ported.rs  | 1 +
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
-- 
2.43.0


From e82d2986a9f87c15f0170fb7ab6bc8ec21435d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 02/18] fix: accept underscores when deciding whether an
 integer literal is an ICONST

`1_000` was lexed as FCONST because the digits were parsed with the
underscores still in place, so it was rejected wherever the grammar wants Iconst.
---
 .../src/parser_generator/lexer/lexer_ported.rs                | 4 +++-
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 7172e87..db32080 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -105,7 +105,9 @@ impl Lexer {
 
     pub fn process_integer_literal(&mut self, radix: usize) -> Option<TokenKind> {
         let yytext_original = self.yytext();
-        let mut yytext = yytext_original.as_str();
+        // Underscores between digits are not part of the value
+        let yytext_digits: String = yytext_original.chars().filter(|c| *c != '_').collect();
+        let mut yytext = yytext_digits.as_str();
         let mut neg = false;
 
         match yytext.bytes().next() {
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 7172e87..db32080 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -105,7 +105,9 @@ impl Lexer {
 
     pub fn process_integer_literal(&mut self, radix: usize) -> Option<TokenKind> {
         let yytext_original = self.yytext();
-        let mut yytext = yytext_original.as_str();
+        // Underscores between digits are not part of the value
+        let yytext_digits: String = yytext_original.chars().filter(|c| *c != '_').collect();
+        let mut yytext = yytext_digits.as_str();
         let mut neg = false;
 
         match yytext.bytes().next() {
-- 
2.43.0


From 8805a182572f28b0acc9e1113253dc98d072c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 03/18] fix: skip the 'x' of hexadecimal escapes in extended
 strings

e'\x41' panicked: the digits were parsed with the leading 'x' included.
---
 crates/lexer-generator/resources/scan.l                       | 2 +-
 .../parser-generator/src/parser_generator/lexer/generated.rs  | 4 ++--
 crates/postgresql-cst-parser/src/lexer/generated.rs           | 4 ++--
 patches/patch_scan.patch                                      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 4663d12..74962e8 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -991,7 +991,7 @@ other			.
 					// if (c == '\0' || IS_HIGHBIT_SET(c))
 					// 	yyextra->saw_non_ascii = true;
 
-					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
+					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 					let c = char::from_u32(c).unwrap();
 
 					// self.check_escape_warning();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index d775931..c3b041c 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -732,7 +732,7 @@
 +					// if (c == '\0' || IS_HIGHBIT_SET(c))
 +					// 	yyextra->saw_non_ascii = true;
 +
-+					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
++					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 +					let c = char::from_u32(c).unwrap();
 +
 +					// self.check_escape_warning();
-- 
2.43.0


From 78588e95eb6ecd510ef037251309309f03f98f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 04/18] fix: report an out-of-range Unicode escape instead of
 panicking

e'\UFFFFFFFF' unwrapped the None of char::from_u32.
---
 crates/lexer-generator/resources/scan.l             |  5 ++++-
 .../src/parser_generator/lexer/generated.rs         | 10 ++++++++--
 crates/postgresql-cst-parser/src/lexer/generated.rs | 10 ++++++++--
 patches/patch_scan.patch                            | 13 ++++++++-----
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 74962e8..030d991 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -862,7 +862,10 @@ other			.
 					} else if is_utf16_surrogate_second(c) {
 						yyerror!("invalid Unicode surrogate pair");
 					} else {
-						self.addunicode(char::from_u32(c as u32).unwrap())?;
+						let Some(c) = char::from_u32(c) else {
+							yyerror!("invalid Unicode escape value");
+						};
+						self.addunicode(c)?;
 					}
 
 					self.pop_yylloc();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 42b8026..95ec680 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
@@ -5691,7 +5694,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 42b8026..95ec680 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
@@ -5691,7 +5694,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            let Some(c) = char::from_u32(c) else {
+                                yyerror!("invalid Unicode escape value");
+                            };
+                            self.addunicode(c)?;
                         }
 
                         self.pop_yylloc();
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index c3b041c..5072b68 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -336,7 +336,7 @@
  					/*
  					 * When we are scanning a quoted string and see an end
  					 * quote, we must look ahead for a possible continuation.
-@@ -603,193 +702,366 @@
+@@ -603,193 +702,369 @@
  					 * we use a single "xqs" state to do the lookahead for all
  					 * types of strings.
  					 */
@@ -551,7 +551,10 @@
 +					} else if is_utf16_surrogate_second(c) {
 +						yyerror!("invalid Unicode surrogate pair");
 +					} else {
-+						self.addunicode(char::from_u32(c as u32).unwrap())?;
++						let Some(c) = char::from_u32(c) else {
++							yyerror!("invalid Unicode escape value");
++						};
++						self.addunicode(c)?;
  					}
 -					else if (is_utf16_surrogate_second(c))
 -						yyerror("invalid Unicode surrogate pair");
@@ -823,7 +826,7 @@
  					}
  					else
  					{
-@@ -798,143 +1070,332 @@
+@@ -798,143 +1073,332 @@
  						 * the $... part to the output, but put back the final
  						 * $ for rescanning.  Consider $delim$...$junk$delim$
  						 */
@@ -1229,7 +1232,7 @@
  
  					/*
  					 * For SQL compatibility, '+' and '-' cannot be the
-@@ -944,68 +1405,61 @@
+@@ -944,68 +1408,61 @@
  					 * to forbid operator names like '?-' that could not be
  					 * sequences of SQL operators.
  					 */
@@ -1334,7 +1337,7 @@
  						}
  					}
  
-@@ -1015,115 +1469,190 @@
+@@ -1015,115 +1472,190 @@
  					 * and-truncate, because the odds are we are looking at
  					 * a syntactic mistake anyway.
  					 */
-- 
2.43.0


From b8df8d88e88055111692e3f9858f460c52f0e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 05/18] fix: report a parameter number that does not fit an i32
 instead of panicking

`SELECT $99999999999` panicked; later versions of PostgreSQL report the same error.
---
 crates/lexer-generator/resources/scan.l              |  5 ++++-
 .../src/parser_generator/lexer/generated.rs          | 12 ++++++++----
 crates/postgresql-cst-parser/src/lexer/generated.rs  | 12 ++++++++----
 patches/patch_scan.patch                             |  7 +++++--
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 030d991..7dca849 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -1486,7 +1486,10 @@ other			.
 					// return PARAM;
 
 					self.set_yylloc();
-					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+					let Ok(param) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+						yyerror!("parameter number too large");
+					};
+					self.yylval = Yylval::I(param);
 					return Ok(Some(TokenKind::PARAM));
 				}
 
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 95ec680..6bc1283 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4926,8 +4926,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(param) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(param);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6439,8 +6441,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(param) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(param);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 95ec680..6bc1283 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4926,8 +4926,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(param) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(param);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6439,8 +6441,10 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        let Ok(param) = i32::from_str_radix(&self.yytext()[1..], 10) else {
+                            yyerror!("parameter number too large");
+                        };
+                        self.yylval = Yylval::I(param);
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index 5072b68..6ba7a1b 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -1337,7 +1337,7 @@
  						}
  					}
  
-@@ -1015,115 +1472,190 @@
+@@ -1015,115 +1472,193 @@
  					 * and-truncate, because the odds are we are looking at
  					 * a syntactic mistake anyway.
  					 */
@@ -1362,7 +1362,10 @@
 +					// return PARAM;
 +
 +					self.set_yylloc();
-+					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
++					let Ok(param) = i32::from_str_radix(&self.yytext()[1..], 10) else {
++						yyerror!("parameter number too large");
++					};
++					self.yylval = Yylval::I(param);
 +					return Ok(Some(TokenKind::PARAM));
  				}
  
-- 
2.43.0


From 2cf962bec7447562a0de0f0f483ab9d435f198d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 06/18] fix: never end a lexer match inside a multi-byte
 character
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Rules that match a single byte (`'a'é`, `e'\é'`) left the match in the middle of a
character, and slicing the input there panicked.
---
 .../src/parser_generator/lexer/util.rs             | 14 +++++++++++---
 crates/postgresql-cst-parser/src/lexer/util.rs     | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/util.rs b/crates/parser-generator/src/parser_generator/lexer/util.rs
index 0c28eed..dbcb089 100644
--- a/crates/parser-generator/src/parser_generator/lexer/util.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/util.rs
@@ -5,6 +5,14 @@ use super::{
     generated::{State, get_keyword_map},
 };
 
+/// The rules match bytes: extend a match that ends inside a multi-byte character to the end of the character.
+fn ceil_char_boundary(s: &str, mut len: usize) -> usize {
+    while !s.is_char_boundary(len) {
+        len += 1;
+    }
+    len
+}
+
 impl Lexer {
     pub fn new(input: &str) -> Self {
         #[cfg(feature = "regex-match")]
@@ -76,7 +84,7 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (ceil_char_boundary(s, longest_match), accept_rule);
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +104,7 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (ceil_char_boundary(s, longest_match), accept_rule)
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +134,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (ceil_char_boundary(s, longest_match), kind)
         }
     }
 
diff --git a/crates/postgresql-cst-parser/src/lexer/util.rs b/crates/postgresql-cst-parser/src/lexer/util.rs
index 0c28eed..dbcb089 100644
--- a/crates/postgresql-cst-parser/src/lexer/util.rs
+++ b/crates/postgresql-cst-parser/src/lexer/util.rs
@@ -5,6 +5,14 @@ use super::{
     generated::{State, get_keyword_map},
 };
 
+/// The rules match bytes: extend a match that ends inside a multi-byte character to the end of the character.
+fn ceil_char_boundary(s: &str, mut len: usize) -> usize {
+    while !s.is_char_boundary(len) {
+        len += 1;
+    }
+    len
+}
+
 impl Lexer {
     pub fn new(input: &str) -> Self {
         #[cfg(feature = "regex-match")]
@@ -76,7 +84,7 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (ceil_char_boundary(s, longest_match), accept_rule);
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +104,7 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (ceil_char_boundary(s, longest_match), accept_rule)
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +134,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (ceil_char_boundary(s, longest_match), kind)
         }
     }
 
-- 
2.43.0


From e06277f80adeee2eb6e4e1f950fd9eed6e7d6b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 07/18] fix: reject a null character instead of taking it for
 the end of the input

Everything after a null character was silently returned as one Whitespace token.
---
 crates/parser-generator/src/parser_generator/lexer.rs | 9 +++++++++
 crates/postgresql-cst-parser/src/lexer.rs             | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index bda28fe..ae877b9 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -157,6 +157,15 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // As in PostgreSQL, a query cannot contain a null character: the lexer uses it to represent the end of the input.
+    if let Some(position) = input.bytes().position(|b| b == 0) {
+        return Err(ParserError::new_report(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+            "A query cannot contain a null character.",
+            position,
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index bda28fe..ae877b9 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -157,6 +157,15 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // As in PostgreSQL, a query cannot contain a null character: the lexer uses it to represent the end of the input.
+    if let Some(position) = input.bytes().position(|b| b == 0) {
+        return Err(ParserError::new_report(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+            "A query cannot contain a null character.",
+            position,
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
-- 
2.43.0


From bf7419144cff245f21ab5019f80872674bc56caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 08/18] fix: report a syntax error for a token the grammar does
 not have

`SELECT {`, `SELECT 1..2` and other tokens that are not terminals of gram.y hit
unreachable!() in token_kind_to_component_id.
---
 crates/parser-generator/templates/parser_template.rs |  9 +++++----
 crates/postgresql-cst-parser/src/cst.rs              | 12 ++++++++++--
 crates/postgresql-cst-parser/src/parser.rs           |  9 +++++----
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/parser-generator/templates/parser_template.rs b/crates/parser-generator/templates/parser_template.rs
index 547f5d3..41e2629 100644
--- a/crates/parser-generator/templates/parser_template.rs
+++ b/crates/parser-generator/templates/parser_template.rs
@@ -33,10 +33,11 @@ pub(crate) fn end_rule_kind() -> TokenKind {{end_rule_kind}}
 
 pub(crate) fn end_rule_id() -> u32 {{end_rule_id}}
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {{token_to_component_id}
-    _ => unreachable!(),
-    }
+/// Returns None if the grammar has no such terminal
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    Some(match kind {{token_to_component_id}
+    _ => return None,
+    })
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 94b937f..68513a7 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -177,7 +177,13 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             }
         };
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let Some(cid) = token_kind_to_component_id(&token.kind) else {
+            return Err(ParserError::ParseError {
+                message: format!("syntax error at byte position {}", token.start_byte_pos),
+                start_byte_pos: token.start_byte_pos,
+                end_byte_pos: token.end_byte_pos,
+            });
+        };
 
         if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
             if last_pos < token.start_byte_pos {
@@ -323,7 +329,9 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             break;
         }
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let Some(cid) = token_kind_to_component_id(&token.kind) else {
+            continue;
+        };
         let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));
         extras.push((
             kind,
diff --git a/crates/postgresql-cst-parser/src/parser.rs b/crates/postgresql-cst-parser/src/parser.rs
index ffbfb7d..503f3f3 100644
--- a/crates/postgresql-cst-parser/src/parser.rs
+++ b/crates/postgresql-cst-parser/src/parser.rs
@@ -33032,8 +33032,9 @@ pub(crate) fn end_rule_id() -> u32 {
     126
 }
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {
+/// Returns None if the grammar has no such terminal
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    Some(match kind {
         TokenKind::KEYWORD(s) if s == "ABORT_P" => 0,
         TokenKind::KEYWORD(s) if s == "ABSENT" => 1,
         TokenKind::KEYWORD(s) if s == "ABSOLUTE_P" => 2,
@@ -33570,8 +33571,8 @@ pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
         TokenKind::KEYWORD(s) if s == "ZONE" => 533,
         TokenKind::C_COMMENT => 1262,
         TokenKind::SQL_COMMENT => 1263,
-        _ => unreachable!(),
-    }
+        _ => return None,
+    })
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
-- 
2.43.0


From f71fcb90dd00580e0771085426a3846149c03b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 09/18] fix: parse identifiers and strings with Unicode escapes
 (U&"...", U&'...')

They were given a wrong end position and the token kinds UIDENT and USCONST, which
parser.c reduces to IDENT and SCONST, were passed on to the grammar.
---
 crates/parser-generator/src/parser_generator/lexer.rs    | 2 ++
 .../src/parser_generator/lexer/lexer_ported.rs           | 9 +++++++++
 crates/postgresql-cst-parser/src/lexer.rs                | 2 ++
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs   | 9 +++++++++
 4 files changed, 22 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index ae877b9..e472cf6 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -179,9 +179,11 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
         let end_byte_pos = if matches!(
             kind,
             TokenKind::SCONST
+                | TokenKind::USCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
                 | TokenKind::IDENT
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index db32080..0ddaaf2 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -162,6 +162,15 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
+    // The grammar only has IDENT and SCONST (a UESCAPE clause is not supported)
+    for token in tokens.iter_mut() {
+        match token.kind {
+            TokenKind::UIDENT => token.kind = TokenKind::IDENT,
+            TokenKind::USCONST => token.kind = TokenKind::SCONST,
+            _ => (),
+        }
+    }
+
     for i in 0..tokens.len() - 1 {
         match &tokens[i].kind {
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index ae877b9..e472cf6 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -179,9 +179,11 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
         let end_byte_pos = if matches!(
             kind,
             TokenKind::SCONST
+                | TokenKind::USCONST
                 | TokenKind::BCONST
                 | TokenKind::XCONST
                 | TokenKind::IDENT
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index db32080..0ddaaf2 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -162,6 +162,15 @@ pub fn init_tokens(tokens: &mut [Token]) {
         None
     }
 
+    // The grammar only has IDENT and SCONST (a UESCAPE clause is not supported)
+    for token in tokens.iter_mut() {
+        match token.kind {
+            TokenKind::UIDENT => token.kind = TokenKind::IDENT,
+            TokenKind::USCONST => token.kind = TokenKind::SCONST,
+            _ => (),
+        }
+    }
+
     for i in 0..tokens.len() - 1 {
         match &tokens[i].kind {
             TokenKind::KEYWORD(k) if k == "FORMAT" => {
-- 
2.43.0


From 20a5429ab3586957792bd12f1e0a3f7a71d43db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 10/18] Add guarded access to lexer and table lookups for
 verification (--cfg verif_hooks)

---
 crates/postgresql-cst-parser/src/cst.rs   | 40 +++++++++++++++++++++++
 crates/postgresql-cst-parser/src/lexer.rs |  6 ++++
 crates/postgresql-cst-parser/src/lib.rs   | 12 +++++++
 3 files changed, 58 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 68513a7..60842b6 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -349,3 +349,43 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
 
     Ok(SyntaxNode::new_root_with_resolver(ast, resolver))
 }
+
+#[cfg(all(verif_hooks, verif_hooks_tables))]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// State, terminal -> action code (see lookup_parser_action)
+    pub fn action(state: u32, cid: u32) -> i16 {
+        lookup_parser_action(state, cid)
+    }
+    /// State, nonterminal -> next state or -1
+    pub fn goto(state: u32, cid: u32) -> i16 {
+        lookup_goto_state(state, cid)
+    }
+    pub fn num_states() -> usize {
+        ACTION_TABLE_INDEX.len()
+    }
+    pub fn num_terminals() -> u32 {
+        num_terminal_symbol()
+    }
+    pub fn num_rules() -> usize {
+        RULES.len()
+    }
+    /// Rule -> left-hand side, length of the right-hand side
+    pub fn rule(i: usize) -> (&'static str, usize) {
+        (RULES[i].name, RULES[i].len)
+    }
+    pub fn nonterminal_id(name: &str) -> u32 {
+        rule_name_to_component_id(name)
+    }
+    pub fn terminal_id(kind: &TokenKind) -> Option<u32> {
+        token_kind_to_component_id(kind)
+    }
+    pub fn end_id() -> u32 {
+        end_rule_id()
+    }
+    pub fn end_kind() -> TokenKind {
+        end_rule_kind()
+    }
+}
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index e472cf6..03945db 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -203,3 +203,9 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
     // dbg!(&tokens);
     Ok(tokens)
 }
+
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use super::generated::State;
+}
diff --git a/crates/postgresql-cst-parser/src/lib.rs b/crates/postgresql-cst-parser/src/lib.rs
index 8f212e6..e35ab61 100644
--- a/crates/postgresql-cst-parser/src/lib.rs
+++ b/crates/postgresql-cst-parser/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(non_camel_case_types)]
+#![allow(unexpected_cfgs)]
 
 mod lexer;
 
@@ -86,6 +87,17 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
     cst::parse(input)
 }
 
+/// Internals for the verification harnesses; compiled only with `--cfg verif_hooks`.
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::lexer::lexer_ported::init_tokens;
+    pub use crate::lexer::{lex, verif_hooks::*, Lexer, Token, TokenKind};
+
+    #[cfg(verif_hooks_tables)]
+    pub use crate::cst::verif_hooks::*;
+}
+
 #[cfg(test)]
 mod tests {
     use crate::lexer::parser_error::ScanReport;
-- 
2.43.0


From 93089749b37b49b00da92ade2465719c5b6d7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 11/18] Add guarded access to the lexer's DFA tables for
 verification (--cfg verif_hooks_dfa)

---
 crates/postgresql-cst-parser/src/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index 03945db..f7c0c3c 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -208,4 +208,7 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
 #[doc(hidden)]
 pub mod verif_hooks {
     pub use super::generated::State;
+
+    #[cfg(all(verif_hooks_dfa, not(feature = "regex-match")))]
+    pub use super::generated::dfa::get_dfa_table;
 }
-- 
2.43.0


From 193f15493d00c282b0f59777271aa08b174999e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 12/18] fix: numeric escapes of patterns take at most two
 hexadecimal or three octal digits

\x61a was read as one number and overflowed; \8 and \9 are not octal.
---
 crates/automata/src/regexp.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 5e9c230..165fe7e 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -90,9 +90,11 @@ impl RegexpParser {
             b'n' => b'\n',
             b'v' => b'\x0b',
             b'x' => {
+                // At most two digits, as in flex: "\\x61b" is "ab"
+                let end = self.bytes.len().min(self.index + 2);
                 let mut v = 0;
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
                     if !c.is_ascii_hexdigit() {
@@ -112,14 +114,15 @@ impl RegexpParser {
 
                 v
             }
-            // If no format specified, treat as octal number
-            b'0'..=b'9' => {
+            // If no format specified, treat as octal number of at most three digits
+            b'0'..=b'7' => {
+                let end = self.bytes.len().min(self.index + 2);
                 let mut v = c - b'0';
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
-                    if !c.is_ascii_digit() {
+                    if !matches!(c, b'0'..=b'7') {
                         break;
                     }
 
-- 
2.43.0


From 3c46622ab51ef73ae2b25fa40c28f7e522322478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 13/18] fix: a comment of a grammar file that begins with /*/
 ended at once

---
 crates/parser-generator/src/parser_generator/bison.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 2f5a201..41f2590 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -405,6 +405,8 @@ fn scan(body: String) -> Vec<BisonToken> {
             }
 
             if c == '*' {
+                // The asterisk that opens the comment does not close it: "/*/"
+                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
                 while !chars[i..].starts_with(&['*', '/']) {
                     update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
                 }
-- 
2.43.0


From b6d62a363b12f24fd45f197313bdb2ff2969924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 14/18] fix: braces in literals and comments of an action
 counted as the action's own

---
 .../src/parser_generator/bison.rs             | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 41f2590..6775def 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -379,6 +379,29 @@ fn scan(body: String) -> Vec<BisonToken> {
                 match chars[i] {
                     '{' => depth += 1,
                     '}' => depth -= 1,
+                    // Braces in literals and comments do not count
+                    quote @ ('\'' | '"') => {
+                        update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                        while chars[i] != quote {
+                            if chars[i] == '\\' {
+                                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                            }
+                            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                        }
+                    }
+                    '/' if chars[i + 1] == '/' => {
+                        while chars[i] != '\n' {
+                            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                        }
+                    }
+                    '/' if chars[i + 1] == '*' => {
+                        update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                        update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                        while !chars[i..].starts_with(&['*', '/']) {
+                            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                        }
+                        update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                    }
                     _ => (),
                 }
 
-- 
2.43.0


From 29fe3ba0f8d3502516f73901341cc6d6a15fc70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 15/18] fix: escape sequences in quoted strings of patterns
 were taken literally

---
 crates/automata/src/regexp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 165fe7e..70dd0f8 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -207,6 +207,13 @@ impl RegexpParser {
         self.index += 1;
         loop {
             let c = self.bytes[self.index];
+
+            // Escape sequences keep their meaning in quotes: "\"" is a double quote
+            if c == b'\\' {
+                nodes.push(self.parse_escape_sequence_as_node());
+                continue;
+            }
+
             self.index += 1;
 
             if c == b'"' {
-- 
2.43.0


From 2484cd79f1dc2771782cf773decfdaa999c875cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 16/18] fix: a dot in a pattern matched a newline

---
 crates/automata/src/regexp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 70dd0f8..6fbb849 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -315,7 +315,8 @@ impl RegexpParser {
             }
             b'.' => {
                 self.index += 1;
-                RegexpNode::NoneOf(Vec::new())
+                // As in flex, any character but a newline
+                RegexpNode::NoneOf(vec![b'\n'])
             }
             b']' | b')' | b'}' => unreachable!(),
             _ => {
-- 
2.43.0


From 20ea2859ebf9c7762a721576ef288cccfe9b3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 17/18] fix: a start condition without patterns before one that
 has some made the pattern compiler panic

---
 crates/automata/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/automata/src/lib.rs b/crates/automata/src/lib.rs
index b8c829c..f29d003 100644
--- a/crates/automata/src/lib.rs
+++ b/crates/automata/src/lib.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 
 use dfa::{DFA, INVALID_STATE};
 use nfa::{NFA, NFAState, Transition};
@@ -175,11 +175,12 @@ pub fn to_flex_pattern_dfa(
         named_pattern_definitions.insert(name_definition.name.clone(), regex);
     }
 
+    // A state may have no patterns at all
     let num_state = pattern_defs
         .iter()
-        .flat_map(|p| p.state_set.iter().cloned())
-        .collect::<HashSet<_>>()
-        .len();
+        .flat_map(|p| p.state_set.iter())
+        .max()
+        .map_or(0, |&last| last + 1);
 
     let state_start_node = (0..num_state).map(|_| nfa.new_state()).collect::<Vec<_>>();
 
-- 
2.43.0


From 38e4c4d2fb688f4bf083a0e73fe1c0b3554fa814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 18/18] fix: the escape \a of a pattern stood for the letter a

---
 crates/automata/src/regexp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 6fbb849..6ef324f 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -83,6 +83,7 @@ impl RegexpParser {
         self.index += 1;
 
         match c {
+            b'a' => b'\x07',
             b'b' => b'\x08',
             b'f' => b'\x0c',
             b't' => b'\t',
-- 
2.43.0

