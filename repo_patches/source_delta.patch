From d99e074da7a696f8ed575200e74bcfab3ac48673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:33 +0000
Subject: [PATCH 01/27] fix: decode \xHH escapes in E'' strings without
 panicking

The hex digits start after the two characters "\x", not after the backslash,
so every string containing a hexadecimal escape panicked in from_str_radix.
---
 crates/lexer-generator/resources/scan.l                       | 2 +-
 .../parser-generator/src/parser_generator/lexer/generated.rs  | 4 ++--
 crates/postgresql-cst-parser/src/lexer/generated.rs           | 4 ++--
 patches/patch_scan.patch                                      | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 4663d12..74962e8 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -991,7 +991,7 @@ other			.
 					// if (c == '\0' || IS_HIGHBIT_SET(c))
 					// 	yyextra->saw_non_ascii = true;
 
-					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
+					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 					let c = char::from_u32(c).unwrap();
 
 					// self.check_escape_warning();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 466c3d0..42b8026 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4376,7 +4376,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
@@ -5863,7 +5863,7 @@ impl Lexer {
                         // 	yyextra->saw_non_ascii = true;
 
                         let c = u32::from_str_radix(
-                            &self.input[self.index_bytes + 1..self.index_bytes + self.yyleng],
+                            &self.input[self.index_bytes + 2..self.index_bytes + self.yyleng],
                             16,
                         )
                         .unwrap();
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index d775931..c3b041c 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -732,7 +732,7 @@
 +					// if (c == '\0' || IS_HIGHBIT_SET(c))
 +					// 	yyextra->saw_non_ascii = true;
 +
-+					let c = u32::from_str_radix(&self.input[self.index_bytes+1..self.index_bytes + self.yyleng], 16).unwrap();
++					let c = u32::from_str_radix(&self.input[self.index_bytes+2..self.index_bytes + self.yyleng], 16).unwrap();
 +					let c = char::from_u32(c).unwrap();
 +
 +					// self.check_escape_warning();
-- 
2.43.0


From afc8bc1c78610c28cd86ac5f986c5df32bba669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:35 +0000
Subject: [PATCH 02/27] fix: do not panic on positional parameters larger than
 i32

PostgreSQL reads the number with atol(), which never fails; saturate instead
of unwrapping the overflow error.
---
 crates/lexer-generator/resources/scan.l                |  2 +-
 .../src/parser_generator/lexer/generated.rs            | 10 ++++++----
 crates/postgresql-cst-parser/src/lexer/generated.rs    | 10 ++++++----
 patches/patch_scan.patch                               |  2 +-
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 74962e8..a8b824f 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -1483,7 +1483,7 @@ other			.
 					// return PARAM;
 
 					self.set_yylloc();
-					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX));
 					return Ok(Some(TokenKind::PARAM));
 				}
 
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 42b8026..e118f09 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4923,8 +4923,9 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6434,9 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 42b8026..e118f09 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4923,8 +4923,9 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
@@ -6433,8 +6434,9 @@ impl Lexer {
                         // return PARAM;
 
                         self.set_yylloc();
-                        self.yylval =
-                            Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
+                        self.yylval = Yylval::I(
+                            i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX),
+                        );
                         return Ok(Some(TokenKind::PARAM));
                     }
                 }
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index c3b041c..27674a2 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -1359,7 +1359,7 @@
 +					// return PARAM;
 +
 +					self.set_yylloc();
-+					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap());
++					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX));
 +					return Ok(Some(TokenKind::PARAM));
  				}
  
-- 
2.43.0


From ec578b8ff2fca4cc8e174fd4a83fcd134171cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 03/27] fix: accept binary integer literals

process_integer_literal is called with radix 2 for 0b101 but treated it as
unreachable, so every binary literal panicked.
---
 .../parser-generator/src/parser_generator/lexer/lexer_ported.rs  | 1 +
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 0d1ed6b..7172e87 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -120,6 +120,7 @@ impl Lexer {
         }
 
         let res_parse_as_i32 = match radix {
+            2 => i32::from_str_radix(&yytext[2..], 2),
             8 => i32::from_str_radix(&yytext[2..], 8),
             10 => yytext.parse::<i32>(),
             16 => i32::from_str_radix(&yytext[2..], 16),
-- 
2.43.0


From d43d823fbed4cbbfe01045adb0e9a0f935c0ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 04/27] fix: classify integer literals with digit separators as
 ICONST

i32 parsing rejects '_', so 1_000 became an FCONST and was refused wherever
the grammar needs an integer, e.g. char(1_0).
---
 .../src/parser_generator/lexer/lexer_ported.rs         | 10 ++++++----
 crates/postgresql-cst-parser/src/lexer/lexer_ported.rs | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index 7172e87..cf7ecad 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -119,11 +119,13 @@ impl Lexer {
             _ => (),
         }
 
+        // Like pg_strtoint32_safe(), ignore the underscores between digits
+        let digits = yytext.replace('_', "");
         let res_parse_as_i32 = match radix {
-            2 => i32::from_str_radix(&yytext[2..], 2),
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index 7172e87..cf7ecad 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -119,11 +119,13 @@ impl Lexer {
             _ => (),
         }
 
+        // Like pg_strtoint32_safe(), ignore the underscores between digits
+        let digits = yytext.replace('_', "");
         let res_parse_as_i32 = match radix {
-            2 => i32::from_str_radix(&yytext[2..], 2),
-            8 => i32::from_str_radix(&yytext[2..], 8),
-            10 => yytext.parse::<i32>(),
-            16 => i32::from_str_radix(&yytext[2..], 16),
+            2 => i32::from_str_radix(&digits[2..], 2),
+            8 => i32::from_str_radix(&digits[2..], 8),
+            10 => digits.parse::<i32>(),
+            16 => i32::from_str_radix(&digits[2..], 16),
             _ => unreachable!(),
         };
 
-- 
2.43.0


From 046932696cc15d109e5b8bcdd75db4c8d2699731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 05/27] fix: reject out-of-range \U escapes instead of
 panicking

e'\U00110000' is not a char, so char::from_u32(..).unwrap() panicked; report
PostgreSQL's "invalid Unicode escape value" instead.
---
 crates/lexer-generator/resources/scan.l             |  5 ++++-
 .../src/parser_generator/lexer/generated.rs         | 10 ++++++++--
 crates/postgresql-cst-parser/src/lexer/generated.rs | 10 ++++++++--
 patches/patch_scan.patch                            | 13 ++++++++-----
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index a8b824f..3d38ae3 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -862,7 +862,10 @@ other			.
 					} else if is_utf16_surrogate_second(c) {
 						yyerror!("invalid Unicode surrogate pair");
 					} else {
-						self.addunicode(char::from_u32(c as u32).unwrap())?;
+						match char::from_u32(c) {
+							Some(c) => self.addunicode(c)?,
+							None => yyerror!("invalid Unicode escape value"),
+						}
 					}
 
 					self.pop_yylloc();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index e118f09..9eff831 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5692,7 +5695,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index e118f09..9eff831 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -4227,7 +4227,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
@@ -5692,7 +5695,10 @@ impl Lexer {
                         } else if is_utf16_surrogate_second(c) {
                             yyerror!("invalid Unicode surrogate pair");
                         } else {
-                            self.addunicode(char::from_u32(c as u32).unwrap())?;
+                            match char::from_u32(c) {
+                                Some(c) => self.addunicode(c)?,
+                                None => yyerror!("invalid Unicode escape value"),
+                            }
                         }
 
                         self.pop_yylloc();
diff --git a/patches/patch_scan.patch b/patches/patch_scan.patch
index 27674a2..82467b5 100644
--- a/patches/patch_scan.patch
+++ b/patches/patch_scan.patch
@@ -336,7 +336,7 @@
  					/*
  					 * When we are scanning a quoted string and see an end
  					 * quote, we must look ahead for a possible continuation.
-@@ -603,193 +702,366 @@
+@@ -603,193 +702,369 @@
  					 * we use a single "xqs" state to do the lookahead for all
  					 * types of strings.
  					 */
@@ -551,7 +551,10 @@
 +					} else if is_utf16_surrogate_second(c) {
 +						yyerror!("invalid Unicode surrogate pair");
 +					} else {
-+						self.addunicode(char::from_u32(c as u32).unwrap())?;
++						match char::from_u32(c) {
++							Some(c) => self.addunicode(c)?,
++							None => yyerror!("invalid Unicode escape value"),
++						}
  					}
 -					else if (is_utf16_surrogate_second(c))
 -						yyerror("invalid Unicode surrogate pair");
@@ -823,7 +826,7 @@
  					}
  					else
  					{
-@@ -798,143 +1070,332 @@
+@@ -798,143 +1073,332 @@
  						 * the $... part to the output, but put back the final
  						 * $ for rescanning.  Consider $delim$...$junk$delim$
  						 */
@@ -1229,7 +1232,7 @@
  
  					/*
  					 * For SQL compatibility, '+' and '-' cannot be the
-@@ -944,68 +1405,61 @@
+@@ -944,68 +1408,61 @@
  					 * to forbid operator names like '?-' that could not be
  					 * sequences of SQL operators.
  					 */
@@ -1334,7 +1337,7 @@
  						}
  					}
  
-@@ -1015,115 +1469,190 @@
+@@ -1015,115 +1472,190 @@
  					 * and-truncate, because the odds are we are looking at
  					 * a syntactic mistake anyway.
  					 */
-- 
2.43.0


From 2751d3a330d8ee63b00109af9694413764aa1ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 06/27] fix: never end a lexer match inside a multi-byte
 character

The patterns match bytes, so a one-byte '.' (after a closing quote, or after a
high surrogate) or the byte after a backslash in an E'' string could split a
UTF-8 sequence, and slicing the input there panicked.
---
 .../src/parser_generator/lexer/util.rs        | 21 ++++++++++++++++---
 .../postgresql-cst-parser/src/lexer/util.rs   | 21 ++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer/util.rs b/crates/parser-generator/src/parser_generator/lexer/util.rs
index 0c28eed..5b05430 100644
--- a/crates/parser-generator/src/parser_generator/lexer/util.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/util.rs
@@ -59,6 +59,15 @@ impl Lexer {
         self.yyleng = len;
     }
 
+    /// Patterns match bytes, so a match can end inside a multi-byte character
+    /// (e.g. `.` or `[\\][^0-7]`). Extend such a match to the end of that character.
+    fn round_up_to_char_boundary(s: &str, mut len: usize) -> usize {
+        while !s.is_char_boundary(len) {
+            len += 1;
+        }
+        len
+    }
+
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
@@ -76,7 +85,10 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (
+                    Self::round_up_to_char_boundary(s, longest_match),
+                    accept_rule,
+                );
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +108,10 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (
+            Self::round_up_to_char_boundary(s, longest_match),
+            accept_rule,
+        )
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +141,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (Self::round_up_to_char_boundary(s, longest_match), kind)
         }
     }
 
diff --git a/crates/postgresql-cst-parser/src/lexer/util.rs b/crates/postgresql-cst-parser/src/lexer/util.rs
index 0c28eed..5b05430 100644
--- a/crates/postgresql-cst-parser/src/lexer/util.rs
+++ b/crates/postgresql-cst-parser/src/lexer/util.rs
@@ -59,6 +59,15 @@ impl Lexer {
         self.yyleng = len;
     }
 
+    /// Patterns match bytes, so a match can end inside a multi-byte character
+    /// (e.g. `.` or `[\\][^0-7]`). Extend such a match to the end of that character.
+    fn round_up_to_char_boundary(s: &str, mut len: usize) -> usize {
+        while !s.is_char_boundary(len) {
+            len += 1;
+        }
+        len
+    }
+
     #[cfg(not(feature = "regex-match"))]
     pub fn find_match_len(&self) -> (usize, u8) {
         use super::generated::dfa::get_dfa_table;
@@ -76,7 +85,10 @@ impl Lexer {
             dfa_state_index = transition[dfa_state_index as usize][transition_index];
 
             if dfa_state_index == !0 {
-                return (longest_match, accept_rule);
+                return (
+                    Self::round_up_to_char_boundary(s, longest_match),
+                    accept_rule,
+                );
             }
 
             if accept[dfa_state_index as usize] != !0 {
@@ -96,7 +108,10 @@ impl Lexer {
             }
         }
 
-        (longest_match, accept_rule)
+        (
+            Self::round_up_to_char_boundary(s, longest_match),
+            accept_rule,
+        )
     }
 
     #[cfg(feature = "regex-match")]
@@ -126,7 +141,7 @@ impl Lexer {
         if eof {
             (0, kind)
         } else {
-            (longest_match, kind)
+            (Self::round_up_to_char_boundary(s, longest_match), kind)
         }
     }
 
-- 
2.43.0


From 87e0aeca0e781f753fcbfcd0bbaa2091ac49fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:49 +0000
Subject: [PATCH 07/27] fix: report a syntax error for characters the grammar
 has no token for

Characters such as '{', '$' or a backslash outside a literal reached
unreachable!() in token_kind_to_component_id.
---
 .../parser-generator/templates/parser_template.rs  | 10 ++++++----
 crates/postgresql-cst-parser/src/cst.rs            | 14 ++++++++++++--
 crates/postgresql-cst-parser/src/parser.rs         | 10 ++++++----
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/parser-generator/templates/parser_template.rs b/crates/parser-generator/templates/parser_template.rs
index 547f5d3..6a5d9de 100644
--- a/crates/parser-generator/templates/parser_template.rs
+++ b/crates/parser-generator/templates/parser_template.rs
@@ -33,10 +33,12 @@ pub(crate) fn end_rule_kind() -> TokenKind {{end_rule_kind}}
 
 pub(crate) fn end_rule_id() -> u32 {{end_rule_id}}
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {{token_to_component_id}
-    _ => unreachable!(),
-    }
+/// Returns None if the grammar has no such token
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {{token_to_component_id}
+    _ => return None,
+    };
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 94b937f..50c5dbe 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -177,7 +177,16 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             }
         };
 
-        let cid = token_kind_to_component_id(&token.kind);
+        let cid = match token_kind_to_component_id(&token.kind) {
+            Some(cid) => cid,
+            None => {
+                return Err(ParserError::ParseError {
+                    message: format!("syntax error at byte position {}", token.start_byte_pos),
+                    start_byte_pos: token.start_byte_pos,
+                    end_byte_pos: token.end_byte_pos,
+                });
+            }
+        };
 
         if matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT) {
             if last_pos < token.start_byte_pos {
@@ -323,7 +332,8 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
             break;
         }
 
-        let cid = token_kind_to_component_id(&token.kind);
+        // Only comments can be left once the parser has accepted
+        let cid = token_kind_to_component_id(&token.kind).unwrap();
         let kind = SyntaxKind::from_raw(RawSyntaxKind(cid));
         extras.push((
             kind,
diff --git a/crates/postgresql-cst-parser/src/parser.rs b/crates/postgresql-cst-parser/src/parser.rs
index ffbfb7d..968dad0 100644
--- a/crates/postgresql-cst-parser/src/parser.rs
+++ b/crates/postgresql-cst-parser/src/parser.rs
@@ -33032,8 +33032,9 @@ pub(crate) fn end_rule_id() -> u32 {
     126
 }
 
-pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
-    match kind {
+/// Returns None if the grammar has no such token
+pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> Option<u32> {
+    let id = match kind {
         TokenKind::KEYWORD(s) if s == "ABORT_P" => 0,
         TokenKind::KEYWORD(s) if s == "ABSENT" => 1,
         TokenKind::KEYWORD(s) if s == "ABSOLUTE_P" => 2,
@@ -33570,8 +33571,9 @@ pub(crate) fn token_kind_to_component_id(kind: &TokenKind) -> u32 {
         TokenKind::KEYWORD(s) if s == "ZONE" => 533,
         TokenKind::C_COMMENT => 1262,
         TokenKind::SQL_COMMENT => 1263,
-        _ => unreachable!(),
-    }
+        _ => return None,
+    };
+    Some(id)
 }
 
 pub(crate) fn rule_name_to_component_id(name: &str) -> u32 {
-- 
2.43.0


From 5e95e3d3013afa31bb208df84e3d2b149ada76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 08/27] fix: reject input containing a null byte

The DFA uses byte 0 for the end of input, so parse() stopped at the first null
byte, ignored everything after it and labelled that text as whitespace.
---
 crates/parser-generator/src/parser_generator/lexer.rs | 7 +++++++
 crates/postgresql-cst-parser/src/lexer.rs             | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index bda28fe..2cc5215 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -157,6 +157,13 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The scanner represents the end of input as a null byte, and PostgreSQL never accepts one in a query
+    if input.contains('\0') {
+        return Err(ParserError::new_error(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index bda28fe..2cc5215 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -157,6 +157,13 @@ pub struct Token {
 }
 
 pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
+    // The scanner represents the end of input as a null byte, and PostgreSQL never accepts one in a query
+    if input.contains('\0') {
+        return Err(ParserError::new_error(
+            "invalid byte sequence for encoding \"UTF8\": 0x00",
+        ));
+    }
+
     let mut lexer = Lexer::new(input);
 
     let mut tokens = vec![];
-- 
2.43.0


From ebe59b4b1f4a87f2b6810f3d27e6c5568ec266ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 09/27] fix: accept U&'..' and U&".." literals

USCONST and UIDENT tokens got the span of their closing quote only and are not
terminals of the grammar, so every such literal panicked. Give them their full
span and turn them, with an optional UESCAPE clause, into SCONST and IDENT as
base_yylex() does.
---
 .../src/parser_generator/lexer.rs             |  2 +
 .../parser_generator/lexer/lexer_ported.rs    | 44 +++++++++++++++++++
 crates/postgresql-cst-parser/src/cst.rs       |  9 +++-
 crates/postgresql-cst-parser/src/lexer.rs     |  2 +
 .../src/lexer/lexer_ported.rs                 | 44 +++++++++++++++++++
 5 files changed, 99 insertions(+), 2 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lexer.rs b/crates/parser-generator/src/parser_generator/lexer.rs
index 2cc5215..d6a453c 100644
--- a/crates/parser-generator/src/parser_generator/lexer.rs
+++ b/crates/parser-generator/src/parser_generator/lexer.rs
@@ -180,6 +180,8 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
                 | TokenKind::BCONST
                 | TokenKind::XCONST
                 | TokenKind::IDENT
+                | TokenKind::USCONST
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
diff --git a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
index cf7ecad..58dced1 100644
--- a/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/lexer_ported.rs
@@ -149,6 +149,50 @@ impl Lexer {
     }
 }
 
+/// Convert UIDENT and USCONST, together with a following UESCAPE clause, to IDENT and SCONST
+/// ref: https://github.com/postgres/postgres/blob/REL_16_STABLE/src/backend/parser/parser.c#L260
+pub fn convert_unicode_tokens(input: &str, tokens: Vec<Token>) -> Result<Vec<Token>, ParserError> {
+    let is_comment =
+        |token: &Token| matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT);
+
+    let mut res: Vec<Token> = Vec::with_capacity(tokens.len());
+    let mut i = 0;
+
+    while i < tokens.len() {
+        let mut token = tokens[i].clone();
+        i += 1;
+
+        if matches!(token.kind, TokenKind::UIDENT | TokenKind::USCONST) {
+            token.kind = match token.kind {
+                TokenKind::UIDENT => TokenKind::IDENT,
+                _ => TokenKind::SCONST,
+            };
+
+            let mut rest = (i..tokens.len()).filter(|&j| !is_comment(&tokens[j]));
+
+            if let Some(uescape) = rest.next() {
+                if tokens[uescape].kind == TokenKind::KEYWORD("UESCAPE".to_string()) {
+                    match rest.next() {
+                        Some(j) if tokens[j].kind == TokenKind::SCONST => {
+                            token.end_byte_pos = tokens[j].end_byte_pos;
+                            token.value =
+                                input[token.start_byte_pos..token.end_byte_pos].to_string();
+                            i = j + 1;
+                        }
+                        _ => {
+                            yyerror!("UESCAPE must be followed by a simple string literal");
+                        }
+                    }
+                }
+            }
+        }
+
+        res.push(token);
+    }
+
+    Ok(res)
+}
+
 /// The logic for converting tokens in PostgreSQL's parser.c
 /// ref: https://github.com/postgres/postgres/blob/REL_16_STABLE/src/backend/parser/parser.c#L195
 pub fn init_tokens(tokens: &mut [Token]) {
diff --git a/crates/postgresql-cst-parser/src/cst.rs b/crates/postgresql-cst-parser/src/cst.rs
index 50c5dbe..e710595 100644
--- a/crates/postgresql-cst-parser/src/cst.rs
+++ b/crates/postgresql-cst-parser/src/cst.rs
@@ -3,7 +3,12 @@ use cstree::{
 };
 
 use crate::{
-    lexer::{lex, lexer_ported::init_tokens, parser_error::ParserError, TokenKind},
+    lexer::{
+        lex,
+        lexer_ported::{convert_unicode_tokens, init_tokens},
+        parser_error::ParserError,
+        TokenKind,
+    },
     parser::{
         end_rule_id, end_rule_kind, num_terminal_symbol, rule_name_to_component_id,
         token_kind_to_component_id, Action, ACTION_CHECK_TABLE, ACTION_DEF_RULE_TABLE,
@@ -134,7 +139,7 @@ fn lookup_goto_state(state: u32, cid: u32) -> i16 {
 
 /// Parsing a string as PostgreSQL syntax and converting it into a ResolvedNode
 pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
-    let mut tokens = lex(input)?;
+    let mut tokens = convert_unicode_tokens(input, lex(input)?)?;
 
     if !tokens.is_empty() {
         init_tokens(&mut tokens);
diff --git a/crates/postgresql-cst-parser/src/lexer.rs b/crates/postgresql-cst-parser/src/lexer.rs
index 2cc5215..d6a453c 100644
--- a/crates/postgresql-cst-parser/src/lexer.rs
+++ b/crates/postgresql-cst-parser/src/lexer.rs
@@ -180,6 +180,8 @@ pub fn lex(input: &str) -> Result<Vec<Token>, ParserError> {
                 | TokenKind::BCONST
                 | TokenKind::XCONST
                 | TokenKind::IDENT
+                | TokenKind::USCONST
+                | TokenKind::UIDENT
                 | TokenKind::C_COMMENT
         ) {
             lexer.yyllocend_bytes
diff --git a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
index cf7ecad..58dced1 100644
--- a/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
+++ b/crates/postgresql-cst-parser/src/lexer/lexer_ported.rs
@@ -149,6 +149,50 @@ impl Lexer {
     }
 }
 
+/// Convert UIDENT and USCONST, together with a following UESCAPE clause, to IDENT and SCONST
+/// ref: https://github.com/postgres/postgres/blob/REL_16_STABLE/src/backend/parser/parser.c#L260
+pub fn convert_unicode_tokens(input: &str, tokens: Vec<Token>) -> Result<Vec<Token>, ParserError> {
+    let is_comment =
+        |token: &Token| matches!(token.kind, TokenKind::C_COMMENT | TokenKind::SQL_COMMENT);
+
+    let mut res: Vec<Token> = Vec::with_capacity(tokens.len());
+    let mut i = 0;
+
+    while i < tokens.len() {
+        let mut token = tokens[i].clone();
+        i += 1;
+
+        if matches!(token.kind, TokenKind::UIDENT | TokenKind::USCONST) {
+            token.kind = match token.kind {
+                TokenKind::UIDENT => TokenKind::IDENT,
+                _ => TokenKind::SCONST,
+            };
+
+            let mut rest = (i..tokens.len()).filter(|&j| !is_comment(&tokens[j]));
+
+            if let Some(uescape) = rest.next() {
+                if tokens[uescape].kind == TokenKind::KEYWORD("UESCAPE".to_string()) {
+                    match rest.next() {
+                        Some(j) if tokens[j].kind == TokenKind::SCONST => {
+                            token.end_byte_pos = tokens[j].end_byte_pos;
+                            token.value =
+                                input[token.start_byte_pos..token.end_byte_pos].to_string();
+                            i = j + 1;
+                        }
+                        _ => {
+                            yyerror!("UESCAPE must be followed by a simple string literal");
+                        }
+                    }
+                }
+            }
+        }
+
+        res.push(token);
+    }
+
+    Ok(res)
+}
+
 /// The logic for converting tokens in PostgreSQL's parser.c
 /// ref: https://github.com/postgres/postgres/blob/REL_16_STABLE/src/backend/parser/parser.c#L195
 pub fn init_tokens(tokens: &mut [Token]) {
-- 
2.43.0


From 1bdae5095ca9f3922fb96d8a6d1ed6c9cd4add26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 10/27] verif hook: expose the token stream under cfg(verif)

---
 crates/postgresql-cst-parser/src/lib.rs | 35 +++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/crates/postgresql-cst-parser/src/lib.rs b/crates/postgresql-cst-parser/src/lib.rs
index 8f212e6..639c85b 100644
--- a/crates/postgresql-cst-parser/src/lib.rs
+++ b/crates/postgresql-cst-parser/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(non_camel_case_types)]
+#![allow(unexpected_cfgs)] // cfg(verif), see mod verif
 
 mod lexer;
 
@@ -86,6 +87,40 @@ pub fn parse(input: &str) -> Result<ResolvedNode, ParserError> {
     cst::parse(input)
 }
 
+/// Access to the token stream for the external verification harness.
+/// Compiled only with `RUSTFLAGS="--cfg verif"`.
+#[cfg(verif)]
+#[doc(hidden)]
+pub mod verif {
+    use crate::lexer::{
+        lex,
+        lexer_ported::{convert_unicode_tokens, init_tokens},
+        parser_error::ParserError,
+        Token,
+    };
+
+    fn view(tokens: Vec<Token>) -> Vec<(String, usize, usize)> {
+        tokens
+            .into_iter()
+            .map(|t| (t.kind.to_id(), t.start_byte_pos, t.end_byte_pos))
+            .collect()
+    }
+
+    /// Tokens as the scanner returns them: (kind, start, end)
+    pub fn scan(input: &str) -> Result<Vec<(String, usize, usize)>, ParserError> {
+        lex(input).map(view)
+    }
+
+    /// Tokens as the parser sees them: (kind, start, end)
+    pub fn filtered_tokens(input: &str) -> Result<Vec<(String, usize, usize)>, ParserError> {
+        let mut tokens = convert_unicode_tokens(input, lex(input)?)?;
+        if !tokens.is_empty() {
+            init_tokens(&mut tokens);
+        }
+        Ok(view(tokens))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::lexer::parser_error::ScanReport;
-- 
2.43.0


From 06a07a6c276d4c9ca21dc0c3ea356c5ca866b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 11/27] verif hook: expose the grammar reader and parse tables
 under cfg(verif)

---
 .../parser-generator/src/parser_generator.rs  | 192 ++++++++++++++++++
 1 file changed, 192 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator.rs b/crates/parser-generator/src/parser_generator.rs
index 194ee80..0810697 100644
--- a/crates/parser-generator/src/parser_generator.rs
+++ b/crates/parser-generator/src/parser_generator.rs
@@ -1,5 +1,6 @@
 #![allow(non_camel_case_types)]
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)] // cfg(verif), see mod verif
 
 mod bison;
 mod id_mapper;
@@ -482,3 +483,194 @@ pub fn generate() {
 
     write_file(&bison, &lalr);
 }
+
+/// Access to the grammar reader and the parse tables for the external verification harness.
+/// Compiled only with `RUSTFLAGS="--cfg verif"`.
+#[cfg(verif)]
+pub mod verif {
+    use super::*;
+
+    #[derive(Debug, Clone, PartialEq, Eq)]
+    pub struct GrammarRule {
+        pub name: String,
+        /// (is terminal, symbol)
+        pub components: Vec<(bool, String)>,
+        pub prec: Option<String>,
+    }
+
+    #[derive(Debug, Clone, PartialEq, Eq)]
+    pub struct Grammar {
+        pub rules: Vec<GrammarRule>,
+        pub tokens: BTreeMap<String, Option<String>>,
+        pub types: BTreeMap<String, String>,
+        /// symbol -> (level, directive)
+        pub assoc: BTreeMap<String, (usize, String)>,
+    }
+
+    /// What the grammar reader makes of a bison file
+    pub fn read_grammar(source: &str) -> Grammar {
+        let bison = parse_bison(source);
+        Grammar {
+            rules: bison
+                .rules
+                .iter()
+                .map(|rule| GrammarRule {
+                    name: rule.name.clone(),
+                    components: rule
+                        .components
+                        .iter()
+                        .map(|c| (matches!(c, Component::Terminal(_)), c.to_rule_string()))
+                        .collect(),
+                    prec: rule.prec.clone(),
+                })
+                .collect(),
+            tokens: bison.token.clone().into_iter().collect(),
+            types: bison.typ.clone().into_iter().collect(),
+            assoc: bison
+                .assoc
+                .iter()
+                .map(|(k, a)| (k.clone(), (a.priority, format!("{:?}", a.directive))))
+                .collect(),
+        }
+    }
+
+    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    pub enum Cell {
+        Shift(usize),
+        Reduce(usize),
+        Accept,
+        Error,
+    }
+
+    #[derive(Debug, Clone)]
+    pub struct Tables {
+        /// In component id order
+        pub terminals: Vec<String>,
+        /// In component id order
+        pub non_terminals: Vec<String>,
+        /// (left-hand side, length)
+        pub rules: Vec<(String, usize)>,
+        /// [state][terminal], before compression
+        pub actions: Vec<Vec<Cell>>,
+        /// [state][non-terminal], before compression
+        pub gotos: Vec<Vec<Option<usize>>>,
+        /// [state][terminal], read back from the compressed tables with the lookup of cst.rs
+        pub compressed_actions: Option<Vec<Vec<Cell>>>,
+        /// [state][non-terminal], read back from the compressed tables with the lookup of cst.rs
+        pub compressed_gotos: Option<Vec<Vec<Option<usize>>>>,
+    }
+
+    /// The parse tables built for a bison file
+    pub fn build_tables(source: &str, compress: bool) -> Tables {
+        let bison = parse_bison(source);
+        let mut lalr = Lalr::new(&bison);
+        lalr.build_lalr1_parse_table();
+
+        let symbols = |terminal: bool| -> Vec<Component> {
+            lalr.id_mapper
+                .components
+                .iter()
+                .filter(|c| matches!(c, Component::Terminal(_)) == terminal)
+                .cloned()
+                .collect()
+        };
+        let terminals = symbols(true);
+        let non_terminals = symbols(false);
+        let states = 0..lalr.state_set.states.len();
+
+        let actions = states
+            .clone()
+            .map(|i| {
+                terminals
+                    .iter()
+                    .map(|t| {
+                        match lalr.action_table.get(&(i, lalr.id_mapper.to_component_id(t))) {
+                            Some(Action::Shift(s)) => Cell::Shift(*s),
+                            Some(Action::Reduce(r)) => Cell::Reduce(*r),
+                            Some(Action::Accept) => Cell::Accept,
+                            Some(Action::Error) | None => Cell::Error,
+                        }
+                    })
+                    .collect()
+            })
+            .collect();
+        let gotos = states
+            .clone()
+            .map(|i| {
+                non_terminals
+                    .iter()
+                    .map(|n| {
+                        lalr.goto_table
+                            .get(&(i, lalr.id_mapper.to_component_id(n)))
+                            .copied()
+                    })
+                    .collect()
+            })
+            .collect();
+
+        let (compressed_actions, compressed_gotos) = if compress {
+            let (table, default_actions) = compress_action_table(&lalr, &terminals);
+            let compressed_actions = states
+                .clone()
+                .map(|state| {
+                    (0..terminals.len())
+                        .map(|cid| {
+                            let i = table.state_to_offset[state] as usize;
+                            let code = if table.index_check[i + cid] == cid as i16 {
+                                if table.compressed_values[i + cid] == DEFAULT_ACTION_CODE {
+                                    default_actions[state]
+                                } else {
+                                    table.compressed_values[i + cid]
+                                }
+                            } else {
+                                ERROR_ACTION_CODE
+                            };
+                            match code {
+                                ERROR_ACTION_CODE => Cell::Error,
+                                v if v > 0 => Cell::Shift((v - 1) as usize),
+                                v if v < 0 => Cell::Reduce((-v - 1) as usize),
+                                _ => Cell::Accept,
+                            }
+                        })
+                        .collect()
+                })
+                .collect();
+
+            let table = compress_goto_table(&lalr, &non_terminals);
+            let compressed_gotos = states
+                .clone()
+                .map(|state| {
+                    (0..non_terminals.len())
+                        .map(|cid| {
+                            let i = table.state_to_offset[state] as usize;
+                            let goto = if table.index_check[i + cid] == cid as i16 {
+                                table.compressed_values[i + cid]
+                            } else {
+                                INVALID_GOTO_CODE
+                            };
+                            (goto >= 0).then_some(goto as usize)
+                        })
+                        .collect()
+                })
+                .collect();
+
+            (Some(compressed_actions), Some(compressed_gotos))
+        } else {
+            (None, None)
+        };
+
+        Tables {
+            terminals: terminals.iter().map(|c| c.to_rule_string()).collect(),
+            non_terminals: non_terminals.iter().map(|c| c.to_rule_string()).collect(),
+            rules: bison
+                .rules
+                .iter()
+                .map(|rule| (rule.name.clone(), rule.components.len()))
+                .collect(),
+            actions,
+            gotos,
+            compressed_actions,
+            compressed_gotos,
+        }
+    }
+}
-- 
2.43.0


From c579659f264fd7c62b1cfdf7b20a20c624977c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 12/27] fix: reject an identifier directly after a positional
 parameter

---
 crates/lexer-generator/resources/scan.l       |   8 +
 .../src/parser_generator/lexer/generated.rs   | 212 ++++++++++++------
 .../src/lexer/generated.rs                    | 212 ++++++++++++------
 3 files changed, 284 insertions(+), 148 deletions(-)

diff --git a/crates/lexer-generator/resources/scan.l b/crates/lexer-generator/resources/scan.l
index 3d38ae3..0729e9d 100644
--- a/crates/lexer-generator/resources/scan.l
+++ b/crates/lexer-generator/resources/scan.l
@@ -435,6 +435,7 @@ param			\${decdigit}+
 integer_junk	{decinteger}{identifier}
 numeric_junk	{numeric}{identifier}
 real_junk		{real}{identifier}
+param_junk		\${decdigit}+{identifier}
 
 other			.
 
@@ -1489,6 +1490,13 @@ other			.
 					self.yylval = Yylval::I(i32::from_str_radix(&self.yytext()[1..], 10).unwrap_or(i32::MAX));
 					return Ok(Some(TokenKind::PARAM));
 				}
+{param_junk}	{
+					// SET_YYLLOC();
+					// yyerror("trailing junk after parameter");
+
+					self.set_yylloc();
+					yyerror!("trailing junk after parameter");
+				}
 
 {decinteger}	{
 					// SET_YYLLOC();
diff --git a/crates/parser-generator/src/parser_generator/lexer/generated.rs b/crates/parser-generator/src/parser_generator/lexer/generated.rs
index 9eff831..b34a024 100644
--- a/crates/parser-generator/src/parser_generator/lexer/generated.rs
+++ b/crates/parser-generator/src/parser_generator/lexer/generated.rs
@@ -49,7 +49,7 @@ pub mod dfa {
     use super::State;
 
     // DFA transition table (state=INITIAL)
-    pub const TRANSITION_TABLE_0: [[u8; 256]; 116] = [
+    pub const TRANSITION_TABLE_0: [[u8; 256]; 118] = [
         [
             1, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
             2, 2, 2, 3, 4, 5, 6, 7, 8, 6, 9, 10, 10, 8, 8, 10, 11, 12, 13, 14, 15, 15, 15, 15, 15,
@@ -101,8 +101,8 @@ pub mod dfa {
             255,
         ],
         [
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 117, 117, 117, 117, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -122,7 +122,7 @@ pub mod dfa {
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 34,
             255, 34, 255, 34, 34, 255, 255, 255, 34, 34, 255, 34, 255, 34, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 34, 114, 34, 34, 34, 255, 255, 255, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 34, 116, 34, 34, 34, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 34, 255, 34, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -1822,19 +1822,19 @@ pub mod dfa {
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 111, 111, 111,
-            111, 111, 111, 111, 111, 111, 111, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255,
+            111, 111, 111, 111, 111, 111, 111, 255, 255, 255, 255, 255, 255, 255, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 255, 255, 255, 255, 114, 255, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 255, 255, 255, 255, 255, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114,
         ],
         [
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -1872,6 +1872,42 @@ pub mod dfa {
             113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113,
             113,
         ],
+        [
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 115, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 115, 255, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115,
+        ],
+        [
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 115, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 115, 255, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115,
+        ],
         [
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 34,
@@ -1890,8 +1926,8 @@ pub mod dfa {
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
         ],
         [
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 117, 117, 117, 117, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -1910,12 +1946,13 @@ pub mod dfa {
     ];
 
     // DFA accept table (state=INITIAL)
-    pub const ACCEPT_TABLE_0: [u8; 116] = [
-        255, 80, 79, 0, 62, 45, 62, 79, 61, 16, 61, 61, 61, 61, 64, 64, 61, 61, 61, 61, 78, 78, 78,
-        78, 78, 78, 78, 13, 52, 46, 18, 15, 17, 9, 62, 58, 56, 57, 59, 53, 55, 71, 64, 75, 75, 75,
-        75, 64, 75, 75, 75, 74, 73, 73, 75, 75, 75, 73, 75, 75, 73, 73, 77, 77, 77, 73, 77, 77, 72,
-        71, 76, 76, 76, 73, 73, 76, 76, 76, 73, 76, 76, 71, 76, 71, 76, 76, 76, 70, 69, 68, 65, 68,
-        75, 66, 69, 75, 67, 70, 75, 2, 2, 54, 71, 71, 76, 71, 76, 1, 1, 1, 38, 63, 39, 39, 60, 0,
+    pub const ACCEPT_TABLE_0: [u8; 118] = [
+        255, 81, 80, 0, 62, 45, 62, 80, 61, 16, 61, 61, 61, 61, 65, 65, 61, 61, 61, 61, 79, 79, 79,
+        79, 79, 79, 79, 13, 52, 46, 18, 15, 17, 9, 62, 58, 56, 57, 59, 53, 55, 72, 65, 76, 76, 76,
+        76, 65, 76, 76, 76, 75, 74, 74, 76, 76, 76, 74, 76, 76, 74, 74, 78, 78, 78, 74, 78, 78, 73,
+        72, 77, 77, 77, 74, 74, 77, 77, 77, 74, 77, 77, 72, 77, 72, 77, 77, 77, 71, 70, 69, 66, 69,
+        76, 67, 70, 76, 68, 71, 76, 2, 2, 54, 72, 72, 77, 72, 77, 1, 1, 1, 38, 63, 39, 39, 64, 64,
+        60, 0,
     ];
 
     // DFA transition table (state=xb)
@@ -3770,6 +3807,7 @@ pub enum RuleKind {
     INITIAL40,
     INITIAL41,
     INITIAL42,
+    INITIAL43,
 }
 
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
@@ -4933,6 +4971,15 @@ impl Lexer {
                     }
                 }
                 64 => {
+                    {
+                        // SET_YYLLOC();
+                        // yyerror("trailing junk after parameter");
+
+                        self.set_yylloc();
+                        yyerror!("trailing junk after parameter");
+                    }
+                }
+                65 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 10);
@@ -4941,7 +4988,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                65 => {
+                66 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 16);
@@ -4950,7 +4997,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(16));
                     }
                 }
-                66 => {
+                67 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 8);
@@ -4959,7 +5006,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(8));
                     }
                 }
-                67 => {
+                68 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 2);
@@ -4968,7 +5015,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(2));
                     }
                 }
-                68 => {
+                69 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid hexadecimal integer");
@@ -4977,7 +5024,7 @@ impl Lexer {
                         yyerror!("invalid hexadecimal integer");
                     }
                 }
-                69 => {
+                70 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid octal integer");
@@ -4986,7 +5033,7 @@ impl Lexer {
                         yyerror!("invalid octal integer");
                     }
                 }
-                70 => {
+                71 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid binary integer");
@@ -4995,7 +5042,7 @@ impl Lexer {
                         yyerror!("invalid binary integer");
                     }
                 }
-                71 => {
+                72 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -5006,7 +5053,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                72 => {
+                73 => {
                     {
                         // /* throw back the .., and treat as integer */
                         // yyless(yyleng - 2);
@@ -5019,7 +5066,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                73 => {
+                74 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -5030,7 +5077,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                74 => {
+                75 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5039,7 +5086,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                75 => {
+                76 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5048,7 +5095,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                76 => {
+                77 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5057,7 +5104,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                77 => {
+                78 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5066,7 +5113,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                78 => {
+                79 => {
                     {
                         // int			kwnum;
                         // char	   *ident;
@@ -5111,7 +5158,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::IDENT));
                     }
                 }
-                79 => {
+                80 => {
                     {
                         // SET_YYLLOC();
                         // return yytext[0];
@@ -5120,7 +5167,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::RAW(yytext[0..1].to_string())));
                     }
                 }
-                80 => {
+                81 => {
                     {
                         // SET_YYLLOC();
                         // yyterminate();
@@ -6447,6 +6494,15 @@ impl Lexer {
                     }
                 }
                 RuleKind::INITIAL26 => {
+                    {
+                        // SET_YYLLOC();
+                        // yyerror("trailing junk after parameter");
+
+                        self.set_yylloc();
+                        yyerror!("trailing junk after parameter");
+                    }
+                }
+                RuleKind::INITIAL27 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 10);
@@ -6455,7 +6511,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                RuleKind::INITIAL27 => {
+                RuleKind::INITIAL28 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 16);
@@ -6464,7 +6520,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(16));
                     }
                 }
-                RuleKind::INITIAL28 => {
+                RuleKind::INITIAL29 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 8);
@@ -6473,7 +6529,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(8));
                     }
                 }
-                RuleKind::INITIAL29 => {
+                RuleKind::INITIAL30 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 2);
@@ -6482,7 +6538,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(2));
                     }
                 }
-                RuleKind::INITIAL30 => {
+                RuleKind::INITIAL31 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid hexadecimal integer");
@@ -6491,7 +6547,7 @@ impl Lexer {
                         yyerror!("invalid hexadecimal integer");
                     }
                 }
-                RuleKind::INITIAL31 => {
+                RuleKind::INITIAL32 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid octal integer");
@@ -6500,7 +6556,7 @@ impl Lexer {
                         yyerror!("invalid octal integer");
                     }
                 }
-                RuleKind::INITIAL32 => {
+                RuleKind::INITIAL33 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid binary integer");
@@ -6509,7 +6565,7 @@ impl Lexer {
                         yyerror!("invalid binary integer");
                     }
                 }
-                RuleKind::INITIAL33 => {
+                RuleKind::INITIAL34 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -6520,7 +6576,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                RuleKind::INITIAL34 => {
+                RuleKind::INITIAL35 => {
                     {
                         // /* throw back the .., and treat as integer */
                         // yyless(yyleng - 2);
@@ -6533,7 +6589,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                RuleKind::INITIAL35 => {
+                RuleKind::INITIAL36 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -6544,7 +6600,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                RuleKind::INITIAL36 => {
+                RuleKind::INITIAL37 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6553,7 +6609,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL37 => {
+                RuleKind::INITIAL38 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6562,7 +6618,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL38 => {
+                RuleKind::INITIAL39 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6571,7 +6627,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL39 => {
+                RuleKind::INITIAL40 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6580,7 +6636,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL40 => {
+                RuleKind::INITIAL41 => {
                     {
                         // int			kwnum;
                         // char	   *ident;
@@ -6625,7 +6681,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::IDENT));
                     }
                 }
-                RuleKind::INITIAL41 => {
+                RuleKind::INITIAL42 => {
                     {
                         // SET_YYLLOC();
                         // return yytext[0];
@@ -6634,7 +6690,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::RAW(yytext[0..1].to_string())));
                     }
                 }
-                RuleKind::INITIAL42 => {
+                RuleKind::INITIAL43 => {
                     {
                         // SET_YYLLOC();
                         // yyterminate();
@@ -7271,11 +7327,19 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                     eof: false,
                 },
 
+                // {param_junk}
+                Rule {
+                    state: State::INITIAL,
+                    pattern: regex::bytes::Regex::new(r#"(?-u)^((\$([0-9])+(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
+                    kind: RuleKind::INITIAL26,
+                    eof: false,
+                },
+
                 // {decinteger}
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((([0-9])(_?([0-9]))*))"#).unwrap(),
-                    kind: RuleKind::INITIAL26,
+                    kind: RuleKind::INITIAL27,
                     eof: false,
                 },
 
@@ -7283,7 +7347,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[xX](_?([0-9A-Fa-f]))+))"#).unwrap(),
-                    kind: RuleKind::INITIAL27,
+                    kind: RuleKind::INITIAL28,
                     eof: false,
                 },
 
@@ -7291,7 +7355,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[oO](_?([0-7]))+))"#).unwrap(),
-                    kind: RuleKind::INITIAL28,
+                    kind: RuleKind::INITIAL29,
                     eof: false,
                 },
 
@@ -7299,7 +7363,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[bB](_?([0-1]))+))"#).unwrap(),
-                    kind: RuleKind::INITIAL29,
+                    kind: RuleKind::INITIAL30,
                     eof: false,
                 },
 
@@ -7307,7 +7371,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[xX]_?))"#).unwrap(),
-                    kind: RuleKind::INITIAL30,
+                    kind: RuleKind::INITIAL31,
                     eof: false,
                 },
 
@@ -7315,7 +7379,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[oO]_?))"#).unwrap(),
-                    kind: RuleKind::INITIAL31,
+                    kind: RuleKind::INITIAL32,
                     eof: false,
                 },
 
@@ -7323,7 +7387,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[bB]_?))"#).unwrap(),
-                    kind: RuleKind::INITIAL32,
+                    kind: RuleKind::INITIAL33,
                     eof: false,
                 },
 
@@ -7331,7 +7395,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))"#).unwrap(),
-                    kind: RuleKind::INITIAL33,
+                    kind: RuleKind::INITIAL34,
                     eof: false,
                 },
 
@@ -7339,7 +7403,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((([0-9])(_?([0-9]))*)\.\.))"#).unwrap(),
-                    kind: RuleKind::INITIAL34,
+                    kind: RuleKind::INITIAL35,
                     eof: false,
                 },
 
@@ -7347,7 +7411,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((((([0-9])(_?([0-9]))*)|((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))[Ee][-+]?(([0-9])(_?([0-9]))*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL35,
+                    kind: RuleKind::INITIAL36,
                     eof: false,
                 },
 
@@ -7355,7 +7419,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((((([0-9])(_?([0-9]))*)|((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))[Ee][-+]))"#).unwrap(),
-                    kind: RuleKind::INITIAL36,
+                    kind: RuleKind::INITIAL37,
                     eof: false,
                 },
 
@@ -7363,7 +7427,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((([0-9])(_?([0-9]))*)(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL37,
+                    kind: RuleKind::INITIAL38,
                     eof: false,
                 },
 
@@ -7371,7 +7435,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*))))(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL38,
+                    kind: RuleKind::INITIAL39,
                     eof: false,
                 },
 
@@ -7379,7 +7443,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((((([0-9])(_?([0-9]))*)|((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))[Ee][-+]?(([0-9])(_?([0-9]))*))(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL39,
+                    kind: RuleKind::INITIAL40,
                     eof: false,
                 },
 
@@ -7387,7 +7451,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*))"#).unwrap(),
-                    kind: RuleKind::INITIAL40,
+                    kind: RuleKind::INITIAL41,
                     eof: false,
                 },
 
@@ -7395,7 +7459,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((.))"#).unwrap(),
-                    kind: RuleKind::INITIAL41,
+                    kind: RuleKind::INITIAL42,
                     eof: false,
                 },
 
@@ -7403,7 +7467,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(^$)"#).unwrap(),
-                    kind: RuleKind::INITIAL42,
+                    kind: RuleKind::INITIAL43,
                     eof: true,
                 }]
 }
diff --git a/crates/postgresql-cst-parser/src/lexer/generated.rs b/crates/postgresql-cst-parser/src/lexer/generated.rs
index 9eff831..b34a024 100644
--- a/crates/postgresql-cst-parser/src/lexer/generated.rs
+++ b/crates/postgresql-cst-parser/src/lexer/generated.rs
@@ -49,7 +49,7 @@ pub mod dfa {
     use super::State;
 
     // DFA transition table (state=INITIAL)
-    pub const TRANSITION_TABLE_0: [[u8; 256]; 116] = [
+    pub const TRANSITION_TABLE_0: [[u8; 256]; 118] = [
         [
             1, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
             2, 2, 2, 3, 4, 5, 6, 7, 8, 6, 9, 10, 10, 8, 8, 10, 11, 12, 13, 14, 15, 15, 15, 15, 15,
@@ -101,8 +101,8 @@ pub mod dfa {
             255,
         ],
         [
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 117, 117, 117, 117, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -122,7 +122,7 @@ pub mod dfa {
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 34,
             255, 34, 255, 34, 34, 255, 255, 255, 34, 34, 255, 34, 255, 34, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 34, 114, 34, 34, 34, 255, 255, 255, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 34, 116, 34, 34, 34, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 34, 255, 34, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -1822,19 +1822,19 @@ pub mod dfa {
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 111, 111, 111,
-            111, 111, 111, 111, 111, 111, 111, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
-            255,
+            111, 111, 111, 111, 111, 111, 111, 255, 255, 255, 255, 255, 255, 255, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 255, 255, 255, 255, 114, 255, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 255, 255, 255, 255, 255, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114, 114,
+            114,
         ],
         [
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -1872,6 +1872,42 @@ pub mod dfa {
             113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113, 113,
             113,
         ],
+        [
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 115, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 115, 255, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115,
+        ],
+        [
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
+            255, 255, 115, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 255, 255, 255, 255, 115, 255, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115, 115,
+            115,
+        ],
         [
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 34,
@@ -1890,8 +1926,8 @@ pub mod dfa {
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
         ],
         [
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 115, 115, 115, 115, 255, 255, 255,
-            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 115, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 117, 117, 117, 117, 255, 255, 255,
+            255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 117, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
             255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
@@ -1910,12 +1946,13 @@ pub mod dfa {
     ];
 
     // DFA accept table (state=INITIAL)
-    pub const ACCEPT_TABLE_0: [u8; 116] = [
-        255, 80, 79, 0, 62, 45, 62, 79, 61, 16, 61, 61, 61, 61, 64, 64, 61, 61, 61, 61, 78, 78, 78,
-        78, 78, 78, 78, 13, 52, 46, 18, 15, 17, 9, 62, 58, 56, 57, 59, 53, 55, 71, 64, 75, 75, 75,
-        75, 64, 75, 75, 75, 74, 73, 73, 75, 75, 75, 73, 75, 75, 73, 73, 77, 77, 77, 73, 77, 77, 72,
-        71, 76, 76, 76, 73, 73, 76, 76, 76, 73, 76, 76, 71, 76, 71, 76, 76, 76, 70, 69, 68, 65, 68,
-        75, 66, 69, 75, 67, 70, 75, 2, 2, 54, 71, 71, 76, 71, 76, 1, 1, 1, 38, 63, 39, 39, 60, 0,
+    pub const ACCEPT_TABLE_0: [u8; 118] = [
+        255, 81, 80, 0, 62, 45, 62, 80, 61, 16, 61, 61, 61, 61, 65, 65, 61, 61, 61, 61, 79, 79, 79,
+        79, 79, 79, 79, 13, 52, 46, 18, 15, 17, 9, 62, 58, 56, 57, 59, 53, 55, 72, 65, 76, 76, 76,
+        76, 65, 76, 76, 76, 75, 74, 74, 76, 76, 76, 74, 76, 76, 74, 74, 78, 78, 78, 74, 78, 78, 73,
+        72, 77, 77, 77, 74, 74, 77, 77, 77, 74, 77, 77, 72, 77, 72, 77, 77, 77, 71, 70, 69, 66, 69,
+        76, 67, 70, 76, 68, 71, 76, 2, 2, 54, 72, 72, 77, 72, 77, 1, 1, 1, 38, 63, 39, 39, 64, 64,
+        60, 0,
     ];
 
     // DFA transition table (state=xb)
@@ -3770,6 +3807,7 @@ pub enum RuleKind {
     INITIAL40,
     INITIAL41,
     INITIAL42,
+    INITIAL43,
 }
 
 #[derive(Debug, PartialEq, Eq, Clone, Copy)]
@@ -4933,6 +4971,15 @@ impl Lexer {
                     }
                 }
                 64 => {
+                    {
+                        // SET_YYLLOC();
+                        // yyerror("trailing junk after parameter");
+
+                        self.set_yylloc();
+                        yyerror!("trailing junk after parameter");
+                    }
+                }
+                65 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 10);
@@ -4941,7 +4988,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                65 => {
+                66 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 16);
@@ -4950,7 +4997,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(16));
                     }
                 }
-                66 => {
+                67 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 8);
@@ -4959,7 +5006,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(8));
                     }
                 }
-                67 => {
+                68 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 2);
@@ -4968,7 +5015,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(2));
                     }
                 }
-                68 => {
+                69 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid hexadecimal integer");
@@ -4977,7 +5024,7 @@ impl Lexer {
                         yyerror!("invalid hexadecimal integer");
                     }
                 }
-                69 => {
+                70 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid octal integer");
@@ -4986,7 +5033,7 @@ impl Lexer {
                         yyerror!("invalid octal integer");
                     }
                 }
-                70 => {
+                71 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid binary integer");
@@ -4995,7 +5042,7 @@ impl Lexer {
                         yyerror!("invalid binary integer");
                     }
                 }
-                71 => {
+                72 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -5006,7 +5053,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                72 => {
+                73 => {
                     {
                         // /* throw back the .., and treat as integer */
                         // yyless(yyleng - 2);
@@ -5019,7 +5066,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                73 => {
+                74 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -5030,7 +5077,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                74 => {
+                75 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5039,7 +5086,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                75 => {
+                76 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5048,7 +5095,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                76 => {
+                77 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5057,7 +5104,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                77 => {
+                78 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -5066,7 +5113,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                78 => {
+                79 => {
                     {
                         // int			kwnum;
                         // char	   *ident;
@@ -5111,7 +5158,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::IDENT));
                     }
                 }
-                79 => {
+                80 => {
                     {
                         // SET_YYLLOC();
                         // return yytext[0];
@@ -5120,7 +5167,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::RAW(yytext[0..1].to_string())));
                     }
                 }
-                80 => {
+                81 => {
                     {
                         // SET_YYLLOC();
                         // yyterminate();
@@ -6447,6 +6494,15 @@ impl Lexer {
                     }
                 }
                 RuleKind::INITIAL26 => {
+                    {
+                        // SET_YYLLOC();
+                        // yyerror("trailing junk after parameter");
+
+                        self.set_yylloc();
+                        yyerror!("trailing junk after parameter");
+                    }
+                }
+                RuleKind::INITIAL27 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 10);
@@ -6455,7 +6511,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                RuleKind::INITIAL27 => {
+                RuleKind::INITIAL28 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 16);
@@ -6464,7 +6520,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(16));
                     }
                 }
-                RuleKind::INITIAL28 => {
+                RuleKind::INITIAL29 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 8);
@@ -6473,7 +6529,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(8));
                     }
                 }
-                RuleKind::INITIAL29 => {
+                RuleKind::INITIAL30 => {
                     {
                         // SET_YYLLOC();
                         // return process_integer_literal(yytext, yylval, 2);
@@ -6482,7 +6538,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(2));
                     }
                 }
-                RuleKind::INITIAL30 => {
+                RuleKind::INITIAL31 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid hexadecimal integer");
@@ -6491,7 +6547,7 @@ impl Lexer {
                         yyerror!("invalid hexadecimal integer");
                     }
                 }
-                RuleKind::INITIAL31 => {
+                RuleKind::INITIAL32 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid octal integer");
@@ -6500,7 +6556,7 @@ impl Lexer {
                         yyerror!("invalid octal integer");
                     }
                 }
-                RuleKind::INITIAL32 => {
+                RuleKind::INITIAL33 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("invalid binary integer");
@@ -6509,7 +6565,7 @@ impl Lexer {
                         yyerror!("invalid binary integer");
                     }
                 }
-                RuleKind::INITIAL33 => {
+                RuleKind::INITIAL34 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -6520,7 +6576,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                RuleKind::INITIAL34 => {
+                RuleKind::INITIAL35 => {
                     {
                         // /* throw back the .., and treat as integer */
                         // yyless(yyleng - 2);
@@ -6533,7 +6589,7 @@ impl Lexer {
                         return Ok(self.process_integer_literal(10));
                     }
                 }
-                RuleKind::INITIAL35 => {
+                RuleKind::INITIAL36 => {
                     {
                         // SET_YYLLOC();
                         // yylval->str = pstrdup(yytext);
@@ -6544,7 +6600,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::FCONST));
                     }
                 }
-                RuleKind::INITIAL36 => {
+                RuleKind::INITIAL37 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6553,7 +6609,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL37 => {
+                RuleKind::INITIAL38 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6562,7 +6618,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL38 => {
+                RuleKind::INITIAL39 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6571,7 +6627,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL39 => {
+                RuleKind::INITIAL40 => {
                     {
                         // SET_YYLLOC();
                         // yyerror("trailing junk after numeric literal");
@@ -6580,7 +6636,7 @@ impl Lexer {
                         yyerror!("trailing junk after numeric literal");
                     }
                 }
-                RuleKind::INITIAL40 => {
+                RuleKind::INITIAL41 => {
                     {
                         // int			kwnum;
                         // char	   *ident;
@@ -6625,7 +6681,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::IDENT));
                     }
                 }
-                RuleKind::INITIAL41 => {
+                RuleKind::INITIAL42 => {
                     {
                         // SET_YYLLOC();
                         // return yytext[0];
@@ -6634,7 +6690,7 @@ impl Lexer {
                         return Ok(Some(TokenKind::RAW(yytext[0..1].to_string())));
                     }
                 }
-                RuleKind::INITIAL42 => {
+                RuleKind::INITIAL43 => {
                     {
                         // SET_YYLLOC();
                         // yyterminate();
@@ -7271,11 +7327,19 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                     eof: false,
                 },
 
+                // {param_junk}
+                Rule {
+                    state: State::INITIAL,
+                    pattern: regex::bytes::Regex::new(r#"(?-u)^((\$([0-9])+(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
+                    kind: RuleKind::INITIAL26,
+                    eof: false,
+                },
+
                 // {decinteger}
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((([0-9])(_?([0-9]))*))"#).unwrap(),
-                    kind: RuleKind::INITIAL26,
+                    kind: RuleKind::INITIAL27,
                     eof: false,
                 },
 
@@ -7283,7 +7347,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[xX](_?([0-9A-Fa-f]))+))"#).unwrap(),
-                    kind: RuleKind::INITIAL27,
+                    kind: RuleKind::INITIAL28,
                     eof: false,
                 },
 
@@ -7291,7 +7355,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[oO](_?([0-7]))+))"#).unwrap(),
-                    kind: RuleKind::INITIAL28,
+                    kind: RuleKind::INITIAL29,
                     eof: false,
                 },
 
@@ -7299,7 +7363,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[bB](_?([0-1]))+))"#).unwrap(),
-                    kind: RuleKind::INITIAL29,
+                    kind: RuleKind::INITIAL30,
                     eof: false,
                 },
 
@@ -7307,7 +7371,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[xX]_?))"#).unwrap(),
-                    kind: RuleKind::INITIAL30,
+                    kind: RuleKind::INITIAL31,
                     eof: false,
                 },
 
@@ -7315,7 +7379,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[oO]_?))"#).unwrap(),
-                    kind: RuleKind::INITIAL31,
+                    kind: RuleKind::INITIAL32,
                     eof: false,
                 },
 
@@ -7323,7 +7387,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((0[bB]_?))"#).unwrap(),
-                    kind: RuleKind::INITIAL32,
+                    kind: RuleKind::INITIAL33,
                     eof: false,
                 },
 
@@ -7331,7 +7395,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))"#).unwrap(),
-                    kind: RuleKind::INITIAL33,
+                    kind: RuleKind::INITIAL34,
                     eof: false,
                 },
 
@@ -7339,7 +7403,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((([0-9])(_?([0-9]))*)\.\.))"#).unwrap(),
-                    kind: RuleKind::INITIAL34,
+                    kind: RuleKind::INITIAL35,
                     eof: false,
                 },
 
@@ -7347,7 +7411,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((((([0-9])(_?([0-9]))*)|((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))[Ee][-+]?(([0-9])(_?([0-9]))*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL35,
+                    kind: RuleKind::INITIAL36,
                     eof: false,
                 },
 
@@ -7355,7 +7419,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((((([0-9])(_?([0-9]))*)|((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))[Ee][-+]))"#).unwrap(),
-                    kind: RuleKind::INITIAL36,
+                    kind: RuleKind::INITIAL37,
                     eof: false,
                 },
 
@@ -7363,7 +7427,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((([0-9])(_?([0-9]))*)(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL37,
+                    kind: RuleKind::INITIAL38,
                     eof: false,
                 },
 
@@ -7371,7 +7435,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*))))(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL38,
+                    kind: RuleKind::INITIAL39,
                     eof: false,
                 },
 
@@ -7379,7 +7443,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(((((([0-9])(_?([0-9]))*)|((((([0-9])(_?([0-9]))*)\.(([0-9])(_?([0-9]))*)?)|(\.(([0-9])(_?([0-9]))*)))))[Ee][-+]?(([0-9])(_?([0-9]))*))(([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*)))"#).unwrap(),
-                    kind: RuleKind::INITIAL39,
+                    kind: RuleKind::INITIAL40,
                     eof: false,
                 },
 
@@ -7387,7 +7451,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((([A-Za-z\x80-\xFF_])([A-Za-z\x80-\xFF_0-9\$])*))"#).unwrap(),
-                    kind: RuleKind::INITIAL40,
+                    kind: RuleKind::INITIAL41,
                     eof: false,
                 },
 
@@ -7395,7 +7459,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^((.))"#).unwrap(),
-                    kind: RuleKind::INITIAL41,
+                    kind: RuleKind::INITIAL42,
                     eof: false,
                 },
 
@@ -7403,7 +7467,7 @@ pub fn get_rules() -> Vec<crate::lexer::Rule> {
                 Rule {
                     state: State::INITIAL,
                     pattern: regex::bytes::Regex::new(r#"(?-u)^(^$)"#).unwrap(),
-                    kind: RuleKind::INITIAL42,
+                    kind: RuleKind::INITIAL43,
                     eof: true,
                 }]
 }
-- 
2.43.0


From 253a4240d9187f247b619f590bc0608df9e9bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 13/27] fix: limit numeric escapes in flex patterns to the
 digits flex reads

---
 crates/automata/src/regexp.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 5e9c230..169969c 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -91,8 +91,10 @@ impl RegexpParser {
             b'v' => b'\x0b',
             b'x' => {
                 let mut v = 0;
+                // At most two hexadecimal digits, as in flex
+                let end = self.bytes.len().min(self.index + 2);
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
                     if !c.is_ascii_hexdigit() {
@@ -113,13 +115,15 @@ impl RegexpParser {
                 v
             }
             // If no format specified, treat as octal number
-            b'0'..=b'9' => {
+            b'0'..=b'7' => {
                 let mut v = c - b'0';
+                // At most three octal digits, as in flex
+                let end = self.bytes.len().min(self.index + 2);
 
-                while self.index < self.bytes.len() {
+                while self.index < end {
                     let c = self.bytes[self.index];
 
-                    if !c.is_ascii_digit() {
+                    if !matches!(c, b'0'..=b'7') {
                         break;
                     }
 
-- 
2.43.0


From b38a4ee5f42edfd5a9763d10e2d73d3c2f2a2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 14/27] fix: a dot in a flex pattern does not match a newline

---
 crates/automata/src/regexp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 169969c..25dec61 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -309,7 +309,8 @@ impl RegexpParser {
             }
             b'.' => {
                 self.index += 1;
-                RegexpNode::NoneOf(Vec::new())
+                // Any character except a newline
+                RegexpNode::NoneOf(vec![b'\n'])
             }
             b']' | b')' | b'}' => unreachable!(),
             _ => {
-- 
2.43.0


From ed333246998e411ed4e12255d6e1285aad69f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 15/27] fix: read escapes inside quoted strings of flex
 patterns

---
 crates/automata/src/regexp.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 25dec61..9516866 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -208,6 +208,12 @@ impl RegexpParser {
         self.index += 1;
         loop {
             let c = self.bytes[self.index];
+
+            if c == b'\\' {
+                nodes.push(self.parse_escape_sequence_as_node());
+                continue;
+            }
+
             self.index += 1;
 
             if c == b'"' {
-- 
2.43.0


From 1425d1cc652663331f7ad4e83a5733c02e5f75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 16/27] fix: read \a in flex patterns as the bell character

---
 crates/automata/src/regexp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 9516866..79bfb1b 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -83,6 +83,7 @@ impl RegexpParser {
         self.index += 1;
 
         match c {
+            b'a' => b'\x07',
             b'b' => b'\x08',
             b'f' => b'\x0c',
             b't' => b'\t',
-- 
2.43.0


From 33ec05929ab12bdb761fd2e19ce9e7a50136cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 17/27] fix: do not run an end-of-file pattern before the end
 of the input

---
 crates/automata/src/dfa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/automata/src/dfa.rs b/crates/automata/src/dfa.rs
index 5e393fd..49513af 100644
--- a/crates/automata/src/dfa.rs
+++ b/crates/automata/src/dfa.rs
@@ -32,7 +32,8 @@ impl DFA {
         for &b in bs {
             let next_state = self.states[state].transitions[b as usize];
             if next_state == INVALID_STATE {
-                break;
+                // Input is left, so an EOF transition does not apply
+                return accepted;
             }
 
             if self.states[next_state].accept_lexer_rule_id.is_some() {
-- 
2.43.0


From f35345227196f1ad1ed6ef856764171f5e8f123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:49 +0000
Subject: [PATCH 18/27] fix: a hyphen that ends a character range does not
 start another

---
 crates/automata/src/regexp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/automata/src/regexp.rs b/crates/automata/src/regexp.rs
index 79bfb1b..8acb538 100644
--- a/crates/automata/src/regexp.rs
+++ b/crates/automata/src/regexp.rs
@@ -198,6 +198,9 @@ impl RegexpParser {
                 for i in first..=last {
                     nodes.push(RegexpNode::Char(i));
                 }
+
+                // A hyphen that ends this range does not start another one
+                is_minus = false;
             }
         }
 
-- 
2.43.0


From 2dd26eaa49bbfd0020503f71edf4a9011e99d687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:48 +0000
Subject: [PATCH 19/27] fix: find the end of a flex pattern that contains
 multi-byte characters

---
 crates/lexer-generator/src/flex_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/lexer-generator/src/flex_file.rs b/crates/lexer-generator/src/flex_file.rs
index d8f5a99..6fff975 100644
--- a/crates/lexer-generator/src/flex_file.rs
+++ b/crates/lexer-generator/src/flex_file.rs
@@ -59,7 +59,7 @@ fn parse_pattern_actions(
         return Some(("<<EOF>>".to_owned(), actions));
     }
 
-    let j = line.chars().position(|c| c.is_whitespace()).unwrap();
+    let j = line.find(char::is_whitespace).unwrap();
 
     let pattern = line[..j].to_owned();
     let actions = parse_actions(line[j..].to_owned(), it);
-- 
2.43.0


From 526aebe68d27db26f0e3e72b7fa7f7d6b9606846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 20/27] fix: read comments and blank lines between the
 declarations of a grammar

---
 .../src/parser_generator/bison.rs             | 85 +++++++++++++++----
 1 file changed, 68 insertions(+), 17 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 2f5a201..9368fb7 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -161,6 +161,70 @@ fn is_start_whitespace(line: impl AsRef<str>) -> bool {
         .is_some_and(|c| c.is_ascii_whitespace())
 }
 
+/// If it is blank or starts with a space, consider it as a continuation line
+fn is_continuation(line: impl AsRef<str>) -> bool {
+    let line = line.as_ref();
+    (line.is_empty() || is_start_whitespace(line)) && !line.trim_start().starts_with('%')
+}
+
+/// Index after the comment that starts at `i`, if one does
+fn comment_end(chars: &[char], i: usize) -> Option<usize> {
+    if chars[i..].starts_with(&['/', '*']) {
+        let mut j = i + 2;
+        while j < chars.len() && !chars[j..].starts_with(&['*', '/']) {
+            j += 1;
+        }
+        Some((j + 2).min(chars.len()))
+    } else if chars[i..].starts_with(&['/', '/']) {
+        let mut j = i + 2;
+        while j < chars.len() && chars[j] != '\n' {
+            j += 1;
+        }
+        Some(j)
+    } else {
+        None
+    }
+}
+
+/// Index after the character or string literal that starts at `i`
+fn literal_end(chars: &[char], i: usize) -> usize {
+    let quote = chars[i];
+    let mut j = i + 1;
+    while j < chars.len() && chars[j] != quote {
+        j += if chars[j] == '\\' { 2 } else { 1 };
+    }
+    (j + 1).min(chars.len())
+}
+
+/// Replace the comments before the grammar rules with spaces
+fn strip_declaration_comments(s: &str) -> String {
+    let chars = s.chars().collect::<Vec<_>>();
+    let mut res = String::new();
+
+    let mut i = 0;
+    while i < chars.len() {
+        if chars[i..].starts_with(&['%', '%']) && (i == 0 || chars[i - 1] == '\n') {
+            res.extend(&chars[i..]);
+            break;
+        }
+
+        if let Some(end) = comment_end(&chars, i) {
+            res.push(' ');
+            i = end;
+            continue;
+        }
+
+        let end = match chars[i] {
+            '\'' | '"' => literal_end(&chars, i),
+            _ => i + 1,
+        };
+        res.extend(&chars[i..end]);
+        i = end;
+    }
+
+    res
+}
+
 fn parse_type(bison: &mut Bison, line: &str, deq: &mut VecDeque<String>) {
     let mut line = line["%type ".len()..].to_string();
     let line_sep = line
@@ -180,8 +244,7 @@ fn parse_type(bison: &mut Bison, line: &str, deq: &mut VecDeque<String>) {
                 .insert(non_terminal_symbol.to_string(), typ.to_string());
         }
 
-        // If it starts with a space, consider it as a continuation line
-        if deq.front().is_some_and(is_start_whitespace) {
+        if deq.front().is_some_and(is_continuation) {
             line = deq.pop_front().unwrap();
         } else {
             break;
@@ -210,11 +273,7 @@ fn parse_token(bison: &mut Bison, line: &str, deq: &mut VecDeque<String>) {
             bison.token.insert(terminal_symbol.to_string(), typ.clone());
         }
 
-        // If it starts with a space, consider it as a continuation line
-        if deq
-            .front()
-            .is_some_and(|line| is_start_whitespace(line) || line.is_empty())
-        {
+        if deq.front().is_some_and(is_continuation) {
             line = deq.pop_front().unwrap();
         } else {
             break;
@@ -238,12 +297,6 @@ fn parse_assoc(
 
     loop {
         for name in line.split_whitespace() {
-            // If we find the start of a block comment, end
-            // This is rough but works fine for parsing postgresql's grammar
-            if name == "/*" {
-                break;
-            }
-
             let assoc = Assoc {
                 name: name.to_string(),
                 priority,
@@ -253,8 +306,7 @@ fn parse_assoc(
             bison.assoc.insert(name.to_string(), assoc);
         }
 
-        // If it starts with a space, consider it as a continuation line
-        if deq.front().is_some_and(is_start_whitespace) {
+        if deq.front().is_some_and(is_continuation) {
             line = deq.pop_front().unwrap();
         } else {
             break;
@@ -580,8 +632,7 @@ fn parse_grammar_rules(bison: &mut Bison, body: String) {
 }
 
 pub fn parse_bison(s: impl AsRef<str>) -> Bison {
-    let mut deq = s
-        .as_ref()
+    let mut deq = strip_declaration_comments(s.as_ref())
         .lines()
         .map(str::to_owned)
         .collect::<VecDeque<_>>();
-- 
2.43.0


From f3725ca343bb5b311f49161f352e240fb666f5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:17 +0000
Subject: [PATCH 21/27] fix: ignore braces in the comments and literals of
 semantic actions

---
 .../parser-generator/src/parser_generator/bison.rs   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 9368fb7..de2ce97 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -428,6 +428,18 @@ fn scan(body: String) -> Vec<BisonToken> {
         if c == '{' {
             let mut depth = 0;
             loop {
+                // Braces in comments and literals do not count
+                let end = match chars[i] {
+                    '\'' | '"' => Some(literal_end(&chars, i)),
+                    _ => comment_end(&chars, i),
+                };
+                if let Some(end) = end {
+                    while i < end {
+                        update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+                    }
+                    continue;
+                }
+
                 match chars[i] {
                     '{' => depth += 1,
                     '}' => depth -= 1,
-- 
2.43.0


From 3fd4a525f5192be2513ce017c62ff353b2887330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 22/27] fix: read escaped quotes and literals at the start of a
 line in grammar rules

---
 crates/parser-generator/src/parser_generator/bison.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index de2ce97..bb878fc 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -484,17 +484,12 @@ fn scan(body: String) -> Vec<BisonToken> {
         if c == '\'' {
             let mut value = String::new();
 
-            value.push('\'');
-
-            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
-
-            while chars[i] != '\'' {
+            let end = literal_end(&chars, i);
+            while i < end {
                 value.push(chars[i]);
                 update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
             }
 
-            value.push('\'');
-
             tokens.push(BisonToken::Literal {
                 range: Range {
                     start_byte_pos: byte_pos - value.len(),
@@ -507,7 +502,6 @@ fn scan(body: String) -> Vec<BisonToken> {
                 value,
             });
 
-            update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
             continue;
         }
 
-- 
2.43.0


From 293b2897908b40c7cfc0d68f80db24aabeab25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 23/27] fix: do not end a grammar comment at its opening star

---
 crates/parser-generator/src/parser_generator/bison.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index bb878fc..95ad6a1 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -469,6 +469,9 @@ fn scan(body: String) -> Vec<BisonToken> {
             }
 
             if c == '*' {
+                // The star that opens the comment does not close it
+                update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
+
                 while !chars[i..].starts_with(&['*', '/']) {
                     update_range(&chars, &mut i, &mut row, &mut col, &mut byte_pos);
                 }
-- 
2.43.0


From bd5ed666b3ed08a03e5959ecc8131b134e1113da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 24/27] fix: accept a character literal after %prec

---
 crates/parser-generator/src/parser_generator/bison.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parser-generator/src/parser_generator/bison.rs b/crates/parser-generator/src/parser_generator/bison.rs
index 95ad6a1..48d0872 100644
--- a/crates/parser-generator/src/parser_generator/bison.rs
+++ b/crates/parser-generator/src/parser_generator/bison.rs
@@ -595,6 +595,7 @@ fn parse_grammar_rules(bison: &mut Bison, body: String) {
                 if matches!(rule[i], BisonToken::Prec { .. }) {
                     prec = Some(match &rule[i + 1] {
                         BisonToken::Identifier { value, .. } => value.clone(),
+                        BisonToken::Literal { value, .. } => value.clone(),
                         _ => unreachable!(),
                     });
 
-- 
2.43.0


From 9106256c79af37c64dedeb0ad35c7634ae58f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 25/27] fix: consider every reduction of a conflict that
 precedence settles

---
 crates/parser-generator/src/parser_generator/lalr.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/parser-generator/src/parser_generator/lalr.rs b/crates/parser-generator/src/parser_generator/lalr.rs
index ab23126..0153537 100644
--- a/crates/parser-generator/src/parser_generator/lalr.rs
+++ b/crates/parser-generator/src/parser_generator/lalr.rs
@@ -544,10 +544,10 @@ impl Lalr {
                 .filter(|item| self.rules[item.rule_index].components.len() == item.dot_pos)
                 .collect();
 
-            let get_conflicted_reduce_rule = |shift_comp: &ComponentId| -> Option<&&Item> {
+            let get_conflicted_reduce_rules = |shift_comp: ComponentId| {
                 reduce_rules
                     .iter()
-                    .find(|item| item.lookahead.contains(shift_comp))
+                    .filter(move |item| item.lookahead.contains(&shift_comp))
             };
 
             for e in &s.edge {
@@ -561,7 +561,8 @@ impl Lalr {
             }
 
             for terminal in &self.all_terminal {
-                if let Some(item) = get_conflicted_reduce_rule(terminal) {
+                // The first rule that is not given up for the shift is adopted
+                for item in get_conflicted_reduce_rules(*terminal) {
                     let reduce_action = if item.rule_index == start_rule_index {
                         Action::Accept
                     } else {
@@ -573,7 +574,7 @@ impl Lalr {
                     // not conflict
                     if let Entry::Vacant(e) = action_table.entry(key) {
                         e.insert(reduce_action);
-                        continue;
+                        break;
                     }
 
                     // shift-reduce conflict
@@ -587,16 +588,19 @@ impl Lalr {
                         (Some(reduce), Some(shift)) if reduce.priority > shift.priority => {
                             // adopt reduce
                             action_table.insert(key, reduce_action);
+                            break;
                         }
                         (Some(_), Some(shift)) => {
                             match shift.directive {
                                 AssocDirective::NonAssoc => {
                                     // This case is a parse error
                                     action_table.insert(key, Action::Error);
+                                    break;
                                 }
                                 AssocDirective::Left => {
                                     // adopt reduce
                                     action_table.insert(key, reduce_action);
+                                    break;
                                 }
                                 AssocDirective::Right => {
                                     // adopt shift
-- 
2.43.0


From 2d2c0e83af7f9694eb2b3bdda186165e3f7fb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 26/27] fix: compress the tables of grammars that have states
 without actions

---
 crates/parser-generator/src/parser_generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parser-generator/src/parser_generator.rs b/crates/parser-generator/src/parser_generator.rs
index 0810697..280f8ba 100644
--- a/crates/parser-generator/src/parser_generator.rs
+++ b/crates/parser-generator/src/parser_generator.rs
@@ -83,7 +83,11 @@ fn compress_action_table(
             }
         }
 
-        cnt.iter().max_by_key(|(_, v)| *v).map(|(k, _)| *k).unwrap()
+        // A state without any action has none by default
+        cnt.iter()
+            .max_by_key(|(_, v)| *v)
+            .map(|(k, _)| *k)
+            .unwrap_or(ERROR_ACTION_CODE)
     }
 
     for state_index in 0..lalr.state_set.states.len() {
-- 
2.43.0


From 3df7d32296c43a9b3a224c7989db0fade9ca5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 27/27] fix: refuse scanner descriptions that need more rules
 or states than the tables can number

The generated tables hold u8 values. The numbers were truncated silently, which produced a
scanner that follows wrong transitions.
---
 crates/lexer-generator/src/lexer_generator.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/lexer-generator/src/lexer_generator.rs b/crates/lexer-generator/src/lexer_generator.rs
index 090d031..9a9df0b 100644
--- a/crates/lexer-generator/src/lexer_generator.rs
+++ b/crates/lexer-generator/src/lexer_generator.rs
@@ -210,6 +210,20 @@ fn construct_dfa(flex_file: &FlexFile) -> (String, String) {
 
     let dfa = to_flex_pattern_dfa(&rules, &name_defs);
 
+    // The tables hold u8 values, and u8::MAX means "no transition" and "no rule"
+    assert!(
+        rules.len() <= u8::MAX as usize,
+        "too many rules: {}",
+        rules.len()
+    );
+    for (dfa, state_name) in dfa.iter().zip(&flex_file.all_states) {
+        assert!(
+            dfa.states.len() <= u8::MAX as usize,
+            "too many DFA states for {state_name}: {}",
+            dfa.states.len()
+        );
+    }
+
     let mut table_defs = Vec::new();
     let mut state_id_to_dfa_table_defs = Vec::new();
 
-- 
2.43.0

