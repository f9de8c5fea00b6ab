From f26c65d2a329e7696ef4172a113ec7fc4991e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 01/25] fix: return a syntax error instead of panicking on the
 unimplemented match statement

---
 src/parser/patterns.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/patterns.rs b/src/parser/patterns.rs
index 3e7eecd..48bfe88 100644
--- a/src/parser/patterns.rs
+++ b/src/parser/patterns.rs
@@ -1,5 +1,5 @@
 
-use crate::{ ASTNode, PythonCoreParser };
+use crate::{ ASTNode, PythonCoreParser, Tokenizer };
 
 
 pub trait Patterns {
@@ -9,7 +9,7 @@ pub trait Patterns {
 
 impl Patterns for PythonCoreParser {
     fn parse_patterns_match(&self) -> Result<Box<ASTNode>, String> {
-        todo!()
+        Err(format!("SyntaxError at {}: The match statement is not supported!", self.lexer.get_position()))
     }
 }
 
-- 
2.43.0


From e84c2a571b6cdc023cee2ec48a4a7d687ca25d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 02/25] fix: parse import statements instead of recursing
 without end

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index fc937b5..678a90d 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -716,7 +716,7 @@ impl Statements for PythonCoreParser {
             Ok(s) => {
                 match &*s {
                     Token::PyImport(..) => {
-                        self.parse_statements_import_stmt()
+                        self.parse_statements_import_name()
                     },
                     Token::PyFrom(..) => {
                         self.parse_statements_import_from()
-- 
2.43.0


From a9f2a608babeacdffebfa3a75b64244f95e78c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 03/25] fix: test the token after the upper bound of a slice
 for the second colon

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 894b7f4..706213e 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -960,7 +960,7 @@ impl Expressions for PythonCoreParser {
                         };
                         match &self.symbol {
                             Ok(s3) => {
-                                match &**s2{
+                                match &**s3 {
                                     Token::PyColon(..) => {
                                         symbol2 = Some(Box::new((**s3).clone()));
                                         let _ = self.advance();
-- 
2.43.0


From e88e01d3a7f088cb50f180b6c335e5a96ec49be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 04/25] fix: accept dictionary displays with more than two
 entries

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 706213e..f77c4b1 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1176,7 +1176,7 @@ impl Expressions for PythonCoreParser {
                                         },
                                         _ => return Err(format!("SyntaxError at {}: Expecting symbol in argument list expression!", self.lexer.get_position()))
                                     };
-                                    false
+                                    true
                                 },
                                 _ => false
                             }
-- 
2.43.0


From 70509f73a21523853f1fdba21a3ed602d778fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 05/25] fix: parse a function definition after 'async def'

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 678a90d..b5425fa 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1228,7 +1228,7 @@ impl Statements for PythonCoreParser {
                             Ok(s) => {
                                 match &*s {
                                     Token::PyDef(..) => {
-                                        let right_node = self.parse_blocks_class_def()?;
+                                        let right_node = self.parse_blocks_func_def()?;
                                         Ok(Box::new( ASTNode::AsyncStmt(start_pos, self.lexer.get_position(), symbol, right_node) ))
                                     },
                                     Token::PyWith(..) => {
-- 
2.43.0


From 49e5907ac300f2efac2795e8b2d893e92f4ad919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 06/25] fix: consume the newline that ends a decorator

---
 src/parser/blocks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 135df0a..9720da1 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -250,6 +250,7 @@ impl Blocks for PythonCoreParser {
                                 match &*s5 {
                                     Token::Newline(..) => {
                                         let symbol4 = s5;
+                                        let _ = self.advance();
                                         Ok(Box::new( ASTNode::Decorator(start_pos, self.lexer.get_position(), symbol1, left_node,  symbol2, right_node, symbol3, symbol4) ))
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end of file in function input!", start_pos))
-- 
2.43.0


From 65457a06bcda0ef65be209f44c0b8b9a3610afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 07/25] fix: build a with item node for 'with ... as ...'

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index b5425fa..269fa50 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1715,7 +1715,7 @@ impl Statements for PythonCoreParser {
                         let symbol = s;
                         let _ = self.advance();
                         let right_node = self.parse_expressions_expr()?;
-                        Ok(Box::new( ASTNode::ExceptStmt(start_pos, self.lexer.get_position(), left_node, symbol, right_node) ))
+                        Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, Some( (symbol, right_node) )) ))
                     },
                     _ => {
                         Ok(Box::new( ASTNode::WithItem(start_pos, self.lexer.get_position(), left_node, None) ))
-- 
2.43.0


From a7493428ccdd9c62a8065c05c1963949b2e150de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 08/25] fix: separate the message of an assert statement by a
 comma

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 269fa50..e5683cf 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1156,7 +1156,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyFrom(..) => {
+                                    Token::PyComa(..) => {
                                         let symbol2 = s2;
                                         let _ = self.advance();
                                         let right_node = self.parse_expressions_test()?;
-- 
2.43.0


From 3d9ec10693c9c9eba151083a6728e596707c2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 09/25] fix: keep the except/except* choice of a try statement
 apart from nested try statements

---
 src/parser/statements.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index e5683cf..12b8eb9 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1495,7 +1495,7 @@ impl Statements for PythonCoreParser {
                     Token::PyTry(..) => {
                         let symbol1 = s;
                         let _ = self.advance();
-                        self.except_status = ET::ExceptNone;
+                        let outer_status = std::mem::replace(&mut self.except_status, ET::ExceptNone);
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
@@ -1508,6 +1508,7 @@ impl Statements for PythonCoreParser {
                                                 match &*s3 {
                                                     Token::PyFinally(..) => {
                                                         let right_node = Some( self.parse_statements_finally_stmt()? );
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, None, None, right_node) ))
                                                     },
                                                     _ => {
@@ -1551,6 +1552,7 @@ impl Statements for PythonCoreParser {
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in try statement!", start_pos))
                                                         }
                                                         nodes_list.reverse();
+                                                        self.except_status = outer_status;
                                                         Ok(Box::new( ASTNode::TryStmt(start_pos, self.lexer.get_position(), symbol1, symbol2, left_node, Some( nodes_list ), else_node, right_node) ))
                                                     }
                                                 }
-- 
2.43.0


From 0c512384f77c25837ddde809e5fe116e73943c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 10/25] fix: start the entries of dictionary and set displays
 at their own position

---
 src/parser/expressions.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index f77c4b1..ba5d50a 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1142,6 +1142,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1151,7 +1152,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::PowerDictionary(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
@@ -1163,7 +1164,7 @@ impl Expressions for PythonCoreParser {
                                                                     let symbol3 = (**s3).clone();
                                                                     let _ = self.advance();
                                                                     let right_node = self.parse_expressions_test()?;
-                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(start_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
+                                                                    nodes_list.push( Box::new( ASTNode::DictionaryEntry(entry_pos, self.lexer.get_position(), left_node, Box::new(symbol3), right_node) ) );
                                                                     true
                                                                 },
                                                                 _ => return Err(format!("SyntaxError at {}: Expecting ':' in dictionary entry expression!", self.lexer.get_position()))
@@ -1193,6 +1194,7 @@ impl Expressions for PythonCoreParser {
                                     let symbol1 = (**s).clone();
                                     separators_list.push( Box::new(symbol1) );
                                     let _ = self.advance();
+                                    let entry_pos = self.lexer.get_position();
                                     match &self.symbol {
                                         Ok(s2) => {
                                             match &(**s2) {
@@ -1202,7 +1204,7 @@ impl Expressions for PythonCoreParser {
                                                     let symbol2 = (**s2).clone();
                                                     let _ = self.advance();
                                                     let right_node = self.parse_expressions_expr()?;
-                                                    nodes_list.push( Box::new( ASTNode::MulSet(start_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
+                                                    nodes_list.push( Box::new( ASTNode::MulSet(entry_pos, self.lexer.get_position(), Box::new(symbol2), right_node) ) );
                                                     true
                                                 },
                                                 _ => {
-- 
2.43.0


From f3a20fecdacd11729af1d9474f49fb65e70bdb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 11/25] fix: read a decimal number that starts with zero
 without swallowing the character after it

---
 src/parser/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 1b90aaa..b1886f6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -741,9 +741,15 @@ impl Tokenizer for PythonCoreTokenizer {
                     },
                     _ => {
                         let mut non_zero = false;
-                        buffer.push( self.source_buffer.get_char() );
-                        let _ = self.source_buffer.advance();
                         while   match self.source_buffer.get_char() {
+                            '_' => {
+                                buffer.push( self.source_buffer.get_char() );
+                                let _ = self.source_buffer.advance();
+                                match self.source_buffer.get_char() {
+                                    '0'..='9' => true,
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit after '_'!", &self.get_position()) )
+                                }
+                            },
                             '0' => {
                                 buffer.push( self.source_buffer.get_char() );
                                 let _ = self.source_buffer.advance();
-- 
2.43.0


From 0daee690e9263d7236c8b4b503e0ac2745b742c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 12/25] fix: reject a floating point number without digits in
 its exponent

---
 src/parser/tokenizer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index b1886f6..9c20f48 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -803,6 +803,10 @@ impl Tokenizer for PythonCoreTokenizer {
                                     },
                                     _ => {}
                                 }
+                                match self.source_buffer.get_char() {
+                                    '0' ..= '9' => {},
+                                    _ => return Err( format!("Syntax Error at {} - Expected digit in exponent of number!", &self.get_position()) )
+                                }
                                 while   match self.source_buffer.get_char() {
                                     '_' => {
                                         buffer.push( self.source_buffer.get_char() );
@@ -872,6 +876,10 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
+                        match self.source_buffer.get_char() {
+                            '0' ..= '9' => {},
+                            _ => return Err( format!("Syntax Error at {} - Expected digit in exponent of number!", &self.get_position()) )
+                        }
                         while   match self.source_buffer.get_char() {
                             '_' => {
                                 buffer.push( self.source_buffer.get_char() );
@@ -957,6 +965,10 @@ impl Tokenizer for PythonCoreTokenizer {
                             },
                             _ => {}
                         }
+                        match self.source_buffer.get_char() {
+                            '0' ..= '9' => {},
+                            _ => return Err( format!("Syntax Error at {} - Expected digit in exponent of number!", &self.get_position()) )
+                        }
                         while   match self.source_buffer.get_char() {
                             '_' => {
                                 buffer.push( self.source_buffer.get_char() );
-- 
2.43.0


From 070be9fd21b9ea094ace56e9874050e7c8b79c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 13/25] fix: let a backslash escape the next character of a
 string literal

---
 src/parser/tokenizer.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 9c20f48..d7baed1 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -1028,6 +1028,17 @@ impl Tokenizer for PythonCoreTokenizer {
                     ( '\0', _ , _  ) => {
                         return Err("MORE DATA!".to_string())
                     },
+                    ( '\\', '\0', _ ) => {
+                        return Err("MORE DATA!".to_string())
+                    },
+                    ( '\\', '\r', '\n' ) => {
+                        for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
+                    ( '\\', _ , _ ) => {
+                        for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                        true
+                    },
                     ( '\r', '\n', _  ) => {
                         for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
                         true
@@ -1056,6 +1067,18 @@ impl Tokenizer for PythonCoreTokenizer {
                 let _ = self.source_buffer.advance();
                 while match self.source_buffer.get_char() {
                     '\0' | '\r' | '\n' => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
+                    '\\' => {
+                        match self.source_buffer.peek_three_chars() {
+                            ( _ , '\0', _ ) => return Err(format!("Unterminated single quote string at {}!", self.source_buffer.get_position()).to_string()),
+                            ( _ , '\r', '\n' ) => {
+                                for _i in 1 ..= 3 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                            },
+                            _ => {
+                                for _i in 1 ..= 2 { buffer.push(self.source_buffer.get_char()); let _ = self.source_buffer.advance(); }
+                            }
+                        }
+                        true
+                    },
                     _ => {
                         if self.source_buffer.get_char() == quote {
                             buffer.push(self.source_buffer.get_char());
-- 
2.43.0


From d95664ce2b6e8b49a93711014f7065a83367381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 14/25] fix: analyse the indentation of a line that follows a
 blank or comment line

---
 src/parser/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index d7baed1..52f676a 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -50,6 +50,7 @@ impl Tokenizer for PythonCoreTokenizer {
             match &self.is_at_beginning_of_line {
                 true => {
                     self.is_at_beginning_of_line = false;
+                    is_blank_line = false;
                     let mut col: u32 = 0;
                     while   match self.source_buffer.get_char() {
                             ' ' => {
-- 
2.43.0


From 1c47bd4ae80771031ffef9484ffd3d07f204b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 15/25] fix: keep the trivia in front of an indent or dedent
 token

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 52f676a..4d400d5 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -111,11 +111,11 @@ impl Tokenizer for PythonCoreTokenizer {
             match self.pending {
                 _ if self.pending < 0 => {
                     self.pending += 1;
-                    return Ok( Box::new( Token::Dedent(None) ) )
+                    return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ if self.pending > 0 => {
                     self.pending -= 1;
-                    return Ok( Box::new( Token::Indent(None) ) )
+                    return Ok( Box::new( Token::Indent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
                 },
                 _ => { }
             }
-- 
2.43.0


From 641bcb269261fba764310def59f59bf119688bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 16/25] fix: report a dedent that matches no enclosing
 indentation level

---
 src/parser/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 4d400d5..40c3815 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -98,7 +98,7 @@ impl Tokenizer for PythonCoreTokenizer {
                                 self.indent_stack.pop();
                                 self.pending -= 1;
                             }
-                            if self.indent_stack.is_empty() || col < match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
+                            if self.indent_stack.is_empty() || col != match self.indent_stack.last() { Some(x) => *x, _ => 0 } {
                                 return Err("Inconsistent indentation level in block control!".to_string())
                             }
                         }
-- 
2.43.0


From 2c167f9923036ed6552cb6cf9a90bf94a5cf2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 17/25] fix: record the newline character found in the trivia
 of a blank line

---
 src/parser/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 40c3815..cc0a980 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -203,7 +203,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', ' ') ) );
                             continue 'outer;
                         }
                         else {
@@ -220,7 +220,7 @@ impl Tokenizer for PythonCoreTokenizer {
                         let _ = self.source_buffer.advance();
                         self.is_at_beginning_of_line = true;
                         if is_blank_line || self.parenthesis.is_empty() == false {
-                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\r', '\n') ) );
+                            trivia_collector.push(Box::new( Trivia::Newline(self.token_start_position, self.source_buffer.get_position(), '\n', ' ') ) );
                             continue 'outer;
                         }
                         else {
-- 
2.43.0


From 8d97f588e81c154a6b52adf38188dedd675b9a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 18/25] fix: accept the empty dictionary display

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index ba5d50a..b5a04f0 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -185,7 +185,7 @@ impl Expressions for PythonCoreParser {
                                                     _ => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                                 }
                                             },
-                                            None => Err(format!("SyntaxError at {}: Expecting dictionary/set in atom expression!", start_pos))
+                                            None => Ok(Box::new(ASTNode::AtomDictionary(start_pos, self.lexer.get_position(), Box::new(symbol1), None, Box::new(symbol2))))
                                         }
                                     },
                                     _ => Err(format!("SyntaxError at {}: Expecting end marker in dictionary/set atom expression!", start_pos))
-- 
2.43.0


From 93517494af7d24ac9e695928f86cd9d5e27b285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 19/25] fix: close the blocks that are still open at the end of
 the source

---
 src/parser/tokenizer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index cc0a980..509cfc1 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -173,6 +173,11 @@ impl Tokenizer for PythonCoreTokenizer {
                 /* Handle End Of File */
                 match self.source_buffer.get_char() {
                     '\0' => {
+                        /* Blocks that are still open end together with the source code */
+                        if self.parenthesis.is_empty() && self.indent_stack.len() > 1 {
+                            self.indent_stack.pop();
+                            return Ok( Box::new( Token::Dedent(match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) }) ) )
+                        }
                         return Ok(Box::new(Token::EOF(self.source_buffer.get_position(), match trivia_collector.len() { 0 => None, _ => Some( { trivia_collector.reverse(); trivia_collector } ) } )))
                     },
                     _ => {}
-- 
2.43.0


From 3027a88fdf5eab6899d65a3d1163721b5a95b141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 20/25] fix: stop the target of a for clause in front of 'in'

---
 src/parser/expressions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index b5a04f0..a026bf8 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -999,7 +999,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         nodes_list.push(self.parse_expressions_star_expr()?)
                     },
-                    _ => nodes_list.push(self.parse_expressions_named_expression()?)
+                    _ => nodes_list.push(self.parse_expressions_expr()?)
                 }
             },
             _ => return Err(format!("SyntaxError at {}: Expecting symbol in list expression!", self.lexer.get_position()))
@@ -1022,7 +1022,7 @@ impl Expressions for PythonCoreParser {
                                             true
                                         },
                                         _ => {
-                                            nodes_list.push(self.parse_expressions_named_expression()?);
+                                            nodes_list.push(self.parse_expressions_expr()?);
                                             true
                                         }
                                     }
-- 
2.43.0


From bc5f5366a4bee6cb419036ee59ab502bfeab656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:32 +0000
Subject: [PATCH 21/25] fix: the arguments of a call were parsed as subscripts

---
 src/parser/expressions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index a026bf8..1be1faa 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -841,7 +841,7 @@ impl Expressions for PythonCoreParser {
                             Ok(s2) => {
                                 match &(**s2) {
                                     Token::PyRightParen(..) => { },
-                                    _ => right = Some(self.parse_expressions_subscript_list()?)
+                                    _ => right = Some(self.parse_expressions_arglist()?)
                                 }
                             },
                             _ => return Err(format!("Syntax Error at {} - Expecting symbol in trailer expression!", self.lexer.get_position()))
-- 
2.43.0


From a7a8ff94dfbdcf0eb81176f1c8a04b810aed0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:33 +0000
Subject: [PATCH 22/25] fix: the bases of a class were parsed as lambda
 parameters

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index 9720da1..de02a5c 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -630,7 +630,7 @@ impl Blocks for PythonCoreParser {
                                                             Ok(s5) => {
                                                                 match &*s5 {
                                                                     Token::PyRightParen(..) => None,
-                                                                    _ => Some(self.parse_expressions_var_args_list()?)
+                                                                    _ => Some(self.parse_expressions_arglist()?)
                                                                 }
                                                             },
                                                             _ => return Err(format!("SyntaxError at {}: Expecting symbol in class statement!", start_pos))
-- 
2.43.0


From 0a9a1df2ccdc54710430f22c409c59a73d7985ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 23/25] fix: a function without a parameter list was accepted

---
 src/parser/blocks.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/blocks.rs b/src/parser/blocks.rs
index de02a5c..ef6ce31 100644
--- a/src/parser/blocks.rs
+++ b/src/parser/blocks.rs
@@ -360,7 +360,7 @@ impl Blocks for PythonCoreParser {
                                                     Token::PyLeftParen(..) => {
                                                         Some(self.parse_blocks_parameters()?)
                                                     },
-                                                    _ => None
+                                                    _ => return Err(format!("SyntaxError at {}: Expecting '(' in function statement!", start_pos))
                                                 }
                                             },
                                             _ => return Err(format!("SyntaxError at {}: Expecting 'def' in function statement!", start_pos))
-- 
2.43.0


From 2c13d2c4343cff7f8a1daa18f3b307dc77b9df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 24/25] fix: an except* clause without an exception was
 accepted

---
 src/parser/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/statements.rs b/src/parser/statements.rs
index 12b8eb9..34bca28 100644
--- a/src/parser/statements.rs
+++ b/src/parser/statements.rs
@@ -1787,7 +1787,7 @@ impl Statements for PythonCoreParser {
                         match self.symbol.clone() {
                             Ok(s2) => {
                                 match &*s2 {
-                                    Token::PyColon(..) => {
+                                    Token::PyColon(..) if symbol_mul.is_none() => {
                                         Ok(Box::new( ASTNode::ExceptClauseStmt(start_pos, self.lexer.get_position(), symbol1, symbol_mul, None) ))
                                     },
                                     _ => {
-- 
2.43.0


From 8d76c554990bff1c649a2ca074ca4267f1008161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:49 +0000
Subject: [PATCH 25/25] fix: a starred lambda parameter was given a default
 value

---
 src/parser/expressions.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/parser/expressions.rs b/src/parser/expressions.rs
index 1be1faa..3477662 100644
--- a/src/parser/expressions.rs
+++ b/src/parser/expressions.rs
@@ -1557,7 +1557,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyMul(..) => {
                         mul_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                        mul_node = Some( self.parse_expressions_vfp_def()? );
                         while
                             match &self.symbol {
                                 Ok(s2) => {
@@ -1571,7 +1571,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s3.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s4) => {
                                                                     match &**s4 {
@@ -1604,7 +1604,7 @@ impl Expressions for PythonCoreParser {
                     Token::PyPower(..) => {
                         power_symbol = Some( s.clone() );
                         let _ = self.advance();
-                        power_node = Some( self.parse_expressions_var_args_assignments()? );
+                        power_node = Some( self.parse_expressions_vfp_def()? );
                         match &self.symbol {
                             Ok(s2) => {
                                 match &**s2 {
@@ -1669,7 +1669,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyMul(..)) => {
                                                                             mul_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
                                                                             while
                                                                                 match &self.symbol {
                                                                                     Ok(s30) => {
@@ -1683,7 +1683,7 @@ impl Expressions for PythonCoreParser {
                                                                                                             Token::PyPower(..) => {
                                                                                                                 power_symbol = Some( s31.clone() );
                                                                                                                 let _ = self.advance();
-                                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                                 match &self.symbol {
                                                                                                                     Ok(s32) => {
                                                                                                                         match &**s32 {
@@ -1717,7 +1717,7 @@ impl Expressions for PythonCoreParser {
                                                                         (true, Token::PyPower(..)) => {
                                                                             power_symbol = Some( s20.clone() );
                                                                             let _ = self.advance();
-                                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                                             match &self.symbol {
                                                                                 Ok(s21) => {
                                                                                     match &**s21 {
@@ -1743,7 +1743,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyMul(..) => {
                                                             mul_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            mul_node = Some( self.parse_expressions_var_args_assignments()?  );
+                                                            mul_node = Some( self.parse_expressions_vfp_def()? );
                                                             while
                                                                 match &self.symbol {
                                                                     Ok(s8) => {
@@ -1757,7 +1757,7 @@ impl Expressions for PythonCoreParser {
                                                                                             Token::PyPower(..) => {
                                                                                                 power_symbol = Some( s9.clone() );
                                                                                                 let _ = self.advance();
-                                                                                                power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                                                                power_node = Some( self.parse_expressions_vfp_def()? );
                                                                                                 match &self.symbol {
                                                                                                     Ok(s10) => {
                                                                                                         match &**s10 {
@@ -1791,7 +1791,7 @@ impl Expressions for PythonCoreParser {
                                                         Token::PyPower(..) => {
                                                             power_symbol = Some( s6.clone() );
                                                             let _ = self.advance();
-                                                            power_node = Some( self.parse_expressions_var_args_assignments()? );
+                                                            power_node = Some( self.parse_expressions_vfp_def()? );
                                                             match &self.symbol {
                                                                 Ok(s7) => {
                                                                     match &**s7 {
-- 
2.43.0

