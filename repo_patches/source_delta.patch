From af2261bd7bc4e5051764a293d9f957464c4d9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:51 +0000
Subject: [PATCH 1/3] fix: do not panic when a document starts with `<`

---
 src/lexer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d8f6cd6..c61a668 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -153,10 +153,12 @@ impl Lexer {
                     self.next_char()?;
                     self.construct_token(line, column, "<>".to_string())
                 } else {
-                    if self.tokens.last().unwrap().literal.to_uppercase() == "ARRAY"
-                        || self.tokens.last().unwrap().literal.to_uppercase() == "STRUCT"
-                    {
-                        self.type_declaration_depth += 1;
+                    if let Some(last_token) = self.tokens.last() {
+                        if last_token.literal.to_uppercase() == "ARRAY"
+                            || last_token.literal.to_uppercase() == "STRUCT"
+                        {
+                            self.type_declaration_depth += 1;
+                        }
                     }
                     self.next_char()?;
                     self.construct_token(line, column, ch.to_string())
-- 
2.43.0


From f7223b8a69485c87581e40509f5bea060947772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:51 +0000
Subject: [PATCH 2/3] fix: reject a document that ends where an identifier is
 expected instead of panicking

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index de801ff..72a6c51 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -942,7 +942,7 @@ impl Parser {
             let mut trailing_idents = vec![];
             loop {
                 let curr_token = parser.get_token(0)?;
-                if curr_token.literal.chars().next().unwrap() == '`' {
+                if curr_token.literal.starts_with('`') {
                     break;
                 }
                 let next_token = match parser.get_token(1) {
-- 
2.43.0


From 61bdf49a7e12627dec93a78622972262eec00a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:21 +0000
Subject: [PATCH 3/3] fix: do not recurse once per word when a document starts
 with something that is no statement

---
 src/parser.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 72a6c51..8ba3381 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1091,6 +1091,9 @@ impl Parser {
         Ok(operator)
     }
     fn parse_statement(&mut self, semicolon: bool) -> BQ2CSTResult<Node> {
+        self.parse_statement_after(semicolon, false)
+    }
+    fn parse_statement_after(&mut self, semicolon: bool, label: bool) -> BQ2CSTResult<Node> {
         let node = match self.get_token(0)?.literal.to_uppercase().as_str() {
             // SELECT
             "WITH" | "SELECT" | "(" => {
@@ -1222,6 +1225,16 @@ impl Parser {
                     self.parse_export_model_statement(semicolon)?
                 }
             }
+            _ if label => {
+                self.get_token(1)?;
+                return Err(BQ2CSTError::from_token(
+                    self.get_token(0)?,
+                    format!(
+                        "The statement is not properly labeled: {:?}",
+                        self.get_token(0)?
+                    ),
+                ));
+            }
             _ => self.parse_labeled_statement(semicolon)?,
         };
         Ok(node)
@@ -4099,20 +4112,7 @@ impl Parser {
         self.next_token()?; // -> :
         let colon = self.construct_node(NodeType::Symbol)?;
         self.next_token()?; // -> stmt
-        let mut stmt = self.parse_statement(false)?;
-        if stmt
-            .children
-            .keys()
-            .any(|k| k == "leading_label" || k == "colon")
-        {
-            return Err(BQ2CSTError::from_token(
-                self.get_token(0)?,
-                format!(
-                    "The statement is not properly labeled: {:?}",
-                    self.get_token(0)?
-                ),
-            ));
-        };
+        let mut stmt = self.parse_statement_after(false, true)?;
         stmt.push_node("leading_label", label);
         stmt.push_node("colon", colon);
         if !self.get_token(1)?.is(";") {
-- 
2.43.0

