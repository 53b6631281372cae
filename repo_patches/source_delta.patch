From bf17a85d20312579f11ecb4beb4746540688c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 01/26] fix: do not treat a NUL character as the end of the
 document

---
 crates/brack-tokenizer/src/dispatch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index def265a..5559ebb 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -24,7 +24,7 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
 
     let (head, tail) = separate(&s);
 
-    if head == "\0" {
+    if s.is_empty() {
         let mut tokens = t
             .tokens
             .clone()
-- 
2.43.0


From f3248fb4c145b4b0cf8d647ee5e197e83c675c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 02/26] fix: an escaped bracket, dot or comma never affects how
 the following text is read

---
 crates/brack-tokenizer/src/backslash.rs | 41 +++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/backslash.rs b/crates/brack-tokenizer/src/backslash.rs
index 2935e62..a080a00 100644
--- a/crates/brack-tokenizer/src/backslash.rs
+++ b/crates/brack-tokenizer/src/backslash.rs
@@ -6,6 +6,22 @@ use crate::{
 };
 use anyhow::Result;
 
+// An escaped character is plain text: it must not open, close or separate anything.
+fn escaped(head: &str, location: Location) -> Option<Token> {
+    match head {
+        "\\" => Some(Token::BackSlash(location)),
+        "<" => Some(Token::AngleBracketOpen(location)),
+        ">" => Some(Token::AngleBracketClose(location)),
+        "{" => Some(Token::CurlyBracketOpen(location)),
+        "}" => Some(Token::CurlyBracketClose(location)),
+        "[" => Some(Token::SquareBracketOpen(location)),
+        "]" => Some(Token::SquareBracketClose(location)),
+        "." => Some(Token::Dot(location)),
+        "," => Some(Token::Comma(location)),
+        _ => None,
+    }
+}
+
 pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
     let s = t
         .untreated
@@ -34,10 +50,29 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         },
     }));
 
+    let (head, rest) = separate(&tail);
+    let escaped_location = Location {
+        start: LocationData {
+            line,
+            character: column + 1,
+        },
+        end: LocationData {
+            line,
+            character: column + 2,
+        },
+    };
+    let (column, untreated) = match escaped(&head, escaped_location) {
+        Some(token) => {
+            tokens.push(token);
+            (column + 2, rest)
+        }
+        None => (column + 1, tail),
+    };
+
     let t2 = Tokenizer {
-        column: Some(column + 1),
-        token_start_column: Some(column + 1),
-        untreated: Some(tail),
+        column: Some(column),
+        token_start_column: Some(column),
+        untreated: Some(untreated),
         tokens: Some(tokens),
         ..Default::default()
     };
-- 
2.43.0


From 97a728f45b168a2536977752c01867cfba81048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 03/26] fix: brackets, dots and commas are never read as an
 identifier, and a newline ends one

---
 crates/brack-tokenizer/src/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/brack-tokenizer/src/dispatch.rs b/crates/brack-tokenizer/src/dispatch.rs
index 5559ebb..69271f4 100644
--- a/crates/brack-tokenizer/src/dispatch.rs
+++ b/crates/brack-tokenizer/src/dispatch.rs
@@ -65,9 +65,6 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
     let nested = (angle_c + curly_c + square_c) > 0;
     match (&head[..], &head2[..]) {
         ("\\", _) => backslash::tokenize(t),
-        (_, ">") if look_for_ident => identifier::tokenize(t),
-        (_, "}") if look_for_ident => identifier::tokenize(t),
-        (_, "]") if look_for_ident => identifier::tokenize(t),
         ("<", _) => angle_bracket_open::tokenize(t),
         (">", _) => angle_bracket_close::tokenize(t),
         ("{", _) => curly_bracket_open::tokenize(t),
@@ -78,7 +75,10 @@ pub fn dispatch(t: &Tokenizer) -> Result<Vec<Token>> {
         (",", _) if nested => comma::tokenize(t),
         (" ", _) if nested => whitespace::tokenize(t),
         ("\n", _) => newline::tokenize(t),
-        (_, " ") if look_for_ident => identifier::tokenize(t),
+        (_, ">") if look_for_ident => identifier::tokenize(t),
+        (_, "}") if look_for_ident => identifier::tokenize(t),
+        (_, "]") if look_for_ident => identifier::tokenize(t),
+        (_, " ") | (_, "\n") if look_for_ident => identifier::tokenize(t),
         (_, ".") if look_for_ident => module::tokenize(t),
         (_, "<") | (_, "{") | (_, "[") | (_, "\n") | (_, "\0") => text::tokenize(t),
         (_, " ") if nested => text::tokenize(t),
-- 
2.43.0


From 915a2608624682f812a098506589c52f5680ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 04/26] fix: a closing bracket ends the search for an
 identifier and never makes the nesting depth negative

---
 crates/brack-tokenizer/src/angle_bracket_close.rs  | 3 ++-
 crates/brack-tokenizer/src/curly_bracket_close.rs  | 3 ++-
 crates/brack-tokenizer/src/square_bracket_close.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/brack-tokenizer/src/angle_bracket_close.rs b/crates/brack-tokenizer/src/angle_bracket_close.rs
index 5e32432..d8b4fc7 100644
--- a/crates/brack-tokenizer/src/angle_bracket_close.rs
+++ b/crates/brack-tokenizer/src/angle_bracket_close.rs
@@ -44,7 +44,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        angle_nest_count: Some(angle_nest_count - 1),
+        angle_nest_count: Some((angle_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     dispatch(&t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/curly_bracket_close.rs b/crates/brack-tokenizer/src/curly_bracket_close.rs
index 6044da8..2200ad2 100644
--- a/crates/brack-tokenizer/src/curly_bracket_close.rs
+++ b/crates/brack-tokenizer/src/curly_bracket_close.rs
@@ -44,7 +44,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        curly_nest_count: Some(curly_nest_count - 1),
+        curly_nest_count: Some((curly_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     dispatch(&t.merge(&t2))
diff --git a/crates/brack-tokenizer/src/square_bracket_close.rs b/crates/brack-tokenizer/src/square_bracket_close.rs
index 7a33d18..ed2def0 100644
--- a/crates/brack-tokenizer/src/square_bracket_close.rs
+++ b/crates/brack-tokenizer/src/square_bracket_close.rs
@@ -44,7 +44,8 @@ pub fn tokenize(t: &Tokenizer) -> Result<Vec<Token>> {
         untreated: Some(tail),
         pool: Some(String::new()),
         tokens: Some(tokens),
-        square_nest_count: Some(square_nest_count - 1),
+        square_nest_count: Some((square_nest_count - 1).max(0)),
+        looking_for_identifier: Some(false),
         ..Default::default()
     };
     dispatch(&t.merge(&t2))
-- 
2.43.0


From 1974604a5c41a7717120bfd9f8ef4e1079837cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 05/26] fix: merging two spans on one line keeps the later end

---
 crates/brack-tokenizer/src/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-tokenizer/src/tokens.rs b/crates/brack-tokenizer/src/tokens.rs
index bb6b745..28e6c11 100644
--- a/crates/brack-tokenizer/src/tokens.rs
+++ b/crates/brack-tokenizer/src/tokens.rs
@@ -58,7 +58,7 @@ pub fn merge_location(location1: &Location, location2: &Location) -> Location {
 
     let end = match location1.end.line.cmp(&location2.end.line) {
         Ordering::Less => location2.end.clone(),
-        Ordering::Equal => match location1.end.line.cmp(&location2.end.character) {
+        Ordering::Equal => match location1.end.character.cmp(&location2.end.character) {
             Ordering::Greater => location1.end.clone(),
             _ => location2.end.clone(),
         },
-- 
2.43.0


From 93036401fe0ce1af13d9dd0c43f54b0440bd51bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 06/26] fix: the span of a statement or argument starts at its
 first child, not at 0:0

---
 crates/brack-parser/src/cst.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/brack-parser/src/cst.rs b/crates/brack-parser/src/cst.rs
index a1fef29..6ac867e 100644
--- a/crates/brack-parser/src/cst.rs
+++ b/crates/brack-parser/src/cst.rs
@@ -149,6 +149,7 @@ impl CST {
             | CST::Angle(node)
             | CST::Square(node)
             | CST::Curly(node) => {
+                let is_first_child = node.children.is_empty();
                 node.children.push(cst.clone());
                 let location_children = match cst {
                     CST::Document(node)
@@ -174,7 +175,11 @@ impl CST {
                     | CST::Invalid(leaf)
                     | CST::EOF(leaf) => leaf.location,
                 };
-                node.location = merge_location(&node.location, &location_children);
+                node.location = if is_first_child {
+                    location_children
+                } else {
+                    merge_location(&node.location, &location_children)
+                };
             }
             _ => panic!("This node does not have children"),
         }
-- 
2.43.0


From 619af4718e292382607149aaba5b10e26bbe1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 07/26] fix: do not panic on separators that follow an unclosed
 command

---
 crates/brack-transformer/src/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/brack-transformer/src/transform.rs b/crates/brack-transformer/src/transform.rs
index ca1dabc..cb90efa 100644
--- a/crates/brack-transformer/src/transform.rs
+++ b/crates/brack-transformer/src/transform.rs
@@ -60,6 +60,10 @@ pub fn transform(cst: &CST) -> (AST, Vec<TransformError>) {
             CST::Module(node) => new_module(node.value.clone(), node.location.clone()),
             CST::Invalid(node) => new_invalid(node.location.clone()),
             CST::Text(node) => new_text(node.value.clone(), node.location.clone()),
+            // An unclosed command leaves separators behind, which are then plain text.
+            CST::Whitespace(node) => new_text(Some(" ".to_string()), node.location.clone()),
+            CST::Dot(node) => new_text(Some(".".to_string()), node.location.clone()),
+            CST::Comma(node) => new_text(Some(",".to_string()), node.location.clone()),
             node => panic!("Cannot pass non-ast node to transform::aux: {:?}", node),
         }
     }
-- 
2.43.0


From 88d1f55c0c96a92e8a429de513a092695506fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 08/26] fix: keep the spaces between the words of a command
 argument

---
 crates/brack-transformer/src/utils.rs | 31 +++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/brack-transformer/src/utils.rs b/crates/brack-transformer/src/utils.rs
index 502220d..714bbe2 100644
--- a/crates/brack-transformer/src/utils.rs
+++ b/crates/brack-transformer/src/utils.rs
@@ -1,4 +1,4 @@
-use brack_parser::cst::{new_expr, CST};
+use brack_parser::cst::{new_expr, new_text, CST};
 
 use crate::error::TransformError;
 
@@ -113,12 +113,35 @@ pub fn check_unexpected_dot(csts: &[CST]) -> Vec<TransformError> {
     errors
 }
 
+fn is_part_of_argument(cst: &CST) -> bool {
+    !matches!(
+        cst,
+        CST::Comma(_)
+            | CST::Dot(_)
+            | CST::AngleBracketClose(_)
+            | CST::CurlyBracketClose(_)
+            | CST::SquareBracketClose(_)
+    )
+}
+
+// Whitespaces between two parts of the same argument are its text; the others are only separators.
 pub fn remove_whitespaces_and_newlines(csts: &Vec<CST>) -> Vec<CST> {
-    let mut result = vec![];
+    let mut result: Vec<CST> = vec![];
+    let mut whitespaces = vec![];
     for cst in csts {
         match cst {
-            CST::Whitespace(_) | CST::Newline(_) => (),
-            _ => result.push(cst.clone()),
+            CST::Whitespace(_) => whitespaces.push(new_text(" ".to_string(), cst.location())),
+            CST::Newline(_) => (),
+            _ => {
+                let is_interior = result.len() > 4
+                    && is_part_of_argument(&result[result.len() - 1])
+                    && is_part_of_argument(cst);
+                if is_interior {
+                    result.append(&mut whitespaces);
+                }
+                whitespaces.clear();
+                result.push(cst.clone());
+            }
         }
     }
     result
-- 
2.43.0


From 1dd0785cd2274f578b04883d8dbea9a84affd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 09/26] fix: report a closing bracket that was never opened

---
 crates/brack-transformer/src/stmt.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/brack-transformer/src/stmt.rs b/crates/brack-transformer/src/stmt.rs
index 59b3cfd..25860dd 100644
--- a/crates/brack-transformer/src/stmt.rs
+++ b/crates/brack-transformer/src/stmt.rs
@@ -12,6 +12,18 @@ pub fn simplify(cst: &CST) -> (CST, Vec<TransformError>) {
     let mut csts = vec![];
 
     for child in node.children.clone() {
+        match &child {
+            CST::AngleBracketClose(leaf) => {
+                errors.push(TransformError::AngleNotOpened(leaf.location.clone()))
+            }
+            CST::CurlyBracketClose(leaf) => {
+                errors.push(TransformError::CurlyNotOpened(leaf.location.clone()))
+            }
+            CST::SquareBracketClose(leaf) => {
+                errors.push(TransformError::SquareNotOpened(leaf.location.clone()))
+            }
+            _ => (),
+        }
         let (cst, mut node_errors) = simplify::simplify(&child);
         csts.push(cst);
         errors.append(&mut node_errors);
-- 
2.43.0


From 54201426f85c1a32dd3712beb3971ac6ec3b8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 10/26] fix: put the expansion of a macro in the place of its
 call

---
 crates/brack-expander/src/expand.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index 43fb9a3..e363b3d 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -49,7 +49,17 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
             _ => children.push(expand_other(overall_ast, child, plugins)?),
         }
     }
-    Ok(ast.clone())
+    let mut expanded = ast.clone();
+    match &mut expanded {
+        AST::Document(node)
+        | AST::Stmt(node)
+        | AST::Expr(node)
+        | AST::Angle(node)
+        | AST::Curly(node)
+        | AST::Square(node) => node.children = children,
+        _ => {}
+    }
+    Ok(expanded)
 }
 
 pub fn expander(ast: &AST, plugins: &mut Plugins) -> Result<AST> {
-- 
2.43.0


From 863366444bab0fdc249062ae276f8db2650e8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 11/26] fix: the expander does not panic on an invalid or
 ignored node

---
 crates/brack-expander/src/expand.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/brack-expander/src/expand.rs b/crates/brack-expander/src/expand.rs
index e363b3d..662fe78 100644
--- a/crates/brack-expander/src/expand.rs
+++ b/crates/brack-expander/src/expand.rs
@@ -41,6 +41,9 @@ fn expand_other(overall_ast: &AST, ast: &AST, plugins: &mut Plugins) -> Result<A
         AST::Ident(_) => {
             return Ok(ast.clone());
         }
+        AST::Invalid(_) | AST::Ignored(_) => {
+            return Ok(ast.clone());
+        }
         _ => {}
     }
     for child in ast.children() {
-- 
2.43.0


From 327c219662358f58c1dc4edb7c38200886b391e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 12/26] fix: do not overflow when a parameter follows a
 variadic one

---
 crates/brack-plugin/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/brack-plugin/src/types.rs b/crates/brack-plugin/src/types.rs
index e6b4a75..84af20f 100644
--- a/crates/brack-plugin/src/types.rs
+++ b/crates/brack-plugin/src/types.rs
@@ -13,12 +13,12 @@ pub enum Type {
 
 pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
     let mut min = 0;
-    let mut max = 0;
+    let mut max: usize = 0;
     for arg_type in arg_types {
         match arg_type {
             Type::TOption(_) => {
                 min += 0;
-                max += 1;
+                max = max.saturating_add(1);
             }
             Type::TArray(_) => {
                 min += 0;
@@ -26,7 +26,7 @@ pub fn arg_counter(arg_types: &Vec<Type>) -> (usize, usize) {
             }
             _ => {
                 min += 1;
-                max += 1;
+                max = max.saturating_add(1);
             }
         }
     }
-- 
2.43.0


From 77a985a8d23a982e69e9b732c7610e2a23a9753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 13/26] fix: report a missing argument instead of panicking

---
 crates/brack-codegen/src/curly.rs  | 7 +++++--
 crates/brack-codegen/src/square.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/brack-codegen/src/curly.rs b/crates/brack-codegen/src/curly.rs
index 4d9b7cb..84eed4b 100644
--- a/crates/brack-codegen/src/curly.rs
+++ b/crates/brack-codegen/src/curly.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires more arguments", ident_name),
+            },
         };
         args.push(arg);
     }
diff --git a/crates/brack-codegen/src/square.rs b/crates/brack-codegen/src/square.rs
index 70e14eb..f8b0808 100644
--- a/crates/brack-codegen/src/square.rs
+++ b/crates/brack-codegen/src/square.rs
@@ -81,8 +81,11 @@ pub(crate) fn generate(ast: &AST, plugins: &mut Plugins) -> Result<String> {
                     Value::TextOption(None)
                 }
             }
-            Type::TArray(_) => Value::TextArray(arguments[i..].to_vec()),
-            _ => Value::Text(arguments[i].clone()),
+            Type::TArray(_) => Value::TextArray(arguments.get(i..).unwrap_or_default().to_vec()),
+            _ => match arguments.get(i) {
+                Some(argument) => Value::Text(argument.clone()),
+                None => anyhow::bail!("{} requires more arguments", ident_name),
+            },
         };
         args.push(arg);
     }
-- 
2.43.0


From 902f02ae2e4b07e6a01f7fd267ecf971de6d8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 14/26] fix: the language server handles every message no
 matter how the input is chunked

---
 crates/brack-language-server/src/server.rs | 56 +++++++++++-----------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 59daa7b..1e063af 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -4,7 +4,7 @@ use anyhow::Result;
 use brack_project_manager::project::Project;
 use lsp_types::{ClientCapabilities, Diagnostic};
 use serde::Serialize;
-use serde_json::{from_str, json, Value};
+use serde_json::{from_slice, json, Value};
 use tokio::io::{stdin, stdout, AsyncReadExt, AsyncWriteExt};
 
 #[derive(Default)]
@@ -74,7 +74,6 @@ impl Server {
             .await
     }
 
-    #[allow(dead_code)]
     pub(crate) async fn send_parse_error_response(&self) -> Result<()> {
         self.send_error_response(None, -32700, "received an invalid JSON")
             .await
@@ -134,37 +133,38 @@ impl Server {
             }
             buffer.extend_from_slice(&tmp_buffer[..chunk]);
 
-            let buffer_string = from_utf8(&buffer)?;
-            if !buffer_string.contains("\r\n\r\n") {
-                continue;
-            }
+            // A chunk may end in the middle of a character and may complete several messages.
+            while let Some(header_end) = buffer.windows(4).position(|w| w == b"\r\n\r\n") {
+                let header_string = from_utf8(&buffer[..header_end])?;
+
+                let mut content_length = -1;
+                let header_length = header_string.len() + 4;
+                for line in header_string.split("\r\n") {
+                    let splitted_line = line.split(": ").collect::<Vec<&str>>();
+                    let key = splitted_line[0];
+                    let value = splitted_line.get(1).copied().unwrap_or_default();
+                    if key == "Content-Length" {
+                        content_length = value.parse::<i32>()?;
+                    }
+                }
 
-            let splitted_buffer = buffer_string.split("\r\n\r\n").collect::<Vec<&str>>();
-            let header_string = splitted_buffer[0];
-
-            let mut content_length = -1;
-            let header_length = header_string.len() + 4;
-            for line in header_string.split("\r\n") {
-                let splitted_line = line.split(": ").collect::<Vec<&str>>();
-                let key = splitted_line[0];
-                let value = splitted_line[1];
-                if key == "Content-Length" {
-                    content_length = value.parse::<i32>()?;
+                if content_length < 0 {
+                    buffer.drain(0..header_length);
+                    continue;
                 }
-            }
+                let total_length = header_length + content_length as usize;
 
-            if content_length == -1 {
-                continue;
-            }
-            let total_length = header_length + content_length as usize;
+                if buffer.len() < total_length {
+                    break;
+                }
 
-            if buffer.len() < total_length {
-                continue;
+                let msg = from_slice::<Value>(&buffer[header_length..total_length]);
+                buffer.drain(0..total_length);
+                match msg {
+                    Ok(msg) => self.dispatch(msg).await?,
+                    Err(_) => self.send_parse_error_response().await?,
+                }
             }
-
-            let msg: Value = from_str(&buffer_string[header_length..total_length])?;
-            self.dispatch(msg).await?;
-            buffer.drain(0..total_length);
         }
 
         Ok(())
-- 
2.43.0


From 5a0ce57b5d26090a77ddab53934ad2b6c94f5b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 15/26] fix: a message that cannot be handled does not stop the
 language server

---
 crates/brack-language-server/src/server.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 1e063af..1072447 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -112,9 +112,21 @@ impl Server {
             msg.get("id").and_then(|i| i.as_i64()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
-            (Some(id), Some(method)) => self.handle_request(&msg, id, method).await,
+            (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => {
+                    self.send_error_response(Some(id), -32603, &e.to_string())
+                        .await
+                }
+            },
             (Some(id), None) => self.handle_response(&msg, id).await,
-            (None, Some(method)) => self.handle_notification(&msg, method).await,
+            (None, Some(method)) => match self.handle_notification(&msg, method).await {
+                Ok(()) => Ok(()),
+                Err(e) => {
+                    self.log_message(&format!("{} failed: {}", method, e))
+                        .await
+                }
+            },
             _ => self.send_invalid_request_response().await,
         }
     }
-- 
2.43.0


From 1169935ff7f03d21be8426c604e2c2c6374a3a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 16/26] fix: answer a request that has no result with null

---
 crates/brack-language-server/src/request.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index ed1db70..6458454 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -112,7 +112,10 @@ impl Server {
                             self.send_stdout(&result).await?;
                             Ok(())
                         }
-                        None => Ok(()),
+                        None => {
+                            let result = BLSResult::new(id, Value::Null);
+                            self.send_stdout(&result).await
+                        }
                     },
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "semantic tokens failed")
@@ -129,7 +132,10 @@ impl Server {
                             self.send_stdout(&result).await?;
                             Ok(())
                         }
-                        None => Ok(()),
+                        None => {
+                            let result = BLSResult::new(id, Value::Null);
+                            self.send_stdout(&result).await
+                        }
                     },
                     Err(_) => {
                         self.send_error_response(Some(id), -32000, "completion failed")
-- 
2.43.0


From 5e22a41117cc7a5146b5ae86191602d34e7d0fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 17/26] fix: publish diagnostics under the URI of the document

---
 crates/brack-language-server/src/notification/did_save.rs | 7 +++++--
 crates/brack-language-server/src/server.rs                | 5 +----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/brack-language-server/src/notification/did_save.rs b/crates/brack-language-server/src/notification/did_save.rs
index dc94db8..e712c09 100644
--- a/crates/brack-language-server/src/notification/did_save.rs
+++ b/crates/brack-language-server/src/notification/did_save.rs
@@ -29,7 +29,9 @@ impl Server {
 
         if errors.is_empty() {
             let diagnostics: Vec<Diagnostic> = vec![];
-            return self.send_publish_diagnostics(uri, &diagnostics).await;
+            return self
+                .send_publish_diagnostics(param.text_document.uri.as_str(), &diagnostics)
+                .await;
         }
 
         let mut diagnostics = vec![];
@@ -52,6 +54,7 @@ impl Server {
             };
             diagnostics.push(diagnostic);
         }
-        self.send_publish_diagnostics(uri, &diagnostics).await
+        self.send_publish_diagnostics(param.text_document.uri.as_str(), &diagnostics)
+            .await
     }
 }
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 1072447..2696f70 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -122,10 +122,7 @@ impl Server {
             (Some(id), None) => self.handle_response(&msg, id).await,
             (None, Some(method)) => match self.handle_notification(&msg, method).await {
                 Ok(()) => Ok(()),
-                Err(e) => {
-                    self.log_message(&format!("{} failed: {}", method, e))
-                        .await
-                }
+                Err(e) => self.log_message(&format!("{} failed: {}", method, e)).await,
             },
             _ => self.send_invalid_request_response().await,
         }
-- 
2.43.0


From 26ca5a8c822df84b3c53c7c8a0354a39b1aa0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:05 +0000
Subject: [PATCH 18/26] fix: complete macro commands after an opening angle
 bracket

---
 crates/brack-language-server/src/request/completion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-language-server/src/request/completion.rs b/crates/brack-language-server/src/request/completion.rs
index 45967ee..5888ccf 100644
--- a/crates/brack-language-server/src/request/completion.rs
+++ b/crates/brack-language-server/src/request/completion.rs
@@ -57,6 +57,7 @@ impl Server {
             for ((name, typ), command_metadata) in plugin.signature_to_metadata.iter() {
                 if (start == *"[" && matches!(typ, Type::TInline))
                     || (start == *"{" && matches!(typ, Type::TBlock))
+                    || (start == *"<" && matches!(typ, Type::TAST))
                 {
                     completion_items.push(build_completion_item(
                         &plugin.name,
-- 
2.43.0


From 59bccac1ab9f6832f1321478a5f3c9595bb5d899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:05 +0000
Subject: [PATCH 19/26] fix: create the plugins directory before writing
 downloaded plugins

---
 crates/brack-project-manager/src/project.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index b0ae3b5..6b738b9 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -107,6 +107,7 @@ impl Project {
             }
 
             let results = join_all(tasks).await;
+            std::fs::create_dir_all("plugins")?;
             for result in results {
                 let (name, path, bytes, flag) = result??;
                 std::fs::write(&path, &bytes)?;
-- 
2.43.0


From d3be9aa562f7635f384bb1b6b9419d034d53df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:05 +0000
Subject: [PATCH 20/26] fix: building a project without documents succeeds

---
 crates/brack-project-manager/src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 6b738b9..f17d818 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -125,6 +125,7 @@ impl Project {
         }
         let mut plugins = Plugins::new(plugin_vec)?;
 
+        std::fs::create_dir_all("out")?;
         let entries = std::fs::read_dir("docs")?;
         for entry in entries {
             let entry = entry?;
@@ -140,7 +141,6 @@ impl Project {
                 let (ast, _errors) = brack_transformer::transform::transform(&parsed);
                 let expanded = brack_expander::expand::expander(&ast, &mut plugins)?;
                 let gen = brack_codegen::generate::generate(&expanded, &mut plugins)?;
-                std::fs::create_dir_all("out")?;
                 std::fs::write(
                     format!("out/{}.{}", file_stem, self.config.document.backend),
                     gen,
-- 
2.43.0


From 0fd1d934cfe7f011cf5a5bc69ce35b88c9a2cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 21/26] fix: answer requests whose id is a string

---
 crates/brack-language-server/src/request.rs  |  2 +-
 crates/brack-language-server/src/response.rs |  2 +-
 crates/brack-language-server/src/result.rs   |  7 ++++---
 crates/brack-language-server/src/server.rs   | 10 +++++++---
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/brack-language-server/src/request.rs b/crates/brack-language-server/src/request.rs
index 6458454..d3f59e3 100644
--- a/crates/brack-language-server/src/request.rs
+++ b/crates/brack-language-server/src/request.rs
@@ -17,7 +17,7 @@ impl Server {
     pub(crate) async fn handle_request(
         &mut self,
         msg: &Value,
-        id: i64,
+        id: &Value,
         method: &str,
     ) -> Result<()> {
         match method {
diff --git a/crates/brack-language-server/src/response.rs b/crates/brack-language-server/src/response.rs
index 7167f18..77918d8 100644
--- a/crates/brack-language-server/src/response.rs
+++ b/crates/brack-language-server/src/response.rs
@@ -3,7 +3,7 @@ use anyhow::Result;
 use serde_json::Value;
 
 impl Server {
-    pub(crate) async fn handle_response(&self, _: &Value, _: i64) -> Result<()> {
+    pub(crate) async fn handle_response(&self, _: &Value, _: &Value) -> Result<()> {
         Ok(())
     }
 }
diff --git a/crates/brack-language-server/src/result.rs b/crates/brack-language-server/src/result.rs
index 24bee6d..a26e561 100644
--- a/crates/brack-language-server/src/result.rs
+++ b/crates/brack-language-server/src/result.rs
@@ -1,17 +1,18 @@
 use serde::Serialize;
+use serde_json::Value;
 
 #[derive(Serialize)]
 pub(crate) struct BLSResult<R: Serialize> {
     jsonrpc: String,
-    id: i64,
+    id: Value,
     result: R,
 }
 
 impl<R: Serialize> BLSResult<R> {
-    pub fn new(id: i64, result: R) -> Self {
+    pub fn new(id: &Value, result: R) -> Self {
         Self {
             jsonrpc: "2.0".to_string(),
-            id,
+            id: id.clone(),
             result,
         }
     }
diff --git a/crates/brack-language-server/src/server.rs b/crates/brack-language-server/src/server.rs
index 2696f70..aba64ea 100644
--- a/crates/brack-language-server/src/server.rs
+++ b/crates/brack-language-server/src/server.rs
@@ -48,7 +48,7 @@ impl Server {
 
     pub(crate) async fn send_error_response(
         &self,
-        id: Option<i64>,
+        id: Option<&Value>,
         code: i32,
         message: &str,
     ) -> Result<()> {
@@ -69,7 +69,11 @@ impl Server {
             .await
     }
 
-    pub(crate) async fn send_method_not_found_response(&self, id: i64, method: &str) -> Result<()> {
+    pub(crate) async fn send_method_not_found_response(
+        &self,
+        id: &Value,
+        method: &str,
+    ) -> Result<()> {
         self.send_error_response(Some(id), -32601, &format!("{} is not supported", method))
             .await
     }
@@ -109,7 +113,7 @@ impl Server {
 
     pub(crate) async fn dispatch(&mut self, msg: Value) -> Result<()> {
         match (
-            msg.get("id").and_then(|i| i.as_i64()),
+            msg.get("id").filter(|i| i.is_number() || i.is_string()),
             msg.get("method").and_then(|m| m.as_str()),
         ) {
             (Some(id), Some(method)) => match self.handle_request(&msg, id, method).await {
-- 
2.43.0


From 338859e8a1c1ef950d2412992e3cf933eff3b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:54 +0000
Subject: [PATCH 22/26] fix: plugin file names are NAME_HASH.wasm, whatever
 NAME is and wherever the folder lies

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 28ab2fb..6fdfe71 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,13 +31,14 @@ pub fn run_compile(subcommand: SubCommands) -> Result<()> {
         None => std::env::var("BRACK_PLUGINS_PATH").unwrap_or_default(),
     };
 
-    let pattern = Regex::new(r"(?<module_name>[[:alpha:]]+)_[[:alnum:]]+.wasm").unwrap();
+    let pattern = Regex::new(r"^(?<module_name>.+)_[[:alnum:]]+\.wasm$").unwrap();
     let entries = std::fs::read_dir(plugins_dir_path)?;
     for entry in entries {
         let entry = entry?;
         let path = entry.path();
         let capture = pattern.captures(
-            path.to_str()
+            path.file_name()
+                .and_then(|name| name.to_str())
                 .ok_or_else(|| anyhow::anyhow!("Could not convert file name to string."))?,
         );
         if let Some(capture) = capture {
-- 
2.43.0


From c3c1542be814bd43722d3fb0c3806ff090819ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 23/26] fix: a plugin's release depends on the backend, so its
 cached file does, too

---
 crates/brack-project-manager/src/plugin.rs  | 4 ++--
 crates/brack-project-manager/src/project.rs | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/brack-project-manager/src/plugin.rs b/crates/brack-project-manager/src/plugin.rs
index 388dd5e..fbbe0c6 100644
--- a/crates/brack-project-manager/src/plugin.rs
+++ b/crates/brack-project-manager/src/plugin.rs
@@ -171,9 +171,9 @@ impl<'de> Deserialize<'de> for PluginSchema {
 }
 
 impl PluginSchema {
-    pub fn hash_sha256(&self) -> String {
+    pub fn hash_sha256(&self, backend: &str) -> String {
         let mut hasher = Sha256::new();
-        hasher.update(format!("{:?}", self));
+        hasher.update(format!("{:?} {:?}", self, backend));
         format!("{:x}", hasher.finalize())
     }
 }
diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index f17d818..588c3fb 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -45,8 +45,11 @@ impl Project {
         if let Some(plugins) = self.config.plugins.clone() {
             let mut tasks = vec![];
             for (name, plugin) in plugins {
-                let path =
-                    PathBuf::from(&format!("plugins/{}_{}.wasm", name, plugin.hash_sha256()));
+                let path = PathBuf::from(&format!(
+                    "plugins/{}_{}.wasm",
+                    name,
+                    plugin.hash_sha256(&self.config.document.backend)
+                ));
                 let document_hook = (match plugin {
                     PluginSchema::GitHub { document_hook, .. } => document_hook,
                 })
-- 
2.43.0


From 35183e9549ecadbc2f6e43b8219100b96b4751e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 24/26] fix: an interrupted download leaves no partial plugin
 where later runs trust it

---
 crates/brack-project-manager/src/project.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/brack-project-manager/src/project.rs b/crates/brack-project-manager/src/project.rs
index 588c3fb..7bf5033 100644
--- a/crates/brack-project-manager/src/project.rs
+++ b/crates/brack-project-manager/src/project.rs
@@ -113,7 +113,10 @@ impl Project {
             std::fs::create_dir_all("plugins")?;
             for result in results {
                 let (name, path, bytes, flag) = result??;
-                std::fs::write(&path, &bytes)?;
+                // Later runs trust a file at this path, so it must never be there half written.
+                let part = path.with_extension("part");
+                std::fs::write(&part, &bytes)?;
+                std::fs::rename(&part, &path)?;
                 self.plugins_metadata.insert(name, (path, flag));
             }
         }
-- 
2.43.0


From 4aa79f04141ab9c3e9bca5f4c3c6e77c6f100db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:25 +0000
Subject: [PATCH 25/26] fix: the name of a new project is written as TOML,
 whatever characters it has

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6fdfe71..0477e56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -132,14 +132,14 @@ fn new_project(name: &str) -> Result<()> {
         format!("{}/Brack.toml", name),
         format!(
             r#"[document]
-name = "{}"
+name = {}
 version = "0.1.0"
 backend = ""
 authors = ["your name <your email>"]
 
 [plugins]
 "#,
-            name
+            toml::Value::from(name)
         ),
     )?;
     std::fs::write(
-- 
2.43.0


From d516ce951998e8da1c731c72895daabd0641e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:15 +0000
Subject: [PATCH 26/26] fix: a refused node without a value is named in the
 error instead of panicking

---
 crates/brack-transformer/src/ast.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/brack-transformer/src/ast.rs b/crates/brack-transformer/src/ast.rs
index 5da4323..224851a 100644
--- a/crates/brack-transformer/src/ast.rs
+++ b/crates/brack-transformer/src/ast.rs
@@ -194,11 +194,26 @@ impl AST {
                 }
                 Ok(())
             }
-            AST::Ident(node) => writeln!(f, "{}Ident: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Ident(node) => writeln!(
+                f,
+                "{}Ident: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Module(node) => {
-                writeln!(f, "{}Module: {}", ident_str, node.value.as_ref().unwrap())
+                writeln!(
+                    f,
+                    "{}Module: {}",
+                    ident_str,
+                    node.value.as_deref().unwrap_or_default()
+                )
             }
-            AST::Text(node) => writeln!(f, "{}Text: {}", ident_str, node.value.as_ref().unwrap()),
+            AST::Text(node) => writeln!(
+                f,
+                "{}Text: {}",
+                ident_str,
+                node.value.as_deref().unwrap_or_default()
+            ),
             AST::Invalid(_) => writeln!(f, "{}Invalid", ident_str),
             AST::Ignored(_) => writeln!(f, "{}Ignored", ident_str),
         }
-- 
2.43.0

