From 7e42a28f44a1fee677834f3e693c03b72affcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 01/34] fix: prefix_to_previous_leaf of a zero-width leaf

For an Indent that is the first leaf of its ancestors the loop stopped at a
non-leaf ancestor and returned an empty prefix instead of the text since the
previous leaf.
---
 crates/parsa/src/lib.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/parsa/src/lib.rs b/crates/parsa/src/lib.rs
index 723feeb..362f65d 100644
--- a/crates/parsa/src/lib.rs
+++ b/crates/parsa/src/lib.rs
@@ -176,13 +176,6 @@ macro_rules! __create_node {
                         start = node.start_index + node.length;
                         break
                     }
-                    if node.start_index >= self.internal_node.start_index + self.internal_node.length {
-                        let start = self.internal_node.start_index + self.internal_node.length;
-                        return self.code_slice(
-                            start,
-                            node.start_index,
-                        );
-                    }
                 }
                 self.code_slice(start, self.internal_node.start_index)
             }
-- 
2.43.0


From 8ced593d0a3959a6ab988378f83205f707aac3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 02/34] fix: a double quote ends the innermost f-string it can
 end

f"{f"a"}" is valid since Python 3.12. The single quote already closed the
innermost matching f-string, the double quote closed the outermost one.
---
 crates/parsa_python/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 1fc3f15..b863e03 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -245,7 +245,7 @@ impl PythonTokenizer<'_> {
                     }
                 }
             } else if character == '"' {
-                for (j, node) in self.f_string_stack.iter().enumerate() {
+                for (j, node) in self.f_string_stack.iter().enumerate().rev() {
                     let quote = node.quote;
                     match quote {
                         QuoteType::Double => return self.end_f_string(i, j, quote),
-- 
2.43.0


From 11ab5ccf2b93951040564e9e1190e67e6f149ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 03/34] fix: only skip a unicode name that directly follows \N
 in an f-string

The regex was not anchored, so f"\N {a} {b}" treated the first braces that
happened to follow as a character name and swallowed the expressions.
---
 crates/parsa_python/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index b863e03..2d7f8d9 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -38,7 +38,7 @@ lazy_static::lazy_static! {
 
     static ref NEWLINE: Regex = r(r"^(\r\n?|\n)");
     static ref F_STRING_START: Regex = r(r#"^([Ff][Rr]?|[Rr][Ff])("""|'''|'|")"#);
-    static ref UNICODE_CHARACTER_NAME: Regex = r(r"\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
+    static ref UNICODE_CHARACTER_NAME: Regex = r(r"^\{[A-Za-z0-9\-]+( [A-Za-z0-9\-]+)*\}");
 
     static ref ALWAYS_BREAK_NAMES: HashSet<&'static str> = [
         "import", "class", "def", "try", "except",
-- 
2.43.0


From 41ad546b8a51f04ffc2a2b7fe36a197e5a585b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 04/34] fix: rescan the whole indentation after a dedent

After a line continuation the indentation does not directly precede the next
token, so going back by its width could end up in the middle of a character
of a comment and panic.
---
 crates/parsa_python/src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 2d7f8d9..11904bf 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -464,6 +464,7 @@ impl Iterator for PythonTokenizer<'_> {
             return Some(token);
         }
 
+        let index_before_whitespace = self.index;
         let indentation = self.skip_whitespace();
 
         let start = self.index;
@@ -480,7 +481,8 @@ impl Iterator for PythonTokenizer<'_> {
                     self.previous_token_was_newline = false;
                     return self.new_tok(start, false, TerminalType::Indent);
                 } else if let Some(token) = self.dedent_if_necessary(indentation) {
-                    self.index -= indentation;
+                    // The indentation is looked at again for the next token.
+                    self.index = index_before_whitespace;
                     return Some(token);
                 }
             }
-- 
2.43.0


From 9ae6c18918631f5a5bb116b0b4ab83bc31f0ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:49 +0000
Subject: [PATCH 05/34] fix: do not consume past a truncated or invalid hex
 escape in a literal
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'\xé' and b'\x1' panicked (slice outside of the literal or inside of a
character), '\u12' was decoded as if it was followed by zeros.
---
 crates/parsa_python_cst/src/bytes.rs   |  3 ++-
 crates/parsa_python_cst/src/strings.rs | 17 +++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 9dc375a..8b39f73 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -28,7 +28,8 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
                 b'x' => {
-                    if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                    if let Some(c) = parse_hex(2, &inner_bytes[next_index + 1..]) {
+                        iterator.nth(1);
                         s.push(c as u8);
                         previous_insert += 2;
                     }
diff --git a/crates/parsa_python_cst/src/strings.rs b/crates/parsa_python_cst/src/strings.rs
index beb2235..b0fb401 100644
--- a/crates/parsa_python_cst/src/strings.rs
+++ b/crates/parsa_python_cst/src/strings.rs
@@ -67,17 +67,20 @@ impl<'db> PythonString<'db> {
                             }
                         }
                         b'u' => {
-                            if let Some(c) = parse_hex(4, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(4, &inner.as_bytes()[next_index + 1..]) {
+                                iterator.nth(3);
                                 s.push(c)
                             }
                         }
                         b'U' => {
-                            if let Some(c) = parse_hex(8, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(8, &inner.as_bytes()[next_index + 1..]) {
+                                iterator.nth(7);
                                 s.push(c)
                             }
                         }
                         b'x' => {
-                            if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(2, &inner.as_bytes()[next_index + 1..]) {
+                                iterator.nth(1);
                                 s.push(c)
                             }
                         }
@@ -199,12 +202,10 @@ impl<'db> PythonString<'db> {
     }
 }
 
-pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
-    count: usize,
-    iterator: I,
-) -> Option<char> {
+/// Parses exactly `count` hex digits at the start of the bytes
+pub(crate) fn parse_hex(count: usize, bytes: &[u8]) -> Option<char> {
     let mut number = 0;
-    for (i, (_, x)) in iterator.take(count).enumerate() {
+    for (i, x) in bytes.get(..count)?.iter().enumerate() {
         let digit = if x.is_ascii_digit() {
             *x - b'0'
         } else if (b'a'..=b'f').contains(x) {
-- 
2.43.0


From 3f601683bd89788fafbe88c376342e72381e53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:31 +0000
Subject: [PATCH 06/34] fix: normalise newlines in bytes literals

A \r\n in a bytes literal is a \n in Python and an escaped \r\n is a line
continuation; this was only implemented for strings.
---
 crates/parsa_python_cst/src/bytes.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 8b39f73..b1d1fa2 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -8,14 +8,22 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
     let code = literal.as_code();
     let unpacked = unpack_string_or_bytes_content(code);
     let inner_bytes = unpacked.inner.as_bytes();
-    if unpacked.had_raw_modifier {
+    if unpacked.had_raw_modifier && !inner_bytes.contains(&b'\r') {
         return Cow::Borrowed(inner_bytes);
     }
-    let mut iterator = inner_bytes.iter().enumerate();
+    let mut iterator = inner_bytes.iter().enumerate().peekable();
     let mut previous_insert = 0;
     let mut out = None;
     while let Some((i, ch)) = iterator.next() {
-        if ch == &b'\\' {
+        if ch == &b'\r' {
+            // Python replaces \r\n and \r with \n when it opens a file, see also the strings.
+            let s = out.get_or_insert_with(|| Vec::with_capacity(inner_bytes.len()));
+            s.extend_from_slice(&inner_bytes[previous_insert..i]);
+            previous_insert = i + 1;
+            if !matches!(iterator.peek(), Some((_, b'\n'))) {
+                s.push(b'\n');
+            }
+        } else if ch == &b'\\' && !unpacked.had_raw_modifier {
             if out.is_none() {
                 out = Some(Vec::with_capacity(inner_bytes.len()));
             }
@@ -27,6 +35,13 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
             match ch {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
+                b'\r' => {
+                    // Escaping a carriage return ignores it and maybe also the next newline
+                    if let Some((_, b'\n')) = iterator.peek() {
+                        iterator.next();
+                        previous_insert += 1;
+                    }
+                }
                 b'x' => {
                     if let Some(c) = parse_hex(2, &inner_bytes[next_index + 1..]) {
                         iterator.nth(1);
-- 
2.43.0


From 2a59c9ca9a1fe0c1661d1aa1310664a66bf6e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:02 +0000
Subject: [PATCH 07/34] fix: the content of a triple-quoted string literal is
 what is between its quotes

---
 crates/parsa_python_cst/src/lib.rs | 53 +++---------------------------
 1 file changed, 5 insertions(+), 48 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 5e252c6..22e27cb 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -29,6 +29,7 @@ use parsa_python::{
 pub use ranges::Range;
 pub use signatures::{SignatureArg, SignatureArgsIterator, SignatureBase};
 pub use strings::PythonString;
+use strings::unpack_string_or_bytes_content;
 
 pub const NAME_DEF_TO_NAME_DIFFERENCE: u32 = 1;
 
@@ -4909,57 +4910,13 @@ impl<'db> BytesLiteral<'db> {
 
 impl<'db> StringLiteral<'db> {
     pub fn content(&self) -> &'db str {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return &code[start + 3..code.len() - 3];
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        let (start, end) = self.content_start_and_end_in_literal_internal();
-        &code[start..end]
-    }
-
-    fn content_start_and_end_in_literal_internal(&self) -> (usize, usize) {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return (start + 3, code.len() - 3);
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        (start + 1, code.len() - 1)
+        unpack_string_or_bytes_content(self.node.as_code()).inner
     }
 
     pub fn content_start_and_end_in_literal(&self) -> (CodeIndex, CodeIndex) {
-        let (start, end) = self.content_start_and_end_in_literal_internal();
-        (start as CodeIndex, end as CodeIndex)
+        let unpacked = unpack_string_or_bytes_content(self.node.as_code());
+        let start = unpacked.inner_start_offset;
+        (start, start + unpacked.inner.len() as CodeIndex)
     }
 
     pub fn in_simple_assignment(&self) -> Option<NameDef<'db>> {
-- 
2.43.0


From aa3d01bf2aaef444cb2876ff280133afd4af7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:22 +0000
Subject: [PATCH 08/34] fix: the end of a comment before a newline token is
 inside of the comment

Completions were offered for a cursor at the end of 'x = 1 # comment', and a
carriage return did not end a comment.
---
 crates/parsa_python_cst/src/completion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 4093541..0404ab0 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -406,7 +406,7 @@ pub(crate) fn scope_for_node<'db>(node: PyNode<'db>) -> Scope<'db> {
 }
 
 fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(CodeIndex, &str)> {
-    if after_node.start() <= position {
+    if after_node.start() < position {
         return None;
     }
     let prefix = after_node.prefix_to_previous_leaf();
@@ -421,7 +421,7 @@ fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(Code
                 }
                 comment_start = Some(i);
             }
-            b'\n' => {
+            b'\n' | b'\r' => {
                 if let Some(comment_start) = comment_start
                     && position_in_prefix as usize <= i
                 {
-- 
2.43.0


From fe2cb62d1a77e83315674c7f779216636e94303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:22 +0000
Subject: [PATCH 09/34] fix: selection ranges contain the ranges before them

---
 crates/parsa_python_cst/src/ranges.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/parsa_python_cst/src/ranges.rs b/crates/parsa_python_cst/src/ranges.rs
index 3f50797..2bc7ac8 100644
--- a/crates/parsa_python_cst/src/ranges.rs
+++ b/crates/parsa_python_cst/src/ranges.rs
@@ -135,6 +135,14 @@ impl Iterator for SelectionRanges<'_> {
                 range.start -= before_node_code.len() as CodeIndex - prefix_n as CodeIndex - 1;
             }
         }
+        if let Some(previous) = self.previous {
+            // The range of a statement starts at the start of the line, which the nodes around it
+            // might not include.
+            range.start = range.start.min(previous.start);
+            if previous == range {
+                return self.next();
+            }
+        }
         match node.type_() {
             PyNodeType::Terminal(
                 TerminalType::Operator
-- 
2.43.0


From efdb5d5fddda7499b54ebb20799daf79b46acd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:22 +0000
Subject: [PATCH 10/34] fix: do not panic for a param of a function that
 contains errors

---
 crates/parsa_python_cst/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 22e27cb..c3f8471 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -4695,8 +4695,11 @@ impl<'db> NameDef<'db> {
         ) {
             None
         } else {
-            let par = parent.parent_until(&[Nonterminal(function_def)]).unwrap();
-            Some(FunctionDef::new(par))
+            // The function might have errors and then it's not a proper function_def.
+            parent
+                .parent_until(&[Nonterminal(function_def), ErrorNonterminal(function_def)])
+                .filter(|n| n.is_type(Nonterminal(function_def)))
+                .map(FunctionDef::new)
         }
     }
 
-- 
2.43.0


From c6309cd06f0d6b2848e78ba3bb76f4012801d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:20 +0000
Subject: [PATCH 11/34] fix: do not drop the token that a negative lookahead
 rejects

---
 crates/parsa/src/grammar.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 59f629a..beace1e 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -237,7 +237,11 @@ impl<'a, T: Token> Grammar<T> {
                     }
                 }
                 Some(plan) => {
-                    if plan.mode == PlanMode::PositivePeek {
+                    // A failed negative lookahead has no transitions, so that the next iteration
+                    // does error recovery with this token.
+                    if plan.mode == PlanMode::PositivePeek
+                        || plan.next_dfa().is_negative_lookahead()
+                    {
                         let tos_mut = stack.tos_mut();
                         tos_mut.dfa_state = plan.next_dfa();
                     } else {
-- 
2.43.0


From babfcb367502fb9f07feaea06f83d410d033720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:39 +0000
Subject: [PATCH 12/34] fix: do not add an omittable node again after
 backtracking

---
 crates/parsa/src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index beace1e..eab5e96 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -527,6 +527,8 @@ impl<'a, T: Token> Grammar<T> {
         if tos_mut.dfa_state.node_may_be_omitted
             && plan.mode != PlanMode::LeftRecursive
             && tos_mut.children_count == 1
+            // When an alternative fails the node was already added before the backtracking point.
+            && stack.tree_nodes[tos_mut.tree_node_index].type_ != tos_mut.node_id.to_squashed()
         {
             tos_mut.children_count = 1;
             tos_mut.latest_child_node_index = tos_mut.tree_node_index + 1;
-- 
2.43.0


From 66bb0ef84ef497fbcc790b8c317cc2dd0e18101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:46 +0000
Subject: [PATCH 13/34] fix: no panic for signatures of a call inside of an
 assignment target

---
 crates/parsa_python_cst/src/signatures.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/signatures.rs b/crates/parsa_python_cst/src/signatures.rs
index eb30887..a269927 100644
--- a/crates/parsa_python_cst/src/signatures.rs
+++ b/crates/parsa_python_cst/src/signatures.rs
@@ -49,7 +49,8 @@ impl Tree {
             if maybe_paren.as_code() != "(" || maybe_paren.end() > position {
                 continue;
             }
-            let base = ExpressionPart::new(first);
+            // The base of an assignment target like `a.b(c).d = 1` is not an expression.
+            let base = ExpressionPart::maybe_new(first)?;
             let Some(maybe_args) = iterator.next() else {
                 return Some((
                     scope,
-- 
2.43.0


From c9f22291767db7344f1715bb68999128bdbb89d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:49 +0000
Subject: [PATCH 14/34] fix: a starred element of a display is a bitwise or
 expression

---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index d404f40..f31ba23 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -263,7 +263,7 @@ create_grammar!(
     star_expressions: ",".(expression|star_expression)+ [","]
     star_expression: "*" bitwise_or
     star_named_expressions: ",".star_named_expression+ [","]
-    star_named_expression:? "*" disjunction | named_expression
+    star_named_expression:? "*" bitwise_or | named_expression
 
     named_expression: expression !":=" | walrus
     walrus: name_def ":=" expression
-- 
2.43.0


From 87fdc87f2a04e75b6b70f04b6d7952bb3ea96903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:27 +0000
Subject: [PATCH 15/34] fix: a comma is required between positional and keyword
 patterns of a class pattern

---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index f31ba23..9bf21c6 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -225,7 +225,7 @@ create_grammar!(
 
     class_pattern: dotted_pattern_name "(" param_patterns? ")"
     param_patterns:
-          ",".(pattern !"=")+ [",".(keyword_pattern)+] ","?
+          ",".(pattern !"=")+ ["," ",".(keyword_pattern)+] ","?
         | ",".(keyword_pattern)+ ","?
     keyword_pattern: Name "=" pattern
     dotted_pattern_name: [dotted_pattern_name "."] Name
-- 
2.43.0


From 989f444132524624ddddaf8c71393e8b47fcde1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:06 +0000
Subject: [PATCH 16/34] fix: a raw f-string has no named unicode escapes

---
 crates/parsa_python/src/tokenizer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 11904bf..26a1b9f 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -110,6 +110,7 @@ enum QuoteType {
 #[derive(Debug)]
 struct FStringNode {
     quote: QuoteType,
+    is_raw: bool,
     parentheses_level: usize,
     format_spec_count: usize,
 }
@@ -285,6 +286,7 @@ impl PythonTokenizer<'_> {
             } else if character == '\\' {
                 if let Some(&(_, next)) = iterator.peek() {
                     if next == 'N'
+                        && !self.f_string_tos().is_raw
                         && let Some(match_) = UNICODE_CHARACTER_NAME
                             .find(code_from_start(self.code, self.index + i + 2))
                     {
@@ -539,9 +541,9 @@ impl Iterator for PythonTokenizer<'_> {
         }
         if let Some(match_) = F_STRING_START.find(c) {
             self.index += match_.end();
+            let string = match_.as_str();
             self.f_string_stack.push(FStringNode {
                 quote: {
-                    let string = match_.as_str();
                     if string.contains("''") {
                         QuoteType::SingleTriple
                     } else if string.contains("\"\"") {
@@ -552,6 +554,7 @@ impl Iterator for PythonTokenizer<'_> {
                         QuoteType::Single
                     }
                 },
+                is_raw: string.contains(['r', 'R']),
                 parentheses_level: 0,
                 format_spec_count: 0,
             });
-- 
2.43.0


From 21688770be2a560f4d7d06bee0c317bcaacf398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:10 +0000
Subject: [PATCH 17/34] fix: white space is allowed in front of the format spec
 of an f-string

---
 crates/parsa_python/src/tokenizer.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 26a1b9f..7ec1522 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -217,18 +217,6 @@ impl PythonTokenizer<'_> {
     fn handle_fstring_stack(&mut self) -> Option<PyTerminal> {
         let in_expr = self.f_string_tos().in_expr();
         if in_expr {
-            if *self.code.as_bytes().get(self.index)? == b':' {
-                let tos = self.f_string_tos();
-                if tos.parentheses_level - tos.format_spec_count == 1 {
-                    tos.format_spec_count += 1;
-                    self.index += 1;
-                    // We cannot just return None here, because otherwise := would be tokenized
-                    // the wrong way.
-                    return self.new_tok(self.index - 1, true, TerminalType::Operator);
-                }
-                // By returning here, we are making sure that the normal
-                // tokenizer returns the as an operator.
-            }
             return None;
         }
         let c = code_from_start(self.code, self.index);
@@ -502,6 +490,17 @@ impl Iterator for PythonTokenizer<'_> {
             {
                 return tok;
             }
+            if character == b':'
+                && let Some(tos) = self.f_string_stack.last_mut()
+                && tos.in_expr()
+                && tos.parentheses_level - tos.format_spec_count == 1
+            {
+                // This starts a format spec. It needs to be checked here, because otherwise :=
+                // would be tokenized the wrong way.
+                tos.format_spec_count += 1;
+                self.index += 1;
+                return self.new_tok(start, true, TerminalType::Operator);
+            }
             self.index += match_.end();
 
             if character == b'(' || character == b'[' || character == b'{' {
-- 
2.43.0


From 5ee7bd367ea8b0eebc085fdcb72d4658525f4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:48 +0000
Subject: [PATCH 18/34] fix: a format spec of an f-string ends with its
 replacement field

---
 crates/parsa_python/src/tokenizer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 7ec1522..90660ab 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -126,10 +126,8 @@ impl FStringNode {
         if self.parentheses_level > 0 {
             self.parentheses_level -= 1;
         }
-        if self.parentheses_level == 0 {
-            // No parentheses means that the format spec is also finished.
-            self.format_spec_count = 0
-        }
+        // The format specs of closed parentheses are also finished.
+        self.format_spec_count = self.format_spec_count.min(self.parentheses_level);
     }
 
     #[inline]
-- 
2.43.0


From 9e376c68760eb01187689144b21985511caea929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:51 +0000
Subject: [PATCH 19/34] fix: no overflow for licenses that are valid for very
 many days

---
 crates/licensing/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/licensing/src/lib.rs b/crates/licensing/src/lib.rs
index d47843f..cbfbfd3 100644
--- a/crates/licensing/src/lib.rs
+++ b/crates/licensing/src/lib.rs
@@ -188,7 +188,10 @@ pub fn create_license(
 ) -> anyhow::Result<String> {
     let valid_from = SystemTime::now();
     const DAY: u64 = 60 * 60 * 24;
-    let valid_until = valid_from + Duration::from_secs(days * DAY);
+    let valid_until = days
+        .checked_mul(DAY)
+        .and_then(|secs| valid_from.checked_add(Duration::from_secs(secs)))
+        .ok_or_else(|| anyhow::anyhow!("A license cannot be valid for {days} days"))?;
     let mut license = License::create(
         name,
         email,
-- 
2.43.0


From a19d87fb456fd9a7433bfec325bc38d78b4c153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:49 +0000
Subject: [PATCH 20/34] fix: position of the codes of an ignore comment that is
 on a later line

---
 crates/parsa_python_cst/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index c3f8471..a8fc046 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -157,7 +157,6 @@ impl Tree {
                 }
                 start_at += comment.len() as CodeIndex + 1;
             }
-            start_at += 1;
         }
         result
     }
-- 
2.43.0


From 44d31809b22fe3c8d152f8e1611227f3dd051e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:53 +0000
Subject: [PATCH 21/34] fix: ignore comments with codes can be surrounded by
 tabs

---
 crates/parsa_python_cst/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index a8fc046..296da25 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -482,9 +482,9 @@ pub fn maybe_type_ignore<'db>(
     text: &'db str,
 ) -> Option<TypeIgnoreComment<'db>> {
     if let Some(after) = text.strip_prefix("ignore") {
-        let trimmed = after.trim_start_matches(' ');
+        let trimmed = after.trim_start_matches([' ', '\t']);
         let start_at = start_at + (text.len() - trimmed.len()) as CodeIndex;
-        let trimmed = trimmed.trim_end_matches(' ');
+        let trimmed = trimmed.trim_ascii_end();
         if let Some(trimmed) = trimmed.strip_prefix('[')
             && let Some(trimmed) = trimmed.strip_suffix(']')
             && !trimmed.is_empty()
-- 
2.43.0


From 48c6d371a182183333ccf3118479b2276f331bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:25 +0000
Subject: [PATCH 22/34] fix: glob patterns are case sensitive except on Windows

---
 crates/vfs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vfs/src/lib.rs b/crates/vfs/src/lib.rs
index e4e412d..99f33b7 100644
--- a/crates/vfs/src/lib.rs
+++ b/crates/vfs/src/lib.rs
@@ -113,7 +113,7 @@ pub trait VfsHandler: Sync + Send {
     }
 
     fn is_case_sensitive(&self) -> bool {
-        cfg!(target_os = "windows")
+        !cfg!(target_os = "windows")
     }
 
     fn is_unnecessary_invalidation(
-- 
2.43.0


From ed58b660240ac1f56eee1ae2d0852af1d310cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:26 +0000
Subject: [PATCH 23/34] fix: the file of an in-memory file uses the entry that
 was created for it

---
 crates/vfs/src/vfs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 3851511..aa4ce30 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -754,6 +754,8 @@ impl<F: VfsFile> Vfs<F> {
             match ensured.kind {
                 AddedKind::FileEntry(file_entry) => {
                     file_entry.with_set_file_index(|| file_index);
+                    // Dependencies are from now on added to the new entry.
+                    self.file_state_mut(file_index).file_entry = file_entry;
                     self.handler.on_invalidated_in_memory_file(path);
                 }
                 AddedKind::Gitignore(_) => {
-- 
2.43.0


From 691826e1c69cc57a66314d76cde77514da72b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:48 +0000
Subject: [PATCH 24/34] fix: file system events below a nested workspace belong
 to the nested workspace

---
 crates/vfs/src/workspaces.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/vfs/src/workspaces.rs b/crates/vfs/src/workspaces.rs
index 40f4b6a..d8a6057 100644
--- a/crates/vfs/src/workspaces.rs
+++ b/crates/vfs/src/workspaces.rs
@@ -211,6 +211,8 @@ impl Workspaces {
                     };
                     let found = entries.search(name)?;
                     match &*found {
+                        // The other workspace is responsible for its entries
+                        DirectoryEntry::Directory(d) if d.is_nested_workspace() => return None,
                         DirectoryEntry::Directory(d) => {
                             let x = d.clone();
                             drop(found);
-- 
2.43.0


From 9f4180dfd0b274a0ce7ce5f164190908525c9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:12 +0000
Subject: [PATCH 25/34] fix: notice directories that appear on disk after they
 were created for an in-memory file

---
 crates/vfs/src/tree.rs       | 12 ++++++++++++
 crates/vfs/src/vfs.rs        | 14 +++++++++++---
 crates/vfs/src/workspaces.rs |  2 +-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/vfs/src/tree.rs b/crates/vfs/src/tree.rs
index 097ee4c..074b6fd 100644
--- a/crates/vfs/src/tree.rs
+++ b/crates/vfs/src/tree.rs
@@ -215,6 +215,8 @@ pub struct Directory {
     pub(crate) entries: OnceLock<DirEntries>,
     pub parent: Parent,
     pub name: Arc<str>,
+    /// Was created because of an in-memory file inside of it and might therefore not be on disk.
+    pub(crate) created_for_in_memory_file: bool,
 }
 
 #[derive(Debug, Clone)]
@@ -241,6 +243,16 @@ impl Directory {
             entries: Default::default(),
             parent,
             name,
+            created_for_in_memory_file: false,
+        })
+    }
+
+    pub(crate) fn new_for_in_memory_file(parent: Parent, name: Arc<str>) -> Arc<Self> {
+        Arc::new(Self {
+            entries: Default::default(),
+            parent,
+            name,
+            created_for_in_memory_file: true,
         })
     }
 
diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index aa4ce30..119cec9 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -673,15 +673,23 @@ impl<F: VfsFile> Vfs<F> {
                 });
             };
             parent.with_entries(self, |in_dir| {
-                if self
-                    .handler
-                    .is_unnecessary_invalidation(path, in_dir.search(replace_name).as_deref())
+                let current = in_dir.search(replace_name);
+                // Such a directory was potentially read before it existed on disk.
+                let is_in_memory_dir = matches!(
+                    current.as_deref(),
+                    Some(DirectoryEntry::Directory(dir)) if dir.created_for_in_memory_file
+                );
+                if !is_in_memory_dir
+                    && self
+                        .handler
+                        .is_unnecessary_invalidation(path, current.as_deref())
                 {
                     tracing::debug!(
                         "Ignored invalidation for {path}, because it is an unnecessary invalidation"
                     );
                     return;
                 }
+                drop(current);
                 let new_entry = self.handler.read_and_watch_entry(
                     &*self.workspaces.items.load(),
                     path,
diff --git a/crates/vfs/src/workspaces.rs b/crates/vfs/src/workspaces.rs
index d8a6057..dea0355 100644
--- a/crates/vfs/src/workspaces.rs
+++ b/crates/vfs/src/workspaces.rs
@@ -591,7 +591,7 @@ fn ensure_dirs_and_file(
                 _ => unimplemented!("Dir overwrite of file; When does this happen?"),
             }
         };
-        let dir2 = Directory::new(parent, Arc::from(name));
+        let dir2 = Directory::new_for_in_memory_file(parent, Arc::from(name));
         let mut result = ensure_dirs_and_file(
             Parent::Directory(Arc::downgrade(&dir2)),
             Directory::entries_with_workspaces(vfs, workspaces, &dir2),
-- 
2.43.0


From 7798050b2945978bb33ff70a68ee4ea64e7ccd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:32 +0000
Subject: [PATCH 26/34] fix: do not follow symbolic links that form a loop
 forever

---
 crates/vfs/src/local_fs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/vfs/src/local_fs.rs b/crates/vfs/src/local_fs.rs
index 01d966c..f4cacce 100644
--- a/crates/vfs/src/local_fs.rs
+++ b/crates/vfs/src/local_fs.rs
@@ -13,6 +13,8 @@ use crate::{
 };
 
 const GLOBALLY_IGNORED_FOLDERS: [&str; 3] = ["site-packages", "node_modules", "__pycache__"];
+// The same limit as in the Linux kernel
+const MAX_FOLLOWED_LINKS: usize = 40;
 
 pub type SimpleLocalFS = LocalFS<Box<dyn Fn(PathWithScheme) + Sync + Send>>;
 
@@ -321,14 +323,20 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
         &self,
         path: P,
     ) -> Result<ResolvedFileType, String> {
-        self.follow_symlink_internal(path.as_ref(), path.as_ref())
+        self.follow_symlink_internal(path.as_ref(), path.as_ref(), 0)
     }
 
     fn follow_symlink_internal(
         &self,
         origin_path: &Path,
         path: &Path,
+        followed_links: usize,
     ) -> Result<ResolvedFileType, String> {
+        if followed_links >= MAX_FOLLOWED_LINKS {
+            return Err(format!(
+                "Too many levels of symbolic links in {origin_path:?}"
+            ));
+        }
         self.watch(path);
         let target_path = resolve_link(path)?;
         let metadata = std::fs::symlink_metadata(&target_path).map_err(|e| format!("{e}"))?;
@@ -349,7 +357,7 @@ impl<T: Fn(PathWithScheme) + Sync + Send> LocalFS<T> {
             }
             Ok(ResolvedFileType::Directory)
         } else if file_type.is_symlink() {
-            self.follow_symlink_internal(origin_path, &target_path)
+            self.follow_symlink_internal(origin_path, &target_path, followed_links + 1)
         } else {
             debug_assert!(file_type.is_file());
             Ok(ResolvedFileType::File)
-- 
2.43.0


From 67978001ada8df28bdb072a71b4a86cacd87ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 27/34] fix: invalidate the files that looked for a name when
 an unread file of this name goes away

---
 crates/vfs/src/vfs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 119cec9..33b1597 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -658,6 +658,14 @@ impl<F: VfsFile> Vfs<F> {
                                     }
                                 }
                                 all_unloads.insert(file_index);
+                            } else {
+                                // For example a file `foo` where a package `foo` was searched
+                                match &*f.invalidations.borrow() {
+                                    InvalidationDetail::InvalidatesDb => invalidates_db = true,
+                                    InvalidationDetail::Some(invs) => {
+                                        all_invalidations.extend(invs)
+                                    }
+                                }
                             }
                         }
                         DirectoryEntry::MissingEntry(missing) => {
-- 
2.43.0


From b4fdb71172288c79c01c7ffeff4cea7b163a579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 28/34] fix: recognize the items of an async with statement

---
 crates/parsa_python_cst/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 296da25..7df1574 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -1771,8 +1771,9 @@ impl<'db> WithItem<'db> {
     }
 
     pub fn in_async_with_stmt(&self) -> bool {
-        let with = self.node.parent().unwrap().parent().unwrap();
-        with.is_type(Nonterminal(async_stmt))
+        let items = self.node.parent().unwrap();
+        let with = items.parent().unwrap();
+        with.parent().unwrap().is_type(Nonterminal(async_stmt))
     }
 }
 
-- 
2.43.0


From feedced26032c06930b87323ccc5baec46e0cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 29/34] fix: find the parentheses of a class without arguments

---
 crates/parsa_python_cst/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 7df1574..99d9ebe 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -2389,16 +2389,19 @@ impl<'db> ClassDef<'db> {
     }
 
     pub fn closing_and_opening_parentheses(&self) -> Option<std::ops::Range<CodeIndex>> {
+        // "class" name_def [type_params] ["(" [arguments] ")"] ":" block
         let mut iterator = self.node.iter_children().skip(2);
         let mut opening_paren = iterator.next().unwrap();
+        if opening_paren.is_type(Nonterminal(type_params)) {
+            opening_paren = iterator.next().unwrap();
+        }
         if opening_paren.as_code() != "(" {
-            if opening_paren.is_type(Nonterminal(type_params)) {
-                opening_paren = iterator.next().unwrap();
-            } else {
-                return None;
-            }
+            return None;
+        }
+        let mut closing_paren = iterator.next().unwrap();
+        if closing_paren.is_type(Nonterminal(arguments)) {
+            closing_paren = iterator.next().unwrap();
         }
-        let closing_paren = iterator.skip(1).next().unwrap();
         Some(opening_paren.start()..closing_paren.end())
     }
 
-- 
2.43.0


From b06c817ade3eea8380bca0e9f2f4c4e99fae975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 30/34] fix: do not panic when dedenting lines with multi-byte
 white space

---
 crates/utils/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index 49faa1c..34f9856 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -251,11 +251,8 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     let new_lines: Vec<_> = lines
         .iter()
         .map(|line| {
-            if line.len() >= indent {
-                &line[indent..]
-            } else {
-                line
-            }
+            // A line that is shorter or starts with other (multi-byte) white space stays as it is
+            line.get(indent..).unwrap_or(line)
         })
         .collect();
     Cow::Owned(new_lines.join("\n"))
-- 
2.43.0


From 1221229bd5fdf1ad36f9cbbf5036264501bfc509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 31/34] fix: complete the names of a module in `from . import`

---
 crates/parsa_python_cst/src/completion.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 0404ab0..976e8fe 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -150,12 +150,11 @@ impl Tree {
                 }
                 "import" => {
                     if let Some(before_imp) = previous.previous_sibling() {
-                        if before_imp.is_type(Nonterminal(dotted_import_name)) {
-                            return (
-                                scope,
-                                import_from_target_node(before_imp.parent().unwrap()),
-                                rest,
-                            );
+                        let parent = before_imp.parent().unwrap();
+                        if parent.is_type_or_error_thereof(Nonterminal(import_from))
+                            && before_imp.as_code() != "from"
+                        {
+                            return (scope, import_from_target_node(parent), rest);
                         }
                     } else {
                         return (scope, CompletionNode::ImportName { path: None }, rest);
-- 
2.43.0


From be7e0dff35c16934738a3677810d021da61780fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 32/34] fix: complete modules behind a comma of an import

---
 crates/parsa_python_cst/src/completion.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 976e8fe..c6c5b6b 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -180,6 +180,9 @@ impl Tree {
                         return (scope, CompletionNode::NecessaryKeyword("import"), rest);
                     }
                 }
+                Nonterminal(dotted_as_names) | ErrorNonterminal(dotted_as_names) => {
+                    return (scope, CompletionNode::ImportName { path: None }, rest);
+                }
                 Nonterminal(import_from_targets) | ErrorNonterminal(import_from_targets) => {
                     return (
                         scope,
-- 
2.43.0


From 118c313a020b1ac494c1fa3e052a2d21af3e6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 33/34] fix: the arguments of an outer call are not those of
 the inner call

---
 crates/parsa_python_cst/src/completion.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index c6c5b6b..ac41f65 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -303,6 +303,10 @@ fn context(node: PyNode) -> Option<CompletionContext> {
 }
 
 fn call_args(node: PyNode) -> Option<CallArgs> {
+    if node.as_code() == "(" {
+        // There are no arguments before, the ones around it are those of another call.
+        return None;
+    }
     let args = node.parent_until(&[
         Nonterminal(arguments),
         ErrorNonterminal(arguments),
-- 
2.43.0


From f36d41e7d0ea58048bd746590876dc17621a6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:48 +0000
Subject: [PATCH 34/34] fix: the end of a line with surrogate pairs is not out
 of bounds

---
 crates/zuban_python/src/lines.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zuban_python/src/lines.rs b/crates/zuban_python/src/lines.rs
index fa3f16e..4c0f1f3 100644
--- a/crates/zuban_python/src/lines.rs
+++ b/crates/zuban_python/src/lines.rs
@@ -199,9 +199,7 @@ impl NewlineIndices {
 fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePositionInfos> {
     let mut utf16_count = 0;
 
-    let mut char_indices_counter = 0;
     for (utf8_idx, c) in s.char_indices() {
-        char_indices_counter += 1;
         if utf16_count == utf16_pos {
             return Ok(BytePositionInfos {
                 byte: utf8_idx as CodeIndex,
@@ -219,7 +217,7 @@ fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePo
     }
     Ok(BytePositionInfos {
         byte: s.len() as CodeIndex,
-        column_out_of_bounds: utf16_pos > char_indices_counter,
+        column_out_of_bounds: utf16_pos > utf16_count,
     })
 }
 
-- 
2.43.0

