From 1a4acff3284d8cbccd5b6e75b8c3f5ee27fa33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 01/18] fix: slice tokens after non-ASCII characters at
 character boundaries

The byte position after a multi-byte character was computed as its start
plus one, so a comment ending with one, or an identifier following one,
panicked when the source was sliced.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From 4b3eaee69c7f5490d986062c8d352326023c3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 02/18] fix: do not take `/*/` for a complete block comment

The opening `*` was also accepted as the closing one, so the body of a
comment that starts with `/*/` was lexed as code.
---
 src/parser/lexing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..d92a89c 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -297,6 +297,8 @@ impl<'a> Lexer<'a> {
 
     /// Scan the slice that is supposed to be a block comment
     fn lex_blockcomment(&mut self) {
+        // The `*` of the opening `/*` cannot close the comment
+        self.next();
         while let Some(c) = self.next() {
             if c == '*' {
                 if let Some(c) = self.peek() {
-- 
2.43.0


From 3bcacc379da33cbe83582ed995d37cb3d2d17372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 03/18] fix: report an unexpected end of file instead of
 panicking

advance_with_error() asserted that there is a token left to skip, and
error() that there is a last token.
---
 src/parser/parsing.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..b74d1ca 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -224,20 +224,21 @@ impl<'a> Parser<'a> {
                 self.name, tok.start.line, tok.start.col, msg
             ));
         } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
+            let (line, col) = self
+                .tokens
+                .last()
+                .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
+            self.errors
+                .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
         }
     }
 
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
         let mark = self.enter();
-        self.advance();
+        if !self.eof() {
+            self.advance();
+        }
         self.exit(mark, SyntaxKind::Error);
     }
 
-- 
2.43.0


From a2dec971def776ab251a57ba441fb26a7c0ab83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 04/18] fix: end a parse that makes no progress with a syntax
 error

Erroneous input (for example an unclosed list at the end of a nested
equation) made the parser panic with "Parser stuck" instead of reporting
the errors it had found.
---
 src/parser/parsing.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index b74d1ca..a8b68c3 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -28,6 +28,8 @@ struct Parser<'a> {
     pos: usize,
     /// Parser lifes
     lifes: Cell<u32>,
+    /// `true` if parser cannot make any progress
+    stuck: Cell<bool>,
 }
 
 impl<'a> Parser<'a> {
@@ -126,6 +128,9 @@ impl<'a> Parser<'a> {
             SyntaxKind::AnnotationClause => annotation_clause(self),
             SyntaxKind::Error => panic!("cannot parse error node"),
         }
+        if self.stuck.get() {
+            self.error(String::from("parser stuck"));
+        }
     }
 
     /// Return a new parser instance
@@ -138,6 +143,7 @@ impl<'a> Parser<'a> {
             errors: Vec::new(),
             pos: 0,
             lifes: Cell::new(100),
+            stuck: Cell::new(false),
         }
     }
 
@@ -162,21 +168,22 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(!self.eof());
+        assert!(self.pos < self.tokens.len());
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
     }
 
-    /// Return `true` if parser reached the end of file
+    /// Return `true` if parser reached the end of file or gave up
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.stuck.get() || self.pos == self.tokens.len()
     }
 
     /// Return type of the n-th token counting from the current one.
     fn nth(&self, n: usize) -> ModelicaToken {
         if self.lifes.get() == 0 {
-            self.blowup();
+            self.stuck.set(true);
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,18 +191,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
-- 
2.43.0


From 94969895761d2842d6bedb1aaea727b069a5e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 05/18] fix: measure distances from the end of inline block
 comments

A block comment that starts after a token and spans several lines was
followed by a blank line that is not in the source, and by a different
layout where a blank line is required.
---
 src/formatter/formatting.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..87f1dd1 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -142,19 +142,21 @@ impl Formatter {
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
+        let mut line = self.prev_line;
         for comment in inlines {
             if !self.markers.is_empty() {
                 self.markers.push(Marker::Space);
             }
+            line = comment.end.line;
             self.markers.push(Marker::Token(comment.text));
         }
         if let Blank::Required = blanks {
             self.markers.push(Marker::Blank);
         }
-        let mut line = self.prev_line;
+        let mut is_first = true;
         for comment in comments {
             if let Blank::Required = blanks {
-                if line > self.prev_line {
+                if !is_first {
                     if comment.start.line - line > 1 {
                         self.markers.push(Marker::Blank);
                     } else {
@@ -168,6 +170,7 @@ impl Formatter {
             }
             self.markers.push(Marker::Token(comment.text));
             line = comment.end.line;
+            is_first = false;
         }
         if let Blank::Legal = blanks {
             if tok.start.line - line > 1 {
@@ -177,7 +180,7 @@ impl Formatter {
             }
         } else if let Blank::Illegal = blanks {
             self.markers.push(Marker::Break);
-        } else if line > self.prev_line {
+        } else if !is_first {
             if tok.start.line - line > 1 {
                 self.markers.push(Marker::Blank);
             } else {
-- 
2.43.0


From 343dc76e8984c3afffe3506d82d691ec87dad3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 06/18] fix: keep comments before the first class and start
 files without a blank

Comments before the first token were dropped from files without a within
clause, and files that start with `final` or with an empty line before
the first comment were printed with a leading line break.
---
 src/formatter/formatting.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 87f1dd1..fc514a7 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -163,6 +163,8 @@ impl Formatter {
                         self.markers.push(Marker::Break);
                     }
                 }
+            } else if self.markers.is_empty() {
+                // The first line of the file is not preceded by any break
             } else if comment.start.line - line > 1 {
                 self.markers.push(Marker::Blank);
             } else {
@@ -224,8 +226,9 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
-                        f.handle_break(tree.start(), Blank::Legal);
+                    let tok = tree.start();
+                    if tok.idx > 0 && f.prev_tok != ModelicaToken::Final {
+                        f.handle_break(tok, Blank::Legal);
                     }
                     class_definition(f, tree);
                 }
@@ -233,7 +236,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             },
             Child::Token(tok) => {
                 let kind = tok.kind;
-                if kind == ModelicaToken::Final {
+                if kind == ModelicaToken::Final && tok.idx > 0 {
                     f.handle_break(&tok, Blank::Legal);
                 } else if kind == ModelicaToken::Within && tok.idx > 0 {
                     f.handle_break(&tok, Blank::Illegal);
-- 
2.43.0


From b45b2f8951663be99134b33f26a828fc3b470644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 07/18] fix: keep comments after the last token

Comments at the end of a file, and the comments of a file that contains
nothing else, were dropped.
---
 src/formatter/formatting.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index fc514a7..715281f 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -191,6 +191,22 @@ impl Formatter {
         }
     }
 
+    /// Insert comments that follow the last token
+    fn handle_trailing_comments(&mut self) {
+        let mut line = self.prev_line;
+        while let Some(comment) = self.comments.next() {
+            if !self.markers.is_empty() {
+                self.markers.push(match comment.start.line - line {
+                    0 if line == self.prev_line => Marker::Space,
+                    0 | 1 => Marker::Break,
+                    _ => Marker::Blank,
+                });
+            }
+            line = comment.end.line;
+            self.markers.push(Marker::Token(comment.text));
+        }
+    }
+
     /// Return comments from before the specified token.
     /// First vector contains inline comments.
     fn comments_before(&mut self, tok: &Token) -> (Vec<Token>, Vec<Token>) {
@@ -248,6 +264,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             }
         }
     }
+    f.handle_trailing_comments();
 }
 
 fn class_definition(f: &mut Formatter, tree: Tree) {
-- 
2.43.0


From 0acdffba6cfd502c4de7fbbc31bcc80aa5bb1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 08/18] fix: end the indentation of a wrapped left-hand side

A wrapped expression on the left of an equation, or in the output list of
a statement, left the rest of the file indented by one more level.
---
 src/formatter/formatting.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 715281f..270cb83 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -1211,7 +1211,11 @@ fn equation(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
             Child::Tree(tree) => match tree.kind {
-                SyntaxKind::SimpleExpression => _ = simple_expression(f, tree, false),
+                SyntaxKind::SimpleExpression => {
+                    if simple_expression(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::Expression => {
                     let is_multiline_if =
                         tree.is_multiline() && tree.start().kind == ModelicaToken::If;
@@ -1272,7 +1276,11 @@ fn statement(f: &mut Formatter, tree: Tree) {
                     }
                 }
                 SyntaxKind::FunctionCallArgs => function_call_args(f, tree),
-                SyntaxKind::OutputExpressionList => _ = output_expression_list(f, tree, false),
+                SyntaxKind::OutputExpressionList => {
+                    if output_expression_list(f, tree, false) {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::IfStatement => if_statement(f, tree),
                 SyntaxKind::ForStatement => for_statement(f, tree),
                 SyntaxKind::WhileStatement => while_statement(f, tree),
-- 
2.43.0


From da2b970dbf5db8fd1492ca93b4a289c3e77b88a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 09/18] fix: indent the wrapped arguments of a function partial
 application

They were aligned with the line that opens the list, unlike those of
every other list.
---
 src/formatter/formatting.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 270cb83..706f2cf 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -2083,6 +2083,7 @@ fn function_partial_application(f: &mut Formatter, tree: Tree) {
             }
         }
     }
+    f.markers.push(Marker::Indent);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -2105,6 +2106,7 @@ fn function_partial_application(f: &mut Formatter, tree: Tree) {
             }
         }
     }
+    f.markers.push(Marker::Dedent);
 }
 
 fn output_expression_list(f: &mut Formatter, tree: Tree, mut wrapped: bool) -> bool {
-- 
2.43.0


From bd41f4ea5fd01e97ffb288295e169b210d1c7c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 10/18] fix: wrap lists that contain a description at the first
 pass

Descriptions, annotations and constraining clauses always go to a line of
their own, so the list around them is wrapped; when it was written on one
line it was wrapped only by formatting the result again.
---
 src/formatter/formatting.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 706f2cf..da86cc0 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -778,7 +778,11 @@ fn constraining_clause(f: &mut Formatter, tree: Tree) {
 
 fn class_or_inheritance_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline() && tree.len() > 2;
+    let is_multiline = (tree.is_multiline()
+        || tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause))
+        && tree.len() > 2;
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -870,7 +874,10 @@ fn type_prefix(f: &mut Formatter, tree: Tree) {
 }
 
 fn component_list(f: &mut Formatter, tree: Tree) {
-    let is_multiline = tree.is_multiline();
+    let is_multiline = tree.is_multiline()
+        || tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause);
     let children_count = tree.len();
     if is_multiline && children_count > 1 {
         f.markers.push(Marker::Indent);
@@ -975,7 +982,8 @@ fn class_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
     let is_multiline = tree.is_multiline()
         || tree.contains(SyntaxKind::DescriptionString)
-        || tree.contains(SyntaxKind::Description);
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
-- 
2.43.0


From aece61b0896620c71dcfbcbd6969c531cd6e9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 11/18] fix: report files that cannot be written and
 directories that cannot be read

An unwritable file or unreadable directory made mofmt panic, and the remaining
files were not processed.
---
 src/main.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e08f47..3bbcd7f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -52,7 +52,7 @@ fn format_files(args: &[String], check: bool) {
         .map(PathBuf::from)
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, &mut code)
             } else {
                 vec![p]
             }
@@ -85,8 +85,9 @@ fn format_files(args: &[String], check: bool) {
                         } else {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
-                    } else {
-                        write_file(p, output);
+                    } else if let Err(e) = write_file(p, output) {
+                        eprintln!("{}: error: {}", name, e);
+                        code = 1;
                     }
                 }
             }
@@ -100,15 +101,25 @@ fn format_files(args: &[String], check: bool) {
 }
 
 /// Return all Modelica files from the given directory
-fn get_files_from_dir(dir: PathBuf) -> Vec<PathBuf> {
+///
+/// Report directories that cannot be read, and set `code` accordingly
+fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
     let mut files = Vec::new();
-    let paths = fs::read_dir(&dir)
-        .unwrap_or_else(|_| panic!("{}: error reading from a directory", dir.display()));
+    let paths = match fs::read_dir(&dir).and_then(|entries| entries.collect::<Result<Vec<_>, _>>())
+    {
+        Ok(entries) => entries,
+        Err(e) => {
+            eprintln!("{}: error: {}", dir.display(), e);
+            *code = 1;
+            return files;
+        }
+    };
     paths
-        .map(|e| e.unwrap().path())
+        .into_iter()
+        .map(|e| e.path())
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, code)
             } else if is_modelica(p.as_path()) {
                 vec![p]
             } else {
@@ -140,6 +151,6 @@ fn read_file(from: &Path) -> Result<String, String> {
 }
 
 /// Write formatted code to a file
-fn write_file(to: &Path, code: String) {
-    fs::write(to, code).unwrap_or_else(|_| panic!("{}: error writing a file", to.display()));
+fn write_file(to: &Path, code: String) -> std::io::Result<()> {
+    fs::write(to, code)
 }
-- 
2.43.0


From a531ce52526da5f16e02532956675bad3e296e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 12/18] fix: report tokens left over after the requested rule

parse() accepted a source with tokens left after the rule it was asked
for, and build_tree() and pretty_print() then panicked on them.
---
 src/parser/parsing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index a8b68c3..9fd3128 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -130,6 +130,8 @@ impl<'a> Parser<'a> {
         }
         if self.stuck.get() {
             self.error(String::from("parser stuck"));
+        } else if self.errors.is_empty() && !self.eof() {
+            self.error(format!("unexpected {:?}", self.nth(0)));
         }
     }
 
-- 
2.43.0


From 3bca91e317fb8135446fb55713d51d9feae1c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 13/18] fix: require an operand after the last separator of a
 source

A list or an expression that ended with a separator or an operator at the
very end of the source was accepted, and could panic when printed.
---
 src/parser/parsing.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 9fd3128..ee8168f 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -413,7 +413,7 @@ fn der_class_specifier(p: &mut Parser) {
     type_specifier(p);
     p.expect(ModelicaToken::Comma);
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.expect(ModelicaToken::RParen);
@@ -432,7 +432,7 @@ fn base_prefix(p: &mut Parser) {
 fn enum_list(p: &mut Parser) {
     let mark = p.enter();
     enumeration_literal(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         enumeration_literal(p);
     }
     p.exit(mark, SyntaxKind::EnumList);
@@ -584,7 +584,7 @@ fn import_clause(p: &mut Parser) {
 fn import_list(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::Identifier);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         p.expect(ModelicaToken::Identifier);
     }
     p.exit(mark, SyntaxKind::ImportList);
@@ -632,7 +632,7 @@ fn argument_or_inheritance_modification_list(p: &mut Parser) {
     } else {
         argument(p);
     }
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         if p.check(ModelicaToken::Break) {
             inheritance_modification(p);
         } else {
@@ -683,7 +683,7 @@ fn type_prefix(p: &mut Parser) {
 fn component_list(p: &mut Parser) {
     let mark = p.enter();
     component_declaration(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         component_declaration(p);
     }
     p.exit(mark, SyntaxKind::ComponentList);
@@ -759,7 +759,7 @@ fn class_modification(p: &mut Parser) {
 fn argument_list(p: &mut Parser) {
     let mark = p.enter();
     argument(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         argument(p);
     }
     p.exit(mark, SyntaxKind::ArgumentList);
@@ -1036,7 +1036,7 @@ fn for_statement(p: &mut Parser) {
 fn for_indices(p: &mut Parser) {
     let mark = p.enter();
     for_index(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         for_index(p);
     }
     p.exit(mark, SyntaxKind::ForIndices);
@@ -1161,7 +1161,7 @@ fn simple_expression(p: &mut Parser) {
 fn logical_expression(p: &mut Parser) {
     let mark = p.enter();
     logical_term(p);
-    while p.consume(ModelicaToken::Or) && !p.eof() {
+    while p.consume(ModelicaToken::Or) {
         logical_term(p);
     }
     p.exit(mark, SyntaxKind::LogicalExpression);
@@ -1170,7 +1170,7 @@ fn logical_expression(p: &mut Parser) {
 fn logical_term(p: &mut Parser) {
     let mark = p.enter();
     logical_factor(p);
-    while p.consume(ModelicaToken::And) && !p.eof() {
+    while p.consume(ModelicaToken::And) {
         logical_factor(p);
     }
     p.exit(mark, SyntaxKind::LogicalTerm);
@@ -1289,7 +1289,7 @@ fn primary(p: &mut Parser) {
         ModelicaToken::LBracket => {
             p.advance();
             expression_list(p);
-            while p.consume(ModelicaToken::Semicolon) && !p.eof() {
+            while p.consume(ModelicaToken::Semicolon) {
                 expression_list(p);
             }
             p.expect(ModelicaToken::RBracket);
@@ -1346,7 +1346,7 @@ fn component_reference(p: &mut Parser) {
     if p.check(ModelicaToken::LBracket) {
         array_subscripts(p);
     }
-    while p.consume(ModelicaToken::Dot) && !p.eof() {
+    while p.consume(ModelicaToken::Dot) {
         p.expect(ModelicaToken::Identifier);
         if p.check(ModelicaToken::LBracket) {
             array_subscripts(p);
@@ -1492,7 +1492,7 @@ fn output_expression_list(p: &mut Parser) {
 fn expression_list(p: &mut Parser) {
     let mark = p.enter();
     expression(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         expression(p);
     }
     p.exit(mark, SyntaxKind::ExpressionList);
@@ -1502,7 +1502,7 @@ fn array_subscripts(p: &mut Parser) {
     let mark = p.enter();
     p.expect(ModelicaToken::LBracket);
     subscript(p);
-    while p.consume(ModelicaToken::Comma) && !p.eof() {
+    while p.consume(ModelicaToken::Comma) {
         subscript(p);
     }
     p.expect(ModelicaToken::RBracket);
@@ -1529,7 +1529,7 @@ fn description(p: &mut Parser) {
 fn description_string(p: &mut Parser) {
     let mark = p.enter();
     if p.consume(ModelicaToken::String) {
-        while p.consume(ModelicaToken::Plus) && !p.eof() {
+        while p.consume(ModelicaToken::Plus) {
             p.expect(ModelicaToken::String);
         }
     }
-- 
2.43.0


From a08488dfb26ec5b701a6e42ebfd830dda39d32d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 14/18] fix: check the operator when an operator is parsed on
 its own

parse() took any token as an operator and panicked on an empty source when
it was asked for RelationalOperator, AddOperator or MulOperator.
---
 src/parser/parsing.rs | 62 +++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index ee8168f..677a2e4 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -246,6 +246,16 @@ impl<'a> Parser<'a> {
             self.error(format!("expected {typ:?}, found {:?}", self.nth(0)));
         }
     }
+
+    /// Advance the parser if current token is any of the expected types.
+    /// Report error otherwise.
+    fn expect_any(&mut self, typ: &[ModelicaToken]) {
+        if self.check_any(typ) {
+            self.advance();
+        } else {
+            self.error(format!("expected any of {typ:?}, found {:?}", self.nth(0)));
+        }
+    }
 }
 
 // Useful constants used in the parsing process
@@ -275,6 +285,26 @@ const CLASS_PREFS: [ModelicaToken; 13] = [
     ModelicaToken::Impure,
     ModelicaToken::Expandable,
 ];
+const RELOPS: [ModelicaToken; 6] = [
+    ModelicaToken::Les,
+    ModelicaToken::Leq,
+    ModelicaToken::Gre,
+    ModelicaToken::Geq,
+    ModelicaToken::Eq,
+    ModelicaToken::Neq,
+];
+const ADDOPS: [ModelicaToken; 4] = [
+    ModelicaToken::Plus,
+    ModelicaToken::DotPlus,
+    ModelicaToken::Minus,
+    ModelicaToken::DotMinus,
+];
+const MULOPS: [ModelicaToken; 4] = [
+    ModelicaToken::Star,
+    ModelicaToken::DotStar,
+    ModelicaToken::Slash,
+    ModelicaToken::DotSlash,
+];
 
 // A.2.1 Stored Definition – Within
 
@@ -1184,14 +1214,6 @@ fn logical_factor(p: &mut Parser) {
 }
 
 fn relation(p: &mut Parser) {
-    const RELOPS: [ModelicaToken; 6] = [
-        ModelicaToken::Les,
-        ModelicaToken::Leq,
-        ModelicaToken::Gre,
-        ModelicaToken::Geq,
-        ModelicaToken::Eq,
-        ModelicaToken::Neq,
-    ];
     let mark = p.enter();
     arithmetic_expression(p);
     if p.check_any(&RELOPS) {
@@ -1203,19 +1225,11 @@ fn relation(p: &mut Parser) {
 
 fn relational_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `relation`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    p.expect_any(&RELOPS);
     p.exit(mark, SyntaxKind::RelationalOperator);
 }
 
 fn arithmetic_expression(p: &mut Parser) {
-    const ADDOPS: [ModelicaToken; 4] = [
-        ModelicaToken::Plus,
-        ModelicaToken::DotPlus,
-        ModelicaToken::Minus,
-        ModelicaToken::DotMinus,
-    ];
     let mark = p.enter();
     if p.check_any(&ADDOPS) {
         add_operator(p);
@@ -1230,19 +1244,11 @@ fn arithmetic_expression(p: &mut Parser) {
 
 fn add_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `arithmetic_expression`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    p.expect_any(&ADDOPS);
     p.exit(mark, SyntaxKind::AddOperator);
 }
 
 fn term(p: &mut Parser) {
-    const MULOPS: [ModelicaToken; 4] = [
-        ModelicaToken::Star,
-        ModelicaToken::DotStar,
-        ModelicaToken::Slash,
-        ModelicaToken::DotSlash,
-    ];
     let mark = p.enter();
     factor(p);
     while p.check_any(&MULOPS) && !p.eof() {
@@ -1254,9 +1260,7 @@ fn term(p: &mut Parser) {
 
 fn mul_operator(p: &mut Parser) {
     let mark = p.enter();
-    // It is only called in `term`, which already does the checking,
-    // so no need to check token once again
-    p.advance();
+    p.expect_any(&MULOPS);
     p.exit(mark, SyntaxKind::MulOperator);
 }
 
-- 
2.43.0


From 939fa361b9bb4fcf8ecd4fdb43f85ad363d7dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 15/18] fix: accept an empty OutputExpressionList on its own

The grammar lets it be empty, and so does the parser inside parentheses.
---
 src/parser/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 677a2e4..adfa992 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -1480,7 +1480,7 @@ fn output_expression_list(p: &mut Parser) {
     let mark = p.enter();
     // This production can only occur inside parentheses, so easiest way
     // is to check for right paren
-    if !p.check(ModelicaToken::RParen) {
+    if !p.check(ModelicaToken::RParen) && !p.eof() {
         if !p.check_any(&[ModelicaToken::RParen, ModelicaToken::Comma]) {
             expression(p);
         }
-- 
2.43.0


From 1af261050a7669a9313403ac23d31f01dbbaeb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 16/18] fix: print an empty DescriptionString without a panic

A description string may be empty; pretty_print() asked for its first token.
---
 src/parser/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/tree.rs b/src/parser/tree.rs
index 5d06c34..be035cf 100644
--- a/src/parser/tree.rs
+++ b/src/parser/tree.rs
@@ -73,6 +73,9 @@ impl Tree {
     }
 
     pub fn is_multiline(&self) -> bool {
+        if self.children.is_empty() {
+            return false;
+        }
         let first = self.start();
         let last = self.end();
         first.start.line < last.end.line
-- 
2.43.0


From 193d0c6d75d6538d933b031e46aad72fbce31c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 17/18] fix: accept path arguments that are not valid Unicode

mofmt panicked on them before it looked at any file.
---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3bbcd7f..73f20d0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
+use std::ffi::OsString;
 use std::io::{stdout, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs};
@@ -19,7 +20,11 @@ Options:
 const EOL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let paths: Vec<OsString> = env::args_os().collect();
+    let args: Vec<String> = paths
+        .iter()
+        .map(|arg| arg.to_string_lossy().into_owned())
+        .collect();
     if args.len() < 2 {
         eprintln!("Missing PATHS arguments.\n{}", HELP);
         std::process::exit(1);
@@ -34,17 +39,17 @@ fn main() {
             eprintln!("Missing PATHS arguments.\n{}", HELP);
             std::process::exit(1);
         }
-        format_files(&args[2..], true);
+        format_files(&paths[2..], true);
     } else if args[1].starts_with('-') {
         eprintln!("Unrecognized option: '{}'.\n{}", args[1], HELP);
         std::process::exit(1);
     } else {
-        format_files(&args[1..], false);
+        format_files(&paths[1..], false);
     }
 }
 
 /// Format files specified in the argument list
-fn format_files(args: &[String], check: bool) {
+fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut lock = stdout().lock();
-- 
2.43.0


From fd720fcb880844ab46de2a6e16329fe4b310a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:45 +0000
Subject: [PATCH 18/18] fix: do not read a directory again through a symbolic
 link in it

A link back to a directory above it made mofmt treat each file up to 41
times, and never end if there was more than one such link.
---
 src/main.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 73f20d0..b6940a5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -57,7 +57,7 @@ fn format_files(args: &[OsString], check: bool) {
         .map(PathBuf::from)
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p, &mut code)
+                get_files_from_dir(p, &mut Vec::new(), &mut code)
             } else {
                 vec![p]
             }
@@ -107,9 +107,15 @@ fn format_files(args: &[OsString], check: bool) {
 
 /// Return all Modelica files from the given directory
 ///
-/// Report directories that cannot be read, and set `code` accordingly
-fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
+/// Report directories that cannot be read, and set `code` accordingly.
+/// Directories that are being read already (`parents`) are not read again
+/// when a symbolic link leads back to them.
+fn get_files_from_dir(dir: PathBuf, parents: &mut Vec<PathBuf>, code: &mut i32) -> Vec<PathBuf> {
     let mut files = Vec::new();
+    let real_dir = fs::canonicalize(&dir).unwrap_or_else(|_| dir.clone());
+    if parents.contains(&real_dir) {
+        return files;
+    }
     let paths = match fs::read_dir(&dir).and_then(|entries| entries.collect::<Result<Vec<_>, _>>())
     {
         Ok(entries) => entries,
@@ -119,12 +125,13 @@ fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
             return files;
         }
     };
+    parents.push(real_dir);
     paths
         .into_iter()
         .map(|e| e.path())
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p, code)
+                get_files_from_dir(p, parents, code)
             } else if is_modelica(p.as_path()) {
                 vec![p]
             } else {
@@ -132,6 +139,7 @@ fn get_files_from_dir(dir: PathBuf, code: &mut i32) -> Vec<PathBuf> {
             }
         })
         .for_each(|mut v| files.append(&mut v));
+    parents.pop();
 
     files
 }
-- 
2.43.0

