From 8cfdf029bbf43092a3216134728b5200ea8e58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 01/21] fix: trimming a span must not split a trailing
 multi-byte character

---
 src/trim.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..59151f1 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,8 +3,11 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
+    match content[start..end]
+        .char_indices()
+        .rfind(|(_, c)| !c.is_whitespace())
+    {
+        Some((i, c)) => start + i + c.len_utf8(),
         None => end,
     }
 }
-- 
2.43.0


From d1a9bf2f022eec128b318c77999688b8b5e74b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 02/21] fix: char indices of appended synthetic fragments are
 byte offsets

---
 src/sources.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sources.rs b/src/sources.rs
index 589d251..37f180c 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -486,7 +486,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
+            let original_len = content.len();
             char_indices.extend(
                 content_fragment
                     .char_indices()
-- 
2.43.0


From be0fd008dbde4b43e0e216428c83fe5c276bf805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 03/21] fix: validating a currency containing multi-byte
 characters must not panic

---
 src/types.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 59919e0..9256698 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -9,7 +9,6 @@ use std::{
     collections::{HashMap, HashSet, hash_map},
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
-    iter::empty,
     mem::swap,
     ops::Deref,
 };
@@ -1691,16 +1690,8 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         } else {
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
-            } else {
-                empty::<char>().collect()
-            };
-            let last = if s.len() > 1 {
-                chars.next().unwrap()
-            } else {
-                first
-            };
+            let last = chars.next_back().unwrap_or(first);
+            let intermediate: Vec<char> = chars.collect();
 
             use CurrencyErrorKind::*;
             if !Currency::is_valid_initial(&first) {
-- 
2.43.0


From 5c8706625cc0ab3237ce776be6e43d764b7bf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 04/21] fix: only ASCII digits form dates, times and numbers

---
 src/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..89f0b00 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -22,12 +22,12 @@ use unescaper::unescape;
 #[logos(subpattern ignored_whole_line= r"([*!&#?%:].*\r?\n)")] // rolled into end-of-line handling below
 #[logos(subpattern comment_to_eol= r"(;.*)")] // rolled into end-of-line handling below
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern time = r"\d{1,2}:\d{2}(:\d{2})?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern time = r"[0-9]{1,2}:[0-9]{2}(:[0-9]{2})?")]
 #[logos(subpattern account_type = r"[\p{Lu}\p{Lo}][\p{L}\p{N}\-]*")]
 #[logos(subpattern account_name = r"[\p{Lu}\p{Lo}\p{N}][\p{L}\p{N}\-]*")]
 #[logos(subpattern string_literal = r#""([^\\"]|\\.)*""#)]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 #[logos(subpattern tag_or_link_identifier = r"[A-Za-z0-9\-_/.]+")]
 #[logos(subpattern key = r"[a-z][a-zA-Z0-9\-_]+")]
 pub enum Token<'a> {
@@ -266,8 +266,8 @@ type SpannedToken<'a> = (Token<'a>, Span_);
 #[derive(Logos, Clone, Debug, PartialEq, Eq)]
 #[logos(error = LexerError)]
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 enum RecoveryToken {
     #[token("-")]
     Minus,
-- 
2.43.0


From 8815520ccdd2d8c7e7a8ef9318b653ed191b0719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 05/21] fix: an inline source has no file name when resolved
 via synthetic sources

---
 src/sources.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sources.rs b/src/sources.rs
index 37f180c..649a3ed 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -561,7 +561,12 @@ impl<'a> SyntheticSources<'a> {
     /// Resolve the span into filename, line number range, and spanned content.
     /// Filename will be present unless the sources were created from an inline string.
     pub fn resolve_span<'s>(&'s self, span: &Span) -> SpannedSource<'s> {
-        resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        if span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
+        {
+            resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        } else {
+            self.sources.resolve_span(span)
+        }
     }
 
     pub fn error_source_text<'s, K>(&'s self, error_or_warning: &ErrorOrWarning<K>) -> &'s str
-- 
2.43.0


From 33a0a1a72e1217cde6fbe8593662fc26d46bba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 06/21] fix: parse sources in a well-defined order, as parser
 options carry over

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..76cd0a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -275,7 +275,11 @@ impl<'s> BeancountParser<'s> {
         let mut all_errors = Vec::new();
         let mut parser_state = chumsky::extra::SimpleState(ParserState::default());
 
-        for (source_id, source_path, content) in self.sources.content_iter() {
+        // parser state is carried from one source to the next, so the order must be well-defined
+        let mut sources = self.sources.content_iter().collect::<Vec<_>>();
+        sources.sort_by_key(|(source_id, _, _)| usize::from(*source_id));
+
+        for (source_id, source_path, content) in sources {
             let i_source: usize = source_id.into();
             let tokens = &self.tokenized_sources[i_source];
 
-- 
2.43.0


From f27f1944b819508e650da9bfce6282746c4d3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 07/21] fix: long runs of pragmas must not overflow the stack

---
 src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 76cd0a5..5c7df4a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
 use std::{
     collections::{HashMap, VecDeque},
+    ops::ControlFlow,
     path::{Path, PathBuf},
 };
 
@@ -436,6 +437,17 @@ impl<'s> Iterator for PragmaProcessor<'s> {
     type Item = Spanned<Directive<'s>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            if let ControlFlow::Break(next) = self.step() {
+                return next;
+            }
+        }
+    }
+}
+
+impl<'s> PragmaProcessor<'s> {
+    // process a single declaration, breaking with the next directive, if any, once known
+    fn step(&mut self) -> ControlFlow<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
             Some(declaration) => {
                 match declaration.item {
@@ -443,7 +455,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         directive.metadata.augment_tags(&self.tags);
                         directive.metadata.augment_key_values(&self.meta_key_values);
 
-                        Some(spanned(directive, declaration.span))
+                        ControlFlow::Break(Some(spanned(directive, declaration.span)))
                     }
 
                     Declaration::Pragma(pragma) => {
@@ -655,7 +667,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         }
 
                         // having silently consumed a pragma, go on to the next declaration
-                        self.next()
+                        ControlFlow::Continue(())
                     }
                 }
             }
@@ -663,9 +675,9 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                 Some((path, declarations)) => {
                     self.current_path = path;
                     self.current_declarations = declarations;
-                    self.next()
+                    ControlFlow::Continue(())
                 }
-                None => None,
+                None => ControlFlow::Break(None),
             },
         }
     }
-- 
2.43.0


From dd0768e9369bb0120c2cbd3cac19e034b16588ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 08/21] fix: division by zero and overflow in an expression are
 errors not panics

---
 src/parsers.rs |  7 ++++++-
 src/types.rs   | 56 +++++++++++++++++++++++++++++++++++---------------
 2 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..9a08c7d 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,12 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().validate(|expr, e, emitter| {
+        ExprValue::try_new(expr).unwrap_or_else(|(expr_value, reason)| {
+            emitter.emit(Rich::custom(e.span(), reason));
+            expr_value
+        })
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 9256698..cf12d5c 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2218,10 +2218,30 @@ impl PartialEq<Decimal> for ExprValue {
 
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
+    ///
+    /// Panics if the `Expr` can't be evaluated, because of division by zero or overflow.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
-        value.rescale(scale);
-        Self { value, expr }
+        Self::try_new(expr).unwrap_or_else(|(_, e)| panic!("{}", e))
+    }
+}
+
+impl ExprValue {
+    /// Evaluate the `Expr` rounding to the max scale it contains, or fail with the reason.
+    /// On failure, the value is zero.
+    pub(crate) fn try_new(expr: Expr) -> Result<Self, (Self, &'static str)> {
+        match expr.evaluate() {
+            Ok((mut value, scale)) => {
+                value.rescale(scale);
+                Ok(Self { value, expr })
+            }
+            Err(e) => Err((
+                Self {
+                    value: Decimal::ZERO,
+                    expr,
+                },
+                e,
+            )),
+        }
     }
 }
 
@@ -2251,31 +2271,33 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
+    fn evaluate(&self) -> Result<(Decimal, u32), &'static str> {
+        fn evaluate_unary<F>(op: F, e1: &Expr) -> Result<(Decimal, u32), &'static str>
         where
             F: Fn(Decimal) -> Decimal,
         {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
+            let (d1, s1) = e1.evaluate()?;
+            Ok((op(d1), s1))
         }
 
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Result<(Decimal, u32), &'static str>
         where
-            F: Fn(Decimal, Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            op(d1, d2)
+                .map(|d| (d, max(s1, s2)))
+                .ok_or("division by zero or overflow in expression")
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
+            Value(d) => Ok((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => evaluate_binary(Decimal::checked_div, e1, e2),
             Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
             Paren(e) => e.evaluate(),
         }
-- 
2.43.0


From e3579b69ff3038eb327bf4fef89216d6b12bb02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:12 +0000
Subject: [PATCH 09/21] fix: trailing whitespace on the last line of a file is
 not an indent

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 89f0b00..f4e2019 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -591,6 +591,8 @@ where
         }
 
         match first_tok {
+            // trailing whitespace at end of input is not an indent
+            Some((Token::EolThenIndent, span)) if second_tok.is_none() => Some((Token::Eol, span)),
             Some((Token::EolThenIndent, span)) => {
                 self.pending = [Some((Token::Indent, span.end - 1..span.end)), second_tok];
                 Some((Token::Eol, span))
-- 
2.43.0


From 3f2cbafdbd4dbb21c2a8117f728bb0f25aaf14b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:47 +0000
Subject: [PATCH 10/21] fix: ignore flagged lines also at the very start and
 very end of a file

---
 src/lexer.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index f4e2019..9056fdd 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -158,7 +158,9 @@ pub enum Token<'a> {
     #[regex(r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*[ \t]+")]
     EolThenIndent,
 
+    // the second form is for an ignored line at the end of input without a following newline
     #[regex(r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*")]
+    #[regex(r"(?&comment_to_eol)?\r?\n(?&ignored_whole_line)*[*!&#?%:].*", allow_greedy = true)]
     Eol,
 
     // A trailing comment without a following newline (occurs at EOF).
@@ -316,13 +318,27 @@ fn lex_with_final_eol<'a>(
     s: &'a str,
     final_eol: Option<Range<usize>>,
 ) -> impl Iterator<Item = RangedToken<'a>> {
-    Token::lexer(s)
+    let mut lexer = Token::lexer(s);
+    if final_eol.is_some() {
+        // a whole file, not a fragment
+        lexer.bump(leading_ignored_lines_len(s));
+    }
+
+    lexer
         .spanned()
         .attempt_recovery(s)
         .keyword_then_colon_to_key()
         .handle_eol_indent(final_eol)
 }
 
+// `ignored_whole_line` is anchored after a newline, so can't match on the very first line
+fn leading_ignored_lines_len(s: &str) -> usize {
+    s.split_inclusive('\n')
+        .take_while(|line| line.starts_with(['*', '!', '&', '#', '?', '%', ':']))
+        .map(str::len)
+        .sum()
+}
+
 // This is a work-around for Logos issue #315.
 // Logos starts matching text like '/1.24' as a currency, and when it fails, it doesn't retry as slash followed by number.
 //
-- 
2.43.0


From dfd9a21cfede4b45edc358245d7978d7e20edee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:19 +0000
Subject: [PATCH 11/21] fix: files matched by an include glob are processed in
 the order matched

---
 src/lib.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c7df4a..fea25ec 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -550,27 +550,16 @@ impl<'s> PragmaProcessor<'s> {
                                             self.errors.push(e)
                                         }
 
+                                        // the files matched are processed in the order matched
+                                        let mut included_files = Vec::new();
+
                                         for included in paths {
                                             let included = Some(included.clone());
 
                                             match self.remaining.remove_entry(&included) {
                                                 Some((included_path, included_declarations)) => {
-                                                    let stacked_path = std::mem::replace(
-                                                        &mut self.current_path,
-                                                        included_path,
-                                                    );
-                                                    let stacked_declarations = std::mem::replace(
-                                                        &mut self.current_declarations,
-                                                        included_declarations,
-                                                    );
-                                                    self.stacked.push_front((
-                                                        stacked_path,
-                                                        stacked_declarations,
-                                                    ));
-
                                                     // record the span in case of a duplicate include error later
-                                                    if let Ok(canonical_path) = self
-                                                        .current_path
+                                                    if let Ok(canonical_path) = included_path
                                                         .as_ref()
                                                         .unwrap()
                                                         .canonicalize()
@@ -586,6 +575,11 @@ impl<'s> PragmaProcessor<'s> {
                                                             },
                                                         );
                                                     }
+
+                                                    included_files.push((
+                                                        included_path,
+                                                        included_declarations,
+                                                    ));
                                                 }
 
                                                 None => {
@@ -649,6 +643,21 @@ impl<'s> PragmaProcessor<'s> {
                                                 }
                                             }
                                         }
+
+                                        for (included_path, included_declarations) in
+                                            included_files.into_iter().rev()
+                                        {
+                                            let stacked_path = std::mem::replace(
+                                                &mut self.current_path,
+                                                included_path,
+                                            );
+                                            let stacked_declarations = std::mem::replace(
+                                                &mut self.current_declarations,
+                                                included_declarations,
+                                            );
+                                            self.stacked
+                                                .push_front((stacked_path, stacked_declarations));
+                                        }
                                     }
                                     Some(IncludedGlob::Error(e)) => {
                                         let e = Error::new("can't expand glob", e, span);
-- 
2.43.0


From 4d6d1f31ea4bc8c80730e1d534c83970c38560a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:19 +0000
Subject: [PATCH 12/21] fix: reporting on an included file with a non-UTF-8
 path must not panic

---
 src/sources.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 649a3ed..e1cf466 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -309,12 +309,19 @@ impl BeancountSources {
         let empty_char_indices = Vec::default();
         let (source_content, source_content_char_indices) = if source_id == self.root_source_id {
             (self.root_content.as_str(), &self.root_content_char_indices)
-        } else if let IncludedSource::Content(_, content, content_char_indices) =
-            self.included_content.get(Path::new(source_id_str)).unwrap()
-        {
-            (content.as_str(), content_char_indices)
         } else {
-            ("", &empty_char_indices)
+            // look up by source ID, since the string may be a lossy conversion of the path
+            self.included_content
+                .values()
+                .find_map(|included_source| match included_source {
+                    IncludedSource::Content(id, content, content_char_indices)
+                        if *id == source_id =>
+                    {
+                        Some((content.as_str(), content_char_indices))
+                    }
+                    _ => None,
+                })
+                .unwrap_or(("", &empty_char_indices))
         };
 
         let byte_span = trimmed_span(source_content, safe_span);
-- 
2.43.0


From c1aca7b7c1f7bba4cb79be415cd7095fc8933ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:19 +0000
Subject: [PATCH 13/21] fix: an include matching a dangling symlink is
 unreadable, not a duplicate

---
 src/sources.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sources.rs b/src/sources.rs
index e1cf466..32efc2d 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -162,6 +162,14 @@ impl BeancountSources {
                                             pending_includes.append(&mut includes);
                                         }
                                     }
+                                } else {
+                                    // e.g. a dangling symbolic link
+                                    let e = format!(
+                                        "{}: no such file",
+                                        globbed_include.to_string_lossy()
+                                    );
+                                    included_content
+                                        .insert(globbed_include, IncludedSource::Error(e));
                                 }
                             }
                         }
-- 
2.43.0


From 31e972c24ea5a49c8b1c8d5668f917d444a3cc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:19 +0000
Subject: [PATCH 14/21] fix: an included path is a glob only in itself, not in
 the including directory

---
 src/sources.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 32efc2d..0938c71 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -64,7 +64,7 @@ impl BeancountSources {
 
         let mut pending_includes = get_includes(&root_content, root_source_id)
             .into_iter()
-            .map(|included| resolve_included_path(root_path.as_ref(), included.as_ref()))
+            .map(|included| resolve_included_glob(root_path.as_ref(), included.as_ref()))
             .collect::<VecDeque<_>>();
 
         let mut included_globs = HashMap::new();
@@ -79,12 +79,10 @@ impl BeancountSources {
             };
 
         while !pending_includes.is_empty() {
-            let included = pending_includes.pop_front().unwrap();
-            let included_str = included.to_string_lossy();
-            let included_str = included_str.as_ref();
+            let (included, included_glob) = pending_includes.pop_front().unwrap();
 
             match glob_with(
-                included_str,
+                &included_glob,
                 glob::MatchOptions {
                     case_sensitive: true,
                     require_literal_separator: true,
@@ -153,7 +151,7 @@ impl BeancountSources {
                                             let mut includes = get_includes(content, source_id)
                                                 .into_iter()
                                                 .map(|included_path| {
-                                                    resolve_included_path(
+                                                    resolve_included_glob(
                                                         Some(&globbed_include),
                                                         included_path.as_ref(),
                                                     )
@@ -622,6 +620,26 @@ pub(crate) fn resolve_included_path(
     }
 }
 
+// get included path relative to including path, along with the glob which matches it,
+// in which the directory of the including path is to be matched literally
+fn resolve_included_glob(
+    including_path: Option<&PathBuf>,
+    included_path: &Path,
+) -> (PathBuf, String) {
+    let escaped_dir = including_path
+        .and_then(|p| path_dir(p.as_ref()))
+        .map(|dir| PathBuf::from(glob::Pattern::escape(&dir.to_string_lossy())));
+    let glob = match escaped_dir {
+        Some(dir) => dir.join(included_path),
+        None => included_path.to_path_buf(),
+    };
+
+    (
+        resolve_included_path(including_path, included_path),
+        glob.to_string_lossy().into_owned(),
+    )
+}
+
 // get directory for a path if any
 fn path_dir(p: &Path) -> Option<&Path> {
     p.parent().and_then(|p| {
-- 
2.43.0


From 353897d402c8e3144e96839ac5d23a1d59d16260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:52 +0000
Subject: [PATCH 15/21] fix: display a balance tolerance where the parser
 accepts it

---
 src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index cf12d5c..1737972 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2437,7 +2437,8 @@ impl<'a> AmountWithTolerance<'a> {
 impl Display for AmountWithTolerance<'_> {
     fn fmt(&self, format: &mut Formatter<'_>) -> fmt::Result {
         if let Some(tolerance) = self.tolerance {
-            write!(format, "{} ~ {}", &self.amount, tolerance)
+            let Amount { number, currency } = self.amount.item();
+            write!(format, "{} ~ {} {}", number, tolerance, currency)
         } else {
             write!(format, "{}", &self.amount)
         }
-- 
2.43.0


From 61425d58bbfc4f2b19889033c9b4a0f642f01972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:52 +0000
Subject: [PATCH 16/21] fix: display the total price of a posting as such

---
 src/types.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1737972..64d361f 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1784,7 +1784,15 @@ impl Display for Posting<'_> {
         simple_format(f, &self.amount, Some(" "))?;
         simple_format(f, self.currency, Some(" "))?;
         simple_format(f, &self.cost_spec, Some(" "))?;
-        simple_format(f, &self.price_annotation, Some(" @ "))?;
+        if let Some(price) = &self.price_annotation {
+            use ScopedExprValue::Total;
+
+            match price.item() {
+                PriceSpec::BareAmount(Total(e)) => write!(f, " @@ {}", e)?,
+                PriceSpec::CurrencyAmount(Total(e), cur) => write!(f, " @@ {} {}", e, cur)?,
+                price => write!(f, " @ {}", price)?,
+            }
+        }
 
         self.metadata.fmt(f)
     }
-- 
2.43.0


From 2f64f45385afb75b52661bc6248a621b7f9ad5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:12 +0000
Subject: [PATCH 17/21] fix: display strings escaped, as string literals the
 parser accepts

---
 src/format.rs |  5 +++--
 src/types.rs  | 30 ++++++++++++++++++++----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index a911537..e35cbc4 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -59,12 +59,13 @@ where
     lazy_format!("'{s}'")
 }
 
-/// Format in double quotes.
+/// Format in double quotes, escaped as required for a string literal.
 pub fn double_quoted<S>(s: S) -> impl Display
 where
     S: Display,
 {
-    lazy_format!("\"{s}\"")
+    let escaped = s.to_string().replace('\\', r"\\").replace('"', r#"\""#);
+    lazy_format!("\"{escaped}\"")
 }
 
 /// Format key/value.
diff --git a/src/types.rs b/src/types.rs
index 64d361f..131b8d5 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1049,7 +1049,8 @@ pub struct Document<'a> {
 
 impl<'a> Document<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} document {} \"{}\"", date, self.account, self.path)?;
+        let path = double_quoted(self.path);
+        write!(f, "{} document {} {}", date, self.account, path)?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1076,7 +1077,8 @@ pub struct Note<'a> {
 
 impl<'a> Note<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} note {} \"{}\"", date, self.account, self.comment)?;
+        let comment = double_quoted(self.comment);
+        write!(f, "{} note {} {}", date, self.account, comment)?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1104,8 +1106,10 @@ impl<'a> Event<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
         write!(
             f,
-            "{} event \"{}\" \"{}\"",
-            date, self.event_type, self.description
+            "{} event {} {}",
+            date,
+            double_quoted(self.event_type),
+            double_quoted(self.description)
         )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
@@ -1132,7 +1136,13 @@ pub struct Query<'a> {
 
 impl<'a> Query<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} query \"{}\" \"{}\"", date, self.name, self.content)?;
+        write!(
+            f,
+            "{} query {} {}",
+            date,
+            double_quoted(self.name),
+            double_quoted(self.content)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1158,7 +1168,7 @@ pub struct Custom<'a> {
 
 impl<'a> Custom<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} custom \"{}\"", date, self.type_)?;
+        write!(f, "{} custom {}", date, double_quoted(self.type_))?;
         format(f, &self.values, plain, SPACE, Some(SPACE))?;
         // show tags and links on separate lines rather than inline to avoid ambiguity with custom values
         metadata.fmt_tags_links_on_separate_lines(f)?;
@@ -1197,9 +1207,9 @@ impl<'a> Plugin<'a> {
 
 impl Display for Plugin<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        write!(f, "plugin \"{}\"", self.module_name)?;
+        write!(f, "plugin {}", double_quoted(self.module_name))?;
         if let Some(config) = &self.config {
-            write!(f, " \"{}\"", config)?;
+            write!(f, " {}", double_quoted(config))?;
         }
         writeln!(f)
     }
@@ -1932,7 +1942,7 @@ impl Display for SimpleValue<'_> {
         use SimpleValue::*;
 
         match self {
-            String(x) => write!(f, r#""{}""#, x),
+            String(x) => double_quoted(x).fmt(f),
             Currency(x) => x.fmt(f),
             Account(x) => x.fmt(f),
             Tag(x) => x.fmt(f),
@@ -2580,7 +2590,7 @@ impl Display for CostSpec<'_> {
         }
 
         if let Some(label) = &self.label {
-            write!(f, "{}\"{}\"", sep, label)?;
+            write!(f, "{}{}", sep, double_quoted(label))?;
             sep = comma_space;
         }
 
-- 
2.43.0


From 99eba907641b8a11a6c1bd475b305da7df32ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:39 +0000
Subject: [PATCH 18/21] fix: a missing metadata value is located just after its
 colon

---
 src/parsers.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 9a08c7d..7437400 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -773,10 +773,17 @@ where
 {
     key()
         .map_with(spanned_extra)
-        .then(just(Token::Colon).ignore_then(meta_value().or_not().map_with(spanned_extra)))
-        .map(|(key, value)| MetaKeyValue {
+        .then(just(Token::Colon).map_with(|_, e| e.span()))
+        .then(meta_value().map_with(spanned_extra).or_not())
+        .map(|((key, colon), value): ((_, Span_), _)| MetaKeyValue {
             key,
-            value: value.map_into(|value| value.unwrap_or(MetaValue::Simple(SimpleValue::Null))),
+            // a missing value is located where it would have been, just after the colon
+            value: value.unwrap_or_else(|| {
+                spanned_(
+                    MetaValue::Simple(SimpleValue::Null),
+                    chumsky::span::Span::to_end(&colon),
+                )
+            }),
         })
 }
 
-- 
2.43.0


From 90debe1cae6a9e124ae6ce28d60972c72346fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:34 +0000
Subject: [PATCH 19/21] fix: a file read by one path and first included by
 another is not a duplicate

---
 src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fea25ec..ba2ee2b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -446,6 +446,27 @@ impl<'s> Iterator for PragmaProcessor<'s> {
 }
 
 impl<'s> PragmaProcessor<'s> {
+    // remove the declarations of a file not yet processed,
+    // which may have been read by another path to the same file
+    fn remove_remaining(
+        &mut self,
+        included: &Option<PathBuf>,
+    ) -> Option<(Option<PathBuf>, VecDeque<Spanned<Declaration<'s>>>)> {
+        self.remaining.remove_entry(included).or_else(|| {
+            let canonical_path = included.as_ref()?.canonicalize().ok()?;
+            let path = self
+                .remaining
+                .keys()
+                .find(|path| {
+                    path.as_ref()
+                        .and_then(|path| path.canonicalize().ok())
+                        .is_some_and(|path| path == canonical_path)
+                })?
+                .clone();
+            self.remaining.remove_entry(&path)
+        })
+    }
+
     // process a single declaration, breaking with the next directive, if any, once known
     fn step(&mut self) -> ControlFlow<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
@@ -556,7 +577,7 @@ impl<'s> PragmaProcessor<'s> {
                                         for included in paths {
                                             let included = Some(included.clone());
 
-                                            match self.remaining.remove_entry(&included) {
+                                            match self.remove_remaining(&included) {
                                                 Some((included_path, included_declarations)) => {
                                                     // record the span in case of a duplicate include error later
                                                     if let Ok(canonical_path) = included_path
-- 
2.43.0


From 6e1baf696efddff20dc97d5fd21bfceab4e3c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:28 +0000
Subject: [PATCH 20/21] fix: reports show a source by its own content also when
 its name isn't unique

---
 src/sources.rs | 64 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 0938c71..ab9a801 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -4,7 +4,7 @@ use lazy_format::lazy_format;
 use std::{
     collections::{HashMap, HashSet, VecDeque},
     ffi::OsStr,
-    fmt::{self, Formatter},
+    fmt::{self, Display, Formatter},
     fs::File,
     io::{self, Read, Write},
     iter::once,
@@ -340,9 +340,12 @@ impl BeancountSources {
         self.source_id_strings[Into::<usize>::into(source_id)].as_str()
     }
 
-    fn sources(&self) -> Vec<(String, &str)> {
+    fn sources(&self) -> Vec<(ReportSource, &str)> {
         once((
-            self.source_id_string(self.root_source_id).to_string(),
+            ReportSource {
+                source: self.root_source_id.into(),
+                name: self.source_id_string(self.root_source_id).to_string(),
+            },
             self.root_content.as_str(),
         ))
         .chain(
@@ -351,7 +354,10 @@ impl BeancountSources {
                 .filter_map(|(_, included_source)| {
                     if let IncludedSource::Content(source_id, content, _) = included_source {
                         Some((
-                            self.source_id_string(*source_id).to_string(),
+                            ReportSource {
+                                source: (*source_id).into(),
+                                name: self.source_id_string(*source_id).to_string(),
+                            },
                             content.as_str(),
                         ))
                     } else {
@@ -477,12 +483,20 @@ impl<'a> SyntheticSources<'a> {
 }
 
 impl<'a> SyntheticSources<'a> {
-    fn sources(&self) -> Vec<(String, &str)> {
+    fn sources(&self) -> Vec<(ReportSource, &str)> {
         let mut sources = self.sources.sources();
         sources.extend(
-            self.content.iter().map(|(source_id_str, (_, content, _))| {
-                (source_id_str.to_string(), content.as_str())
-            }),
+            self.content
+                .iter()
+                .map(|(source_id_str, (source_id, content, _))| {
+                    (
+                        ReportSource {
+                            source: (*source_id).into(),
+                            name: source_id_str.to_string(),
+                        },
+                        content.as_str(),
+                    )
+                }),
         );
         sources
     }
@@ -663,11 +677,24 @@ where
     Ok(file_content)
 }
 
+/// Identifies a source in a report, where its name alone need not be unique.
+#[derive(PartialEq, Eq, Hash, Clone, Debug)]
+struct ReportSource {
+    source: usize,
+    name: String,
+}
+
+impl Display for ReportSource {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        f.write_str(&self.name)
+    }
+}
+
 fn write_report<'a, W, K, R, F>(
     w: &mut W,
     report: &R,
     get_adjusted_source: &F,
-    sources: Vec<(String, &str)>,
+    sources: Vec<(ReportSource, &str)>,
 ) -> io::Result<()>
 where
     W: Write,
@@ -675,8 +702,7 @@ where
     R: Report,
     F: Fn(Span) -> (&'a str, &'a str, Span, Span),
 {
-    let (src_id, span) =
-        source_id_string_and_adjusted_rune_span(report.span(), get_adjusted_source);
+    let (src_id, span) = report_source_and_adjusted_rune_span(report.span(), get_adjusted_source);
     let color = K::color();
     let report_kind = K::report_kind();
 
@@ -688,13 +714,13 @@ where
                 .with_color(color),
         ))
         .with_labels(report.contexts().map(|(label, span)| {
-            let (src_id, span) = source_id_string_and_adjusted_rune_span(span, get_adjusted_source);
+            let (src_id, span) = report_source_and_adjusted_rune_span(span, get_adjusted_source);
             Label::new((src_id, (span.start..span.end)))
                 .with_message(lazy_format!("in this {}", label))
                 .with_color(Color::Yellow)
         }))
         .with_labels(report.related().map(|(label, span)| {
-            let (src_id, span) = source_id_string_and_adjusted_rune_span(span, get_adjusted_source);
+            let (src_id, span) = report_source_and_adjusted_rune_span(span, get_adjusted_source);
             Label::new((src_id, (span.start..span.end)))
                 .with_message(lazy_format!("{}", label))
                 .with_color(Color::Yellow)
@@ -739,15 +765,21 @@ where
     }
 }
 
-fn source_id_string_and_adjusted_rune_span<'a, F>(
+fn report_source_and_adjusted_rune_span<'a, F>(
     span: Span,
     get_adjusted_source: &F,
-) -> (String, Span)
+) -> (ReportSource, Span)
 where
     F: Fn(Span) -> (&'a str, &'a str, Span, Span),
 {
     let (_, source_id, _byte_span, rune_span) = get_adjusted_source(span);
-    (source_id.to_string(), rune_span)
+    (
+        ReportSource {
+            source: rune_span.source,
+            name: source_id.to_string(),
+        },
+        rune_span,
+    )
 }
 
 fn trimmed_span(source: &str, span: Span) -> Span {
-- 
2.43.0


From ed02597e33e842f84f1f06793524b8b4a9c89e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:06 +0000
Subject: [PATCH 21/21] fix: describe the context of a duplicate include in a
 well-defined order

---
 src/lib.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba2ee2b..6316d0e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,6 +83,7 @@
 //!```
 
 use chumsky::prelude::{Input, Parser};
+use itertools::Itertools;
 use lexer::{lex, Token};
 use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
@@ -340,26 +341,23 @@ fn fmt_include_context<'s>(
     tags: &HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
 ) -> String {
-    let tags_s = itertools::intersperse(
-        tags.keys().map(|tag| tag.item().to_string()),
-        " ".to_string(),
-    )
-    .collect::<String>();
-    let meta_s = itertools::intersperse(
-        meta_key_values.iter().map(|(k, v)| {
+    // sorted, as the order of iterating over a hash map is arbitrary
+    let tags_s = tags
+        .keys()
+        .map(|tag| tag.item().to_string())
+        .sorted()
+        .join(" ");
+    let meta_s = meta_key_values
+        .iter()
+        .map(|(k, v)| {
             format!(
                 "{}: [{}]",
                 k.item(),
-                itertools::intersperse(
-                    v.iter().map(|(_, v)| v.item().to_string()),
-                    " ".to_string()
-                )
-                .collect::<String>()
+                v.iter().map(|(_, v)| v.item().to_string()).join(" ")
             )
-        }),
-        " ".to_string(),
-    )
-    .collect::<String>();
+        })
+        .sorted()
+        .join(" ");
     format!("{} {}", tags_s, meta_s)
 }
 
-- 
2.43.0

