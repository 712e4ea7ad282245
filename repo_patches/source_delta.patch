From d9654895b0e2e91608b310a40244523f5b6ba56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 01/27] fix: escape unknown command names and their CSS class

---
 crates/mathml-renderer/src/ast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 5f77263..4b71ff5 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -812,8 +812,9 @@ impl<'state> Emitter<'state> {
                 self.warnings.set_unknown_commands();
                 write!(
                     self.s,
-                    r#"<merror class="{}"><mtext>\{cmd_name}</mtext></merror>"#,
-                    self.css_classes.unknown_command
+                    r#"<merror class="{}"><mtext>\{}</mtext></merror>"#,
+                    EscapeHtml(&self.css_classes.unknown_command),
+                    EscapeHtml(cmd_name)
                 )?;
             }
         }
-- 
2.43.0


From d4a155c87d5adb4162e734e3cdfe29addb748e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 02/27] fix: escape the name of a custom operator

---
 crates/mathml-renderer/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 4b71ff5..11a8a5d 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -356,7 +356,7 @@ impl<'state> Emitter<'state> {
                 name,
             } => {
                 emit_operator_attributes(&mut self.s, attrs, left, right)?;
-                write!(self.s, ">{name}</mo>")?;
+                write!(self.s, ">{}</mo>", EscapeHtml(name))?;
             }
             Node::IdentifierStr(letters) => {
                 // The "<mrow>" with "<mspace/>" is needed to prevent Firefox from adding
-- 
2.43.0


From 0b0eb6afe911a1e5afcc1faeaee92cbc2088d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 03/27] fix: do not emit the stretchy attribute twice

---
 crates/math-core/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index ad6ce85..58ead4e 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -765,7 +765,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right: _,
                     } => Ok(Node::Operator {
                         op,
-                        attrs: attrs | OpAttrs::STRETCHY_FALSE,
+                        // Explicitly sized delimiters have to remain stretchy.
+                        attrs: if size.is_some() || attrs.contains(OpAttrs::STRETCHY_TRUE) {
+                            attrs
+                        } else {
+                            attrs | OpAttrs::STRETCHY_FALSE
+                        },
                         left,
                         right,
                         size,
-- 
2.43.0


From 9d9ba1e7c5358303509758fde388c7a5e28af9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 04/27] fix: do not attach scripts to cell and row separators

---
 crates/math-core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 58ead4e..430ac04 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -235,6 +235,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             };
             prev_class = class;
 
+            // A separator is not part of any cell, so it cannot be the base of a script.
+            if matches!(target, Node::ColumnSeparator | Node::RowSeparator { .. }) {
+                nodes.push(target);
+                continue;
+            }
+
             // Check if there are any superscripts or subscripts following the parsed node.
             let bounds = self.get_bounds(None)?.ensure_no_explicit_limits()?;
 
-- 
2.43.0


From 727f7a91131db518575ccbf429698ece61b91e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 05/27] fix: reject cell and row separators as arguments

---
 crates/math-core/src/parser.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 430ac04..66273dc 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -797,6 +797,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         right,
                         size: None,
                     }),
+                    Node::ColumnSeparator | Node::RowSeparator { .. } => Err(LatexError(
+                        span.into(),
+                        LatexErrKind::CannotBeUsedAsArgument,
+                    )),
                     _ => Ok(Node::Padded {
                         node,
                         width_0: false,
@@ -1699,6 +1703,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::NewColumn => {
                 if self.state.env.allow_columns {
+                    if !matches!(parse_as, ParseAs::Sequence) {
+                        return Err(Box::new(LatexError(
+                            span.into(),
+                            LatexErrKind::CannotBeUsedAsArgument,
+                        )));
+                    }
                     class = Class::Close;
                     Ok(Node::ColumnSeparator)
                 } else {
@@ -1732,6 +1742,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     //       empty rows in places where they are not needed.
                     break 'new_line Ok(Node::EMPTY_ROW);
                 }
+                if !matches!(parse_as, ParseAs::Sequence) {
+                    break 'new_line Err(LatexError(
+                        span.into(),
+                        LatexErrKind::CannotBeUsedAsArgument,
+                    ));
+                }
                 // A `\hline`/`\hdashline` directly after the `\\` (whitespace is skipped by `peek`)
                 // becomes the top border of the row that follows. Only legal inside an array or
                 // matrix; elsewhere it falls through to the `Token::HLine` error arm.
-- 
2.43.0


From 11ad36c9828eac7032c10a97a33e58f89905d30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 06/27] fix: do not drop cell and row separators inside groups
 in a table

---
 crates/math-core/src/parser.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 66273dc..52fea9a 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -193,6 +193,19 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         self.parse_sequence(sequence_end, prev_class, keep_end_token)
     }
 
+    /// Whether the next token ends a sequence with the given end.
+    fn sequence_ends(&self, sequence_end: SequenceEnd) -> bool {
+        let next = self.tokens.peek().token();
+        sequence_end.matches(next)
+            || (matches!(sequence_end, SequenceEnd::AnyEndToken)
+                && match next {
+                    // The end of a cell also ends the scope of, e.g., `\color`.
+                    Token::NewColumn => self.state.env.allow_columns,
+                    Token::NewLine => self.state.env.meaningful_newlines,
+                    _ => false,
+                })
+    }
+
     /// Parse a sequence of tokens until the given end token is encountered.
     ///
     /// If `keep_end_token` is set to `true`, this function does not consume the end token.
@@ -211,8 +224,22 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let old_tf = self.state.transform;
         let old_style = self.state.style;
 
+        // Only the sequence that makes up an environment's content is divided into cells and rows;
+        // within a group inside of a cell, there is no table.
+        let old_separators = (
+            self.state.env.allow_columns,
+            self.state.env.meaningful_newlines,
+        );
+        if !matches!(
+            sequence_end,
+            SequenceEnd::EndToken(EndToken::End | EndToken::Eoi) | SequenceEnd::AnyEndToken
+        ) {
+            self.state.env.allow_columns = false;
+            self.state.env.meaningful_newlines = false;
+        }
+
         // Because we don't want to consume the end token, we just peek here.
-        while !sequence_end.matches(self.tokens.peek().token()) {
+        while !self.sequence_ends(sequence_end) {
             // Check whether we need to collect letters.
             let (class, target) = if let Some(collected) = self.merge_and_transform_letters()? {
                 collected
@@ -304,6 +331,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         self.state.transform = old_tf;
         self.state.style = old_style;
+        (
+            self.state.env.allow_columns,
+            self.state.env.meaningful_newlines,
+        ) = old_separators;
         Ok(nodes)
     }
 
-- 
2.43.0


From f0908ebc90f835e53f48c9c5a492f33b43f0e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 07/27] fix: end an infix fraction at the end of its table cell

---
 crates/math-core/src/parser.rs | 83 +++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 52fea9a..085aebb 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -219,6 +219,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     ) -> ParseResult<Vec<&'arena Node<'arena>>> {
         let mut nodes = Vec::new();
         let mut infix_frac: Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)> = None;
+        // The index in `nodes` at which the current table cell starts.
+        let mut cell_start = 0;
 
         let mut prev_class = prev_class;
         let old_tf = self.state.transform;
@@ -251,6 +253,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         tokloc,
                         sequence_end,
                         &mut nodes,
+                        cell_start,
                         &mut infix_frac,
                     )? {
                         ControlFlow::SkipToken => continue,
@@ -264,7 +267,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
 
             // A separator is not part of any cell, so it cannot be the base of a script.
             if matches!(target, Node::ColumnSeparator | Node::RowSeparator { .. }) {
+                // An infix fraction like `\over` does not extend beyond its cell.
+                if let Some(infix_frac) = infix_frac.take() {
+                    let denominator = nodes.split_off(cell_start);
+                    nodes.push(self.infix_frac_node(infix_frac, &denominator));
+                    self.state.style = old_style;
+                }
                 nodes.push(target);
+                cell_start = nodes.len();
                 continue;
             }
 
@@ -293,37 +303,9 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             // If there are superscripts or subscripts, we need to wrap the node we just got into
             // one of the node types for superscripts and subscripts.
         }
-        if let Some((numerator, with_line, delim)) = infix_frac {
-            let denominator = mem::replace(&mut nodes, Vec::with_capacity(1));
-            let (lt_value, lt_unit) = if with_line {
-                Length::none().into_parts()
-            } else {
-                Length::zero().into_parts()
-            };
-            let frac = self.commit(Node::Frac {
-                num: node_vec_to_node(self.arena, &numerator, false),
-                denom: node_vec_to_node(self.arena, &denominator, false),
-                lt_value,
-                lt_unit,
-                attr: None,
-            });
-            let node = if let Some(delim) = delim {
-                let (open, close) = match delim {
-                    InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
-                    InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
-                    InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
-                };
-                self.commit(fenced(
-                    self.arena,
-                    vec![frac],
-                    Some(open),
-                    Some(close),
-                    None,
-                ))
-            } else {
-                frac
-            };
-            nodes.push(node);
+        if let Some(infix_frac) = infix_frac {
+            let denominator = nodes.split_off(cell_start);
+            nodes.push(self.infix_frac_node(infix_frac, &denominator));
         }
         if !keep_end_token {
             // Discard the end token.
@@ -338,12 +320,49 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         Ok(nodes)
     }
 
+    /// Construct the fraction for an infix command like `\over`.
+    fn infix_frac_node(
+        &self,
+        (numerator, with_line, delim): (Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>),
+        denominator: &[&'arena Node<'arena>],
+    ) -> &'arena Node<'arena> {
+        let (lt_value, lt_unit) = if with_line {
+            Length::none().into_parts()
+        } else {
+            Length::zero().into_parts()
+        };
+        let frac = self.commit(Node::Frac {
+            num: node_vec_to_node(self.arena, &numerator, false),
+            denom: node_vec_to_node(self.arena, denominator, false),
+            lt_value,
+            lt_unit,
+            attr: None,
+        });
+        if let Some(delim) = delim {
+            let (open, close) = match delim {
+                InfixDelim::Paren => (OPEN_PAREN, CLOSE_PAREN),
+                InfixDelim::Brace => (OPEN_BRACE, CLOSE_BRACE),
+                InfixDelim::Brack => (OPEN_BRACKET, CLOSE_BRACKET),
+            };
+            self.commit(fenced(
+                self.arena,
+                vec![frac],
+                Some(open),
+                Some(close),
+                None,
+            ))
+        } else {
+            frac
+        }
+    }
+
     #[inline]
     fn handle_tokens_without_output(
         &mut self,
         tokspan: &TokSpan,
         sequence_end: SequenceEnd,
         collected_nodes: &mut Vec<&'arena Node<'arena>>,
+        cell_start: usize,
         infix_frac: &mut Option<(Vec<&'arena Node<'arena>>, bool, Option<InfixDelim>)>,
     ) -> ParseResult<ControlFlow> {
         let span = tokspan.span().into();
@@ -358,7 +377,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             }
             Token::InfixGenFrac { with_line, delim } => {
                 if infix_frac.is_none() {
-                    *infix_frac = Some((mem::take(collected_nodes), with_line, delim));
+                    *infix_frac = Some((collected_nodes.split_off(cell_start), with_line, delim));
                     // The numerator was already parsed in the surrounding style (we only
                     // learn it's a fraction here), but we can at least shrink the style
                     // for the denominator. `parse_sequence` restores the style on exit.
-- 
2.43.0


From 08d16b42c6fc10c82eaac691dfa58037de3c244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 08/27] fix: escape the configured prefix of ids

---
 crates/mathml-renderer/src/ast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index 11a8a5d..b72fbef 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -803,7 +803,7 @@ impl<'state> Emitter<'state> {
                 write!(
                     self.s,
                     r##"<mtext><a href="#{id_prefix}{id}">({text})</a></mtext>"##,
-                    id_prefix = self.id_prefix,
+                    id_prefix = EscapeHtml(self.id_prefix),
                     id = percent_encode(label.as_bytes(), FRAGMENT_SAFE),
                     text = EscapeHtml(tag),
                 )?;
@@ -1000,6 +1000,7 @@ fn write_equation_num(
             write!(
                 s,
                 r#" id="{id_prefix}{id}">"#,
+                id_prefix = EscapeHtml(id_prefix),
                 id = percent_encode(link_target.as_bytes(), FRAGMENT_SAFE)
             )?;
         } else {
-- 
2.43.0


From 6ea8d863eb200c0f06d22b249a6113d4e24f044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:25 +0000
Subject: [PATCH 09/27] fix: do not report a reversed range for a length from a
 macro

---
 crates/math-core/src/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 085aebb..eff40f3 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3120,6 +3120,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
     /// and before the unit, but not within them: `\mkern 1 mu` is valid,
     /// but `\kern1 1em` is not.
     fn parse_kern_or_skip(&mut self, kind: UnitKind, span_end: usize) -> ParseResult<Node<'arena>> {
+        // The tokens of the argument needn't all come from the input: when some of them come
+        // from the body of a custom command, which has no spans of its own, the start may be
+        // behind the end, so we can't just use the two as a range.
+        let ordered = |start: usize, end: usize| start.min(end)..end;
+
         let mut arg_start: Option<usize> = None;
         let mut arg_end = span_end;
 
@@ -3157,7 +3162,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         let value: &str = &buf;
         if value.is_empty() {
             return Err(Box::new(LatexError(
-                arg_start.unwrap_or(span_end)..arg_end,
+                ordered(arg_start.unwrap_or(span_end), arg_end),
                 LatexErrKind::ExpectedLength("".into()),
             )));
         }
@@ -3186,7 +3191,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let start = unit_start.unwrap_or(peek_span.start());
                 let unit_str = core::str::from_utf8(&unit[..i]).unwrap_or("");
                 return Err(Box::new(LatexError(
-                    start..peek_span.start(),
+                    ordered(start, peek_span.start()),
                     LatexErrKind::InvalidUnit(KString::from_ref(unit_str)),
                 )));
             };
@@ -3197,7 +3202,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         }
         let unit = core::str::from_utf8(&unit).unwrap_or("");
 
-        let unit_span = unit_start.unwrap_or(arg_end)..arg_end;
+        let unit_span = ordered(unit_start.unwrap_or(arg_end), arg_end);
         let Ok(latex_unit) = LatexUnit::try_from(unit) else {
             return Err(Box::new(LatexError(
                 unit_span,
@@ -3214,7 +3219,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 },
             )));
         }
-        let arg_span = arg_start.unwrap_or(span_end)..arg_end;
+        let arg_span = ordered(arg_start.unwrap_or(span_end), arg_end);
         let Some(mut value) = limited_float_parse(value) else {
             buf.push_str(unit);
             return Err(Box::new(LatexError(
-- 
2.43.0


From 7c8cc82e72a47ecaf6bd968e6b843f177342c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 10/27] fix: a macro which expands to whitespace does not
 swallow the next token

---
 crates/math-core/src/token_queue.rs | 36 ++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/crates/math-core/src/token_queue.rs b/crates/math-core/src/token_queue.rs
index 2447548..422fab2 100644
--- a/crates/math-core/src/token_queue.rs
+++ b/crates/math-core/src/token_queue.rs
@@ -542,10 +542,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         args: &CmdArgs<'arena>,
         span: Span,
     ) {
-        if tokens.is_empty() {
-            self.queue_empty_body(span);
-            return;
-        }
+        let len_before = self.queue.len();
         self.queue.reserve(tokens.len());
         // Queue the token stream in the front in reverse order.
         for tok in tokens.iter().rev() {
@@ -556,7 +553,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 tok => self.queue.push_front(tok.into()),
             }
         }
-        self.update_next_non_whitespace();
+        self.finish_expansion(len_before, span);
     }
 
     /// Queue the body of a custom command which is kept in one of the stores, as
@@ -580,10 +577,7 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
         let Some(body) = self.stores.get_body(source, start, end) else {
             return false;
         };
-        if body.is_empty() {
-            self.queue_empty_body(span);
-            return true;
-        }
+        let len_before = self.queue.len();
         self.queue.reserve(body.len());
         // Queue the token stream in the front in reverse order.
         for recorded in body.iter().rev() {
@@ -609,26 +603,32 @@ impl<'state, 'arena> TokenQueue<'state, 'arena> {
                 }
             }
         }
-        self.update_next_non_whitespace();
+        self.finish_expansion(len_before, span);
         true
     }
 
-    /// Queue what the body of a custom command with no tokens in it expands to.
+    /// Finish queueing an expansion, given how many tokens were queued before it.
     ///
-    /// Such a body produces nothing at all, but we still have to queue something: without it,
-    /// the caller would take the token which comes after the command and treat that as the
-    /// expansion. The `span` is the one of the command being expanded.
-    fn queue_empty_body(&mut self, span: Span) {
-        self.queue
-            .push_front(TokSpan::new(Token::Relax, span).into());
+    /// An expansion with nothing but whitespace in it, or nothing at all, produces nothing, but
+    /// we still have to queue something: without it, the caller would take the token which
+    /// comes after the command and treat that as the expansion. The `span` is the one of the
+    /// command being expanded.
+    fn finish_expansion(&mut self, len_before: usize, span: Span) {
+        let added = self.queue.len() - len_before;
+        if (self.queue.iter().take(added)).all(|queued| matches!(queued.token(), Token::Whitespace))
+        {
+            self.queue
+                .push_front(TokSpan::new(Token::Relax, span).into());
+        }
         self.update_next_non_whitespace();
     }
 
     /// Queue one argument of a custom command in the front of the buffer, as
     /// [`push_arg_front`] does. Always queues at least one token.
     pub(super) fn queue_arg_in_front(&mut self, arg: &[QueuedTok<'arena>], span: Span) {
+        let len_before = self.queue.len();
         push_arg_front(&mut self.queue, arg, span);
-        self.update_next_non_whitespace();
+        self.finish_expansion(len_before, span);
     }
 
     /// Resolve buffered tokens for commands which have been defined in the meantime.
-- 
2.43.0


From ee9345a13a5703bfa2145c0eb5c7ce1dfc7cd2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 11/27] fix: keep a \label in a non-final row of multline

---
 crates/math-core/src/environments.rs | 5 +++++
 crates/math-core/src/parser.rs       | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/environments.rs b/crates/math-core/src/environments.rs
index f4d4796..9e3af4a 100644
--- a/crates/math-core/src/environments.rs
+++ b/crates/math-core/src/environments.rs
@@ -344,6 +344,11 @@ pub(super) struct NumberedEnvState<'arena> {
 }
 
 impl<'arena> NumberedEnvState<'arena> {
+    /// `true` if the rows make up a single equation, which is numbered on the last row.
+    pub(super) fn is_single_equation(&self) -> bool {
+        matches!(self.mode, NumberingMode::OnlyLast)
+    }
+
     pub(super) fn next_equation_tag(
         &mut self,
         equation_counter: &mut usize,
diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index eff40f3..e399a64 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -1832,7 +1832,12 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.arena,
                     ) {
                         Ok(tag) => {
-                            let link_target = numbered_state.label.take();
+                            let link_target = if numbered_state.is_single_equation() {
+                                // The label belongs to the equation as a whole; keep it for the last row.
+                                None
+                            } else {
+                                numbered_state.label.take()
+                            };
                             let label_info = if let Some(tag) = tag {
                                 if let Some(label) = link_target {
                                     self.tokens.stores.global_state.label_map.insert(
-- 
2.43.0


From c693e0750f4f583960e92b0d9218c6c1e49e7dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 12/27] fix: do not convert a wrong formula a second time to
 get its error

---
 crates/math-core-cli/src/replace.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/crates/math-core-cli/src/replace.rs b/crates/math-core-cli/src/replace.rs
index c9514b5..b7fd460 100644
--- a/crates/math-core-cli/src/replace.rs
+++ b/crates/math-core-cli/src/replace.rs
@@ -185,18 +185,13 @@ impl<'args> Replacer<'args> {
             // Replace HTML entities
             let replaced = replace_html_entities(&mut self.entity_buffer, content);
             // Convert the content and check for error.
-            let is_error = { f(state, &mut result, replaced, open_typ).is_err() };
-            if is_error {
+            if let Err(latex_error) = f(state, &mut result, replaced, open_typ) {
                 // If we stop on error, return the error together with the snippet.
-                // Unfortunately, due to limitations in the borrow checker, we have to run the
-                // conversion again to get the error.
-                // The reason seems to be that the borrow checker cannot tell that when we
-                // return `replaced` here, we are not maintaining the borrow for the next
-                // iteration of the loop.
-                // This is quite unfortunate, but we only have to do this in the error case,
-                // which is hopefully not too common.
+                // The snippet has to be decoded again, because the borrow checker cannot tell that
+                // when we return `replaced` here, we are not maintaining the borrow for the next
+                // iteration of the loop. The conversion must not be run again: it may have changed
+                // `state` before it failed.
                 let replaced = replace_html_entities(&mut self.entity_buffer, content);
-                let latex_error = f(state, &mut result, replaced, open_typ).unwrap_err();
                 return Err(ConversionError(
                     start,
                     ConvErrKind::LatexError(*latex_error, replaced),
-- 
2.43.0


From fa3dc34e91ce1b1d6b21db244fc5a9c81f1b8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 13/27] fix: a binary operator on its own is spaced as an
 ordinary symbol

---
 crates/math-core/src/parser.rs | 41 +++++++++++++---------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e399a64..74d7785 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -727,19 +727,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::BinaryOp(binary_op) => {
-                let spacing = self.state.bin_op_spacing(
+                let spacing;
+                (class, spacing) = self.state.bin_op_spacing(
                     parse_as.in_sequence(),
                     prev_class,
                     next_class,
                     false,
                 );
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
-                    // terms of spacing.
-                    Class::Default
-                } else {
-                    Class::BinaryOp
-                };
                 Ok(Node::Operator {
                     op: binary_op.as_op(),
                     attrs: OpAttrs::empty(),
@@ -749,16 +743,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 })
             }
             Token::ForceBinaryOp(op) => {
-                let spacing =
+                let spacing;
+                (class, spacing) =
                     self.state
                         .bin_op_spacing(parse_as.in_sequence(), prev_class, next_class, true);
-                class = if matches!(spacing, Some(MathSpacing::Zero)) {
-                    // If the spacing is zero, this operator behaves like an ordinary symbol in
-                    // terms of spacing.
-                    Class::Default
-                } else {
-                    Class::BinaryOp
-                };
                 Ok(Node::Operator {
                     op,
                     attrs: OpAttrs::empty(),
@@ -782,8 +770,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         self.mathop_spacing(parse_as, prev_class, true)?
                     }
                     MathClassKind::Bin => {
-                        class = Class::BinaryOp;
-                        let spacing = self.state.bin_op_spacing(
+                        let spacing;
+                        (class, spacing) = self.state.bin_op_spacing(
                             parse_as.in_sequence(),
                             prev_class,
                             next_class,
@@ -3335,23 +3323,26 @@ impl ParserState<'_> {
         prev_class: Class,
         next_class: Class,
         force: bool,
-    ) -> Option<MathSpacing> {
+    ) -> (Class, Option<MathSpacing>) {
         if !in_sequence {
             // Don't add spacing if we are in an argument.
-            None
+            (Class::BinaryOp, None)
         } else if matches!(
             prev_class,
             Class::Relation | Class::Punctuation | Class::BinaryOp | Class::Operator | Class::Open
         ) || matches!(
             next_class,
             Class::Relation | Class::Punctuation | Class::Close | Class::End
-        ) || matches!(self.style, Style::Script | Style::ScriptScript)
-        {
-            Some(MathSpacing::Zero)
+        ) {
+            // Without two operands, this operator behaves like an ordinary symbol in terms of
+            // spacing.
+            (Class::Default, Some(MathSpacing::Zero))
+        } else if matches!(self.style, Style::Script | Style::ScriptScript) {
+            (Class::BinaryOp, Some(MathSpacing::Zero))
         } else if force {
-            Some(MathSpacing::FourMu) // force binary op spacing
+            (Class::BinaryOp, Some(MathSpacing::FourMu)) // force binary op spacing
         } else {
-            None
+            (Class::BinaryOp, None)
         }
     }
 
-- 
2.43.0


From 0f30b1d59bfae0a6850cf87ba8c414ae1374267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 14/27] fix: a font switch ends with the cell of the table

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 74d7785..9c4d609 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -273,6 +273,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     nodes.push(self.infix_frac_node(infix_frac, &denominator));
                     self.state.style = old_style;
                 }
+                // A font switch like `\bf` does not extend beyond its cell either.
+                self.state.transform = old_tf;
                 nodes.push(target);
                 cell_start = nodes.len();
                 continue;
-- 
2.43.0


From 8ec172e96ce60d512c11f0ed48a2d3c515d0e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 15/27] fix: a star after a command without a starred variant
 is not part of its name

---
 crates/math-core/src/commands.rs |  5 +++++
 crates/math-core/src/lexer.rs    | 10 +++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index b8bd6fd..0aa6278 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -949,6 +949,11 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "~" => TextMode(TextToken::Accent(symbol::COMBINING_TILDE)),
 };
 
+/// Whether there is a command with the given name followed by a `*`.
+pub fn has_starred_variant(command: &str) -> bool {
+    matches!(command, "operatorname" | "tag")
+}
+
 pub fn resolve_builtin_cmd(parser_cfg: &ParserConfig, command: &str) -> Option<Token> {
     // First check some conditionally-available commands which are built into the crate.
     'unreliable_rendering: {
diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index e8ceda5..2211dc4 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -6,7 +6,7 @@ use core::str::CharIndices;
 use kstring::KString;
 use mathml_renderer::symbol;
 
-use crate::commands::get_operator_from_unicode;
+use crate::commands::{get_operator_from_unicode, has_starred_variant};
 use crate::environments::Env;
 use crate::error::{GetUnwrap, LatexErrKind, LatexError};
 use crate::token::{EndToken, Mode, PrimeKind, Span, TokSpan, Token};
@@ -79,8 +79,12 @@ impl<'source> Lexer<'source> {
             self.read_char();
         }
 
-        // Commands may end with a "*".
-        if self.peek.1 == Some('*') {
+        // Some commands have a variant which ends with a "*". For all others, the "*" isn't part of
+        // the name: `\alpha*x` is `\alpha` followed by `*x`.
+        if self.peek.1 == Some('*')
+            // SAFETY: we got both positions from `CharIndices`, so they are valid bounds.
+            && has_starred_variant(self.input_string.get_unwrap(start..self.peek.0))
+        {
             self.read_char();
         }
 
-- 
2.43.0


From 991a4c4bdfd82b5907b063e9c505cfead4599df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 16/27] fix: keep the space after a command for a character in
 text

---
 crates/math-core/src/lexer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/lexer.rs b/crates/math-core/src/lexer.rs
index 2211dc4..4bc8348 100644
--- a/crates/math-core/src/lexer.rs
+++ b/crates/math-core/src/lexer.rs
@@ -246,8 +246,12 @@ impl<'source> Lexer<'source> {
             '\\' => {
                 let (cmd_string, end) = self.read_command();
                 let span = Span::new(loc, end);
-                // After a command, all whitespace is skipped, even in text mode.
-                self.skip_whitespace();
+                // After a command, all whitespace is skipped, even in text mode. The exception are the
+                // commands for characters like `\&`: they don't need anything to end their name, so
+                // the whitespace which follows them is part of the text.
+                if !matches!(cmd_string, "#" | "$" | "%" | "&" | "_" | "{" | "}") {
+                    self.skip_whitespace();
+                }
                 return self.parse_env_marker(span, cmd_string);
             }
             c if c.is_ascii_digit() => Token::Digit(c),
-- 
2.43.0


From 36f7efc5c89d65159175252d5b20a34705fbaacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 17/27] fix: an inch is 2.54 cm

---
 crates/math-core/src/specifications.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/math-core/src/specifications.rs b/crates/math-core/src/specifications.rs
index 055d882..27aacfa 100644
--- a/crates/math-core/src/specifications.rs
+++ b/crates/math-core/src/specifications.rs
@@ -53,7 +53,7 @@ impl LatexUnit {
             LatexUnit::Pt => Length::new(0.1 * value, Rem),
             LatexUnit::Mm => Length::new(0.28453 * value, Rem),
             LatexUnit::Cm => Length::new(2.8453 * value, Rem),
-            LatexUnit::In => Length::new(7.2 * value, Rem),
+            LatexUnit::In => Length::new(7.227 * value, Rem),
             LatexUnit::Ex => Length::new(value, Ex),
             LatexUnit::Em => Length::new(value, Em),
             LatexUnit::Mu => Length::new(0.055555556 * value, Em),
-- 
2.43.0


From 48b165bfac6b38a35c612c7551f2f3fe1bd813a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 18/27] fix: a declaration in an optional argument ends with it

---
 crates/math-core/src/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 9c4d609..e663b27 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -60,6 +60,9 @@ struct ParserState<'arena> {
     /// this is not the case for style-only rows.
     /// This is currently a hack, which should be replaced by a more robust solution later.
     right_boundary_hack: bool,
+    /// Whether the innermost explicitly delimited sequence is an optional argument, i.e., whether
+    /// it ends at a `]`. Declarations in it, like `\color`, end there as well.
+    in_optional_arg: bool,
     env: EnvState<'arena>,
     /// The current style (display/text/script/scriptscript) for the surrounding group.
     style: Style,
@@ -157,6 +160,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 cmd_args: CmdArgs::default(),
                 transform: None,
                 right_boundary_hack: false,
+                in_optional_arg: false,
                 env: EnvState::default(),
                 style,
                 vertical_line_def: None,
@@ -202,6 +206,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     // The end of a cell also ends the scope of, e.g., `\color`.
                     Token::NewColumn => self.state.env.allow_columns,
                     Token::NewLine => self.state.env.meaningful_newlines,
+                    // So does the end of an optional argument.
+                    Token::SquareBracketClose => self.state.in_optional_arg,
                     _ => false,
                 })
     }
@@ -240,6 +246,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             self.state.env.meaningful_newlines = false;
         }
 
+        let old_in_optional_arg = self.state.in_optional_arg;
+        if let SequenceEnd::EndToken(end_token) = sequence_end {
+            self.state.in_optional_arg = matches!(end_token, EndToken::SquareBracketClose);
+        }
+
         // Because we don't want to consume the end token, we just peek here.
         while !self.sequence_ends(sequence_end) {
             // Check whether we need to collect letters.
@@ -319,6 +330,7 @@ impl<'state, 'arena> Parser<'state, 'arena> {
             self.state.env.allow_columns,
             self.state.env.meaningful_newlines,
         ) = old_separators;
+        self.state.in_optional_arg = old_in_optional_arg;
         Ok(nodes)
     }
 
-- 
2.43.0


From c1282a97db64e1285eeddb4708b982276920a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 19/27] fix: spaces of a given length pass the class of the
 preceding atom through

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index e663b27..f52f8a2 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -895,6 +895,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 Ok(Node::Space(space))
             }
             Token::CustomSpace(kind) => {
+                // Spaces pass through the symbol class.
+                class = prev_class;
                 let (length, span) = self.parse_string_literal()?;
                 let trimmed = length.trim_ascii();
                 match parse_length_specification(trimmed) {
-- 
2.43.0


From 6bddc32668cd827208f58ddd04b1ae16ddb0fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 20/27] fix: draw the second line after the last column of an
 array

---
 crates/mathml-renderer/src/ast.rs   |  3 ++
 crates/mathml-renderer/src/table.rs | 81 ++++++++++++++++++-----------
 2 files changed, 53 insertions(+), 31 deletions(-)

diff --git a/crates/mathml-renderer/src/ast.rs b/crates/mathml-renderer/src/ast.rs
index b72fbef..80b60fa 100644
--- a/crates/mathml-renderer/src/ast.rs
+++ b/crates/mathml-renderer/src/ast.rs
@@ -849,6 +849,7 @@ impl<'state> Emitter<'state> {
             match **node {
                 Node::ColumnSeparator => {
                     writeln_indent!(self, child_indent2, "</mtd>");
+                    col_gen.write_lines(&mut self.s, child_indent2, self.indentation)?;
                     col_gen.write_next_mtd(&mut self.s, child_indent2, self.indentation)?;
                 }
                 Node::RowSeparator {
@@ -856,6 +857,7 @@ impl<'state> Emitter<'state> {
                     border_top,
                 } => {
                     writeln_indent!(self, child_indent2, "</mtd>");
+                    col_gen.write_lines(&mut self.s, child_indent2, self.indentation)?;
                     if let Some(numbering_cols) = numbering_cols {
                         write_equation_num(
                             &mut self.s,
@@ -889,6 +891,7 @@ impl<'state> Emitter<'state> {
             }
         }
         writeln_indent!(self, child_indent2, "</mtd>");
+        col_gen.write_lines(&mut self.s, child_indent2, self.indentation)?;
         if let Some(numbering_cols) = numbering_cols {
             write_equation_num(
                 &mut self.s,
diff --git a/crates/mathml-renderer/src/table.rs b/crates/mathml-renderer/src/table.rs
index 5d4bb23..c322c9b 100644
--- a/crates/mathml-renderer/src/table.rs
+++ b/crates/mathml-renderer/src/table.rs
@@ -150,23 +150,64 @@ impl<'arena> ColumnGenerator<'arena> {
         self.row_border_top = border_top;
     }
 
+    /// Write the cells for the lines which stand at the current position of the column
+    /// specification without belonging to a column with content.
+    pub fn write_lines(
+        &mut self,
+        s: &mut String,
+        indent_num: usize,
+        indentation: Indentation,
+    ) -> Result<(), core::fmt::Error> {
+        let AlignmentType::Custom(array_spec) = self.typ else {
+            return Ok(());
+        };
+        let border_top = self.border_top_style();
+        while let Some(ColumnSpecEntry::OnlyLine(line_type)) =
+            array_spec.column_spec.get(self.column_idx)
+        {
+            self.column_idx += 1;
+            new_line_and_indent(s, indent_num, indentation);
+            write!(s, "{MTD_OPEN_STYLE}{border_top}")?;
+            match line_type {
+                LineType::Solid => {
+                    write!(s, "{BORDER_RIGHT_SOLID}")?;
+                }
+                LineType::Dashed => {
+                    write!(s, "{BORDER_RIGHT_DASHED}")?;
+                }
+            }
+            if array_spec.is_sub {
+                write!(s, "{PADDING_TOP_BOTTOM_ZERO}")?;
+            }
+            write!(s, "padding-left: 0.1em;padding-right: 0.1em;")?;
+            write!(s, "\"></mtd>")?;
+        }
+        Ok(())
+    }
+
+    /// The top border (from `\hline`/`\hdashline`) applied to every cell of the current row.
+    fn border_top_style(&self) -> &'static str {
+        match self.row_border_top {
+            None => "",
+            Some(LineType::Solid) => BORDER_TOP_SOLID,
+            Some(LineType::Dashed) => BORDER_TOP_DASHED,
+        }
+    }
+
     pub fn write_next_mtd(
         &mut self,
         s: &mut String,
         indent_num: usize,
         indentation: Indentation,
     ) -> Result<(), core::fmt::Error> {
+        // Lines to the left of the first column.
+        self.write_lines(s, indent_num, indentation)?;
         new_line_and_indent(s, indent_num, indentation);
         let column_idx = self.column_idx;
         self.column_idx += 1;
-        // Top border (from `\hline`/`\hdashline`) applied to every cell of the current row.
-        // When non-empty, the plain `<mtd>` fast paths are replaced by a styled cell, and the
-        // border is injected at the start of every other cell's style.
-        let border_top = match self.row_border_top {
-            None => "",
-            Some(LineType::Solid) => BORDER_TOP_SOLID,
-            Some(LineType::Dashed) => BORDER_TOP_DASHED,
-        };
+        // When there is a top border, the plain `<mtd>` fast paths are replaced by a styled cell,
+        // and the border is injected at the start of every other cell's style.
+        let border_top = self.border_top_style();
         match self.typ {
             AlignmentType::Predefined(align) => {
                 let is_even = column_idx.is_multiple_of(2);
@@ -200,32 +241,10 @@ impl<'arena> ColumnGenerator<'arena> {
                     alignment: ColumnAlignment::Centered,
                     border_right: None,
                 };
-                let mut column_spec = array_spec
+                let column_spec = array_spec
                     .column_spec
                     .get(column_idx)
                     .unwrap_or(&DEFAULT_COLUMN_SPEC);
-                while let ColumnSpecEntry::OnlyLine(line_type) = column_spec {
-                    column_spec = array_spec
-                        .column_spec
-                        .get(self.column_idx)
-                        .unwrap_or(&DEFAULT_COLUMN_SPEC);
-                    self.column_idx += 1;
-                    write!(s, "{MTD_OPEN_STYLE}{border_top}")?;
-                    match line_type {
-                        LineType::Solid => {
-                            write!(s, "{BORDER_RIGHT_SOLID}")?;
-                        }
-                        LineType::Dashed => {
-                            write!(s, "{BORDER_RIGHT_DASHED}")?;
-                        }
-                    }
-                    if array_spec.is_sub {
-                        write!(s, "{PADDING_TOP_BOTTOM_ZERO}")?;
-                    }
-                    write!(s, "padding-left: 0.1em;padding-right: 0.1em;")?;
-                    write!(s, "\"></mtd>")?;
-                    new_line_and_indent(s, indent_num, indentation);
-                }
                 match column_spec {
                     ColumnSpecEntry::WithContent {
                         alignment,
-- 
2.43.0


From 4617de973dd9116e26fb7cee55a8950640e9e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 21/27] fix: allow a plus sign before a length in braces

---
 crates/math-core/src/specifications.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/math-core/src/specifications.rs b/crates/math-core/src/specifications.rs
index 27aacfa..7f68f2f 100644
--- a/crates/math-core/src/specifications.rs
+++ b/crates/math-core/src/specifications.rs
@@ -70,6 +70,12 @@ pub(crate) fn parse_length_specification(s: &str) -> Option<(Length, &str, bool)
     // (This can fail if `unit_offset` is not a valid UTF-8 boundary.)
     let (digits, unit) = s.split_at_checked(unit_offset)?;
 
+    // An explicit plus sign is allowed, but only one sign in total.
+    let digits = match digits.strip_prefix('+') {
+        Some(rest) if !rest.starts_with('-') => rest,
+        _ => digits,
+    };
+
     let value = crate::atof::limited_float_parse(digits.trim_ascii_end())?;
 
     let parsed_unit = LatexUnit::try_from(unit).ok()?;
-- 
2.43.0


From b9b36449163655b79db3dd16c6d53fe25e5df8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 22/27] fix: a declaration before an infix command ends with
 the numerator

---
 crates/math-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index f52f8a2..2c8ea90 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -208,6 +208,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     Token::NewLine => self.state.env.meaningful_newlines,
                     // So does the end of an optional argument.
                     Token::SquareBracketClose => self.state.in_optional_arg,
+                    // The whole list up to `\over` and the like is the numerator.
+                    Token::InfixGenFrac { .. } => true,
                     _ => false,
                 })
     }
-- 
2.43.0


From b6c95653443f2d6a107ed4ef7110e2a42bfd3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 23/27] fix: refuse a color with digits which are not
 hexadecimal

---
 crates/math-core/src/parser.rs | 39 ++++++++++++++++------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 2c8ea90..b4928be 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -2008,29 +2008,26 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                             (r as u8, g as u8, b as u8)
                         }
                         "HTML" => {
-                            fn hex(h: u8) -> u8 {
-                                match h {
-                                    b'0'..=b'9' => h - b'0',
-                                    b'a'..=b'f' => h - b'a' + 10,
-                                    b'A'..=b'F' => h - b'A' + 10,
-                                    _ => 0,
-                                }
+                            fn hex(h: u8) -> Option<u8> {
+                                (h as char).to_digit(16).map(|d| d as u8)
                             }
-                            match color_description.as_bytes() {
-                                &[r1, r2, g1, g2, b1, b2] => (
-                                    hex(r1) * 16 + hex(r2),
-                                    hex(g1) * 16 + hex(g2),
-                                    hex(b1) * 16 + hex(b2),
-                                ),
-                                _ => {
-                                    break 'color Err(LatexError(
-                                        span,
-                                        LatexErrKind::UnknownColor(KString::from_ref(
-                                            color_description,
-                                        )),
-                                    ));
-                                }
+                            fn hex_pair(h: u8, l: u8) -> Option<u8> {
+                                Some(hex(h)? * 16 + hex(l)?)
                             }
+                            let color = match color_description.as_bytes() {
+                                &[r1, r2, g1, g2, b1, b2] => hex_pair(r1, r2)
+                                    .and_then(|r| Some((r, hex_pair(g1, g2)?, hex_pair(b1, b2)?))),
+                                _ => None,
+                            };
+                            let Some(color) = color else {
+                                break 'color Err(LatexError(
+                                    span,
+                                    LatexErrKind::UnknownColor(KString::from_ref(
+                                        color_description,
+                                    )),
+                                ));
+                            };
+                            color
                         }
                         unexpected => {
                             break 'color Err(LatexError(
-- 
2.43.0


From bf527871f60d4ef43b1d4dfd6ca99e2890607175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 24/27] fix: \det takes limits in displayed formulas

---
 crates/math-core/src/commands.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/commands.rs b/crates/math-core/src/commands.rs
index 0aa6278..64582ce 100644
--- a/crates/math-core/src/commands.rs
+++ b/crates/math-core/src/commands.rs
@@ -22,8 +22,8 @@ use crate::{
 // These function names are essentially just passed-through, wrapped in a token.
 static FUNCTIONS: phf::Set<&'static str> = phf::phf_set!(
     "arccos", "arcctg", "arcsin", "arctan", "arctg", "arg", "ch", "cos", "cosec", "cosh", "cot",
-    "cotg", "coth", "csc", "ctg", "cth", "deg", "det", "dim", "erf", "erfc", "exp", "hom", "ker",
-    "lg", "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"
+    "cotg", "coth", "csc", "ctg", "cth", "deg", "dim", "erf", "erfc", "exp", "hom", "ker", "lg",
+    "ln", "log", "sec", "sh", "sin", "sinh", "tan", "tanh", "tg", "th"
 );
 
 static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
@@ -311,6 +311,7 @@ static COMMANDS: phf::Map<&'static str, Token> = phf::phf_map! {
     "def" => Def(false),
     "degree" => Letter(SuperChar::from_char(symbol::DEGREE_SIGN), Mode::MathOrText),
     "delta" => Letter(SuperChar::from_char(symbol::GREEK_SMALL_LETTER_DELTA), Mode::Math),
+    "det" => PseudoOperatorLimits("det"),
     "dfrac" => Frac(Some(FracAttr::DisplayStyleTrue)),
     "diagdown" => ForceOrd(symbol::MATHEMATICAL_FALLING_DIAGONAL.as_op()),
     "diagup" => ForceOrd(symbol::MATHEMATICAL_RISING_DIAGONAL.as_op()),
-- 
2.43.0


From 6f84527399dd6b542dab5ae2e636cc536fc551db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 25/27] fix: keep track of the style in indices of roots,
 labels of braces, pre-scripts, and scripts of scripts

---
 crates/math-core/src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index b4928be..19b300b 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -938,11 +938,13 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                     && matches!(tokloc.token(), Token::SquareBracketOpen)
                 {
                     // FIXME: We should perhaps use set `right_boundary_hack` here.
+                    let old_style = mem::replace(&mut self.state.style, Style::ScriptScript);
                     let degree = self.parse_sequence(
                         SequenceEnd::EndToken(EndToken::SquareBracketClose),
                         Class::Open,
                         false,
                     )?;
+                    self.state.style = old_style;
                     let content = self.parse_next(ParseAs::Arg)?;
                     Ok(Node::Root(
                         node_vec_to_node(self.arena, &degree, true),
@@ -1070,7 +1072,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 }
             }
             Token::Overset | Token::Underset => {
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let inner_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, inner_style);
                 let symbol = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
                 let token = self.next_token();
@@ -1097,7 +1100,10 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 {
                     let target = self.commit(base);
                     self.next_token()?; // Discard the circumflex or underscore token.
+                    let inner_style = self.state.style.scriptify();
+                    let old_style = mem::replace(&mut self.state.style, inner_style);
                     let expl = self.parse_next(ParseAs::Arg)?;
+                    self.state.style = old_style;
                     if is_over {
                         Ok(Node::Over {
                             symbol: expl,
@@ -2126,8 +2132,11 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 return Ok(Parsed::Expansion);
             }
             Token::Prescript => {
+                let inner_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, inner_style);
                 let sup = self.parse_next(ParseAs::Arg)?;
                 let sub = self.parse_next(ParseAs::Arg)?;
+                self.state.style = old_style;
                 let base = self.parse_next(ParseAs::Arg)?;
                 let pre = self
                     .arena
@@ -2279,7 +2288,8 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 // Parse the over-argument in the same state the original token-stream
                 // expansion used: `style` is set by the outer `\overset`, and
                 // `right_boundary_hack` is set by the inner `\overset`'s target group.
-                let old_style = mem::replace(&mut self.state.style, Style::Script);
+                let inner_style = self.state.style.scriptify();
+                let old_style = mem::replace(&mut self.state.style, inner_style);
                 let old_boundary_hack = mem::replace(&mut self.state.right_boundary_hack, true);
 
                 // Optional under-argument in square brackets (e.g. `\xrightarrow[a]{b}`),
-- 
2.43.0


From 6ee434d943cab3666be85098b953be3ac70f3d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 26/27] fix: \dfrac and \tfrac in scripts reset the size

---
 crates/math-core/src/parser.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index 19b300b..bea77db 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -966,6 +966,14 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                 let num = self.parse_next(ParseAs::Arg)?;
                 let denom = self.parse_next(ParseAs::Arg)?;
                 self.state.style = old_style;
+                // The `displaystyle` attribute does not reset the size, which is smaller in
+                // scripts.
+                let in_script = matches!(self.state.style, Style::Script | Style::ScriptScript);
+                let (attr, style) = match attr {
+                    Some(FracAttr::DisplayStyleTrue) if in_script => (None, Some(Style::Display)),
+                    Some(FracAttr::DisplayStyleFalse) if in_script => (None, Some(Style::Text)),
+                    _ => (attr, None),
+                };
                 if matches!(cur_token, Token::Binom(_)) {
                     let (lt_value, lt_unit) = Length::zero().into_parts();
                     Ok(fenced(
@@ -979,17 +987,29 @@ impl<'state, 'arena> Parser<'state, 'arena> {
                         })],
                         Some(OPEN_PAREN),
                         Some(CLOSE_PAREN),
-                        None,
+                        style,
                     ))
                 } else {
                     let (lt_value, lt_unit) = Length::none().into_parts();
-                    Ok(Node::Frac {
+                    let frac = Node::Frac {
                         num,
                         denom,
                         lt_value,
                         lt_unit,
                         attr,
-                    })
+                    };
+                    if style.is_some() {
+                        let frac = self.commit(frac);
+                        Ok(Node::Row {
+                            nodes: self.arena.push_slice(&[frac]),
+                            attrs: RowAttrs {
+                                style,
+                                ..RowAttrs::DEFAULT
+                            },
+                        })
+                    } else {
+                        Ok(frac)
+                    }
                 }
             }
             Token::Genfrac => 'genfrac: {
-- 
2.43.0


From c827a6f1a6ae7e8e79e382307e8410c5fbc16410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 27/27] fix: report where the colour is that \textcolor does
 not know

---
 crates/math-core/src/parser.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/math-core/src/parser.rs b/crates/math-core/src/parser.rs
index bea77db..bc6c1c6 100644
--- a/crates/math-core/src/parser.rs
+++ b/crates/math-core/src/parser.rs
@@ -3275,7 +3275,19 @@ impl<'state, 'arena> Parser<'state, 'arena> {
         &mut self,
     ) -> Result<(&'arena str, Range<usize>), Box<LatexError>> {
         let (tokens, span) = match self.tokens.read_argument(true)? {
-            MacroArgument::Group(tokens, span) => (tokens, span),
+            MacroArgument::Group(tokens, span) => {
+                // If the braces come from the body of a command (like `\textcolor`), they have
+                // no spans of their own, but what is between them may have.
+                let span = if span.is_empty()
+                    && let (Some(first), Some(last)) = (tokens.first(), tokens.last())
+                    && first.span().start() < last.span().end()
+                {
+                    first.span().start()..last.span().end()
+                } else {
+                    span
+                };
+                (tokens, span)
+            }
             MacroArgument::Token(tokspan) => {
                 if let (Token::InternalStringLiteral(content), span) = tokspan.into_parts() {
                     return Ok((content, span.into()));
-- 
2.43.0

