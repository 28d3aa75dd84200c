From fc10a4f78baba951cbf3f01a28b72d981861c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:54 +0000
Subject: [PATCH 01/26] Add guarded access to the escape handling for
 verification builds

---
 src/hml.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hml.rs b/src/hml.rs
index f441eac..79cfdf1 100644
--- a/src/hml.rs
+++ b/src/hml.rs
@@ -9,4 +9,12 @@ This module provides escape handling for XML and entity replacement
 
 !*/
 
+// Verification builds (--cfg hml_verif) reach the escape handling directly
+#[allow(unexpected_cfgs)]
+#[cfg(hml_verif)]
+#[allow(missing_docs)]
+pub mod escape;
+
+#[allow(unexpected_cfgs)]
+#[cfg(not(hml_verif))]
 mod escape;
-- 
2.43.0


From 91e1b5ba72c735e98b77c6bddb7640c55ba45ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:51 +0000
Subject: [PATCH 02/26] fix: look at the character after the ';' of a comment

The comment reader peeked at the ';' again and assumed that the same
character followed it. An empty comment at the end of the text made the
reader step beyond the text, a comment starting with a multi-byte
character put it inside that character, and an empty comment line
swallowed the line after it.
---
 src/hml_reader/lexer_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index f5f1701..d25067f 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -28,9 +28,9 @@ where
     // Skip past the ';'
     // the comment line is from posn to the newline (or EOF)
     let comment_start = lexer.consumed_char(posn, ch);
-    let Some(ch) = lexer.peek_at(&posn) else {
+    let Some(ch) = lexer.peek_at(&comment_start) else {
         acc.push((comment_start, comment_start));
-        return (acc, None);
+        return (acc, Some(comment_start));
     };
     let (comment_end, _) = lexer.do_while(comment_start, ch, &|_, ch| !is_newline(ch));
     acc.push((comment_start, comment_end));
-- 
2.43.0


From 456cf54561b054d441c0e1f72bb0e613f7627ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:51 +0000
Subject: [PATCH 03/26] fix: count newlines in whitespace

Whitespace was consumed without regard to newlines, so the lines and
columns of everything after a blank or plain line break were wrong.
---
 src/hml_reader/lexer_parsers.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index d25067f..4a7c8f7 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -62,13 +62,33 @@ where
     )))
 }
 
+//fi consume_whitespace
+/// Fold function that moves past one whitespace character, keeping track of newlines
+fn consume_whitespace<L, P>(
+    lexer: &L,
+    acc: (),
+    posn: &P,
+    _n: usize,
+    ch: char,
+) -> ((), Option<P>)
+where
+    L: lexer_rs::Lexer<State = P> + lexer_rs::CharStream<P>,
+    P: Posn,
+{
+    if ch.is_whitespace() {
+        (acc, Some(lexer.consumed_char(*posn, ch)))
+    } else {
+        (acc, None)
+    }
+}
+
 //fi parse_whitespace
 fn parse_whitespace<L, P>(lexer: &L, posn: P, ch: char) -> HmlResult<Option<(P, Token<P>)>, P>
 where
     L: lexer_rs::Lexer<State = P> + lexer_rs::CharStream<P>,
     P: Posn,
 {
-    let (end, Some((start, _n))) = lexer.do_while(posn, ch, &|_, ch| ch.is_whitespace()) else {
+    let (end, Some((start, _n, _))) = lexer.fold(posn, ch, (), &consume_whitespace) else {
         return Ok(None);
     };
     let token = Token::whitespace(Span::new(start, end));
-- 
2.43.0


From 4d90efe3d6ca6f10331e81d6a982a187939ffba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:52 +0000
Subject: [PATCH 04/26] fix: refuse a close tag when no boxed element is open

Such a close tag made the parser panic.
---
 src/error.rs             | 13 +++++++++++++
 src/hml_reader/parser.rs |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0b0beda..f1584e7 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -126,6 +126,12 @@ where
     /// Iterated beyond the end of the reader stream
     #[error("Attempt to parse beyond end of tokens, probably a bug")]
     BeyondEndOfTokens,
+    /// A close tag that does not match an open boxed element
+    #[error("Close tag does not match an open boxed element")]
+    UnexpectedCloseTag {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Attribute provided where an attribute was not expected
     #[error("Found attribute when not expected {attr}")]
     UnexpectedAttribute {
@@ -201,6 +207,12 @@ where
         Err(Self::UnexpectedTagIndent { span, depth })
     }
 
+    //fp unexpected_close_tag
+    /// Return an unexpected_close_tag error over the given span
+    pub fn unexpected_close_tag<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::UnexpectedCloseTag { span })
+    }
+
     //fp unexpected_attribute
     /// Return an unexpected_attribute eror over the given span
     pub fn unexpected_attribute<T>(span: Span<P>, prefx: &str, name: &str) -> HmlResult<T, P> {
@@ -239,6 +251,7 @@ where
             Self::IoError { span, .. } => Some(span),
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
+            Self::UnexpectedCloseTag { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 6feb310..f1ee32f 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -117,6 +117,8 @@ where
             let span = Span::new_at(close_tag.span().start());
             self.pending_close_tag = Some(close_tag);
             self.pop_tag_stack(ns_stack, &span)
+        } else if self.tag_stack.is_empty() {
+            HmlError::unexpected_close_tag(*close_tag.span())
         } else {
             // should validate close_tag matches the StackElement at the top of the tag stack
             self.pop_tag_stack(ns_stack, close_tag.span())
-- 
2.43.0


From cafc8e8cbd598bd4b66f891469228369d2acff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:52 +0000
Subject: [PATCH 05/26] fix: refuse a close tag that does not match its boxed
 element

The grammar requires the depth and name of the close tag to be those of
the element it closes, but any close tag was accepted.
---
 src/hml_reader/builder.rs |  8 +++++++-
 src/hml_reader/parser.rs  | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index 983b995..a9271f7 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -44,7 +44,6 @@ where
     T: std::fmt::Debug,
 {
     span: Span<P>,
-    #[allow(dead_code)]
     name: Name,
     pub extra: T,
 }
@@ -147,6 +146,13 @@ where
         self.tag_name = tag.name;
         Ok(Event::start_element(self.open_tag.span, tag))
     }
+    pub fn extra(&self) -> &T {
+        &self.open_tag.extra
+    }
+    /// True if the prefix and name of the close tag are those of this element
+    pub fn is_closed_by(&self, close_tag: &CloseTag<P, T>) -> bool {
+        self.tag_name.prefix == close_tag.name.prefix && self.tag_name.name == close_tag.name.name
+    }
     pub fn as_end_element(
         &self,
         ns_stack: &mut NamespaceStack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index f1ee32f..e2bea76 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -117,10 +117,14 @@ where
             let span = Span::new_at(close_tag.span().start());
             self.pending_close_tag = Some(close_tag);
             self.pop_tag_stack(ns_stack, &span)
-        } else if self.tag_stack.is_empty() {
-            HmlError::unexpected_close_tag(*close_tag.span())
         } else {
-            // should validate close_tag matches the StackElement at the top of the tag stack
+            let matches = match self.tag_stack.last() {
+                Some(e) => e.is_closed_by(&close_tag) && e.extra().depth == close_tag.extra.depth,
+                None => false,
+            };
+            if !matches {
+                return HmlError::unexpected_close_tag(*close_tag.span());
+            }
             self.pop_tag_stack(ns_stack, close_tag.span())
         }
     }
-- 
2.43.0


From 327fab6de33a6065276a1d4cd4240892b4dc203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:52 +0000
Subject: [PATCH 06/26] fix: refuse a text that ends inside a boxed element

The grammar requires every boxed element to be closed.
---
 src/hml_reader/parser.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index e2bea76..8aeddaf 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -94,12 +94,18 @@ where
         &mut self,
         ns_stack: &mut NamespaceStack,
     ) -> HmlResult<Option<Event<P>>, P> {
-        if self.tag_stack.is_empty() {
-            self.end_emitted = true;
-            Ok(None)
-        } else {
-            let span = Span::new_at(&self.token_pos);
-            self.pop_tag_stack(ns_stack, &span)
+        match self.tag_stack.last() {
+            None => {
+                self.end_emitted = true;
+                Ok(None)
+            }
+            Some(e) if e.extra().boxed => {
+                HmlError::unexpected_eof(&self.token_pos, &self.token_pos)
+            }
+            Some(_) => {
+                let span = Span::new_at(&self.token_pos);
+                self.pop_tag_stack(ns_stack, &span)
+            }
         }
     }
 
-- 
2.43.0


From 9d37f6b477fdc43dc67a786a9f1d3fbdbfd320d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:53 +0000
Subject: [PATCH 07/26] fix: refuse content outside any element

Content is documented to be always within an element.
---
 src/error.rs             | 14 ++++++++++++++
 src/hml_reader/parser.rs |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index f1584e7..0b0e7c1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -132,6 +132,12 @@ where
         /// Span of the error
         span: Span<P>,
     },
+    /// Content provided outside any element
+    #[error("Found content outside any element")]
+    UnexpectedContent {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Attribute provided where an attribute was not expected
     #[error("Found attribute when not expected {attr}")]
     UnexpectedAttribute {
@@ -213,6 +219,13 @@ where
         Err(Self::UnexpectedCloseTag { span })
     }
 
+    //fp unexpected_content
+    /// Return an unexpected_content error at the given position
+    pub fn unexpected_content<T>(start: &P) -> HmlResult<T, P> {
+        let span = Span::new_at(start);
+        Err(Self::UnexpectedContent { span })
+    }
+
     //fp unexpected_attribute
     /// Return an unexpected_attribute eror over the given span
     pub fn unexpected_attribute<T>(span: Span<P>, prefx: &str, name: &str) -> HmlResult<T, P> {
@@ -252,6 +265,7 @@ where
             Self::UnexpectedCharacter { span, .. } => Some(span),
             Self::UnexpectedTagIndent { span, .. } => Some(span),
             Self::UnexpectedCloseTag { span, .. } => Some(span),
+            Self::UnexpectedContent { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 8aeddaf..60b98f1 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -244,6 +244,9 @@ where
                         HmlError::unexpected_attribute(span, &prefix, &name)
                     }
                 }
+                TokenType::Characters | TokenType::RawCharacters if self.tag_stack.is_empty() => {
+                    HmlError::unexpected_content(token.get_span().start())
+                }
                 TokenType::Characters => {
                     let mut data = token.take_contents();
                     let data = data.pop_front().unwrap();
-- 
2.43.0


From cd71258693623ee1fb154323a54dbc9389c6f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:53 +0000
Subject: [PATCH 08/26] fix: require exactly one root element

The grammar has exactly one element at the top level, but texts with
none or with several were accepted.
---
 src/error.rs             | 13 +++++++++++++
 src/hml_reader/parser.rs | 11 +++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index 0b0e7c1..789fe5b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -138,6 +138,12 @@ where
         /// Span of the error
         span: Span<P>,
     },
+    /// A second element outside the root element
+    #[error("Found a second root element")]
+    MultipleRootElements {
+        /// Span of the error
+        span: Span<P>,
+    },
     /// Attribute provided where an attribute was not expected
     #[error("Found attribute when not expected {attr}")]
     UnexpectedAttribute {
@@ -226,6 +232,12 @@ where
         Err(Self::UnexpectedContent { span })
     }
 
+    //fp multiple_root_elements
+    /// Return a multiple_root_elements error over the given span
+    pub fn multiple_root_elements<T>(span: Span<P>) -> HmlResult<T, P> {
+        Err(Self::MultipleRootElements { span })
+    }
+
     //fp unexpected_attribute
     /// Return an unexpected_attribute eror over the given span
     pub fn unexpected_attribute<T>(span: Span<P>, prefx: &str, name: &str) -> HmlResult<T, P> {
@@ -266,6 +278,7 @@ where
             Self::UnexpectedTagIndent { span, .. } => Some(span),
             Self::UnexpectedCloseTag { span, .. } => Some(span),
             Self::UnexpectedContent { span, .. } => Some(span),
+            Self::MultipleRootElements { span, .. } => Some(span),
             Self::UnexpectedAttribute { span, .. } => Some(span),
             Self::UnexpectedEOF { span, .. } => Some(span),
             Self::UnexpectedNewlineInQuotedString { span, .. } => Some(span),
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 60b98f1..5c7c288 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -30,6 +30,7 @@ where
     start_emitted: bool,
     end_emitted: bool,
     finished: bool,
+    root_seen: bool,
     tag_depth: usize,
     tag_stack: Vec<StackElement<P, TagExtra>>,
     pending_open_tag: Option<OpenTag<P, TagExtra>>,
@@ -50,6 +51,7 @@ where
             start_emitted: false,
             end_emitted: false,
             finished: false,
+            root_seen: false,
             tag_depth: 0,
             tag_stack: Vec::new(),
             pending_eof: false,
@@ -95,6 +97,9 @@ where
         ns_stack: &mut NamespaceStack,
     ) -> HmlResult<Option<Event<P>>, P> {
         match self.tag_stack.last() {
+            None if !self.root_seen => {
+                HmlError::unexpected_eof(&self.token_pos, &self.token_pos)
+            }
             None => {
                 self.end_emitted = true;
                 Ok(None)
@@ -151,6 +156,12 @@ where
             self.pending_open_tag = Some(open_tag);
             self.pop_tag_stack(ns_stack, &span)
         } else if open_tag.extra.depth == self.tag_depth + 1 {
+            if self.tag_stack.is_empty() {
+                if self.root_seen {
+                    return HmlError::multiple_root_elements(*open_tag.span());
+                }
+                self.root_seen = true;
+            }
             // open the new element
             let boxed = open_tag.extra.boxed;
             self.tag_stack
-- 
2.43.0


From 7c0b0e3bc78fc4c34dcce9e6cb7da13521716e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:54 +0000
Subject: [PATCH 09/26] fix: do not print namespace declarations to standard
 output

---
 src/names/attribute.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index b13dec9..9a885ab 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -27,12 +27,10 @@ impl Attribute {
     ) -> MarkupResult<Self> {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
-                println!("Add ns '' to be {}", value);
                 ns_stack.add_ns("", &value);
                 let name = Name::new(ns_stack, name, name)?;
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
-                println!("Add ns {} to be value {}", name, value);
                 ns_stack.add_ns(name, &value);
             }
         }
-- 
2.43.0


From 6514ba1d08d8e5f7b3448eea5a1bcd968a87eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:54 +0000
Subject: [PATCH 10/26] fix: give a default namespace declaration no prefix

The attribute xmlns="..." was delivered as xmlns:xmlns="...", which is
not what was written and is not legal XML.
---
 src/names/attribute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 9a885ab..534339c 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -1,5 +1,5 @@
 //a Imports
-use super::{Name, NamespaceStack};
+use super::{NSPrefixId, Name, NamespaceStack};
 use crate::MarkupResult;
 
 //a Attribute
@@ -28,7 +28,9 @@ impl Attribute {
         if ns_stack.uses_xmlns() {
             if prefix.is_empty() && name == "xmlns" {
                 ns_stack.add_ns("", &value);
-                let name = Name::new(ns_stack, name, name)?;
+                // The declaration is in the xmlns namespace but has no prefix
+                let mut name = Name::new(ns_stack, name, name)?;
+                name.prefix = NSPrefixId::none();
                 return Ok(Self { name, value });
             } else if prefix == "xmlns" {
                 ns_stack.add_ns(name, &value);
-- 
2.43.0


From 3dc337ea0638420760712386cff15f6da62fb6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:55 +0000
Subject: [PATCH 11/26] fix: resolve attribute names after all declarations of
 their element

A namespace declaration covers the whole element it is written on, but
attributes written before the declaration were resolved without it.
---
 src/hml_reader/builder.rs | 29 +++++++++++++++++------------
 src/hml_reader/parser.rs  |  2 +-
 src/names/attribute.rs    | 22 ++++++++++++++++++++++
 3 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/hml_reader/builder.rs b/src/hml_reader/builder.rs
index a9271f7..b4b7416 100644
--- a/src/hml_reader/builder.rs
+++ b/src/hml_reader/builder.rs
@@ -96,7 +96,8 @@ where
     parent_depth: usize,
     open_tag: OpenTag<P, T>,
     tag_name: Name,
-    attributes: Attributes,
+    // The attributes as read: span, prefix, name, value
+    attributes: Vec<(Span<P>, String, String, String)>,
 }
 
 //ii StackElement
@@ -112,7 +113,7 @@ where
     ) -> Self {
         ns_stack.push_frame();
 
-        let attributes = Attributes::default();
+        let attributes = Vec::new();
         let tag_name = Name::none();
         StackElement {
             parent_depth,
@@ -121,19 +122,23 @@ where
             attributes,
         }
     }
-    pub fn add_attribute(
-        &mut self,
-        span: Span<P>,
-        ns_stack: &mut NamespaceStack,
-        prefix: &str,
-        name: &str,
-        value: String,
-    ) -> HmlResult<(), P> {
-        HmlError::map_markup_error(self.attributes.add(ns_stack, prefix, name, value), &span)
+    /// Add an attribute; its name is resolved when the tag is
+    /// complete, as a later attribute may declare its namespace
+    pub fn add_attribute(&mut self, span: Span<P>, prefix: String, name: String, value: String) {
+        self.attributes.push((span, prefix, name, value));
     }
 
     pub fn as_start_element(&mut self, ns_stack: &mut NamespaceStack) -> HmlResult<Event<P>, P> {
-        let attributes = std::mem::take(&mut self.attributes);
+        Attributes::add_declarations(
+            ns_stack,
+            self.attributes
+                .iter()
+                .map(|(_, p, n, v)| (p.as_str(), n.as_str(), v.as_str())),
+        );
+        let mut attributes = Attributes::default();
+        for (span, prefix, name, value) in std::mem::take(&mut self.attributes) {
+            HmlError::map_markup_error(attributes.add(ns_stack, &prefix, &name, value), &span)?;
+        }
         let tag = HmlError::map_markup_error(
             Tag::new(
                 ns_stack,
diff --git a/src/hml_reader/parser.rs b/src/hml_reader/parser.rs
index 5c7c288..4830820 100644
--- a/src/hml_reader/parser.rs
+++ b/src/hml_reader/parser.rs
@@ -249,7 +249,7 @@ where
                         self.tag_stack
                             .last_mut()
                             .unwrap()
-                            .add_attribute(span, ns_stack, &prefix, &name, value)?;
+                            .add_attribute(span, prefix, name, value);
                         Ok(None)
                     } else {
                         HmlError::unexpected_attribute(span, &prefix, &name)
diff --git a/src/names/attribute.rs b/src/names/attribute.rs
index 534339c..2957dff 100644
--- a/src/names/attribute.rs
+++ b/src/names/attribute.rs
@@ -76,6 +76,28 @@ impl Attributes {
         Ok(())
     }
 
+    //mp add_declarations
+    /// Add the namespace declarations amongst a list of attributes
+    /// (given by prefix, name, and value) to the top frame of the
+    /// [NamespaceStack]
+    ///
+    /// This must be done before any of the attributes is added to an
+    /// [Attributes], as a declaration covers the whole of its element
+    pub(crate) fn add_declarations<'a>(
+        ns_stack: &mut NamespaceStack,
+        attributes: impl Iterator<Item = (&'a str, &'a str, &'a str)>,
+    ) {
+        if ns_stack.uses_xmlns() {
+            for (prefix, name, value) in attributes {
+                if prefix.is_empty() && name == "xmlns" {
+                    ns_stack.add_ns("", value);
+                } else if prefix == "xmlns" {
+                    ns_stack.add_ns(name, value);
+                }
+            }
+        }
+    }
+
     //mp steal
     /// Take all the attributes away from another [Attributes] and add them to this
     pub fn steal(&mut self, v: &mut Self) {
-- 
2.43.0


From 788c03c012cf9830dc1e1c2a49aab99475cac4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:55 +0000
Subject: [PATCH 12/26] fix: do not iterate over hidden namespace mappings

The prefixes already returned were never recorded, so mappings hidden by
an inner frame were returned too. The iteration also recursed for every
frame, which a deep stack could turn into a stack overflow.
---
 src/names/namespace_stack.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index ef25eb0..18035b0 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -125,24 +125,21 @@ impl<'ns, 'b> NamespaceStackIterator<'ns, 'b> {
 impl<'ns, 'b> Iterator for NamespaceStackIterator<'ns, 'b> {
     type Item = NSMap;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.frame == 0 {
-            None
-        } else if let Some(iter) = &mut self.frame_iter {
-            if let Some((p_id, u_id)) = iter.next() {
-                if self.used.contains(p_id) {
-                    self.next()
+        while self.frame > 0 {
+            if let Some(iter) = &mut self.frame_iter {
+                if let Some((p_id, u_id)) = iter.next() {
+                    if self.used.insert(*p_id) {
+                        return Some(NSMap::new(*p_id, *u_id));
+                    }
                 } else {
-                    Some(NSMap::new(*p_id, *u_id))
+                    self.frame -= 1;
+                    self.frame_iter = None;
                 }
             } else {
-                self.frame -= 1;
-                self.frame_iter = None;
-                self.next()
+                self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
             }
-        } else {
-            self.frame_iter = Some(self.stack.borrow_frame(self.frame - 1).mappings.iter());
-            self.next()
         }
+        None
     }
 }
 
-- 
2.43.0


From 2cdade782d8eb7c1f175499dd79a85159184b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:56 +0000
Subject: [PATCH 13/26] fix: make iteration over the top namespace frame work

The assertion that the stack is not empty was inverted, and the order of
the mappings in a frame was never recorded.
---
 src/names/namespace_stack.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/names/namespace_stack.rs b/src/names/namespace_stack.rs
index 18035b0..39993a4 100644
--- a/src/names/namespace_stack.rs
+++ b/src/names/namespace_stack.rs
@@ -69,7 +69,13 @@ struct NamespaceStackFrame {
 impl NamespaceStackFrame {
     //mp add_mapping_by_id
     pub fn add_mapping_by_id(&mut self, map: NSMap) {
-        self.mappings.insert(map.prefix_id(), map.uri_id());
+        if self
+            .mappings
+            .insert(map.prefix_id(), map.uri_id())
+            .is_none()
+        {
+            self.order.push(map.prefix_id());
+        }
     }
 
     //mp add_mapping_by_id_if_unset
@@ -288,7 +294,7 @@ impl<'ns> NamespaceStack<'ns> {
     //ap iter_top_mappings
     /// Get a slice of the mappings of the topmost frame
     pub fn iter_top_mappings(&self) -> NamespaceStackFrameIter<'_> {
-        assert!(self.frames.is_empty(), "Namespace stack cannot be empty");
+        assert!(!self.frames.is_empty(), "Namespace stack cannot be empty");
         self.frames.last().unwrap().iter_mappings()
     }
 
-- 
2.43.0


From b137dea385533fee5796a5fc60e0445b04b1365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:56 +0000
Subject: [PATCH 14/26] fix: do not make strings of bytes that are not UTF-8

The bytes given to escape_required need not be valid UTF-8, or may be
cut within a character, and the string was made without a check.
---
 src/escape.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 1ff2236..08ed44b 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -49,6 +49,9 @@ fn do_esc(char_set: usize, esc: usize) -> bool {
 
 //fp escape_required
 /// Return a Some(string) where string is an unescaped version of the input
+///
+/// Return None if the result is not valid UTF-8, which requires the
+/// input not to be, or to be cut within a character
 pub fn escape_required(bytes: &[u8], char_set: usize, i: usize, n: usize) -> Option<String> {
     let mut r = Vec::with_capacity(n);
     if i > 0 {
@@ -87,8 +90,7 @@ pub fn escape_required(bytes: &[u8], char_set: usize, i: usize, n: usize) -> Opt
             }
         }
     }
-    let string = unsafe { String::from_utf8_unchecked(r) };
-    Some(string)
+    String::from_utf8(r).ok()
 }
 
 //fp escape
-- 
2.43.0


From b484f67ea73b1ffc225194afda6b924a230e453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:57 +0000
Subject: [PATCH 15/26] fix: leave references without digits or with a stray x
 alone

References such as &; and &#; were replaced by a nul character, and
&#x4x1; was taken for &#x41;.
---
 src/escape.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 08ed44b..1c23010 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -188,6 +188,7 @@ impl<'a> Entities<'a> {
             let mut is_hex = false;
             let mut is_dec = true;
             let mut value = 0;
+            let mut has_digits = false;
             while i < n {
                 let b = bytes[i];
                 if b == b';' {
@@ -196,7 +197,7 @@ impl<'a> Entities<'a> {
                             return (i + 1, Some(c), None);
                         }
                     }
-                    if is_hex || is_dec {
+                    if has_digits && (is_hex || is_dec) {
                         if let Ok(c) = char::try_from(value) {
                             return (i + 1, None, Some(c));
                         }
@@ -211,12 +212,12 @@ impl<'a> Entities<'a> {
                 } else if (b'a'..=b'f').contains(&b) || (b'A'..=b'F').contains(&b) {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
+                    has_digits = true;
                 } else if b == b'x' {
-                    if i == start + 1 && is_dec {
-                        is_hex = true;
-                    }
+                    is_hex = i == start + 1 && is_dec;
                     is_dec = false;
                 } else if b.is_ascii_digit() {
+                    has_digits = true;
                     if is_dec {
                         value = (value * 10).wrapping_add((b - b'0') as u32);
                     } else {
-- 
2.43.0


From eba4c14670a59576b5740e84dcacd5ad2c704c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:57 +0000
Subject: [PATCH 16/26] fix: replace an entity that follows a bare ampersand

Everything from an ampersand to the next semicolon was taken for one
reference, so in "a & b &lt; c" the reference was not replaced.
---
 src/escape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/escape.rs b/src/escape.rs
index 1c23010..0177747 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -191,6 +191,10 @@ impl<'a> Entities<'a> {
             let mut has_digits = false;
             while i < n {
                 let b = bytes[i];
+                if b == b'&' {
+                    // not an entity; another may start here
+                    break;
+                }
                 if b == b';' {
                     if inc_map {
                         if let Some(c) = self.map.get(&bytes[start..i]) {
-- 
2.43.0


From 0301af0376cf8a7700847ad94d4d0e672e42b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:57 +0000
Subject: [PATCH 17/26] fix: accept all combining diacritical marks in names

XML names may contain U+0300 to U+036F, but only those from U+0369 were
accepted.
---
 src/hml_reader/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hml_reader/utils.rs b/src/hml_reader/utils.rs
index 68a6f61..c5fa942 100644
--- a/src/hml_reader/utils.rs
+++ b/src/hml_reader/utils.rs
@@ -51,7 +51,7 @@ pub fn is_name(ch: char) -> bool {
         let ch = ch as u32;
         ((ch==45) || (ch==46) || (ch==0xb7)) || // - .
             (48..=57).contains(&ch) ||
-            (0x369..=0x36f).contains(&ch) ||
+            (0x300..=0x36f).contains(&ch) ||
             (0x203f..=0x2040).contains(&ch)
     }
 }
-- 
2.43.0


From df83055814f7136498a0531ca9dd5c99f071b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 18/26] fix: make hmlconvert write to the file given by
 --output

The option was accepted but ignored.
---
 src/bin/hmlconvert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index d507e81..832afd4 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -61,7 +61,10 @@ fn main() {
     let lexer_parsers = hml_rs::hml_reader::parse_fns();
     let mut lexer_iter = lexer.iter(&lexer_parsers);
     let mut parser: Parser<LexerPos> = Parser::default().set_version(xml_version);
-    let output = std::io::stdout();
+    let output: Box<dyn Write> = match matches.get_one::<String>("output") {
+        None => Box::new(std::io::stdout()),
+        Some(filename) => Box::new(File::create(filename).unwrap()),
+    };
     let mut writer = xml::writer::EmitterConfig::new()
         .perform_indent(true)
         .create_writer(output);
-- 
2.43.0


From ba3d539dbf3933d7795a9384fd1524a223c59654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:39 +0000
Subject: [PATCH 19/26] fix: make hmlconvert fail when its input cannot be read

It exited successfully after reporting a parse error.
---
 src/bin/hmlconvert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index 832afd4..7c210f6 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -89,7 +89,7 @@ fn main() {
                     eprintln!("Parse error: {e}");
                     eprintln!();
                 }
-                break;
+                std::process::exit(1);
             }
         }
     }
-- 
2.43.0


From 7eb05c3504b4ef423bb0d8f6b41be161804ae60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:47 +0000
Subject: [PATCH 20/26] fix: report what is wrong with a malformed attribute
 value

A missing or unterminated value was reported as "Expected equals, but
found '='". Report the character found in its place, or the end of the
text.
---
 src/hml_reader/lexer_parsers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index 4a7c8f7..944cf7a 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -281,8 +281,10 @@ where
     let posn = lexer.consumed_char(end_name, ch);
     let Some((end_posn, value)) = parse_string(lexer, posn)? else {
         let span = Span::new_at(&posn);
-        // FIXME
-        return Err(HmlError::ExpectedEquals { span, ch });
+        let Some(ch) = lexer.peek_at(&posn) else {
+            return Err(HmlError::UnexpectedEOF { span });
+        };
+        return Err(HmlError::UnexpectedCharacter { span, ch });
     };
     let span = Span::new(start, end_posn);
     Ok(Some((end_posn, Token::attribute(span, ns, name, value))))
-- 
2.43.0


From ce26a644467c88388143a25c8d77d84aace240c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:26 +0000
Subject: [PATCH 21/26] fix: report a newline in a quoted string as such

The error for it existed but was never returned. Depending on how the
string was written, the reader complained about an unexpected quote, a
missing tag name or a missing equals sign instead.
---
 src/hml_reader/lexer_parsers.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index 944cf7a..f973a9e 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -188,8 +188,11 @@ where
 ///
 /// The resultant string is the contents between the quote characters;
 /// the end position includes the hash characters
+///
+/// Errors are reported at string_start, the start of the whole string
 fn parse_quoted_string<L, P>(
     lexer: &L,
+    string_start: P,
     mut posn: P,
     quote_ch: char,
     hash_count: usize,
@@ -206,8 +209,7 @@ where
             return Ok(None);
         };
         if is_newline(ch) && hash_count == 0 {
-            // return self.unexpected_newline_in_string(reader);
-            return Ok(None);
+            return HmlError::unexpected_newline_in_string(&string_start, &posn);
         }
         last_posn = posn;
         posn = lexer.consumed_char(posn, ch);
@@ -249,8 +251,9 @@ where
     };
     if is_quote(ch) {
         // || is_hash(ch) {
+        let string_start = posn;
         let posn = lexer.consumed_char(posn, ch);
-        parse_quoted_string(lexer, posn, ch, 0, false)
+        parse_quoted_string(lexer, string_start, posn, ch, 0, false)
     } else if ch.is_whitespace() {
         Ok(None)
     } else {
@@ -331,7 +334,9 @@ where
         return Ok(None);
     }
     let posn = lexer.consumed_char(posn, ch);
-    let Some((posn, quoted_string)) = parse_quoted_string(lexer, posn, ch, hash_count, raw)? else {
+    let Some((posn, quoted_string)) =
+        parse_quoted_string(lexer, start, posn, ch, hash_count, raw)?
+    else {
         return Ok(None);
     };
     let span = Span::new(start, posn);
-- 
2.43.0


From ce1f5b20acb1658f0a4923a65880e340be3f2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:26 +0000
Subject: [PATCH 22/26] fix: report the end of the text in a quoted string as
 such

Depending on how the string was written, the reader complained about an
unexpected quote, a missing tag name or a missing equals sign instead.
---
 src/hml_reader/lexer_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hml_reader/lexer_parsers.rs b/src/hml_reader/lexer_parsers.rs
index f973a9e..dda98b5 100644
--- a/src/hml_reader/lexer_parsers.rs
+++ b/src/hml_reader/lexer_parsers.rs
@@ -206,7 +206,7 @@ where
     let mut last_posn;
     loop {
         let Some(ch) = lexer.peek_at(&posn) else {
-            return Ok(None);
+            return HmlError::unexpected_eof(&string_start, &string_start);
         };
         if is_newline(ch) && hash_count == 0 {
             return HmlError::unexpected_newline_in_string(&string_start, &posn);
@@ -218,7 +218,7 @@ where
             let mut hash_posn = posn;
             while i < hash_count {
                 let Some(ch) = lexer.peek_at(&hash_posn) else {
-                    return Ok(None);
+                    return HmlError::unexpected_eof(&string_start, &string_start);
                 };
                 if !is_hash(ch) {
                     break;
-- 
2.43.0


From 9c1fc8bc3daac67c53be91ff764d8cb798d95264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:51 +0000
Subject: [PATCH 23/26] fix: refuse a name that starts with its colon

---
 src/names/name.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/names/name.rs b/src/names/name.rs
index e450659..443db45 100644
--- a/src/names/name.rs
+++ b/src/names/name.rs
@@ -82,6 +82,7 @@ impl Name {
     pub fn from_str(ns: &mut NamespaceStack, s: &str) -> MarkupResult<Self> {
         let mut it = s.split(':');
         match (it.next(), it.next(), it.next()) {
+            (Some(""), Some(_), None) => Err(MarkupError::bad_name(s)),
             (Some(prefix), Some(name), None) => Self::new(ns, prefix, name),
             (Some(name), None, None) => Self::new_local(ns, name),
             _ => Err(MarkupError::bad_name(s)),
-- 
2.43.0


From 350d19feac6ef717abc9ee2830f2a91d00b51834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:29 +0000
Subject: [PATCH 24/26] fix: report output that cannot be written at the end of
 hmlconvert

---
 src/bin/hmlconvert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index 7c210f6..ccdd267 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -93,4 +93,6 @@ fn main() {
             }
         }
     }
+    // Output that is still buffered would be lost silently at exit
+    writer.into_inner().flush().unwrap();
 }
-- 
2.43.0


From ab8cb3695b90d58c4c3ad5cf6c0d840e7e937c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:59 +0000
Subject: [PATCH 25/26] fix: refuse an XML version that is not a number in
 hmlconvert

---
 src/bin/hmlconvert.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/hmlconvert.rs b/src/bin/hmlconvert.rs
index ccdd267..cb17e11 100644
--- a/src/bin/hmlconvert.rs
+++ b/src/bin/hmlconvert.rs
@@ -41,6 +41,10 @@ fn main() {
 
     let mut xml_version = 100;
     if let Some(x) = matches.get_one::<f32>("xml_version") {
+        if !x.is_finite() {
+            eprintln!("XML version {x} is not a number");
+            std::process::exit(2);
+        }
         xml_version = (x * 100.0).round() as usize;
     }
 
-- 
2.43.0


From 5eccbc7b29f7a317a61924b62d15e5790a70bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:48 +0000
Subject: [PATCH 26/26] fix: leave hexadecimal references beyond 32 bits alone

---
 src/escape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/escape.rs b/src/escape.rs
index 0177747..c5f4228 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -217,6 +217,10 @@ impl<'a> Entities<'a> {
                     value = (value << 4) | (((b & 0xf) + 9) as u32);
                     is_dec = false;
                     has_digits = true;
+                    if value > 0x10ffff {
+                        is_hex = false;
+                        value = 0;
+                    }
                 } else if b == b'x' {
                     is_hex = i == start + 1 && is_dec;
                     is_dec = false;
-- 
2.43.0

