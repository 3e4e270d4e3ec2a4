From e4148e332c6336d0e7aa44e7a66006daa698476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 01/25] fix: do not merge dangling declarations into a
 following pseudo selector

'color: red; a:hover { .. }' was parsed as one block with the selector
'color: red; a:hover', as 'a:hover' also looks like an attribute and a
dangling attribute list had to end with a semicolon as a whole.
---
 packages/stylist-core/src/parser.rs | 47 ++++++++++++++---------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..705c969 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -196,27 +196,30 @@ impl Parser {
         )(i)
     }
 
-    fn attributes(
-        i: &str,
-        dangling: bool,
-    ) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
-        let final_semicolon = |i| {
-            if dangling {
-                map(tag(";"), Some)(i)
-            } else {
-                opt(tag(";"))(i)
-            }
-        };
-
+    fn attributes(i: &str) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
         traced_context(
             "StyleAttributes",
             Self::trimmed(expect_non_empty(terminated(
                 separated_list1(tag(";"), Self::attribute),
-                preceded(opt(Self::sp), final_semicolon),
+                preceded(opt(Self::sp), opt(tag(";"))),
             ))),
         )(i)
     }
 
+    /// Parse attributes that are not in a block.
+    ///
+    /// They have to be terminated individually, as anything that's not followed by a `;` can be the
+    /// selector of the block after them. (e.g.: `color: red; a:hover { color: blue; }`)
+    fn dangling_attributes(i: &str) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
+        traced_context(
+            "DanglingStyleAttributes",
+            Self::trimmed(expect_non_empty(many1(terminated(
+                Self::attribute,
+                tag(";"),
+            )))),
+        )(i)
+    }
+
     /// Parse a quoted string.
     // TODO: Parse ' quoted strings.
     fn string(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
@@ -279,10 +282,9 @@ impl Parser {
             Self::trimmed(expect_non_empty(map(
                 many0(alt((
                     // Either Style Attributes
-                    map(
-                        |i| Parser::attributes(i, false),
-                        |m| m.into_iter().map(RuleBlockContent::StyleAttr).collect(),
-                    ),
+                    map(Parser::attributes, |m| {
+                        m.into_iter().map(RuleBlockContent::StyleAttr).collect()
+                    }),
                     // Or an at rule
                     map(
                         |i| Parser::rule_block(i, RuleBlockKind::Other),
@@ -319,12 +321,9 @@ impl Parser {
                 "RuleBlockContents",
                 expect_non_empty(many0(alt((
                     // Either Style Attributes
-                    map(
-                        |i| Parser::attributes(i, false),
-                        |m: Vec<StyleAttribute>| {
-                            m.into_iter().map(RuleBlockContent::StyleAttr).collect()
-                        },
-                    ),
+                    map(Parser::attributes, |m: Vec<StyleAttribute>| {
+                        m.into_iter().map(RuleBlockContent::StyleAttr).collect()
+                    }),
                     // Or an at rule
                     map(
                         |i| Parser::rule_block(i, RuleBlockKind::Other),
@@ -371,7 +370,7 @@ impl Parser {
         traced_context(
             "DanglingBlock",
             Self::trimmed(expect_non_empty(map(
-                |i| Self::attributes(i, true),
+                Self::dangling_attributes,
                 |attr: Vec<StyleAttribute>| {
                     ScopeContent::Block(Block {
                         condition: Cow::Borrowed(&[]),
-- 
2.43.0


From fbceaba10531c70566e54fd8ac76e0373794e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 02/25] fix: accept whitespace in empty nested at-rules and
 keyframes

'@keyframes x { }' and '.a { @media print { } }' were rejected while
'@keyframes x {}' and '@media print { }' are accepted.
---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 705c969..7b13e21 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -354,7 +354,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::rule_block_contents, preceded(Self::sp, tag("}"))),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -437,7 +437,7 @@ impl Parser {
                     // Collect contents with-in rules.
                     terminated(
                         many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
-                        tag("}"),
+                        preceded(Self::sp, tag("}")),
                     ),
                 ),
                 // Map Results into a scope
-- 
2.43.0


From b428b5a33bdb29d01308e4ae41cd9d997e3b11ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 03/25] fix: parse single-quoted strings

"content: 'a;b: c';" was split at the semicolon inside of the string into
two declarations, "content: '}';" was rejected, and "[a='x,y']" was taken
for two selectors. Escaped quotes outside of strings stay plain text.
---
 packages/stylist-core/src/parser.rs | 35 ++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 7b13e21..6ccec07 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -164,10 +164,11 @@ impl Parser {
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
-                    is_not("${;}/\""),
+                    is_not("${;}/\"'\\"),
+                    Self::escaped_char,
                     recognize(Self::interpolation),
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"*"))),
+                    recognize(preceded(tag("/"), none_of("${;}\"'*"))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
@@ -220,17 +221,28 @@ impl Parser {
         )(i)
     }
 
+    /// Parse an escaped character.
+    fn escaped_char(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)))(i)
+    }
+
     /// Parse a quoted string.
-    // TODO: Parse ' quoted strings.
     fn string(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let escaped_char = traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)));
-
-        let parse_str = recognize(preceded(
-            tag("\""),
-            terminated(many0(alt((is_not(r#"\""#), escaped_char))), tag("\"")),
-        ));
+        let quoted = |quote: &'static str, not_special: &'static str| {
+            recognize(delimited(
+                tag(quote),
+                many0(alt((is_not(not_special), Self::escaped_char))),
+                tag(quote),
+            ))
+        };
 
-        traced_context("String", Self::trimmed(expect_non_empty(parse_str)))(i)
+        traced_context(
+            "String",
+            Self::trimmed(expect_non_empty(alt((
+                quoted("\"", r#"\""#),
+                quoted("'", r"\'"),
+            )))),
+        )(i)
     }
 
     /// Parse a string interpolation.
@@ -256,7 +268,8 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
-                    recognize(preceded(none_of("$,}@{\""), opt(is_not("$,\"{")))),
+                    Self::escaped_char,
+                    recognize(preceded(none_of("$,}@{\"'"), opt(is_not("$,\"'{\\")))),
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
-- 
2.43.0


From 8f1e4fcebd4422de798d7c1f1fea7f561f63714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 04/25] fix: keep selectors and at-rule conditions within their
 own statement

A selector or condition could swallow unrelated statements ('.a } .b { .. }',
'@media print; .a { .. }', '/* unclosed { .. }'), was split at commas within
brackets and comments (':is(.a, .b) c' lost its scope on '.b'), and
'[href$=".pdf"]' was rejected.
---
 packages/stylist-core/src/parser.rs | 58 +++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 6ccec07..970b73c 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -3,7 +3,7 @@ use std::fmt;
 
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
-use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of};
+use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of, one_of};
 use nom::combinator::{fail, map, not, opt, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
@@ -261,18 +261,55 @@ impl Parser {
         )(i)
     }
 
+    /// Parse a run of selector or condition text that has no effect on the structure of the sheet.
+    fn prelude_text(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context(
+            "PreludeText",
+            alt((
+                is_not("$,@{};\"'\\/()[]"),
+                Self::escaped_char,
+                Self::string,
+                Self::cmt,
+                recognize(Self::interpolation),
+                recognize(terminated(tag("/"), not(char('*')))),
+                recognize(terminated(tag("$"), not(char('{')))),
+            )),
+        )(i)
+    }
+
+    /// Parse a pair of brackets and everything in between.
+    fn brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        let (mut rest, _) = one_of("([")(i)?;
+        let mut depth = 1;
+
+        while depth > 0 {
+            let (next, m) = alt((
+                Self::prelude_text,
+                recognize(one_of("([")),
+                recognize(one_of(")]")),
+                recognize(one_of(",@;")),
+            ))(rest)?;
+            match m {
+                "(" | "[" => depth += 1,
+                ")" | "]" => depth -= 1,
+                _ => {}
+            }
+            rest = next;
+        }
+
+        Ok((rest, &i[..i.len() - rest.len()]))
+    }
+
     /// Parse a selector.
     // TODO: Parse selector properly.
     fn selector(i: &str) -> IResult<&str, Selector, VerboseError<&str>> {
         traced_context(
             "Selector",
             Self::trimmed(expect_non_empty(map(
-                recognize(many1(alt((
-                    Self::escaped_char,
-                    recognize(preceded(none_of("$,}@{\"'"), opt(is_not("$,\"'{\\")))),
-                    Self::string,
-                    recognize(Self::interpolation),
-                )))),
+                recognize(preceded(
+                    not(char('@')),
+                    many1(alt((Self::prelude_text, Self::brackets, tag("@")))),
+                )),
                 |p: &str| vec![p.trim().to_owned().into()].into(),
             ))),
         )(i)
@@ -421,7 +458,12 @@ impl Parser {
                 pair(
                     tags,
                     map(
-                        recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
+                        recognize(many1(alt((
+                            Self::prelude_text,
+                            Self::brackets,
+                            tag(","),
+                            tag("@"),
+                        )))),
                         |m: &str| StringFragment {
                             inner: m.trim().to_string().into(),
                         },
-- 
2.43.0


From 482ddf7fd2a1645b4ff4bce0a4cd2217f4388cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 05/25] fix: do not replace current selectors within strings
 and comments

'a[href="?x&y"]' had its string corrupted and lost its scope, as the '&' in
the string was taken for the current selector.
---
 packages/stylist-core/src/ast/selector.rs | 55 +++++++++++++++++++----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index 6eefcb9..b57fcae 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -15,6 +15,49 @@ pub struct Selector {
     pub fragments: Cow<'static, [StringFragment]>,
 }
 
+/// Replaces `current` selectors, leaves strings, comments and escaped characters untouched.
+///
+/// Returns `None` if there is none of them.
+fn replace_current(selector: &str, current: &[&str], replacement: &str) -> Option<String> {
+    let mut replaced = String::new();
+    let mut found = false;
+    let mut quote = None;
+    let mut rest = selector;
+
+    while let Some(c) = rest.chars().next() {
+        let len = match (c, quote) {
+            ('\\', _) => 1 + rest[1..].chars().next().map_or(0, char::len_utf8),
+            (_, Some(q)) => {
+                if c == q {
+                    quote = None;
+                }
+                c.len_utf8()
+            }
+            ('"' | '\'', None) => {
+                quote = Some(c);
+                1
+            }
+            ('/', None) if rest.starts_with("/*") => {
+                rest[2..].find("*/").map_or(rest.len(), |m| m + 4)
+            }
+            (_, None) => {
+                if let Some(m) = current.iter().find(|m| rest.starts_with(**m)) {
+                    replaced.push_str(replacement);
+                    rest = &rest[m.len()..];
+                    found = true;
+                    continue;
+                }
+                c.len_utf8()
+            }
+        };
+
+        replaced.push_str(&rest[..len]);
+        rest = &rest[len..];
+    }
+
+    found.then_some(replaced)
+}
+
 impl ToStyleStr for Selector {
     fn write_style(&self, w: &mut String, ctx: &mut StyleContext<'_>) {
         let mut joined_s = "".to_string();
@@ -26,12 +69,8 @@ impl ToStyleStr for Selector {
         if let Some(ref m) = ctx.class_name {
             let scoped_class = format!(".{m}");
             // If contains current selector or root pseudo class, replace them with class name.
-            if joined_s.contains('&') || joined_s.contains(":root") {
-                w.push_str(
-                    &joined_s
-                        .replace('&', scoped_class.as_str())
-                        .replace(":root", scoped_class.as_str()),
-                );
+            if let Some(s) = replace_current(&joined_s, &["&", ":root"], &scoped_class) {
+                w.push_str(&s);
             } else {
                 w.push_str(&scoped_class);
 
@@ -44,8 +83,8 @@ impl ToStyleStr for Selector {
             }
 
         // For global styles, if it contains &, it will be replaced with html.
-        } else if joined_s.contains('&') {
-            w.push_str(&joined_s.replace('&', ":root"));
+        } else if let Some(s) = replace_current(&joined_s, &["&"], ":root") {
+            w.push_str(&s);
         // For other styles, it will be written as is.
         } else {
             w.push_str(&joined_s);
-- 
2.43.0


From 8a7510ad970f1a43404e6dbd1b039be1cc16d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 06/25] fix: load hydrated global styles as global styles

load_style_data() scoped the stylesheet of global styles with their id.
---
 packages/stylist/src/manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..2722102 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,7 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From cea15da747589bc3ad00a7c485beef7961ef6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 07/25] fix: prepend styles to the container

With append(false), the style element was inserted into the first child of
the container with the first child as reference node, which always fails with
NotFoundError.
---
 packages/stylist/src/manager/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 2722102..ed1da0f 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -234,7 +234,9 @@ impl StyleManager {
             // Prepend element
             if !self.inner.append {
                 if let Some(m) = container.first_child() {
-                    return m.insert_before(&style_element, Some(&m)).map(|_m| ());
+                    return container
+                        .insert_before(&style_element, Some(&m))
+                        .map(|_m| ());
                 }
             }
 
-- 
2.43.0


From 21387b88b3176882c3bafbcd58c701c881119831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 08/25] fix: only unregister the style a handle belongs to

unregister() on a style that has already been unregistered removed the style
that was registered for the same stylesheet afterwards.
---
 packages/stylist/src/manager/content.rs  | 2 +-
 packages/stylist/src/manager/mod.rs      | 4 ++--
 packages/stylist/src/manager/registry.rs | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 9c28968..07ea68d 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -35,7 +35,7 @@ impl StyleContent {
 
     pub fn unregister(&self) {
         if let Some(mgr) = self.manager() {
-            mgr.unregister_style(self.key());
+            mgr.unregister_style(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index ed1da0f..a094e99 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -207,8 +207,8 @@ impl StyleManager {
         Ok(content)
     }
 
-    pub(crate) fn unregister_style(&self, key: &Rc<StyleKey>) {
-        self.inner.registry.borrow_mut().unregister(key);
+    pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        self.inner.registry.borrow_mut().unregister(content);
     }
 
     /// Return a reference of style key.
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 31ac89d..16b73d2 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -16,8 +16,11 @@ impl StyleRegistry {
         }
     }
 
-    pub fn unregister(&mut self, key: &StyleKey) {
-        self.styles.remove(key);
+    pub fn unregister(&mut self, content: &StyleContent) {
+        // The key can be taken by a newer style, if this one has already been unregistered.
+        if self.styles.get(content.key()).map(|m| m.id()) == Some(content.id()) {
+            self.styles.remove(content.key());
+        }
     }
 
     pub fn get(&self, key: &StyleKey) -> Option<Rc<StyleContent>> {
-- 
2.43.0


From afe60e88930d210c4949e6860bfbd5b60fd5f4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 09/25] fix: accept $ and { in strings of literal macros

css!(r#"content: "{";"#) failed to compile while the same stylesheet is
accepted at runtime.
---
 packages/stylist-macros/src/literal/fstring.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index 20f9995..24fd20d 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -1,10 +1,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag, take_while};
 use nom::character::complete::{alpha1, alphanumeric1};
-use nom::combinator::{all_consuming, cut, map, opt, recognize};
+use nom::combinator::{all_consuming, cut, map, not, opt, recognize};
 use nom::error::{context, convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 use nom::IResult;
 use stylist_core::{Error, Result};
 
@@ -114,6 +114,11 @@ impl Parser {
             map(tag("$${"), |_m: &str| Fragment::Literal("${".to_string())),
             Self::literal,
             Self::interpolation,
+            // neither of them has a special meaning on its own.
+            map(
+                recognize(alt((terminated(tag("$"), not(tag("{"))), tag("{")))),
+                |m: &str| Fragment::Literal(m.to_string()),
+            ),
         ))))(i)
     }
 
-- 
2.43.0


From 388ae56a669a07694bf9be98ea808613ce0dac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 10/25] fix: accept slashes at the end of a value and before
 strings

'--x: / ;' was accepted but emitted as '--x: /;', which was then rejected by
the debug check (panic); 'a: b/"c";' was rejected.
---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 970b73c..5914a90 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -3,7 +3,7 @@ use std::fmt;
 
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
-use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of, one_of};
+use nom::character::complete::{alpha1, alphanumeric1, anychar, char, one_of};
 use nom::combinator::{fail, map, not, opt, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
@@ -168,7 +168,7 @@ impl Parser {
                     Self::escaped_char,
                     recognize(Self::interpolation),
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"'*"))),
+                    recognize(terminated(tag("/"), not(char('*')))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
-- 
2.43.0


From c45269bd67464ce525a9bfa03e653b4db27ed069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 11/25] fix: do not hand out ids of hydrated styles again
 without the random feature

---
 packages/stylist/src/manager/mod.rs |  4 ++++
 packages/stylist/src/utils.rs       | 23 +++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index a094e99..7a4ff9b 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -376,6 +376,10 @@ mod feat_hydration {
             for StyleDataContent { id, key, .. } in data.0.iter() {
                 let key = Rc::new(key.clone());
 
+                // Ids are only unique within a process unless they are random.
+                #[cfg(not(feature = "random"))]
+                crate::utils::reserve_style_id(id);
+
                 match reg.styles.entry(key.clone()) {
                     Entry::Occupied(m) => {
                         assert_eq!(
diff --git a/packages/stylist/src/utils.rs b/packages/stylist/src/utils.rs
index 21e015a..580c4e1 100644
--- a/packages/stylist/src/utils.rs
+++ b/packages/stylist/src/utils.rs
@@ -6,16 +6,31 @@ fn get_rand_str() -> String {
 }
 
 #[cfg(any(test, not(feature = "random")))]
-pub(crate) fn get_next_style_id() -> String {
-    use once_cell::sync::Lazy;
-    use std::sync::atomic::{AtomicU64, Ordering};
+static CTR: once_cell::sync::Lazy<std::sync::atomic::AtomicU64> =
+    once_cell::sync::Lazy::new(std::sync::atomic::AtomicU64::default);
 
-    static CTR: Lazy<AtomicU64> = Lazy::new(AtomicU64::default);
+#[cfg(any(test, not(feature = "random")))]
+pub(crate) fn get_next_style_id() -> String {
+    use std::sync::atomic::Ordering;
 
     let ctr = CTR.fetch_add(1, Ordering::SeqCst);
     format!("style-{}", ctr)
 }
 
+/// Makes sure that the id of a style that was created elsewhere is not given out again.
+#[cfg(all(feature = "hydration", not(feature = "random")))]
+pub(crate) fn reserve_style_id(id: &str) {
+    use std::sync::atomic::Ordering;
+
+    let ctr = id
+        .rsplit_once("style-")
+        .and_then(|(_, m)| m.parse::<u64>().ok());
+
+    if let Some(m) = ctr.and_then(|m| m.checked_add(1)) {
+        CTR.fetch_max(m, Ordering::SeqCst);
+    }
+}
+
 pub(crate) fn get_entropy() -> String {
     #[cfg(feature = "random")]
     let entropy = get_rand_str();
-- 
2.43.0


From 338243761c395796ece0869c29d09914f807359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 12/25] fix: capture a style that is registered again only once

---
 packages/stylist/src/manager/mod.rs      | 26 ++++++++++++++++--------
 packages/stylist/src/manager/registry.rs |  6 ++++--
 packages/stylist/src/manager/ssr.rs      |  4 ++++
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 7a4ff9b..090346e 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -160,10 +160,18 @@ impl StyleManager {
             return Ok(m);
         }
 
-        let id = match key.is_global {
+        // A style that has been unregistered is still part of the rendered styles.
+        #[cfg(feature = "ssr")]
+        let rendered_id = self.style_data().and_then(|m| m.get_id(&key));
+        #[cfg(feature = "ssr")]
+        let is_rendered = rendered_id.is_some();
+        #[cfg(not(feature = "ssr"))]
+        let rendered_id = None;
+
+        let id = rendered_id.unwrap_or_else(|| match key.is_global {
             true => StyleId::new_global(&key.prefix),
             false => StyleId::new_scoped(&key.prefix),
-        };
+        });
 
         // Non-global styles have ids prefixed in classes.
         let style_str = key.ast.to_style_str((!key.is_global).then_some(&id));
@@ -186,12 +194,14 @@ impl StyleManager {
         #[cfg(feature = "ssr")]
         {
             if let Some(ref mut style_data) = self.style_data() {
-                // Automatically detach if has been used.
-                style_data.as_vec_mut().push(StyleDataContent {
-                    key: content.key().as_ref().clone(),
-                    id: content.id().clone(),
-                    style_str: content.get_style_str().to_string(),
-                });
+                if !is_rendered {
+                    // Automatically detach if has been used.
+                    style_data.as_vec_mut().push(StyleDataContent {
+                        key: content.key().as_ref().clone(),
+                        id: content.id().clone(),
+                        style_str: content.get_style_str().to_string(),
+                    });
+                }
 
                 // Register the created Style.
                 reg.register(content.clone());
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 16b73d2..38e1a10 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -18,8 +18,10 @@ impl StyleRegistry {
 
     pub fn unregister(&mut self, content: &StyleContent) {
         // The key can be taken by a newer style, if this one has already been unregistered.
-        if self.styles.get(content.key()).map(|m| m.id()) == Some(content.id()) {
-            self.styles.remove(content.key());
+        if let Some(m) = self.styles.get(content.key()) {
+            if std::ptr::eq(m.as_ref(), content) {
+                self.styles.remove(content.key());
+            }
         }
     }
 
diff --git a/packages/stylist/src/manager/ssr.rs b/packages/stylist/src/manager/ssr.rs
index 6f45e51..3959b81 100644
--- a/packages/stylist/src/manager/ssr.rs
+++ b/packages/stylist/src/manager/ssr.rs
@@ -90,6 +90,10 @@ impl StyleManager {
 }
 
 impl StyleData {
+    pub(super) fn get_id(&self, key: &StyleKey) -> Option<StyleId> {
+        self.0.iter().find(|m| &m.key == key).map(|m| m.id.clone())
+    }
+
     pub(super) fn as_vec_mut(&mut self) -> &mut Vec<StyleDataContent> {
         Arc::make_mut(&mut self.0)
     }
-- 
2.43.0


From 8f70792fb5612ffd36b2302310982a545f71287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 13/25] fix: do not turn and, or and not of inline at-rule
 conditions into functions

---
 .../src/inline/component_value/mod.rs         | 31 +++++++++++++++++++
 .../stylist-macros/src/inline/parse/rule.rs   |  2 +-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-macros/src/inline/component_value/mod.rs b/packages/stylist-macros/src/inline/component_value/mod.rs
index 0ba172b..43f5efe 100644
--- a/packages/stylist-macros/src/inline/component_value/mod.rs
+++ b/packages/stylist-macros/src/inline/component_value/mod.rs
@@ -113,6 +113,37 @@ impl ComponentValue {
         }
     }
 
+    /// Output fragments of a part of the condition of an @-rule.
+    ///
+    /// A parenthesis following `and`, `or` or `not` does not make a function out of them.
+    pub fn to_condition_fragments(&self) -> Vec<OutputFragment> {
+        match self {
+            Self::Function(FunctionToken { name, args, .. })
+                if ["and", "or", "not"]
+                    .iter()
+                    .any(|m| name.to_output_string().eq_ignore_ascii_case(m)) =>
+            {
+                // and ( ... )
+                let mut output = vec![name.clone().into(), ' '.into(), '('.into()];
+                output.extend(args.iter().flat_map(|c| c.to_condition_fragments()));
+                output.push(')'.into());
+                output
+            }
+
+            Self::Block(SimpleBlock {
+                kind: BlockKind::Paren(_),
+                contents,
+            }) => {
+                let mut output = vec!['('.into()];
+                output.extend(contents.iter().flat_map(|c| c.to_condition_fragments()));
+                output.push(')'.into());
+                output
+            }
+
+            _ => self.to_output_fragments(),
+        }
+    }
+
     // Overly simplified parsing of a css attribute
     #[must_use = "validation errors should not be discarded"]
     pub fn validate_attribute_token(&self) -> Vec<ParseError> {
diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index 35ed37a..54e1a0a 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -76,7 +76,7 @@ impl CssAtRule {
             self.prelude
                 .clone()
                 .into_iter()
-                .flat_map(|p| p.to_output_fragments())
+                .flat_map(|p| p.to_condition_fragments())
                 .spaced_with(fragment_spacing),
         );
 
-- 
2.43.0


From 205009401906765820abde144e757f51453f5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 14/25] fix: unmount styles from containers outside of the
 document

document.query_selector() does not reach into a ShadowRoot, an <iframe /> or
a container that is not attached, so styles mounted there were never removed.
---
 packages/stylist/src/manager/content.rs |  9 ++++++++-
 packages/stylist/src/manager/mod.rs     | 18 +++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 07ea68d..ccddd7e 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -1,5 +1,8 @@
 use std::rc::Rc;
 
+use once_cell::unsync::OnceCell;
+use web_sys::Element;
+
 use crate::manager::{StyleId, StyleKey, StyleManager, WeakStyleManager};
 use crate::Result;
 
@@ -10,6 +13,10 @@ pub(crate) struct StyleContent {
     pub style_str: String,
 
     pub manager: WeakStyleManager,
+
+    // The style element, if it is mounted by us.
+    #[cfg_attr(not(target_arch = "wasm32"), allow(dead_code))]
+    pub element: OnceCell<Element>,
 }
 
 impl StyleContent {
@@ -22,7 +29,7 @@ impl StyleContent {
     }
 
     pub fn unmount(&self) -> Result<()> {
-        StyleManager::unmount(self.id())
+        StyleManager::unmount(self)
     }
 
     pub fn key(&self) -> &Rc<StyleKey> {
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 090346e..c34ecf7 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -10,7 +10,7 @@ use std::borrow::Cow;
 use std::cell::RefCell;
 use std::rc::{Rc, Weak};
 
-use once_cell::unsync::Lazy;
+use once_cell::unsync::{Lazy, OnceCell};
 use stylist_core::ast::ToStyleStr;
 use stylist_core::ResultDisplay;
 use web_sys::Node;
@@ -188,6 +188,7 @@ impl StyleManager {
             style_str,
             manager: weak_mgr,
             key: Rc::new(key),
+            element: OnceCell::new(),
         }
         .into();
 
@@ -241,6 +242,10 @@ impl StyleManager {
             style_element.set_attribute("data-style", content.id())?;
             style_element.set_text_content(Some(content.get_style_str()));
 
+            // The document may not be able to find it again, as the container can be a ShadowRoot
+            // or part of an <iframe />.
+            let _result = content.element.set(style_element.clone());
+
             // Prepend element
             if !self.inner.append {
                 if let Some(m) = container.first_child() {
@@ -258,10 +263,16 @@ impl StyleManager {
 
     /// Unmount the [`Style`](crate::Style) from the DOM tree.
     #[cfg(target_arch = "wasm32")]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         use crate::arch::document;
         use crate::Error;
 
+        if let Some(m) = content.element.get() {
+            m.remove();
+            return Ok(());
+        }
+
+        let id = content.id();
         let document = document()?;
         (|| {
             if let Some(m) = document.query_selector(&format!("style[data-style={}]", id))? {
@@ -286,7 +297,7 @@ impl StyleManager {
     /// Unmount the [`Style`] from the DOM tree.
     #[cfg(not(target_arch = "wasm32"))]
     #[allow(unused_variables)]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         // Does nothing on non-wasm targets.
         Ok(())
     }
@@ -405,6 +416,7 @@ mod feat_hydration {
                                 style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
+                                element: OnceCell::new(),
                             }
                             .into(),
                         );
-- 
2.43.0


From 42c6b6fb165e653120a726b9afd963d9d9d86dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 15/25] fix: update use_media_query when its query changes

---
 packages/stylist/src/yew/hooks/use_media_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/stylist/src/yew/hooks/use_media_query.rs b/packages/stylist/src/yew/hooks/use_media_query.rs
index f66a5ee..3a89917 100644
--- a/packages/stylist/src/yew/hooks/use_media_query.rs
+++ b/packages/stylist/src/yew/hooks/use_media_query.rs
@@ -38,6 +38,9 @@ pub fn use_media_query(query: &str) -> bool {
         let match_media = match_media();
         let match_media_clone = match_media.clone();
 
+        // The state still has the value of the previous query if the query has changed.
+        state_clone.set(match_media.matches());
+
         let listener = EventListener::new(&match_media, "change", move |_event| {
             state_clone.set(match_media_clone.matches());
         });
-- 
2.43.0


From e8c4cea5f98ea40f85f12e9518aebb08a03a6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 16/25] fix: load hydrated styles only into the first manager
 of a provider

---
 packages/stylist/src/yew/provider.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/yew/provider.rs b/packages/stylist/src/yew/provider.rs
index b483324..317eea5 100644
--- a/packages/stylist/src/yew/provider.rs
+++ b/packages/stylist/src/yew/provider.rs
@@ -55,8 +55,11 @@ pub fn manager_provider(props: &ManagerProviderProps) -> HtmlResult {
         #[cfg(feature = "hydration")]
         {
             // We must load the styles immediately before child components are rendered.
+            //
+            // The data belongs to the first manager, it must not be loaded again if the manager
+            // changes.
             let manager = manager.clone();
-            use_memo(manager, move |manager| {
+            use_memo((), move |_| {
                 if let Some(m) = _style_data {
                     manager.load_style_data(m.as_ref());
                 }
-- 
2.43.0


From 482918c99c1e8c016529da90052d11a92ab6cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 17/25] fix: seed random ids in browsers

---
 packages/stylist/src/utils.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/utils.rs b/packages/stylist/src/utils.rs
index 580c4e1..29b10c5 100644
--- a/packages/stylist/src/utils.rs
+++ b/packages/stylist/src/utils.rs
@@ -1,10 +1,30 @@
-#[cfg(feature = "random")]
+#[cfg(all(feature = "random", not(all(target_arch = "wasm32", target_os = "unknown"))))]
 fn get_rand_str() -> String {
     use std::iter::repeat_with;
 
     repeat_with(fastrand::alphanumeric).take(8).collect()
 }
 
+#[cfg(all(feature = "random", target_arch = "wasm32", target_os = "unknown"))]
+fn get_rand_str() -> String {
+    use std::cell::RefCell;
+    use std::iter::repeat_with;
+
+    use web_sys::js_sys::Math;
+
+    // The global generator starts with the same seed in every application if it is not compiled
+    // with a source of entropy.
+    thread_local! {
+        static RNG: RefCell<fastrand::Rng> =
+            RefCell::new(fastrand::Rng::with_seed(Math::random().to_bits() ^ fastrand::u64(..)));
+    }
+
+    RNG.with(|m| {
+        let mut rng = m.borrow_mut();
+        repeat_with(|| rng.alphanumeric()).take(8).collect()
+    })
+}
+
 #[cfg(any(test, not(feature = "random")))]
 static CTR: once_cell::sync::Lazy<std::sync::atomic::AtomicU64> =
     once_cell::sync::Lazy::new(std::sync::atomic::AtomicU64::default);
-- 
2.43.0


From d68fa3bb830246a03cfce6ca47fcca0fd5dd6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:46 +0000
Subject: [PATCH 18/25] fix: refuse values with unclosed or mismatched brackets

---
 packages/stylist-core/src/parser.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 5914a90..ea68711 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -164,7 +164,8 @@ impl Parser {
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
-                    is_not("${;}/\"'\\"),
+                    is_not("${;}/\"'\\()[]"),
+                    Self::brackets,
                     Self::escaped_char,
                     recognize(Self::interpolation),
                     Self::string,
@@ -279,19 +280,23 @@ impl Parser {
 
     /// Parse a pair of brackets and everything in between.
     fn brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let (mut rest, _) = one_of("([")(i)?;
-        let mut depth = 1;
+        let close = |m: char| if m == '(' { ")" } else { "]" };
+        let (mut rest, first) = one_of("([")(i)?;
+        let mut open = vec![close(first)];
 
-        while depth > 0 {
+        while let Some(expected) = open.last() {
             let (next, m) = alt((
                 Self::prelude_text,
                 recognize(one_of("([")),
-                recognize(one_of(")]")),
+                tag(*expected),
                 recognize(one_of(",@;")),
             ))(rest)?;
             match m {
-                "(" | "[" => depth += 1,
-                ")" | "]" => depth -= 1,
+                "(" => open.push(")"),
+                "[" => open.push("]"),
+                ")" | "]" => {
+                    open.pop();
+                }
                 _ => {}
             }
             rest = next;
-- 
2.43.0


From 92ad605330091035067c477ec6964eb926b24df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:24 +0000
Subject: [PATCH 19/25] fix: keep escaped and non-ASCII whitespace

---
 packages/stylist-core/src/parser.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index ea68711..d27b96b 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -82,6 +82,18 @@ where
     }
 }
 
+/// Removes surrounding whitespaces.
+///
+/// Only ASCII whitespaces are whitespaces in CSS, and not if they are escaped.
+fn trim(s: &str) -> &str {
+    let s = s.trim_start_matches(|m: char| m.is_ascii_whitespace());
+    let trimmed = s.trim_end_matches(|m: char| m.is_ascii_whitespace());
+
+    // The whitespace after an odd number of backslashes is escaped.
+    let backslashes = trimmed.bytes().rev().take_while(|m| *m == b'\\').count();
+    s.get(..trimmed.len() + backslashes % 2).unwrap_or(trimmed)
+}
+
 /// A lightweight CSS Parser.
 #[derive(Debug)]
 pub(crate) struct Parser {}
@@ -172,7 +184,7 @@ impl Parser {
                     recognize(terminated(tag("/"), not(char('*')))),
                 )))),
                 |m: &str| StringFragment {
-                    inner: m.to_string().trim().to_string().into(),
+                    inner: trim(m).to_string().into(),
                 },
             )),
         )(i)
@@ -191,7 +203,7 @@ impl Parser {
                     Self::style_attr_value,
                 ),
                 move |p: (&str, StringFragment)| StyleAttribute {
-                    key: p.0.trim().to_string().into(),
+                    key: p.0.to_string().into(),
                     value: vec![p.1].into(),
                 },
             ))),
@@ -315,7 +327,7 @@ impl Parser {
                     not(char('@')),
                     many1(alt((Self::prelude_text, Self::brackets, tag("@")))),
                 )),
-                |p: &str| vec![p.trim().to_owned().into()].into(),
+                |p: &str| vec![trim(p).to_owned().into()].into(),
             ))),
         )(i)
     }
@@ -397,7 +409,7 @@ impl Parser {
                 Self::at_rule_condition(i, (tag("@container"), tag("@media"), tag("@supports")))
             }
             RuleBlockKind::Keyframes => map(recognize(Self::condition), |m| {
-                vec![m.trim().to_string().into()]
+                vec![trim(m).to_string().into()]
             })(i),
         };
 
@@ -470,7 +482,7 @@ impl Parser {
                             tag("@"),
                         )))),
                         |m: &str| StringFragment {
-                            inner: m.trim().to_string().into(),
+                            inner: trim(m).to_string().into(),
                         },
                     ),
                 ),
-- 
2.43.0


From 9252d8085fa90375f8cd173959c095c728037c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 20/25] fix: accept comments within values

---
 packages/stylist-core/src/parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d27b96b..e6de8e0 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -3,8 +3,8 @@ use std::fmt;
 
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
-use nom::character::complete::{alpha1, alphanumeric1, anychar, char, one_of};
-use nom::combinator::{fail, map, not, opt, recognize};
+use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of, one_of};
+use nom::combinator::{fail, map, not, opt, peek, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -182,6 +182,8 @@ impl Parser {
                     recognize(Self::interpolation),
                     Self::string,
                     recognize(terminated(tag("/"), not(char('*')))),
+                    // Comments at the end are not part of the value.
+                    recognize(terminated(pair(Self::cmt, Self::sp), peek(none_of("{;}")))),
                 )))),
                 |m: &str| StringFragment {
                     inner: trim(m).to_string().into(),
-- 
2.43.0


From 01be3019c3bd8298ca4642074c4be727afc198e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 21/25] fix: whitespace after the names of at-rules

---
 packages/stylist-core/src/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index e6de8e0..8414c55 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -469,7 +469,15 @@ impl Parser {
     where
         T: Alt<&'a str, &'a str, VerboseError<&'a str>>,
     {
-        let tags = recognize(terminated(alt(tags), tag(" ")));
+        // No whitespace is needed before a condition in parentheses or after a comment.
+        let tags = terminated(
+            alt(tags),
+            alt((
+                recognize(pair(one_of(" \t\r\n"), Self::sp)),
+                recognize(pair(Self::cmt, Self::sp)),
+                peek(tag("(")),
+            )),
+        );
 
         traced_context(
             "AtRuleCondition",
@@ -491,7 +499,7 @@ impl Parser {
                 |p: (&str, StringFragment)| {
                     vec![
                         StringFragment {
-                            inner: p.0.to_string().into(),
+                            inner: format!("{} ", p.0).into(),
                         },
                         p.1,
                     ]
-- 
2.43.0


From c9addfd1fb49deb2c489748b8548974b0e1ac2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:43 +0000
Subject: [PATCH 22/25] fix: form feeds are whitespace

---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 8414c55..2e0236c 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -138,7 +138,7 @@ impl Parser {
 
     /// Parse whitespace
     fn sp(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let chars = " \t\r\n";
+        let chars = " \t\r\n\x0c";
         let whitespace = take_while1(move |c| chars.contains(c));
         traced_context("Whitespace", recognize(many0(alt((whitespace, Self::cmt)))))(i)
     }
@@ -473,7 +473,7 @@ impl Parser {
         let tags = terminated(
             alt(tags),
             alt((
-                recognize(pair(one_of(" \t\r\n"), Self::sp)),
+                recognize(pair(one_of(" \t\r\n\x0c"), Self::sp)),
                 recognize(pair(Self::cmt, Self::sp)),
                 peek(tag("(")),
             )),
-- 
2.43.0


From fddc5153cb7fb043479acc7e9f143080371a17b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:20 +0000
Subject: [PATCH 23/25] fix: StyleSource::from_str reported a place in the
 standard library as the style's location

---
 packages/stylist/src/style_src.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist/src/style_src.rs b/packages/stylist/src/style_src.rs
index 0c16621..f8df22d 100644
--- a/packages/stylist/src/style_src.rs
+++ b/packages/stylist/src/style_src.rs
@@ -126,7 +126,7 @@ mod feat_parser {
         type Err = crate::Error;
         #[cfg_attr(all(debug_assertions, feature = "debug_style_locations"), track_caller)]
         fn from_str(s: &str) -> Result<Self, Self::Err> {
-            s.try_into()
+            Self::try_from(s)
         }
     }
 }
-- 
2.43.0


From cc7446b9e2e15ceeef742fa1f2b122bea635c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:14 +0000
Subject: [PATCH 24/25] fix: generated code hid items of the author named
 Sheet, From or Into and relied on the prelude

---
 packages/stylist-macros/src/css.rs          | 2 +-
 packages/stylist-macros/src/output/sheet.rs | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/packages/stylist-macros/src/css.rs b/packages/stylist-macros/src/css.rs
index b0541f1..ca7ceca 100644
--- a/packages/stylist-macros/src/css.rs
+++ b/packages/stylist-macros/src/css.rs
@@ -4,5 +4,5 @@ use quote::quote;
 pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     let sheet_tokens = crate::sheet::macro_fn(input);
 
-    quote! { ::stylist::StyleSource::from(#sheet_tokens) }
+    quote! { <::stylist::StyleSource as ::std::convert::From<_>>::from(#sheet_tokens) }
 }
diff --git a/packages/stylist-macros/src/output/sheet.rs b/packages/stylist-macros/src/output/sheet.rs
index 76f32a7..4b66d06 100644
--- a/packages/stylist-macros/src/output/sheet.rs
+++ b/packages/stylist-macros/src/output/sheet.rs
@@ -14,12 +14,9 @@ impl Reify for OutputSheet {
             .into_cow_vec_tokens(quote! {::stylist::ast::ScopeContent}, ctx);
 
         ctx.uses_static(); // Sheet::from
+        // Nothing is imported, as it would hide items in user-provided parts of #contents.
         let quoted_sheet = quote! {
-            {
-                use ::std::convert::{From, Into};
-                use ::stylist::ast::Sheet;
-                Sheet::from(#contents)
-            }
+            <::stylist::ast::Sheet as ::std::convert::From<_>>::from(#contents)
         };
 
         if ctx.is_static() {
@@ -30,7 +27,7 @@ impl Reify for OutputSheet {
                     || #quoted_sheet
                 );
 
-                SHEET_REF.clone()
+                ::std::clone::Clone::clone(&*SHEET_REF)
             } }
         } else {
             quoted_sheet
-- 
2.43.0


From f6f76a2923d81956227ea4f9098c66bf5ba49127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:12 +0000
Subject: [PATCH 25/25] fix: css! within styled components found clone through
 the prelude or the author's own traits

---
 packages/stylist-macros/src/styled_component_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/stylist-macros/src/styled_component_impl.rs b/packages/stylist-macros/src/styled_component_impl.rs
index 06e8bc8..8ffb9cd 100644
--- a/packages/stylist-macros/src/styled_component_impl.rs
+++ b/packages/stylist-macros/src/styled_component_impl.rs
@@ -50,7 +50,7 @@ pub fn styled_component_impl_impl(item: HookLike) -> syn::Result<TokenStream> {
             ($( $args:tt )*) => {
                 ::stylist::css!($($args)*).with_manager({
                     #[allow(clippy::redundant_clone)]
-                    #mgr_ident.clone()
+                    ::std::clone::Clone::clone(&#mgr_ident)
                 })
             }
         }
-- 
2.43.0

