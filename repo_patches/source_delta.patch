From 4409a54f736b78f40e47064000b467324429ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 01/24] fix: keep every label when appending to a labelled
 BlockBody

Appending a block whose first label was new to a body that already had
labels stored it under its first label only; the remaining labels were lost.
---
 lib/src/parser/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8679c65..25fe093 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -430,7 +430,9 @@ impl<'a> BlockBody<'a> {
                     let label = labels.drain(0..1).next().expect("to be some");
                     match hashmap.entry(label) {
                         Entry::Vacant(vacant) => {
-                            vacant.insert(BlockBody::Body(vec![body]));
+                            let mut nested = BlockBody::default();
+                            nested.append(labels, body);
+                            vacant.insert(nested);
                         }
                         Entry::Occupied(mut occupied) => {
                             occupied.get_mut().append(labels, body);
-- 
2.43.0


From ec347287783c50290d6261d154914e028e0d95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 02/24] fix: keep non-adjacent blocks of the same type in
 Blocks::new

`group_by` only groups consecutive items, so a later run of blocks of a type
replaced the earlier ones. Deserialization lost such blocks, too.
---
 lib/src/parser/block.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 25fe093..ad9b098 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -194,14 +194,17 @@ impl<'a> Blocks<'a> {
     where
         T: IntoIterator<Item = Block<'a>>,
     {
-        let mut hashmap = HashMap::new();
+        let mut hashmap: HashMap<_, BlockBody> = HashMap::new();
         for (block_type, blocks) in blocks
             .into_iter()
             .group_by(|block| block.r#type.clone())
             .into_iter()
         {
-            let blocks = BlockBody::from_iter(blocks.map(|block| (block.labels, block.body)));
-            hashmap.insert(block_type, blocks);
+            // `group_by` only groups consecutive blocks: the type might have been seen before
+            hashmap
+                .entry(block_type)
+                .or_default()
+                .extend(blocks.map(|block| (block.labels, block.body)));
         }
         Self { blocks: hashmap }
     }
-- 
2.43.0


From 6d6da63f38081fc69787df3f998c3e8e74afe1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 03/24] fix: count the label itself in label_lens_uniform

The uniform length of a body with labels was that of its nested bodies, one
less than label_lens reports.
---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index ad9b098..5207688 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -648,7 +648,7 @@ impl<'a> BlockBody<'a> {
                             return None;
                         }
                     }
-                    initial
+                    initial.map(|len| len + 1)
                 }
             }
         }
-- 
2.43.0


From 387b444b16f8bc97425fcf30c5e7b6f9f0751e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 04/24] fix: accept slash comments in line_comment

---
 lib/src/parser/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index 3049641..a36f5c6 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -52,7 +52,7 @@ named!(
 named!(
     pub line_comment(CompleteStr) -> CompleteStr,
     alt_complete!(
-        hash_comment | hash_comment
+        hash_comment | slash_comment
     )
 );
 
-- 
2.43.0


From 7f6c768e00cb7d395a5b5751d3843025ca3a27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 05/24] fix: make equality of BlockLabel agree with Borrow<str>

A quoted and an unquoted label with the same text became two entries of the
labels map, and looking the text up found either of them at random.
---
 lib/src/parser/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 5207688..5e1d423 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -57,7 +57,7 @@ impl<'a> Block<'a> {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, Eq)]
 pub enum BlockLabel<'a> {
     StringLiteral(StringLiteral),
     Identifier(Identifier<'a>),
@@ -76,6 +76,13 @@ impl<'a> BlockLabel<'a> {
     }
 }
 
+// `Borrow<str>` requires that `Eq` and `Hash` agree with those of the borrowed string
+impl<'a> PartialEq for BlockLabel<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_str() == other.as_str()
+    }
+}
+
 impl<'a> Hash for BlockLabel<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.as_str().hash(state)
-- 
2.43.0


From e4e41e5c8ecaeea921fe4e5f7d01a251fca3a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 06/24] fix: make equality of Key agree with Borrow<str>

A quoted and an unquoted key with the same text became two entries of a
merged map, and looking the text up found either of them at random.
---
 lib/src/parser/literals/key.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/literals/key.rs b/lib/src/parser/literals/key.rs
index 7d66739..14395e7 100644
--- a/lib/src/parser/literals/key.rs
+++ b/lib/src/parser/literals/key.rs
@@ -9,7 +9,7 @@ use nom::{alt_complete, call, named};
 pub use self::serde::*;
 
 /// A "key" in a map
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Eq, Debug, Clone)]
 pub enum Key<'a> {
     Identifier(Cow<'a, str>),
     String(Cow<'a, str>),
@@ -88,6 +88,13 @@ impl<'a> Borrow<str> for Key<'a> {
     }
 }
 
+// `Borrow<str>` requires that `Eq` and `Hash` agree with those of the borrowed string
+impl<'a> PartialEq for Key<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
 impl<'a> Hash for Key<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.deref().hash(state);
-- 
2.43.0


From 98dd7ff1a7773f6188a6cf264be57ba7fcedbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 07/24] fix: make the hash of ObjectElementIdentifier agree
 with Borrow<str>

The derived Hash included the variant, so a map keyed by these identifiers
could not be looked up by a string.
---
 lib/src/parser/object.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/object.rs b/lib/src/parser/object.rs
index eb1865f..47c763b 100644
--- a/lib/src/parser/object.rs
+++ b/lib/src/parser/object.rs
@@ -11,6 +11,7 @@
 //! objectelem = (Identifier | Expression) "=" Expression;
 //! ```
 use std::borrow::{Borrow, Cow};
+use std::hash::{Hash, Hasher};
 
 use nom::types::CompleteStr;
 use nom::{alt, call, char, do_parse, named, peek, recognize, tag, terminated, IResult};
@@ -20,7 +21,7 @@ use crate::parser::identifier::{identifier, Identifier};
 use crate::parser::whitespace::newline;
 
 // TODO: Dealing with expressions and ambiguity. See reference
-#[derive(Debug, Clone, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ObjectElementIdentifier<'a> {
     /// A literal attribute name
     Identifier(Identifier<'a>),
@@ -62,6 +63,14 @@ where
     }
 }
 
+// `Borrow<str>` requires the same hash as that of the borrowed string
+impl<'a> Hash for ObjectElementIdentifier<'a> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        let string: &str = self.borrow();
+        string.hash(state)
+    }
+}
+
 impl<'a> Borrow<str> for ObjectElementIdentifier<'a> {
     fn borrow(&self) -> &str {
         match self {
-- 
2.43.0


From b6b593bbb0e8c4dc59065d7b68bf03a80d1a4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 08/24] fix: do not panic on short or non-ASCII lines of
 indented heredocs

A line with fewer characters than the indentation (such as an empty line), or
with a multi-byte character within it, sliced out of bounds.
---
 lib/src/parser/string.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/src/parser/string.rs b/lib/src/parser/string.rs
index 3844d28..f16456d 100644
--- a/lib/src/parser/string.rs
+++ b/lib/src/parser/string.rs
@@ -66,15 +66,12 @@ fn unindent_heredoc(string: &str, indentation: usize) -> Cow<str> {
     for line in string.split('\n') {
         // Trim spaces at the beginning first
         // Let's find a start index up to `indentation` to slice away
-        let mut beginning = line.char_indices().take(indentation);
-        let all_spaces = beginning.all(|(_, c)| c == ' ');
-        let rest = if all_spaces {
-            &line[indentation..]
-        } else {
-            let (start, _) = beginning.next().expect("to not be None");
-            &line[start - 1..]
-        };
-        result.push_str(rest);
+        let start = line
+            .bytes()
+            .take(indentation)
+            .take_while(|b| *b == b' ')
+            .count();
+        result.push_str(&line[start..]);
         result.push('\n');
     }
     // Remove the last `\n`
-- 
2.43.0


From e07e225b3b0c679061d1f6e85d9f8164b3e655f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 09/24] fix: treat Value::Null as a scalar

len, is_empty, len_scalar, is_merged and is_unmerged panicked on documents
with a null.
---
 lib/src/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 2cc2b48..b5c4fb3 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -91,7 +91,11 @@ impl<'a> Value<'a> {
 
     pub fn is_scalar(&self) -> bool {
         match self {
-            Value::Integer(_) | Value::Float(_) | Value::Boolean(_) | Value::String(_) => true,
+            Value::Null
+            | Value::Integer(_)
+            | Value::Float(_)
+            | Value::Boolean(_)
+            | Value::String(_) => true,
             _ => false,
         }
     }
-- 
2.43.0


From 59ba530073dab9985329516580881db8055d0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 10/24] fix: deserialize integers above i64::MAX

Every integer literal was visited as an i64, so that values which only fit in
a u64 were rejected.
---
 lib/src/serde/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 403b3da..3d2ffe9 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -150,10 +150,10 @@ where
 {
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
-    } else if number.is_signed() {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
-    } else {
+    } else if number.is_unsigned() {
         visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+    } else {
+        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
     }
 }
 
-- 
2.43.0


From 255b102fb56015b035b050cfc3d3f38c88825d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 11/24] fix: report an attribute and a block of the same name
 as a duplicate key

Deserializing such a body panicked.
---
 lib/src/serde/de/body.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 216b26b..f6caa0f 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -143,11 +143,10 @@ impl<'de> de::MapAccess<'de> for MapAccess<'de> {
                 seed.deserialize(ident.into_deserializer()).map(Some)
             }
             (block_type, blk @ BodyValue::Block(_)) => {
-                // If this key has been seen before, we have a bug
-                assert!(
-                    self.seen.insert(block_type.clone()),
-                    "bug in block merging code"
-                );
+                // Blocks of the same type are merged, but an attribute might have the same name
+                if !self.seen.insert(block_type.clone()) {
+                    return Err(Error::BodyDuplicateKey(block_type.to_string()).into());
+                }
                 self.value = Some(blk);
                 seed.deserialize(block_type.into_deserializer()).map(Some)
             }
-- 
2.43.0


From 8a8704dde13cd81a1e5402b76248e7a02e4d7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 12/24] fix: do not panic when deserializing blocks with labels

Return an error where they are asked for, and skip them where they are ignored.
---
 lib/src/serde/de/block.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 698fd66..5df0a49 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -29,6 +29,10 @@ where
     BodyDeserializer::new(body).deserialize_map(visitor)
 }
 
+fn unsupported_labels() -> Compat {
+    de::Error::custom("deserializing blocks with labels is not supported yet")
+}
+
 /// Possible states of `BlockBody`:
 /// - Empty: Single Body => Deserialize Map/Struct
 /// - Empty: Multiple Bodies => Seq
@@ -63,7 +67,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(unsupported_labels())
             }
         }
     }
@@ -95,11 +99,18 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(unsupported_labels())
             }
         }
     }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
     // Tuple
     // map - mapaccess `"labels" = rest`
     // struct
@@ -110,7 +121,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
         bytes byte_buf unit unit_struct newtype_struct tuple
-        tuple_struct map struct enum identifier ignored_any
+        tuple_struct map struct enum identifier
     }
 }
 
-- 
2.43.0


From 645bf908ba7af9b198c8eed5868838c76248d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 13/24] fix: evaluate literal expressions used as object keys

Turning a key such as "foo" (in quotes) into a string panicked, and so did
deserializing an object with it.
---
 lib/src/parser/object.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser/object.rs b/lib/src/parser/object.rs
index 47c763b..51d3f43 100644
--- a/lib/src/parser/object.rs
+++ b/lib/src/parser/object.rs
@@ -43,10 +43,13 @@ impl<'a> ObjectElementIdentifier<'a> {
     pub fn as_str(&self) -> Cow<'a, str> {
         match self {
             ObjectElementIdentifier::Identifier(ident) => ident.clone(),
-            // FIXME
-            ObjectElementIdentifier::Expression(_) => {
-                unimplemented!("Expression evaluation is not yet supported")
-            }
+            ObjectElementIdentifier::Expression(expr) => match Expression::parse(expr) {
+                Ok(Expression::String(string)) => Cow::Owned(string.into_owned()),
+                Ok(Expression::Number(number)) => Cow::Owned(number.to_string()),
+                Ok(Expression::Boolean(boolean)) => Cow::Owned(boolean.to_string()),
+                // Other expressions do not evaluate to a string
+                _ => expr.clone(),
+            },
         }
     }
 }
-- 
2.43.0


From a929d3b5feb0a7a52aae6b8c27c4d6bbe43cc280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 14/24] fix: convert the minimum of every signed integer type
 to a Number

Its absolute value overflows.
---
 lib/src/parser/number.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 4772bf7..9aa7855 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -74,7 +74,9 @@ macro_rules! from_int {
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
                 let input = Cow::Owned(n.to_string());
-                let whole = Some(Cow::Owned(n.abs().to_string()));
+                let whole = Some(Cow::Owned(
+                    n.to_string().trim_start_matches('-').to_string(),
+                ));
                 Self::new(input, n >= 0, whole, None, None)
             }
         }
-- 
2.43.0


From 3bf5bcff5cb86e71b72b28952accd2df11b8c12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 15/24] fix: do not parse the same map twice when an attribute
 fails to parse

The alternatives of an attribute overlapped: a map that failed to parse was
tried again by the next alternative, at every level of nesting, which took
time exponential in the depth.
---
 lib/src/parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index de64508..1cd78cd 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -32,7 +32,7 @@ use whitespace::newline;
 
 use nom::types::CompleteStr;
 use nom::{
-    alt, alt_complete, call, char, complete, do_parse, eof, exact, named, named_attr, opt,
+    alt, alt_complete, call, char, do_parse, eof, exact, named, named_attr, opt,
     preceded, tag, terminated,
 };
 
@@ -114,13 +114,12 @@ named!(
             )
             | do_parse!(
                 identifier: call!(identifier::identifier)
-                >> complete!(opt!(char!('=')))
                 >> values: call!(map_expression)
                 >> (Key::Identifier(identifier), Value::from(values))
             )
             | do_parse!(
                 identifier: call!(identifier::identifier)
-                >> keys: many0!(string::string_literal)
+                >> keys: many1!(string::string_literal)
                 >> values: call!(map_expression)
                 >> (Key::Identifier(identifier), Value::Block(vec![(keys, values)].into_iter().collect()))
             )
-- 
2.43.0


From 18a94f24cfb8454c61aa921376ec8c9946beb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 16/24] fix: compare and hash numbers by their exact value

Equality of floats ignored the sign (1.5 == -1.5), integers beyond 128 bits
were not equal to themselves, and equal numbers had different hashes.
---
 lib/src/parser/number.rs | 72 ++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 9aa7855..82a2d74 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -1,6 +1,7 @@
 //! Number
 
 use std::borrow::Cow;
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 use std::str::FromStr;
 
@@ -10,7 +11,7 @@ use nom::{alt, char, digit, opt, pair, tuple};
 
 use crate::AsOwned;
 
-#[derive(Debug, Clone, Eq, Hash)]
+#[derive(Debug, Clone, Eq)]
 pub struct Number<'a> {
     /// The original input number literal
     input: Cow<'a, str>,
@@ -55,6 +56,27 @@ impl<'a> Number<'a> {
     pub fn is_float(&self) -> bool {
         !self.is_signed()
     }
+
+    /// The exact value of the number: whether it is negative, its significant digits, and the
+    /// power of ten of the last of them. Zero has no significant digits.
+    fn canonical(&self) -> (bool, String, i128) {
+        let whole = self.whole.as_ref().map_or("", AsRef::as_ref);
+        let fraction = self.fraction.as_ref().map_or("", AsRef::as_ref);
+        let digits = format!("{}{}", whole, fraction);
+        let digits = digits.trim_start_matches('0');
+        let significant = digits.trim_end_matches('0');
+        if significant.is_empty() {
+            return (false, String::new(), 0);
+        }
+
+        let exponent = self.exponent.as_ref().map_or(0, |exponent| {
+            let value = exponent.exponent.parse().unwrap_or(i64::max_value());
+            i128::from(if exponent.positive { value } else { -value })
+        });
+        let trailing_zeroes = digits.len() - significant.len();
+        let power = exponent + trailing_zeroes as i128 - fraction.len() as i128;
+        (!self.positive, significant.to_string(), power)
+    }
 }
 
 macro_rules! from_uint {
@@ -158,49 +180,13 @@ impl<'a> AsOwned for Number<'a> {
 
 impl<'a> std::cmp::PartialEq for Number<'a> {
     fn eq(&self, other: &Self) -> bool {
-        if self.is_float() || other.is_float() {
-            // Good enough comparison
-            // From https://users.rust-lang.org/t/assert-eq-for-float-numbers/7034/4
-            let us = self.as_f64();
-            let them = other.as_f64();
-            if us.is_err() || them.is_err() {
-                println!("Error converting to float!");
-                return false;
-            }
+        self.canonical() == other.canonical()
+    }
+}
 
-            let us = us.unwrap().abs();
-            let them = them.unwrap().abs();
-            let diff = (us - them).abs();
-
-            if us == them {
-                // Handle infinities.
-                true
-            } else if us == 0.0 || them == 0.0 || diff < std::f64::MIN_POSITIVE {
-                // One of a or b is zero (or both are extremely close to it,) use absolute error.
-                diff < (std::f64::EPSILON * std::f64::MIN_POSITIVE)
-            } else {
-                // Use relative error.
-                (diff / f64::min(us + them, std::f64::MAX)) < std::f64::EPSILON
-            }
-        } else if self.is_unsigned() && other.is_unsigned() {
-            // Unsigned
-            let us = self.as_u128();
-            let them = other.as_u128();
-            if us.is_err() || them.is_err() {
-                println!("Error converting to unsigned!");
-                return false;
-            }
-            us.unwrap().eq(&them.unwrap())
-        } else {
-            // Signed
-            let us = self.as_i128();
-            let them = other.as_i128();
-            if us.is_err() || them.is_err() {
-                println!("Error converting to signed!");
-                return false;
-            }
-            us.unwrap().eq(&them.unwrap())
-        }
+impl<'a> Hash for Number<'a> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.canonical().hash(state)
     }
 }
 
-- 
2.43.0


From 17d8777f05182d635402b2f14f9bbe15cba54575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 17/24] fix: bound the safe indices of byte inputs

They went on beyond the end of the input, so that take_till_match! panicked
when nothing matched.
---
 lib/src/utils.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/lib/src/utils.rs b/lib/src/utils.rs
index c1ed70d..e8142a7 100644
--- a/lib/src/utils.rs
+++ b/lib/src/utils.rs
@@ -55,21 +55,14 @@ where
     }
 }
 
-#[allow(clippy::trivially_copy_pass_by_ref)]
-fn add_one(i: &usize) -> Option<usize> {
-    Some(i + 1)
-}
-
-type AddOneFn = fn(&usize) -> Option<usize>;
-
 impl<'a, T> SafeIndexing for &'a [T]
 where
     &'a [T]: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
@@ -77,22 +70,22 @@ impl<'a> SafeIndexing for CompleteByteSlice<'a>
 where
     CompleteByteSlice<'a>: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = std::ops::Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
 impl<T> SafeIndexing for Input<T>
 where
     Input<T>: nom::Slice<RangeFull>,
-    T: nom::Slice<RangeFull>,
+    T: SafeIndexing,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = T::Iter;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        self.inner.safe_indices()
     }
 }
 
-- 
2.43.0


From b80eda347551863ac69087030665fa878eaebc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 18/24] fix: report blocks with the same labels as an error
 when merging

---
 lib/src/value.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index b5c4fb3..32f50d6 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -621,12 +621,16 @@ impl<'a> Block<'a> {
         K: IntoIterator<Item = S>,
         S: ToString,
     {
-        let mut merged = HashMap::default();
+        let mut merged: HashMap<Vec<String>, _> = HashMap::default();
         for (key, value) in iter {
-            let _ = merged.insert(
-                key.into_iter().map(|s| s.to_string()).collect(),
-                value.merge()?,
-            );
+            let labels: Vec<_> = key.into_iter().map(|s| s.to_string()).collect();
+            if merged.contains_key(&labels) {
+                return Err(Error::IllegalMultipleEntries {
+                    key: labels.join(" "),
+                    variant: BLOCK,
+                });
+            }
+            merged.insert(labels, value.merge()?);
         }
         Ok(KeyValuePairs::Merged(merged))
     }
@@ -826,6 +830,14 @@ impl<'a> MapValues<'a> {
                             let value = value;
                             // Check that the incoming value is also a Block
                             if let Value::Block(incoming) = value {
+                                let duplicate =
+                                    incoming.keys().find(|labels| block.get(*labels).is_some());
+                                if let Some(labels) = duplicate {
+                                    return Err(Error::IllegalMultipleEntries {
+                                        key: format!("{} {}", key, labels.join(" ")),
+                                        variant: BLOCK,
+                                    });
+                                }
                                 block.extend(incoming);
                             } else {
                                 return Err(Error::ErrorMergingKeys {
-- 
2.43.0


From 9caddf0013a35bee64586974451ce5ebb4d97802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 19/24] fix: do not keep the sign of negative zero in the
 digits of a Number

---
 lib/src/parser/number.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 82a2d74..ccf1591 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -112,11 +112,8 @@ macro_rules! from_float {
     ($($from:ty )*) => {$(
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
-                let string = if n >= 0.0 {
-                    n.to_string()
-                } else {
-                    (n*-1.0).to_string()
-                };
+                // Negative zero is not less than zero, but has a sign in its string representation
+                let string = n.abs().to_string();
                 let mut parts = string.split(".");
                 let whole = parts.next().map(|s| Cow::Owned(s.to_string()));
                 let fraction = parts.next().map(|s| Cow::Owned(s.to_string()));
-- 
2.43.0


From 0404c12532e8672195255302da00704b09702451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 20/24] fix: keep the sign of negative zero when converting
 floats to a Number

---
 lib/src/parser/number.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index ccf1591..e6a5efa 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -117,7 +117,13 @@ macro_rules! from_float {
                 let mut parts = string.split(".");
                 let whole = parts.next().map(|s| Cow::Owned(s.to_string()));
                 let fraction = parts.next().map(|s| Cow::Owned(s.to_string()));
-                Self::new(Cow::Owned(n.to_string()), n >= 0.0, whole, fraction, None)
+                Self::new(
+                    Cow::Owned(n.to_string()),
+                    n.is_sign_positive(),
+                    whole,
+                    fraction,
+                    None,
+                )
             }
         }
     )*};
-- 
2.43.0


From a4c30203c6c40bc08143e86685bba0733583e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 21/24] fix: report tuple elements that a sequence visitor
 leaves over

---
 lib/src/serde/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 3d2ffe9..a18df83 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -14,7 +14,8 @@ pub use self::error::*;
 pub use body::{from_str, Deserializer};
 
 use crate::parser;
-use serde::de::{IntoDeserializer, Visitor};
+use serde::de::value::SeqDeserializer;
+use serde::de::Visitor;
 use std::borrow::Cow;
 
 mod error {
@@ -175,7 +176,11 @@ where
         }
     }
 
-    visitor.visit_seq(tuple.into_deserializer())
+    let mut elements = SeqDeserializer::new(tuple.into_iter());
+    let value = visitor.visit_seq(&mut elements)?;
+    // The visitor might not have taken all the elements
+    elements.end()?;
+    Ok(value)
 }
 
 fn deserialize_object<'de, V>(
-- 
2.43.0


From 6f1cac68a11e2d80612a2a8c01667708e15e7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 22/24] fix: report bodies of blocks that a sequence visitor
 leaves over

---
 lib/src/serde/de/block.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 5df0a49..d8bb58b 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -1,7 +1,8 @@
 use std::collections::{hash_map, HashMap};
 use std::vec;
 
-use serde::de::{self, Deserializer, IntoDeserializer, Visitor};
+use serde::de::value::SeqDeserializer;
+use serde::de::{self, Deserializer, Visitor};
 use serde::forward_to_deserialize_any;
 
 use crate::parser::block::{BlockBody, BlockLabel};
@@ -13,13 +14,11 @@ fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V:
 where
     V: Visitor<'de>,
 {
-    visitor.visit_seq(
-        bodies
-            .into_iter()
-            .map(BodyDeserializer::new)
-            .collect::<Vec<_>>()
-            .into_deserializer(),
-    )
+    let mut elements = SeqDeserializer::new(bodies.into_iter().map(BodyDeserializer::new));
+    let value = visitor.visit_seq(&mut elements)?;
+    // The visitor might not have taken all the bodies
+    elements.end()?;
+    Ok(value)
 }
 
 fn deserialize_map<'de, V>(body: Body<'de>, visitor: V) -> Result<V::Value, Compat>
-- 
2.43.0


From 5ca1004d5b7e91324ed11c62cb883ba00e9dfc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 23/24] fix: report errors of the command line tool on standard
 error

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 0afe933..4b02654 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -16,7 +16,7 @@ fn main() -> Result<(), Error> {
     match run_subcommand(&args) {
         Ok(()) => Ok(()),
         Err(e) => {
-            println!("Error: {}", e);
+            eprintln!("Error: {}", e);
             std::process::exit(1);
         }
     }
-- 
2.43.0


From bda2ddc862dc3fc83aaab4593d14f3d48c3fb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:21 +0000
Subject: [PATCH 24/24] fix: compare numbers with exponents beyond 64 bits by
 their exact value

---
 lib/src/parser/number.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index e6a5efa..5fd2976 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -59,22 +59,22 @@ impl<'a> Number<'a> {
 
     /// The exact value of the number: whether it is negative, its significant digits, and the
     /// power of ten of the last of them. Zero has no significant digits.
-    fn canonical(&self) -> (bool, String, i128) {
+    fn canonical(&self) -> (bool, String, String) {
         let whole = self.whole.as_ref().map_or("", AsRef::as_ref);
         let fraction = self.fraction.as_ref().map_or("", AsRef::as_ref);
         let digits = format!("{}{}", whole, fraction);
         let digits = digits.trim_start_matches('0');
         let significant = digits.trim_end_matches('0');
         if significant.is_empty() {
-            return (false, String::new(), 0);
+            return (false, String::new(), String::new());
         }
 
-        let exponent = self.exponent.as_ref().map_or(0, |exponent| {
-            let value = exponent.exponent.parse().unwrap_or(i64::max_value());
-            i128::from(if exponent.positive { value } else { -value })
-        });
         let trailing_zeroes = digits.len() - significant.len();
-        let power = exponent + trailing_zeroes as i128 - fraction.len() as i128;
+        let offset = trailing_zeroes as i128 - fraction.len() as i128;
+        let power = match self.exponent {
+            None => offset.to_string(),
+            Some(ref exponent) => exponent.plus(offset),
+        };
         (!self.positive, significant.to_string(), power)
     }
 }
@@ -201,6 +201,31 @@ struct Exponent<'a> {
     pub exponent: Cow<'a, str>,
 }
 
+impl<'a> Exponent<'a> {
+    /// The exact sum of the exponent, which might have any number of digits, and an offset, which
+    /// is less than 2^64
+    fn plus(&self, offset: i128) -> String {
+        if let Ok(exponent) = self.exponent.parse::<u64>() {
+            let exponent = i128::from(exponent);
+            let exponent = if self.positive { exponent } else { -exponent };
+            return (exponent + offset).to_string();
+        }
+
+        // The exponent is further from zero than the offset, and so the sum has its sign
+        let mut carry = if self.positive { offset } else { -offset };
+        let mut digits = vec![];
+        for digit in self.exponent.bytes().rev() {
+            carry += i128::from(digit - b'0');
+            digits.push(char::from(b'0' + carry.rem_euclid(10) as u8));
+            carry = carry.div_euclid(10);
+        }
+        let digits: String = digits.into_iter().rev().collect();
+        let sum = format!("{}{}", carry, digits);
+        let sign = if self.positive { "" } else { "-" };
+        format!("{}{}", sign, sum.trim_start_matches('0'))
+    }
+}
+
 impl<'a> AsOwned for Exponent<'a> {
     type Output = Exponent<'static>;
 
-- 
2.43.0

