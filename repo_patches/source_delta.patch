From 6514bf489aef4eb9a4a94e4eafff9098c6186711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:57 +0000
Subject: [PATCH 01/11] fix: divide Vector2 components by the scalar instead of
 multiplying

---
 src/core/vector.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/vector.rs b/src/core/vector.rs
index 74f601a..d837e9e 100755
--- a/src/core/vector.rs
+++ b/src/core/vector.rs
@@ -32,8 +32,7 @@ impl<T: ElemType> Div<T> for Vector2<T> {
 
     fn div(self, rhs: T) -> Self {
         assert!(rhs != T::from_int(0), "divide by zero");
-        let recip = rhs;
-        Vector2::new(self.x * recip, self.y * recip)
+        Vector2::new(self.x / rhs, self.y / rhs)
     }
 }
 
-- 
2.43.0


From 2eb2ffe0d3270856f6b843bbdb07ab568c624733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 02/11] fix: stray z entry in the inverse matrix of
 Transform::scale

---
 src/core/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transform.rs b/src/core/transform.rs
index 401c858..367008d 100755
--- a/src/core/transform.rs
+++ b/src/core/transform.rs
@@ -61,7 +61,7 @@ impl Transform {
                 [1. / x, 0., 0., 0.],
                 [0., 1. / y, 0., 0.],
                 [0., 0., 1. / z, 0.],
-                [0., 0., z, 1.],
+                [0., 0., 0., 1.],
             ]),
         )
     }
-- 
2.43.0


From a0444ce54800645a703e0c71bca67d610853a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 03/11] fix: keep the intersection of disjoint bounds empty

---
 src/core/boundingbox.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index ee1f25f..f974424 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -94,18 +94,20 @@ impl<T: ElemType> Bounds3<T> {
     }
 
     pub fn intersect(&self, b: &Bounds3<T>) -> Bounds3<T> {
-        Bounds3::new(
-            Point3::new(
+        // Not Bounds3::new(): it would reorder the corners, and the intersection of disjoint
+        // bounds has to stay empty.
+        Bounds3 {
+            p_min: Point3::new(
                 pmax(&[self.p_min.x, b.p_min.x]),
                 pmax(&[self.p_min.y, b.p_min.y]),
                 pmax(&[self.p_min.z, b.p_min.z]),
             ),
-            Point3::new(
+            p_max: Point3::new(
                 pmin(&[self.p_max.x, b.p_max.x]),
                 pmin(&[self.p_max.y, b.p_max.y]),
                 pmin(&[self.p_max.z, b.p_max.z]),
             ),
-        )
+        }
     }
 
     pub fn overlaps(&self, b: &Bounds3<T>) -> bool {
-- 
2.43.0


From 2c029498143cb889f30b5c37af9ed7bfaae61d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 04/11] fix: make Bounds2 iteration visit [p_min, p_max) row by
 row

It skipped p_min, restarted rows at x = 0 instead of p_min.x and ran past p_max.
---
 src/core/boundingbox.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index f974424..310ecc1 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -188,6 +188,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 
     fn into_iter(self) -> Self::IntoIter {
         Bounds2Iter {
+            x_min: self.p_min.x,
             p_max: self.p_max,
             x: self.p_min.x,
             y: self.p_min.y,
@@ -196,6 +197,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 }
 
 pub struct Bounds2Iter<T: ElemType> {
+    x_min: T,
     p_max: Point2<T>,
     x: T,
     y: T,
@@ -205,16 +207,16 @@ impl<T: ElemType> Iterator for Bounds2Iter<T> {
     type Item = Point2<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x >= self.p_max.x && self.y >= self.p_max.y {
+        if self.x >= self.p_max.x || self.y >= self.p_max.y {
             None
         } else {
+            let p = Point2::new(self.x, self.y);
+            self.x += T::from_int(1);
             if self.x >= self.p_max.x {
-                self.x = T::from_int(0);
+                self.x = self.x_min;
                 self.y += T::from_int(1);
-            } else {
-                self.x += T::from_int(1);
             }
-            Some(Point2::new(self.x, self.y))
+            Some(p)
         }
     }
 }
-- 
2.43.0


From 077c281467c70679f20f087ed0363723cc309a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 05/11] fix: report a malformed parameter instead of dropping
 it

A parameter whose value failed to parse was silently discarded, e.g.
Shape "sphere" "float radius" Material "glass".
---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 93c25a1..e3a6bff 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -561,7 +561,13 @@ impl Parser {
     }
 
     fn parse_param_lists(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-        while self.parse_param_list(param_set).is_ok() {}
+        while let Ok(Token {
+            ty: TokenType::Str(_),
+            ..
+        }) = self.peek()
+        {
+            self.parse_param_list(param_set)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 1c186487c5ed65cadf2cd6ca33645d17432e5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 06/11] fix: consume the closing keyword of a block and require
 it to match

The keyword was left in the token stream, so an inner block closed every
enclosing block too and the directives after it were dropped.
---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e3a6bff..7f23869 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1050,15 +1050,15 @@ impl Parser {
             }
             "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("AttributeEnd")?,
             })),
             "TransformBegin" => Ok(Directive::Transform(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("TransformEnd")?,
             })),
             "WorldBegin" => Ok(Directive::World(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("WorldEnd")?,
             })),
             "Include" => Ok(Directive::Include(
                 start_pos,
@@ -1084,7 +1084,8 @@ impl Parser {
         }
     }
 
-    fn parse_directives(&mut self) -> ParserResult<Vec<Directive>> {
+    /// Parses the directives of a block up to and including its closing keyword `end`.
+    fn parse_directives(&mut self, end: &str) -> ParserResult<Vec<Directive>> {
         let mut directives = vec![];
         loop {
             match self.peek()? {
@@ -1092,7 +1093,8 @@ impl Parser {
                     ty: TokenType::Identifier(ref s),
                     ..
                 } => {
-                    if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
+                    if s == end {
+                        self.next()?;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0


From b6a978f5203ff3c92e5551edc40b51b862326efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 07/11] fix: reject input left over after the world block

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7f23869..a06affb 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1365,7 +1365,15 @@ impl Parser {
 
     pub fn parse(input: &str) -> ParserResult<(Vec<PreDirective>, Directive)> {
         let mut parser = Parser::new(input)?;
-        Ok((parser.parse_predirectives()?, parser.parse_directive()?))
+        let scene = (parser.parse_predirectives()?, parser.parse_directive()?);
+        match parser.peek() {
+            Ok(Token { pos, ty }) => Err(ParserError::Str(format!(
+                "{} parse(): expected end of input but got {:?}",
+                pos, ty
+            ))),
+            Err(ParserError::Eof) => Ok(scene),
+            Err(err) => Err(err),
+        }
     }
 }
 
-- 
2.43.0


From b58a18db5f81fc8d4503ddd10fc0a04cfa98aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:25 +0000
Subject: [PATCH 08/11] fix: skip whitespace and comments in a loop

Every comment or run of whitespace recursed, so a long run of comment lines
overflowed the stack.
---
 src/parser.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a06affb..6c8ade0 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -310,16 +310,28 @@ impl Tokenizer {
         self.index >= self.chars.len()
     }
 
-    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
-        match self.peek() {
-            Ok('#') => {
-                while let Ok(ch) = self.next() {
-                    if ch == '\n' {
-                        break;
+    fn skip_blanks(&mut self) -> TokenizerResult<()> {
+        while let Ok(ch) = self.peek() {
+            match ch {
+                '#' => {
+                    while let Ok(ch) = self.next() {
+                        if ch == '\n' {
+                            break;
+                        }
                     }
                 }
-                self.tokenize_one()
+                ch if ch.is_whitespace() => {
+                    self.next()?;
+                }
+                _ => break,
             }
+        }
+        Ok(())
+    }
+
+    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
+        self.skip_blanks()?;
+        match self.peek() {
             Ok('"') => self.tokenize_str(),
             Ok('[') => {
                 let tok = Ok(Token {
@@ -338,17 +350,6 @@ impl Tokenizer {
                 tok
             }
             Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
-            Ok(c) if c.is_whitespace() => {
-                while let Ok(ch) = self.peek() {
-                    match ch {
-                        ch if ch.is_whitespace() => {
-                            self.next()?;
-                        }
-                        _ => break,
-                    }
-                }
-                self.tokenize_one()
-            }
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
-- 
2.43.0


From 3da0c91ed5f218db2c67dc9f0c203514e2e2cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:25 +0000
Subject: [PATCH 09/11] fix: reject an exponent inside an exponent

1e1e1... recursed once per exponent and overflowed the stack.
---
 src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6c8ade0..6042c6d 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -349,7 +349,7 @@ impl Tokenizer {
                 let _ = self.next();
                 tok
             }
-            Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
+            Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(false),
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
@@ -359,7 +359,7 @@ impl Tokenizer {
         }
     }
 
-    fn tokenize_num(&mut self) -> TokenizerResult<Token> {
+    fn tokenize_num(&mut self, in_exponent: bool) -> TokenizerResult<Token> {
         let start_pos = self.pos;
         let mut num_chars = vec![];
         match self.peek() {
@@ -385,6 +385,12 @@ impl Tokenizer {
                     is_float = true;
                     num_chars.push(self.next()?);
                 },
+                Ok(ch @ 'e') if in_exponent => {
+                    return Err(TokenizerError::Str(format!(
+                        "{} tokenize_num(): unexpected char '{}'",
+                        self.pos, ch
+                    )))
+                }
                 Ok('e') => {
                     if num_chars.is_empty() {
                         return Err(TokenizerError::Str(format!(
@@ -393,7 +399,7 @@ impl Tokenizer {
                         )));
                     }
                     let _ = self.next();
-                    match self.tokenize_num()?.remove_pos() {
+                    match self.tokenize_num(true)?.remove_pos() {
                         TokenType::Float(f) => {
                             return Ok(Token {
                                 pos: start_pos,
-- 
2.43.0


From 3e5d1c4708cd6d6cb000850375ff7e179108d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:25 +0000
Subject: [PATCH 10/11] fix: integer literals with an exponent that does not
 fit

1e20 panicked (or wrapped around in release builds) and 1e4294967297 was
truncated to 10; such a literal is now a float.
---
 src/parser.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6042c6d..07cd1bf 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,5 @@
 use core::*;
+use std::convert::TryFrom;
 use std::fmt;
 use std::num::{ParseFloatError, ParseIntError};
 use std::path::PathBuf;
@@ -410,13 +411,22 @@ impl Tokenizer {
                             })
                         }
                         TokenType::Int(i) if i >= 0 && !is_float => {
+                            let mantissa =
+                                num_chars.into_iter().collect::<String>().parse::<isize>()?;
+                            let int = u32::try_from(i)
+                                .ok()
+                                .and_then(|exp| isize::checked_pow(10, exp))
+                                .and_then(|scale| mantissa.checked_mul(scale));
                             return Ok(Token {
                                 pos: start_pos,
-                                ty: TokenType::Int(
-                                    num_chars.into_iter().collect::<String>().parse::<isize>()?
-                                        * isize::pow(10, i as u32),
-                                ),
-                            })
+                                ty: match int {
+                                    Some(int) => TokenType::Int(int),
+                                    // Too large for an int
+                                    None => TokenType::Float(
+                                        mantissa as Float * Float::powf(10.0, i as Float),
+                                    ),
+                                },
+                            });
                         }
                         TokenType::Int(i) => {
                             return Ok(Token {
-- 
2.43.0


From d0d3d8a2668553268301109025e979e99c6ad850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:26 +0000
Subject: [PATCH 11/11] fix: reject absurdly deep block nesting instead of
 overflowing the stack

---
 src/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 07cd1bf..b4f1ed9 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -214,8 +214,12 @@ pub struct Tokenizer {
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    depth: usize,
 }
 
+/// Blocks nested deeper than this are rejected: every level takes stack space.
+const MAX_BLOCK_DEPTH: usize = 100;
+
 pub type TokenizerResult<T> = Result<T, TokenizerError>;
 pub type ParserResult<T> = Result<T, ParserError>;
 
@@ -541,6 +545,7 @@ impl Parser {
         Ok(Parser {
             tokens: Tokenizer::tokenize(input)?,
             index: 0,
+            depth: 0,
         })
     }
 
@@ -1103,6 +1108,12 @@ impl Parser {
 
     /// Parses the directives of a block up to and including its closing keyword `end`.
     fn parse_directives(&mut self, end: &str) -> ParserResult<Vec<Directive>> {
+        if self.depth >= MAX_BLOCK_DEPTH {
+            return Err(ParserError::Str(
+                "parse_directives(): blocks nested too deeply".to_owned(),
+            ));
+        }
+        self.depth += 1;
         let mut directives = vec![];
         loop {
             match self.peek()? {
@@ -1112,6 +1123,7 @@ impl Parser {
                 } => {
                     if s == end {
                         self.next()?;
+                        self.depth -= 1;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0

