From a3014b607c9e59f3cb6c898d2e71c2545724321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 01/88] fix: keep processing the token after an uninvoked
 function-like macro name

The token read while looking for '(' was emitted raw: not expanded if it was a
macro, at the location of the name before it, and not seen as the end of the
line of an #if.
---
 crates/dreammaker/src/preprocessor.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..74b32e0 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -307,6 +307,8 @@ impl<'ctx> Include<'ctx> {
 #[derive(Debug, Default)]
 struct IncludeStack<'ctx> {
     stack: Vec<Include<'ctx>>,
+    /// A token which was read from the stack, but turned out to be unneeded.
+    pushed_back: Option<LocatedToken>,
 }
 
 impl<'ctx> IncludeStack<'ctx> {
@@ -328,6 +330,9 @@ impl<'ctx> Iterator for IncludeStack<'ctx> {
     type Item = LocatedToken;
 
     fn next(&mut self) -> Option<LocatedToken> {
+        if let Some(token) = self.pushed_back.take() {
+            return Some(token);
+        }
         loop {
             match self.stack.last_mut() {
                 Some(&mut Include::File { ref mut lexer, .. }) => {
@@ -439,6 +444,7 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file,
             include_stack: IncludeStack {
                 stack: vec![include],
+                pushed_back: None,
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
@@ -474,6 +480,7 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file,
             include_stack: IncludeStack {
                 stack: vec![include],
+                pushed_back: None,
             },
             include_locations: Default::default(),
             multiple_locations: Default::default(),
@@ -1209,16 +1216,15 @@ impl<'ctx> Preprocessor<'ctx> {
                         },
                     )) => {
                         // if it's not followed by an LParen, it isn't really a function call
-                        match next!() {
-                            Token::Punct(Punctuation::LParen) => {},
+                        match self.inner_next() {
+                            Some(LocatedToken {
+                                token: Token::Punct(Punctuation::LParen),
+                                ..
+                            }) => {},
                             other => {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
-                                match other {
-                                    Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
-                                    _ => {},
-                                }
-                                self.push_output(other);
+                                // the token after it hasn't been processed yet, so put it back
+                                self.include_stack.pushed_back = other;
                                 return Ok(());
                             },
                         }
-- 
2.43.0


From d2bf60cd5ad7c35ba1707b6ea7d8f49be1ec3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 02/88] fix: keep the input type of a for-in loop variable

---
 crates/dreammaker/src/parser.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..7547589 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1561,6 +1561,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             let init = self.simple_statement(true, vars)?;
 
             // We do this here otherwise it's consumed after the comma (for key-value loops with typed keys)
+            // It also serves the in-list form.
             let key_input_type = if let Some(()) = self.exact_ident("as")? {
                 Some(require!(self.input_type()))
             } else {
@@ -1724,12 +1725,8 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     _ => return Err(self.error("for-list must start with variable")),
                 };
 
-                let input_type = if let Some(()) = self.exact_ident("as")? {
-                    // for(var/a as obj
-                    Some(require!(self.input_type()))
-                } else {
-                    None
-                };
+                // for(var/a as obj
+                let input_type = key_input_type;
 
                 let in_list = if let Some(()) = self.exact(Token::Punct(Punctuation::In))? {
                     let value = require!(self.expression());
-- 
2.43.0


From 719241dc3cdcc756c53291451d1ce8c1dcdd7d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 03/88] fix: accept a braced else block before the end of a
 braced switch

---
 crates/dreammaker/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 7547589..f50c6b2 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1795,6 +1795,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     break None;
                 }
             };
+            self.skip_phantom_semicolons()?;
             require!(self.exact(Token::Punct(Punctuation::RBrace)));
             spanned(Statement::Switch {
                 input: Box::new(expr),
-- 
2.43.0


From 190c87e1984fd7e47c92accd7e4b70e60fcdff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 04/88] fix: trigonometric functions work in degrees

---
 crates/dreammaker/src/constants.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ad7a611..fdeb36e 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -852,10 +852,10 @@ impl<'a> ConstantFolder<'a> {
                 "generator" => Constant::Call(ConstFn::Generator, self.arguments(args)?),
                 "vector" => Constant::Call(ConstFn::Vector, self.arguments(args)?),
                 // constant-evaluatable functions
-                "sin" => self.trig_op(args, f32::sin)?,
-                "cos" => self.trig_op(args, f32::cos)?,
-                "arcsin" => self.trig_op(args, f32::asin)?,
-                "arccos" => self.trig_op(args, f32::acos)?,
+                "sin" => self.trig_op(args, |x| x.to_radians().sin())?,
+                "cos" => self.trig_op(args, |x| x.to_radians().cos())?,
+                "arcsin" => self.trig_op(args, |x| x.asin().to_degrees())?,
+                "arccos" => self.trig_op(args, |x| x.acos().to_degrees())?,
                 "rgb" => Constant::String(self.rgb(args)?.into()),
                 "defined" if self.defines.is_some() => {
                     let defines = self.defines.unwrap(); // annoying, but keeps the match clean
-- 
2.43.0


From e52753a925d9285bf8a0b0e233ea5bdc3e551755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 05/88] fix: named rgb() components may come in any order and
 be missing

---
 crates/dreammaker/src/constants.rs | 48 +++++++++++++++++-------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index fdeb36e..2b29b3d 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1195,10 +1195,13 @@ impl<'a> ConstantFolder<'a> {
             ColorSpace::Rgb // Default
         };
 
-        let mut value_vec: Vec<f64> = vec![];
+        // The three components of the color space, then alpha.
+        let mut components: [Option<f64>; 4] = [None; 4];
+        let mut arg_pos = 0;
 
-        for (arg_pos, (value, potential_kwarg_value)) in arguments.iter().enumerate() {
+        for (value, potential_kwarg_value) in arguments.iter() {
             let mut to_check = value;
+            let mut component = arg_pos;
 
             // Determines the range based on predetermined colorspace
             let mut range = match arg_pos {
@@ -1228,14 +1231,16 @@ impl<'a> ConstantFolder<'a> {
                 if let Some(kwarg) = value.as_str() {
                     to_check = kwarg_value; // Set the value to actually check to be our associated vaue
 
-                    range = match kwarg {
-                        "r" | "red" | "g" | "green" | "b" | "blue" => 0..=255,
-                        "h" | "hue" => 0..=360,
-                        "s" | "saturation" => 0..=100,
-                        "v" | "value" => 0..=100,
-                        "c" | "chroma" => 0..=100,
-                        "l" | "y" | "luminance" => 0..=100,
-                        "a" | "alpha" => 0..=255,
+                    (component, range) = match kwarg {
+                        "r" | "red" => (0, 0..=255),
+                        "g" | "green" => (1, 0..=255),
+                        "b" | "blue" => (2, 0..=255),
+                        "h" | "hue" => (0, 0..=360),
+                        "s" | "saturation" => (1, 0..=100),
+                        "v" | "value" => (2, 0..=100),
+                        "c" | "chroma" => (1, 0..=100),
+                        "l" | "y" | "luminance" => (2, 0..=100),
+                        "a" | "alpha" => (3, 0..=255),
                         "space" => continue, // Don't range-check the value of the space
                         _ => {
                             return Err(self
@@ -1262,28 +1267,29 @@ impl<'a> ConstantFolder<'a> {
                         .with_location(self.location));
                 }
                 let clamped = std::cmp::max(::std::cmp::min(i, *range.end()), *range.start());
-                value_vec.push(clamped.into());
+                if let Some(slot) = components.get_mut(component) {
+                    *slot = Some(clamped.into());
+                }
+                arg_pos += 1;
             } else {
                 return Err(self.error("malformed rgb() call, value wasn't an int"));
             }
         }
 
-        assert!(value_vec.len() >= 3); // Make sure we got 3+ values
+        let [Some(first), Some(second), Some(third), alpha] = components else {
+            return Err(self.error("malformed rgb() call, missing a color component"));
+        };
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-            ColorSpace::Rgb => Rgb::new(value_vec[0], value_vec[1], value_vec[2]),
-            ColorSpace::Hsv => {
-                Hsv::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hsl => {
-                Hsl::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hcy => Lch::new(value_vec[2], value_vec[1], value_vec[0]).into(),
+            ColorSpace::Rgb => Rgb::new(first, second, third),
+            ColorSpace::Hsv => Hsv::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hsl => Hsl::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hcy => Lch::new(third, second, first).into(),
         };
 
         // Extract the raw 4th alpha positional argument if it wasn't a kwarg
-        let alpha = color_args.a.or_else(|| value_vec.get(3).map(|&x| x as i32));
+        let alpha = color_args.a.or(alpha.map(|x| x as i32));
 
         // APPARENTLY the author thinks fractional rgb is a thing, hence the rounding
         if let Some(alpha) = alpha {
-- 
2.43.0


From 311fcbfb040ce4694237ca3cb266cc49a307bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 06/88] fix: a typed null equals any other null in constant
 expressions

---
 crates/dreammaker/src/constants.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 2b29b3d..b9a23cc 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -770,7 +770,7 @@ impl<'a> ConstantFolder<'a> {
     }
 
     fn binary(&mut self, lhs: Constant, rhs: Constant, op: BinaryOp) -> Result<Constant, DMError> {
-        use self::Constant::{Float, String};
+        use self::Constant::{Float, Null, String};
 
         match (op, lhs, rhs) {
             (BinaryOp::Add, Float(lhs), Float(rhs)) => Ok(Constant::from(lhs + rhs)),
@@ -814,6 +814,9 @@ impl<'a> ConstantFolder<'a> {
             (BinaryOp::Add, String(lhs), String(rhs)) => {
                 Ok(String((lhs.into_owned() + &rhs).into()))
             },
+            // The type hint of a null plays no part in comparisons.
+            (BinaryOp::Eq, Null(_), Null(_)) => Ok(Constant::from(true)),
+            (BinaryOp::NotEq, Null(_), Null(_)) => Ok(Constant::from(false)),
             (BinaryOp::Eq, lhs, rhs) => Ok(Constant::from(lhs == rhs)),
             (BinaryOp::NotEq, lhs, rhs) => Ok(Constant::from(lhs != rhs)),
             (BinaryOp::And, lhs, rhs) => Ok(if lhs.to_bool() { rhs } else { lhs }),
-- 
2.43.0


From 64979cd3affe63ac2664c31531971026eb04ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 07/88] fix: a constant that fails to evaluate is not a
 circular reference

---
 crates/dreammaker/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index b9a23cc..b79fb71 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -596,11 +596,12 @@ fn constant_ident_lookup(
         } else {
             Some(&type_hint)
         },
-    )?;
+    );
     // and store it into 'value', then return it
     let var = tree[ty].vars.get_mut(ident).unwrap();
-    var.value.constant = Some(value.clone());
     var.value.being_evaluated = false;
+    let value = value?;
+    var.value.constant = Some(value.clone());
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
-- 
2.43.0


From 7e3be6d0e21fa5a3e2c426b15facd0aaafb258fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 08/88] fix: whether a non-const variable is constant does not
 depend on declaration order

---
 crates/dreammaker/src/constants.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index b79fb71..33f7489 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -546,6 +546,12 @@ fn constant_ident_lookup(
         match type_.vars.get_mut(ident) {
             None => return Ok(ConstLookup::Continue(parent)),
             Some(var) => match var.value.constant.clone() {
+                Some(_) if !decl.var_type.flags.is_const() && must_be_const => {
+                    return Err(DMError::new(
+                        var.value.location,
+                        format!("non-const variable: {ident}"),
+                    ));
+                },
                 Some(constant) => {
                     return Ok(ConstLookup::Found(
                         /*decl.var_type.type_path,*/ constant,
@@ -572,6 +578,12 @@ fn constant_ident_lookup(
                         var.value.being_evaluated = true;
                         (var.value.location, decl.var_type.type_path, expr)
                     },
+                    None if !decl.var_type.flags.is_const() && must_be_const => {
+                        return Err(DMError::new(
+                            var.value.location,
+                            format!("non-const variable: {ident}"),
+                        ));
+                    },
                     None => {
                         let c = Constant::Null(Some(decl.var_type.type_path.clone()));
                         var.value.constant = Some(c.clone());
-- 
2.43.0


From bf737d00ada9970c177ddaeeeff78c42c3cf9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 09/88] fix: a circular parent_type is an error instead of a
 hang

---
 crates/dreammaker/src/objtree.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..3925d8f 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1012,6 +1012,33 @@ impl ObjectTreeBuilder {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
+
+        // No type may be its own ancestor.
+        let indices: Vec<NodeIndex> = self.inner.types.values().copied().collect();
+        for type_idx in indices {
+            let mut current = self.inner[type_idx].parent_type;
+            // Bounded because there may be a cycle further up which excludes this type.
+            for _ in 0..self.inner.graph.len() {
+                if current == type_idx {
+                    let ty = &self.inner[type_idx];
+                    let location = match ty.vars.get("parent_type") {
+                        Some(var) => var.value.location,
+                        None => ty.location,
+                    };
+                    context.register_error(DMError::new(
+                        location,
+                        format!("circular parent type for {}", ty.path),
+                    ));
+                    // on bad parent_type, fall back to the root
+                    self.inner.graph[type_idx.index()].parent_type = NodeIndex::new(0);
+                    break;
+                }
+                match self.inner[current].parent_type_index() {
+                    Some(next) => current = next,
+                    None => break,
+                }
+            }
+        }
     }
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From 34c92d30bf167de2610ba459a956e73d907ac619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 10/88] fix: a declaration on the last line is located on that
 line

---
 crates/dreammaker/src/indents.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..7331f27 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -218,10 +218,10 @@ where
             } else if self.eof_yielded {
                 return None;
             } else {
-                self.push(Token::Punct(Punctuation::Semicolon));
+                self.push_semicolon();
                 if let Some((_, indents)) = self.current {
                     for _ in 0..indents {
-                        self.push(Token::Punct(Punctuation::RBrace));
+                        self.push_eol(Token::Punct(Punctuation::RBrace));
                     }
                 }
                 self.current = None;
-- 
2.43.0


From 9e19bcd9c3d0d5fdafc7647cdc1c2b5bcf2d017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 11/88] fix: print strings with escaped quotes as plain string
 literals

---
 crates/dreammaker/src/lexer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..98b44a5 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,9 +362,18 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") {
+        // Escapes are kept as written, so `\"` may appear in a plain string.
+        let (mut quote, mut long_end, mut backslash) = (false, false, false);
+        for (i, ch) in s.bytes().enumerate() {
+            if ch == b'"' && !backslash {
+                quote = true;
+                long_end |= s[i + 1..].starts_with('}');
+            }
+            backslash = ch == b'\\' && !backslash;
+        }
+        if long_end {
             write!(f, "@@{s}@")
-        } else if s.contains('"') || s.contains('\n') {
+        } else if quote || s.contains('\n') {
             write!(f, "{{\"{s}\"}}")
         } else {
             write!(f, "\"{s}\"")
-- 
2.43.0


From 195c30e4be2948cff55cb18073de2d239421559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 12/88] fix: read escapes, long strings and comments in map
 variable values correctly

---
 crates/dmm-tools/src/dmm/read.rs | 60 +++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..8a41d1d 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -25,7 +25,16 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_key = 0;
     let mut curr_key_length = 0;
 
-    let mut in_quote_block = false;
+    #[derive(Clone, Copy, PartialEq)]
+    enum Quote {
+        None,
+        String,     // "..."
+        LongString, // {"..."}
+        Resource,   // '...'
+    }
+
+    let mut quote = Quote::None;
+    let mut long_string_closing = false;
     let mut in_key_block = false;
     let mut in_data_block = false;
     let mut in_varedit_block = false;
@@ -65,19 +74,23 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     while let Some(ch) = chars.next() {
         // Readability, simple elif chain isn't duplicate code
         #[allow(clippy::if_same_then_else)]
-        if ch == b'\n' || ch == b'\r' {
+        if (ch == b'\n' || ch == b'\r') && quote != Quote::LongString && !escaping {
             in_comment_line = false;
             comment_trigger = false;
             continue;
         } else if in_comment_line {
             continue;
-        } else if ch == b'\t' {
+        } else if ch == b'\t' && quote == Quote::None {
             continue;
         }
 
-        if ch == b'/' && !in_quote_block {
+        if ch == b'/' && quote == Quote::None {
             if comment_trigger {
                 in_comment_line = true;
+                // drop the first slash as well
+                if in_data_block {
+                    curr_datum.pop();
+                }
                 continue;
             } else {
                 comment_trigger = true;
@@ -88,25 +101,25 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
         if in_data_block {
             if in_varedit_block {
-                if in_quote_block {
-                    if ch == b'\\' {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
+                if quote != Quote::None {
+                    set_curr_datum_start_location!();
+                    curr_datum.push(ch);
+                    let closing = take(&mut long_string_closing);
+                    if escaping {
                         escaping = false;
-                    } else if ch == b'"' {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        in_quote_block = false;
+                    } else if ch == b'\\' {
+                        escaping = true;
                     } else {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
+                        match quote {
+                            Quote::String if ch == b'"' => quote = Quote::None,
+                            Quote::Resource if ch == b'\'' => quote = Quote::None,
+                            Quote::LongString if ch == b'}' && closing => quote = Quote::None,
+                            Quote::LongString => long_string_closing = ch == b'"',
+                            _ => {},
+                        }
                     }
                 } else {
-                    // in_quote_block
+                    // quote == None
                     if skip_whitespace && ch == b' ' {
                         skip_whitespace = false;
                         continue;
@@ -115,8 +128,15 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
                     if ch == b'"' {
                         set_curr_datum_start_location!();
+                        quote = match curr_datum.last() {
+                            Some(b'{') => Quote::LongString,
+                            _ => Quote::String,
+                        };
+                        curr_datum.push(ch);
+                    } else if ch == b'\'' {
+                        set_curr_datum_start_location!();
+                        quote = Quote::Resource;
                         curr_datum.push(ch);
-                        in_quote_block = true;
                     } else if ch == b'=' && curr_var.is_empty() {
                         curr_var = take(&mut curr_datum);
                         let mut length = curr_var.len();
-- 
2.43.0


From e8089b6656e7006f9a2886b1a4976b41d1168b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 13/88] fix: a malformed or truncated map is an error instead
 of a panic or lost tiles

---
 crates/dmm-tools/src/dmm/read.rs | 72 +++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 8a41d1d..a53c1da 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -184,7 +184,11 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if curr_key_length == 0
+                    || (map.key_length != 0 && map.key_length != curr_key_length)
+                {
+                    return Err(DMError::new(chars.location(), "bad map key length"));
+                }
                 map.key_length = curr_key_length;
             } else {
                 if curr_key == 0 {
@@ -192,6 +196,9 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
                 curr_key_length += 1;
+                if curr_key_length > super::MAX_KEY_LENGTH {
+                    return Err(DMError::new(chars.location(), "bad map key length"));
+                }
             }
         } else if ch == b'"' {
             in_key_block = true;
@@ -201,6 +208,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 curr_key = 0;
                 curr_key_length = 0;
                 break; // go to grid parsing
+            } else if curr_key_length == 0 {
+                return Err(DMError::new(chars.location(), "map data without a key"));
             } else {
                 in_data_block = true;
                 after_data_block = false;
@@ -208,6 +217,10 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         }
     }
 
+    if !after_data_block {
+        return Err(DMError::new(chars.location(), "unexpected end of map"));
+    }
+
     // grid
     #[derive(PartialEq, Debug)]
     enum Coord {
@@ -223,6 +236,9 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_num = 0;
     let mut base_x = 0;
 
+    // Larger than anything BYOND can handle.
+    const MAX_COORDINATE: usize = 0xffff;
+
     let mut in_coord_block = true;
     let mut in_map_string = false;
     let mut adjust_y = true;
@@ -246,14 +262,27 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
                 max_z = max(max_z, curr_z);
+                if curr_x == 0 || curr_y == 0 || curr_z == 0 {
+                    return Err(DMError::new(chars.location(), "map coordinates start at 1"));
+                }
                 in_coord_block = false;
                 reading_coord = Coord::X;
             } else {
                 match (ch as char).to_digit(10) {
-                    Some(x) => curr_num = 10 * curr_num + x as usize,
+                    Some(x) => {
+                        curr_num = 10 * curr_num + x as usize;
+                        if curr_num > MAX_COORDINATE {
+                            return Err(DMError::new(chars.location(), "map coordinate too large"));
+                        }
+                    },
                     None => {
                         return Err(DMError::new(
                             chars.location(),
@@ -266,7 +295,6 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
-                curr_y -= 1;
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
@@ -282,6 +310,12 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 if curr_key_length == map.key_length {
                     let key = take(&mut curr_key);
                     curr_key_length = 0;
+                    if !map.dictionary.contains_key(&Key(key)) {
+                        return Err(DMError::new(
+                            chars.location(),
+                            format!("undefined key \"{}\"", map.format_key(Key(key))),
+                        ));
+                    }
                     if grid.insert((curr_x, curr_y, curr_z), Key(key)).is_some() {
                         return Err(DMError::new(
                             chars.location(),
@@ -289,6 +323,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         ));
                     }
                     max_x = max(max_x, curr_x);
+                    max_y = max(max_y, curr_y);
                     curr_x += 1;
                 }
             }
@@ -298,22 +333,27 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             in_map_string = true;
         }
     }
-    max_y = max(max_y, curr_y);
 
-    let mut result = Ok(());
+    if in_coord_block || in_map_string || curr_key_length != 0 {
+        return Err(DMError::new(chars.location(), "unexpected end of map"));
+    }
+
+    // Before allocating the grid, check that there are as many tiles as it needs.
+    let missing = (1..=max_z)
+        .flat_map(|z| (1..=max_y).flat_map(move |y| (1..=max_x).map(move |x| (x, y, z))))
+        .find(|coord| !grid.contains_key(coord));
+    if let Some((x, y, z)) = missing {
+        return Err(DMError::new(
+            chars.location(),
+            format!("no value for tile ({x}, {y}, {z})"),
+        ));
+    }
+
     map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
-            tile
-        } else {
-            result = Err(DMError::new(
-                chars.location(),
-                format!("no value for tile ({}, {}, {})", x + 1, y + 1, z + 1),
-            ));
-            Key(0)
-        }
+        grid[&(x + 1, y + 1, z + 1)]
     });
 
-    result
+    Ok(())
 }
 
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
-- 
2.43.0


From 3ebfeea3c1a4a44c04545c8db2e2367da8ffacf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 14/88] fix: ignore spaces around object paths and variable
 names in maps

---
 crates/dmm-tools/src/dmm/read.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a53c1da..bc6264f 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -138,12 +138,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         quote = Quote::Resource;
                         curr_datum.push(ch);
                     } else if ch == b'=' && curr_var.is_empty() {
-                        curr_var = take(&mut curr_datum);
-                        let mut length = curr_var.len();
-                        while length > 0 && (curr_var[length - 1] as char).is_whitespace() {
-                            length -= 1;
-                        }
-                        curr_var.truncate(length);
+                        curr_var = take(&mut curr_datum).trim_ascii().to_vec();
                         skip_whitespace = true;
                     } else if ch == b';' {
                         insert_current_var!();
@@ -159,16 +154,18 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     }
                 }
             } else if ch == b'{' {
-                curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum).trim_ascii().to_vec());
                 in_varedit_block = true;
             } else if ch == b',' {
                 if curr_prefab.path.is_empty() && !curr_datum.is_empty() {
-                    curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                    curr_prefab.path =
+                        from_utf8_or_latin1(take(&mut curr_datum).trim_ascii().to_vec());
                 }
                 curr_data.push(take(&mut curr_prefab));
             } else if ch == b')' {
                 if curr_prefab.path.is_empty() && !curr_datum.is_empty() {
-                    curr_prefab.path = from_utf8_or_latin1(take(&mut curr_datum));
+                    curr_prefab.path =
+                        from_utf8_or_latin1(take(&mut curr_datum).trim_ascii().to_vec());
                 }
                 curr_data.push(take(&mut curr_prefab));
                 let key = take(&mut curr_key);
-- 
2.43.0


From 14cf0ece1c09bb9079e3aa6f628cc8cb7f13608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 15/88] fix: report malformed DMI metadata as an error instead
 of panicking

---
 crates/dreammaker/src/dmi.rs | 78 ++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..26acc39 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -435,17 +435,25 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
         if line.starts_with("# END DMI") {
             break;
         }
-        let (key, value) = line.trim().split_once(" = ").unwrap();
+        let (key, value) = line
+            .trim()
+            .split_once(" = ")
+            .ok_or_else(|| invalid_line(line))?;
         match key {
-            "width" => metadata.width = value.parse().unwrap(),
-            "height" => metadata.height = value.parse().unwrap(),
+            "width" => metadata.width = parse_size(line, value)?,
+            "height" => metadata.height = parse_size(line, value)?,
             "state" => {
                 if let Some(state) = state.take() {
-                    frames_so_far += state.frames.count() * state.dirs.count();
+                    frames_so_far += state.num_sprites();
                     metadata.states.push(state);
                 }
-                let unquoted = value[1..value.len() - 1].to_owned(); // TODO: unquote
-                assert!(!unquoted.contains('\\') && !unquoted.contains('"'));
+                // TODO: unquote
+                let unquoted = value
+                    .strip_prefix('"')
+                    .and_then(|value| value.strip_suffix('"'))
+                    .filter(|value| !value.contains(['\\', '"']))
+                    .ok_or_else(|| invalid_line(line))?
+                    .to_owned();
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
@@ -473,30 +481,31 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 *count += 1;
             },
             "dirs" => {
-                let state = state.as_mut().unwrap();
-                let n: u8 = value.parse().unwrap();
+                let state = state.as_mut().ok_or_else(|| invalid_line(line))?;
+                let n: u8 = parse_value(line, value)?;
                 state.dirs = match n {
                     1 => Dirs::One,
                     4 => Dirs::Four,
                     8 => Dirs::Eight,
-                    _ => panic!(),
+                    _ => return Err(invalid_line(line)),
                 };
             },
             "frames" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(|| invalid_line(line))?;
                 match state.frames {
                     Frames::One => {},
-                    _ => panic!(),
+                    _ => return Err(invalid_line(line)),
                 }
-                state.frames = Frames::Count(value.parse().unwrap());
+                // Far above any real sheet, keeps sprite indices well within u32.
+                let n: u16 = parse_value(line, value)?;
+                state.frames = Frames::Count(n.into());
             },
             "delay" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(|| invalid_line(line))?;
                 let mut vector: Vec<f32> = value
                     .split(',')
-                    .map(str::parse)
-                    .collect::<Result<Vec<_>, _>>()
-                    .unwrap();
+                    .map(|value| parse_value(line, value))
+                    .collect::<io::Result<_>>()?;
                 match state.frames {
                     Frames::One => {
                         if vector.iter().all(|&n| n == 1.) {
@@ -511,14 +520,22 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                             state.frames = Frames::Delays(vector);
                         }
                     },
-                    Frames::Delays(_) => panic!(),
+                    Frames::Delays(_) => return Err(invalid_line(line)),
                 }
             },
-            "loop" => state.as_mut().unwrap().loop_ = value.parse().unwrap(),
-            "rewind" => state.as_mut().unwrap().rewind = value.parse::<u8>().unwrap() != 0,
+            "loop" => {
+                state.as_mut().ok_or_else(|| invalid_line(line))?.loop_ = parse_value(line, value)?
+            },
+            "rewind" => {
+                state.as_mut().ok_or_else(|| invalid_line(line))?.rewind =
+                    parse_value::<u8>(line, value)? != 0
+            },
             "hotspot" => { /* TODO */ },
-            "movement" => state.as_mut().unwrap().movement = value.parse::<u8>().unwrap() != 0,
-            _ => panic!(),
+            "movement" => {
+                state.as_mut().ok_or_else(|| invalid_line(line))?.movement =
+                    parse_value::<u8>(line, value)? != 0
+            },
+            _ => return Err(invalid_line(line)),
         }
     }
     metadata.states.extend(state);
@@ -526,6 +543,25 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
     Ok(metadata)
 }
 
+fn invalid_line(line: &str) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::InvalidData,
+        format!("Invalid line in dmi metadata: {line:?}"),
+    )
+}
+
+fn parse_value<T: std::str::FromStr>(line: &str, value: &str) -> io::Result<T> {
+    value.parse().map_err(|_| invalid_line(line))
+}
+
+/// Parse the width or height of an icon, which must not be zero.
+fn parse_size(line: &str, value: &str) -> io::Result<u32> {
+    match parse_value(line, value)? {
+        0 => Err(invalid_line(line)),
+        size => Ok(size),
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 33e667086cfe6404f37d5b1d08bd23707f0f2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 16/88] fix: keep the frame count of DMI states whose delay
 list is too short

---
 crates/dreammaker/src/dmi.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index 26acc39..8586936 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -515,7 +515,9 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                         }
                     },
                     Frames::Count(n) => {
-                        vector.truncate(n);
+                        // The sheet has as many sprites as the frames key says,
+                        // so the list may need to be shortened or extended.
+                        vector.resize(n, 1.);
                         if !vector.iter().all(|&n| n == 1.) {
                             state.frames = Frames::Delays(vector);
                         }
-- 
2.43.0


From 75d9d4951fb2b3fd0f44e3fd72966f6e50768928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 17/88] fix: weight colours exactly when compositing
 translucent pixels

---
 crates/dmm-tools/src/dmi.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..fcc0c03 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -212,19 +212,22 @@ impl Image {
 
                 // out_A = src_A + dst_A (1 - src_A)
                 // out_RGB = (src_RGB src_A + dst_RGB dst_A (1 - src_A)) / out_A
-                let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);
-                if out_a != 0 {
+                // The weights are scaled by 255 so that nothing is rounded
+                // before the final division.
+                let src_w = src_tint.a as u32 * 255;
+                let dst_w = dst.a as u32 * (255 - src_tint.a as u32);
+                let out_w = src_w + dst_w;
+                if out_w != 0 {
                     for i in 0..3 {
-                        dst[i] = ((src_tint[i] as u32 * src_tint.a as u32
-                            + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32) / 255)
-                            / out_a as u32) as u8;
+                        dst[i] =
+                            ((src_tint[i] as u32 * src_w + dst[i] as u32 * dst_w) / out_w) as u8;
                     }
                 } else {
                     for i in 0..3 {
                         dst[i] = 0;
                     }
                 }
-                dst.a = out_a;
+                dst.a = (out_w / 255) as u8;
             }
         }
     }
-- 
2.43.0


From e263ab46e5d17e2a9aaf2e35c95815a08a14281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 18/88] fix: keep layers ordered when converting them from
 floats

---
 crates/dmm-tools/src/minimap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 947c542..1349e7f 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -461,7 +461,7 @@ impl From<f32> for Layer {
     fn from(f: f32) -> Layer {
         Layer {
             whole: f.floor() as i16,
-            frac: ((f.fract() + 1.).fract() * 65536.) as u16,
+            frac: ((f - f.floor()) * 65536.) as u16,
         }
     }
 }
-- 
2.43.0


From 35212363002fd439db2df6332a585f2989e6bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:57 +0000
Subject: [PATCH 19/88] fix: treat icon states outside of their sheet as
 missing

---
 crates/dmm-tools/src/dmi.rs  | 5 ++++-
 crates/dreammaker/src/dmi.rs | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index fcc0c03..05343b9 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -47,7 +47,10 @@ impl IconFile {
 
     #[inline]
     pub fn rect_of(&self, icon_state: &StateIndex, dir: Dir) -> Option<Rect> {
-        self.metadata.rect_of(self.image.width, icon_state, dir, 0)
+        self.metadata
+            .rect_of(self.image.width, icon_state, dir, 0)
+            // The metadata might promise more sprites than the sheet holds.
+            .filter(|&(x, y, w, h)| x + w <= self.image.width && y + h <= self.image.height)
     }
 
     pub fn rect_of_index(&self, icon_index: u32) -> Rect {
diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index 8586936..18bda6d 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -317,6 +317,9 @@ impl Metadata {
         let icon_index = state.index_of_frame(dir, frame);
 
         let icon_count = bitmap_width / self.width;
+        if icon_count == 0 {
+            return None;
+        }
         let (icon_x, icon_y) = (icon_index % icon_count, icon_index / icon_count);
         Some((
             icon_x * self.width,
-- 
2.43.0


From 4128f880b4acf90a51276fa43cd2558714697004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 20/88] fix: rotate southwest clockwise to northwest

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index 18bda6d..27f8b64 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -172,7 +172,7 @@ impl Dir {
             Dir::Northeast => Dir::Southeast,
             Dir::Northwest => Dir::Northeast,
             Dir::Southeast => Dir::Southwest,
-            Dir::Southwest => Dir::Northeast,
+            Dir::Southwest => Dir::Northwest,
         }
     }
 
-- 
2.43.0


From 4ed7c0d0fad9a8c68a26fa43f3a04388c797d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 21/88] fix: render maps of codebases lacking types the render
 passes refer to

---
 .../src/render_passes/icon_smoothing.rs       | 14 ++++++--------
 .../src/render_passes/icon_smoothing_2020.rs  | 14 ++++++--------
 .../src/render_passes/icon_smoothing_2025.rs  | 14 ++++++--------
 crates/dmm-tools/src/render_passes/mod.rs     | 19 +++++++++++--------
 .../dmm-tools/src/render_passes/structures.rs | 13 ++++++++-----
 5 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing.rs b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
index 3c92ae2..0c00897 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
@@ -239,10 +239,9 @@ fn diagonal_smooth<'a>(
             .index(&Constant::string("space"))
             .is_some()
         {
-            output.push(Sprite::from_vars(
-                objtree,
-                &objtree.expect("/turf/open/space/basic"),
-            ));
+            if let Some(ty) = objtree.find("/turf/open/space/basic") {
+                output.push(Sprite::from_vars(objtree, &ty));
+            }
         } else {
             let dir = reverse_ndir(adjacencies).flip();
             let mut needs_plating = true;
@@ -258,10 +257,9 @@ fn diagonal_smooth<'a>(
                 }
             }
             if needs_plating {
-                output.push(Sprite::from_vars(
-                    objtree,
-                    &objtree.expect("/turf/open/floor/plating"),
-                ));
+                if let Some(ty) = objtree.find("/turf/open/floor/plating") {
+                    output.push(Sprite::from_vars(objtree, &ty));
+                }
             }
         }
     }
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
index aff702f..56575a5 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
@@ -307,10 +307,9 @@ fn diagonal_underlay<'a>(
         .index(&Constant::string("space"))
         .is_some()
     {
-        output.push(Sprite::from_vars(
-            objtree,
-            &objtree.expect("/turf/open/space/basic"),
-        ));
+        if let Some(ty) = objtree.find("/turf/open/space/basic") {
+            output.push(Sprite::from_vars(objtree, &ty));
+        }
     } else if let Some(dir) = reverse_ndir(adjacencies) {
         let dir = dir.flip();
         let mut needs_plating = true;
@@ -326,10 +325,9 @@ fn diagonal_underlay<'a>(
             }
         }
         if needs_plating {
-            output.push(Sprite::from_vars(
-                objtree,
-                &objtree.expect("/turf/open/floor/plating"),
-            ));
+            if let Some(ty) = objtree.find("/turf/open/floor/plating") {
+                output.push(Sprite::from_vars(objtree, &ty));
+            }
         }
     }
 }
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
index bcdcaba..2934079 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
@@ -184,10 +184,9 @@ fn diagonal_underlay<'a>(
         .index(&Constant::string("space"))
         .is_some()
     {
-        output.push(Sprite::from_vars(
-            objtree,
-            &objtree.expect("/turf/open/space/basic"),
-        ));
+        if let Some(ty) = objtree.find("/turf/open/space/basic") {
+            output.push(Sprite::from_vars(objtree, &ty));
+        }
     } else if let Some(dir) = reverse_ndir(adjacencies) {
         let dir = dir.flip();
         let mut needs_plating = true;
@@ -203,10 +202,9 @@ fn diagonal_underlay<'a>(
             }
         }
         if needs_plating {
-            output.push(Sprite::from_vars(
-                objtree,
-                &objtree.expect("/turf/open/floor/plating"),
-            ));
+            if let Some(ty) = objtree.find("/turf/open/floor/plating") {
+                output.push(Sprite::from_vars(objtree, &ty));
+            }
         }
     }
 }
diff --git a/crates/dmm-tools/src/render_passes/mod.rs b/crates/dmm-tools/src/render_passes/mod.rs
index e1f3a49..d8f34e8 100644
--- a/crates/dmm-tools/src/render_passes/mod.rs
+++ b/crates/dmm-tools/src/render_passes/mod.rs
@@ -265,7 +265,9 @@ impl RenderPass for HideSpace {
         output: &mut Vec<Atom<'a>>,
     ) -> bool {
         if atom.istype("/turf/template_noop/") {
-            output.push(Atom::from(objtree.expect("/turf/open/space")));
+            if let Some(space) = objtree.find("/turf/open/space") {
+                output.push(Atom::from(space));
+            }
             false
         } else {
             true
@@ -497,13 +499,14 @@ impl RenderPass for Overlays {
             }
 
             // APC terminals
-            let mut terminal =
-                Sprite::from_vars(objtree, &objtree.expect("/obj/machinery/power/terminal"));
-            terminal.dir = atom.sprite.dir;
-            // TODO: un-hack this
-            FancyLayers::default()
-                .apply_fancy_layer("/obj/machinery/power/terminal", &mut terminal);
-            underlays.push(terminal);
+            if let Some(ty) = objtree.find("/obj/machinery/power/terminal") {
+                let mut terminal = Sprite::from_vars(objtree, &ty);
+                terminal.dir = atom.sprite.dir;
+                // TODO: un-hack this
+                FancyLayers::default()
+                    .apply_fancy_layer("/obj/machinery/power/terminal", &mut terminal);
+                underlays.push(terminal);
+            }
         }
     }
 }
diff --git a/crates/dmm-tools/src/render_passes/structures.rs b/crates/dmm-tools/src/render_passes/structures.rs
index 92648a5..bb01daf 100644
--- a/crates/dmm-tools/src/render_passes/structures.rs
+++ b/crates/dmm-tools/src/render_passes/structures.rs
@@ -25,7 +25,9 @@ impl RenderPass for Spawners {
                         },
                         _ => continue,
                     };
-                    output.push(Atom::from(objtree.expect(reference)));
+                    if let Some(ty) = objtree.find(reference) {
+                        output.push(Atom::from(ty));
+                    }
                 }
                 false // don't include the original atom
             },
@@ -49,6 +51,10 @@ impl RenderPass for GravityGen {
             return;
         }
 
+        let Some(part) = objtree.find("/obj/machinery/gravity_generator/part") else {
+            return;
+        };
+
         for &(count, icon_state, x, y) in &[
             (1, "on_1", 1, 2),
             (2, "on_2", 0, 2),
@@ -59,10 +65,7 @@ impl RenderPass for GravityGen {
             (7, "on_7", 1, 0),
             (9, "on_9", -1, 0),
         ] {
-            let mut sprite = Sprite::from_vars(
-                objtree,
-                &objtree.expect("/obj/machinery/gravity_generator/part"),
-            );
+            let mut sprite = Sprite::from_vars(objtree, &part);
             sprite.ofs_x += 32 * x;
             sprite.ofs_y += 32 * y;
             sprite.icon_state = icon_state;
-- 
2.43.0


From e8a66f900b57917dccbd2e650070b5ea4ec9e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 22/88] fix: do not panic on loot lists whose weights sum to
 zero

---
 crates/dmm-tools/src/render_passes/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/render_passes/random.rs b/crates/dmm-tools/src/render_passes/random.rs
index 85afecc..a9a8793 100644
--- a/crates/dmm-tools/src/render_passes/random.rs
+++ b/crates/dmm-tools/src/render_passes/random.rs
@@ -214,7 +214,7 @@ fn pickweight<'a>(list: &[&'a (Constant, Option<Constant>)]) -> &'a Constant {
                 .unwrap_or(1)
         })
         .sum();
-    total = rand::rng().random_range(1..=total);
+    total = rand::rng().random_range(1..=total.max(1));
     for (k, v) in list.iter() {
         total -= v
             .as_ref()
-- 
2.43.0


From 38baf2d9fda17e97cdf390be4a13fb5ea525eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 23/88] fix: let canSmoothWith name types by path in the 2016
 icon smoothing

---
 crates/dmm-tools/src/render_passes/icon_smoothing.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing.rs b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
index 0c00897..06e912e 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
@@ -157,12 +157,10 @@ fn find_type_in_direction(
 }
 
 fn smoothlist_contains(list: &[(Constant, Option<Constant>)], desired: &str) -> bool {
-    for (key, _) in list {
-        if key == desired {
-            return true;
-        }
-    }
-    false
+    list.iter().any(|(key, _)| match key {
+        Constant::Prefab(fab) => dm::ast::FormatTreePath(&fab.path).to_string() == desired,
+        _ => key == desired,
+    })
 }
 
 fn cardinal_smooth<'a>(
-- 
2.43.0


From 8ea77fa71a98eb118929f1d6301fbdf290667a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 24/88] fix: do not smooth unanchored objects with their
 neighbours

---
 crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs | 2 +-
 crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
index 56575a5..daba1e5 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
@@ -103,7 +103,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
index 2934079..21fd542 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
@@ -92,7 +92,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
-- 
2.43.0


From 48bab2f760e35fbf58d01c0146bc7b8bf4e608ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 25/88] fix: check every restricted proc for sleeping, on every
 receiver it calls

---
 crates/dreamchecker/src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..69cbf89 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -753,16 +753,13 @@ impl<'o> AnalyzeObjectTree<'o> {
             .iter_types()
             .flat_map(|type_ref: TypeRef| type_ref.iter_self_procs())
             .count();
-        let mut visited = HashSet::<ProcRef<'o>>::with_capacity(total_procs);
+        let mut visited = HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>::with_capacity(total_procs);
+        let mut reported = HashSet::<ProcRef<'o>>::new();
         let mut to_visit =
             VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>::new();
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
         must_not_sleep.sort_by_key(|(procref, _)| procref.get().location);
         for (procref, &(_, location)) in must_not_sleep {
-            if !visited.insert(*procref) {
-                continue;
-            }
-
             if let Some(sleepvec) = self.sleeping_procs.get_violators(*procref) {
                 error(
                     procref.get().location,
@@ -804,9 +801,6 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if new_context {
                     continue;
                 }
-                if !visited.insert(nextproc) {
-                    continue;
-                }
                 if self.waitfor_procs.contains(&nextproc) {
                     continue;
                 }
@@ -817,8 +811,21 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if self.must_not_sleep.directive.contains_key(&nextproc) {
                     continue;
                 }
+                // What a method calls depends on which receiver it runs on.
+                let receiver = if nextproc.ty().is_root() {
+                    self.objtree.root()
+                } else {
+                    receiver
+                };
+                if !visited.insert((nextproc, receiver, is_exact)) {
+                    continue;
+                }
 
                 if let Some(sleepvec) = self.sleeping_procs.get_violators(nextproc) {
+                    // Each blocking proc is only reported once.
+                    if !reported.insert(nextproc) {
+                        continue;
+                    }
                     let parent_proc_type_index = parent_proc.ty().index();
                     let next_proc_type_index = nextproc.ty().index();
 
@@ -891,6 +898,7 @@ impl<'o> AnalyzeObjectTree<'o> {
         }
 
         drop(visited);
+        drop(reported);
         drop(to_visit);
 
         let mut must_be_pure: Vec<_> = self.must_be_pure.directive.iter().collect();
-- 
2.43.0


From afde74a8ad7c1735bd2e588f59fdf08721d11cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 26/88] fix: resolve inherited calls on the receiver when
 checking for sleeping

---
 crates/dreamchecker/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 69cbf89..86c406e 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -884,11 +884,22 @@ impl<'o> AnalyzeObjectTree<'o> {
                         } else {
                             each.src
                         };
+                        // The receiver might override what the caller's type sees.
+                        let callee = if each.inherit_receiver
+                            && !each.is_exact
+                            && !each.proc.ty().is_root()
+                        {
+                            call_receiver
+                                .get_proc(each.proc.name())
+                                .unwrap_or(each.proc)
+                        } else {
+                            each.proc
+                        };
                         to_visit.push_back((
-                            each.proc,
+                            callee,
                             newstack,
                             each.new_context,
-                            each.proc,
+                            callee,
                             call_receiver,
                             each.is_exact,
                         ));
-- 
2.43.0


From e240b05a52f18466f163a452b95b84393ac2a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 27/88] fix: check the arguments of new with a type held in a
 variable

---
 crates/dreamchecker/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 86c406e..bd4fa0d 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2585,8 +2585,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { .. } => {
+            Term::NewMiniExpr { args, .. } => {
                 // TODO: evaluate
+                if let Some(args) = args {
+                    self.visit_arguments(location, args, local_vars);
+                }
                 Analysis::empty()
             },
 
-- 
2.43.0


From ba5c0b0f7ee38bdaf88a24816f2d9cbb752e40ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 28/88] fix: changing fields and elements of outside objects is
 impure

---
 crates/dreamchecker/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index bd4fa0d..b99e38e 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1473,7 +1473,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Analysis::from_static_type(self.objtree.expect("/callee")).into(),
         );
         if !self.ty.is_root() {
-            local_vars.insert("src".into(), Analysis::from_static_type(self.ty).into());
+            local_vars.insert(
+                "src".into(),
+                Analysis::from_static_type_impure(self.ty).into(),
+            );
         }
         local_vars.insert(
             "global".into(),
@@ -2816,6 +2819,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 match lhs.static_ty {
                     StaticType::List { keys, .. } => {
                         let mut res = Analysis::from(*keys);
+                        res.is_impure = lhs.is_impure;
                         if let Some((loc, _)) = lhs.fix_hint {
                             res.fix_hint =
                                 Some((loc, "add a type annotation after /list here".to_owned()))
@@ -2870,8 +2874,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
                         }
-                        self.static_type(location, &decl.var_type.type_path)
-                            .with_fix_hint(decl.location, "add additional type info here")
+                        let mut ana = self
+                            .static_type(location, &decl.var_type.type_path)
+                            .with_fix_hint(decl.location, "add additional type info here");
+                        ana.is_impure = lhs.is_impure;
+                        ana
                     } else {
                         error(location, format!("undefined field: {name:?} on {ty}"))
                             .register(self.context);
-- 
2.43.0


From 3567aa6f52d44d0940a4e2b724c301591e00e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 29/88] fix: report mistakes on the left of an output statement
 once

---
 crates/dreamchecker/src/lib.rs | 76 ++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b99e38e..3fdf1d7 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -885,16 +885,15 @@ impl<'o> AnalyzeObjectTree<'o> {
                             each.src
                         };
                         // The receiver might override what the caller's type sees.
-                        let callee = if each.inherit_receiver
-                            && !each.is_exact
-                            && !each.proc.ty().is_root()
-                        {
-                            call_receiver
-                                .get_proc(each.proc.name())
-                                .unwrap_or(each.proc)
-                        } else {
-                            each.proc
-                        };
+                        let callee =
+                            if each.inherit_receiver && !each.is_exact && !each.proc.ty().is_root()
+                            {
+                                call_receiver
+                                    .get_proc(each.proc.name())
+                                    .unwrap_or(each.proc)
+                            } else {
+                                each.proc
+                            };
                         to_visit.push_back((
                             callee,
                             newstack,
@@ -1685,7 +1684,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         lhs,
                         rhs,
                     } => {
-                        let lhsanalysis = self.visit_expression(location, lhs, None, local_vars);
+                        let lhsanalysis = self.visit_lshift(location, lhs, rhs, local_vars);
                         if let Some(impurity) = lhsanalysis.is_impure {
                             if impurity {
                                 self.env.impure_procs.insert_violator(
@@ -1695,6 +1694,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                 );
                             }
                         }
+                        return ControlFlow::allfalse();
                     },
                     _ => {},
                 }
@@ -2226,30 +2226,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 lhs,
                 rhs,
             } => {
-                let lty = self.visit_expression(location, lhs, None, local_vars);
-
-                if lty.static_ty == StaticType::Type(self.objtree.expect("/mob")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto mob",
-                        location,
-                    );
-                } else if lty.static_ty == StaticType::Type(self.objtree.expect("/savefile")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto savefile",
-                        location,
-                    );
-                } else if lty.static_ty == StaticType::Type(self.objtree.expect("/list")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto list",
-                        location,
-                    );
-                }
-
-                let rty = self.visit_expression(location, rhs, None, local_vars);
-                self.visit_binary(lty, rty, BinaryOp::LShift)
+                self.visit_lshift(location, lhs, rhs, local_vars);
+                Analysis::empty()
             },
             Expression::BinaryOp {
                 op: BinaryOp::In,
@@ -2389,6 +2367,34 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         }
     }
 
+    /// Visit both sides of a `<<`, returning the analysis of what is output to.
+    fn visit_lshift(
+        &mut self,
+        location: Location,
+        lhs: &'o Expression,
+        rhs: &'o Expression,
+        local_vars: &mut HashMap<Ident, LocalVar<'o>>,
+    ) -> Analysis<'o> {
+        let lty = self.visit_expression(location, lhs, None, local_vars);
+
+        if lty.static_ty == StaticType::Type(self.objtree.expect("/mob")) {
+            self.env
+                .impure_procs
+                .insert_violator(self.proc_ref, "LShift onto mob", location);
+        } else if lty.static_ty == StaticType::Type(self.objtree.expect("/savefile")) {
+            self.env
+                .impure_procs
+                .insert_violator(self.proc_ref, "LShift onto savefile", location);
+        } else if lty.static_ty == StaticType::Type(self.objtree.expect("/list")) {
+            self.env
+                .impure_procs
+                .insert_violator(self.proc_ref, "LShift onto list", location);
+        }
+
+        self.visit_expression(location, rhs, None, local_vars);
+        lty
+    }
+
     fn visit_term(
         &mut self,
         location: Location,
-- 
2.43.0


From 6e438b31491e2a31f3ac47eb59c1b4fca8999458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 30/88] fix: count or skip a range loop's body by the sign of
 its step

---
 crates/dreammaker/src/ast.rs | 39 +++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/crates/dreammaker/src/ast.rs b/crates/dreammaker/src/ast.rs
index 4f3422b..722cdc6 100644
--- a/crates/dreammaker/src/ast.rs
+++ b/crates/dreammaker/src/ast.rs
@@ -1016,6 +1016,26 @@ impl Expression {
         }
     }
 
+    /// If this expression is a number literal other than zero, return whether it is positive.
+    pub fn as_sign(&self) -> Option<bool> {
+        let Expression::Base { term, follow } = self else {
+            return None;
+        };
+        let positive = match term.elem {
+            Term::Int(i) if i != 0 => i > 0,
+            Term::Float(f) if f != 0.0 => f > 0.0,
+            _ => return None,
+        };
+        match &follow[..] {
+            [] => Some(positive),
+            [Spanned {
+                elem: Follow::Unary(UnaryOp::Neg),
+                ..
+            }] => Some(!positive),
+            _ => None,
+        }
+    }
+
     pub fn is_const_eval(&self) -> bool {
         match self {
             Expression::BinaryOp { op, lhs, rhs } => {
@@ -1248,23 +1268,14 @@ impl Term {
         }
     }
 
+    /// Whether a `for` loop from this to `other` runs at all, if that is known.
     pub fn valid_for_range(&self, other: &Term, step: Option<&Expression>) -> Option<bool> {
         if let Term::Int(i) = *self {
             if let Term::Int(o) = *other {
-                // edge case
-                if i == 0 && o == 0 {
-                    return Some(false);
-                }
-                if let Some(stepexp) = step {
-                    if let Some(stepterm) = stepexp.as_term() {
-                        if let Term::Int(_s) = stepterm {
-                            return Some(true);
-                        }
-                    } else {
-                        return Some(true);
-                    }
-                }
-                return Some(i <= o);
+                return match step {
+                    None => Some(i <= o),
+                    Some(step) => step.as_sign().map(|up| if up { i <= o } else { i >= o }),
+                };
             }
         }
         None
-- 
2.43.0


From 44b8fdbfd5217b6bb7d8cb47f087c5cdc855a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 31/88] fix: break, continue and goto keep code after a loop or
 label reachable

---
 crates/dreamchecker/src/lib.rs | 80 ++++++++++++++++++++++++----------
 1 file changed, 58 insertions(+), 22 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 3fdf1d7..a09b6ed 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1325,6 +1325,12 @@ pub struct ControlFlow {
     pub continues: bool,
     pub breaks: bool,
     pub fuzzy: bool,
+    /// The current loop may be continued somewhere within.
+    pub may_continue: bool,
+    /// The current loop may be left by a break somewhere within.
+    pub may_break: bool,
+    /// A labelled loop may be continued or left somewhere within.
+    pub may_jump: bool,
 }
 
 impl ControlFlow {
@@ -1333,7 +1339,7 @@ impl ControlFlow {
             returns: true,
             continues: true,
             breaks: true,
-            fuzzy: false,
+            ..ControlFlow::allfalse()
         }
     }
 
@@ -1343,6 +1349,9 @@ impl ControlFlow {
             continues: false,
             breaks: false,
             fuzzy: false,
+            may_continue: false,
+            may_break: false,
+            may_jump: false,
         }
     }
 
@@ -1376,6 +1385,7 @@ impl ControlFlow {
         if other.fuzzy {
             self.fuzzy = true;
         }
+        self.merge_jumps(&other);
     }
 
     pub fn merge_false(&mut self, other: ControlFlow) {
@@ -1391,6 +1401,14 @@ impl ControlFlow {
         if other.fuzzy {
             self.fuzzy = true;
         }
+        self.merge_jumps(&other);
+    }
+
+    /// Note the jumps within a block whose other effects are not followed.
+    pub fn merge_jumps(&mut self, other: &ControlFlow) {
+        self.may_continue |= other.may_continue;
+        self.may_break |= other.may_break;
+        self.may_jump |= other.may_jump;
     }
 
     pub fn finalize(&mut self) {
@@ -1404,6 +1422,8 @@ impl ControlFlow {
         self.continues = false;
         self.breaks = false;
         self.fuzzy = false;
+        self.may_continue = false;
+        self.may_break = false;
     }
 }
 
@@ -1590,12 +1610,22 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         mut setting_allowed: bool,
     ) -> ControlFlow {
         let mut term = ControlFlow::allfalse();
+        let mut unreachable = false;
         for stmt in block.iter() {
+            if let Statement::Label { .. } = &stmt.elem {
+                // It may be reached by a goto.
+                term.no_else();
+                unreachable = false;
+            }
+            if unreachable {
+                continue;
+            }
             if term.terminates() {
                 error(stmt.location, "possible unreachable code here")
                     .with_errortype("unreachable_code")
                     .register(self.context);
-                return term; // stop evaluating
+                unreachable = true; // stop evaluating
+                continue;
             }
             match &stmt.elem {
                 Statement::Setting { name, mode, value } => {
@@ -1711,17 +1741,13 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 local_vars.get_mut(".").unwrap().analysis = return_type;
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Return(None) => {
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Crash(expr) => {
@@ -1730,9 +1756,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 return ControlFlow {
                     returns: true,
-                    continues: false,
-                    breaks: false,
-                    fuzzy: false,
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Throw(expr) => {
@@ -1749,12 +1773,15 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Statement::DoWhile { block, condition } => {
                 let mut scoped_locals = local_vars.clone();
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
-                if state.terminates_loop() {
+                if state.terminates_loop() && !state.may_continue && !state.may_jump {
                     error(
                         location,
                         "do while terminates without ever reaching condition",
                     )
                     .register(self.context);
+                    if state.may_break {
+                        state.end_loop();
+                    }
                     return state;
                 }
                 self.visit_expression(
@@ -1937,7 +1964,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "for range loop body is never reached due to invalid range",
                                 )
                                 .register(self.context);
-                            } else {
+                            } else if !state.may_continue && !state.may_break && !state.may_jump {
                                 return state;
                             }
                         }
@@ -2038,7 +2065,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 catch_params,
                 catch_block,
             } => {
-                self.visit_block(try_block, &mut local_vars.clone(), false);
+                let mut jumps = ControlFlow::allfalse();
+                let state = self.visit_block(try_block, &mut local_vars.clone(), false);
+                jumps.merge_jumps(&state);
                 if catch_params.len() > 1 {
                     error(
                         location,
@@ -2063,27 +2092,34 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
                     self.visit_var(location, &var_type, var_name, None, &mut catch_locals);
                 }
-                self.visit_block(catch_block, &mut catch_locals, false);
+                let state = self.visit_block(catch_block, &mut catch_locals, false);
+                jumps.merge_jumps(&state);
+                return jumps;
             },
-            Statement::Continue(_) => {
+            Statement::Continue(label) => {
                 return ControlFlow {
-                    returns: false,
                     continues: true,
-                    breaks: false,
                     fuzzy: true,
+                    may_continue: label.is_none(),
+                    may_jump: label.is_some(),
+                    ..ControlFlow::allfalse()
                 };
             },
-            Statement::Break(_) => {
+            Statement::Break(label) => {
                 return ControlFlow {
-                    returns: false,
-                    continues: false,
                     breaks: true,
                     fuzzy: true,
+                    may_break: label.is_none(),
+                    may_jump: label.is_some(),
+                    ..ControlFlow::allfalse()
                 };
             },
             Statement::Goto(_) => {},
             Statement::Label { name: _, block } => {
-                self.visit_block(block, &mut local_vars.clone(), false);
+                let mut jumps = ControlFlow::allfalse();
+                let state = self.visit_block(block, &mut local_vars.clone(), false);
+                jumps.merge_jumps(&state);
+                return jumps;
             },
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None, local_vars);
-- 
2.43.0


From 4c16073402972848e7c5037572e60fd3ccfea093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:05 +0000
Subject: [PATCH 32/88] fix: report overriding a final proc even when the
 override is final itself

---
 crates/dreamchecker/src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index a09b6ed..f997c8a 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1540,17 +1540,15 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
             }
             if let Some((proc, true, location)) =
-                self.env.must_not_override.get_self_or_parent(self.proc_ref)
+                self.env.must_not_override.get_self_or_parent(parent)
             {
-                if proc != self.proc_ref {
-                    error(
-                        self.proc_ref.location,
-                        format!("proc overrides parent, prohibited by {proc}"),
-                    )
-                    .with_note(location, "prohibited by this must_not_override annotation")
-                    .with_errortype("must_not_override")
-                    .register(self.context);
-                }
+                error(
+                    self.proc_ref.location,
+                    format!("proc overrides parent, prohibited by {proc}"),
+                )
+                .with_note(location, "prohibited by this must_not_override annotation")
+                .with_errortype("must_not_override")
+                .register(self.context);
             }
             if self.calls_parent {
                 if !matches!(
-- 
2.43.0


From 8dd1d05b49efec3b51c8b4cbca064e7ae1b61e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 33/88] fix: check the arguments of a call to a private proc
 too

---
 crates/dreamchecker/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index f997c8a..6bdd48b 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2984,7 +2984,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         if let Some((privateproc, true, decllocation)) =
                             self.env.private.get_self_or_parent(proc)
                         {
-                            if ty != privateproc.ty() {
+                            // visit_call() below reports this for any other caller
+                            if ty != privateproc.ty() && self.ty == privateproc.ty() {
                                 error(
                                     location,
                                     format!(
@@ -2998,7 +2999,6 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "prohibited by this private_proc annotation",
                                 )
                                 .register(self.context);
-                                return Analysis::empty(); // dont double up with visit_call()
                             }
                         }
                         if let Some((protectedproc, true, decllocation)) =
-- 
2.43.0


From 9a00b7e1cda3c073dcdfb1ee5e22188eb693e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 34/88] fix: protected vars may be used from the type that
 declares them

---
 crates/dreamchecker/src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 6bdd48b..a2ce9c8 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1199,6 +1199,18 @@ impl<'o> AnalyzeObjectTree<'o> {
     }
 }
 
+/// The type up from `ty` whose declaration of the var `name` applies to it.
+fn var_declared_on<'o>(ty: TypeRef<'o>, name: &str) -> TypeRef<'o> {
+    let mut current = Some(ty);
+    while let Some(each) = current {
+        if each.vars.get(name).is_some_and(|v| v.declaration.is_some()) {
+            return each;
+        }
+        current = each.parent_type();
+    }
+    ty
+}
+
 fn static_type<'o>(
     objtree: &'o ObjectTree,
     location: Location,
@@ -2902,8 +2914,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .set_severity(Severity::Warning)
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
-                        } else if !self.ty.is_subtype_of(ty.get())
-                            && decl.var_type.flags.is_protected()
+                        } else if decl.var_type.flags.is_protected()
+                            && !self.ty.is_subtype_of(var_declared_on(ty, name).get())
                         {
                             error(
                                 location,
-- 
2.43.0


From 5e795896757b471c45dbfd4310df7555225be8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 35/88] fix: no overflow on a case ending at the largest
 integer in switch(rand())

---
 crates/dreamchecker/src/switch_rand_range.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 770b3b8..39e3d36 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -45,16 +45,16 @@ pub fn check_switch_rand_range(
     }
 
     case_ranges.sort_by_key(|a| a.0);
-    let mut first_uncovered = rand_start;
-    for (start, end) in case_ranges.iter() {
-        if *start > first_uncovered {
+    let mut first_uncovered = i64::from(rand_start);
+    for &(start, end) in case_ranges.iter() {
+        if i64::from(start) > first_uncovered {
             break;
         } else {
-            first_uncovered = std::cmp::max(first_uncovered, end + 1);
+            first_uncovered = std::cmp::max(first_uncovered, i64::from(end) + 1);
         }
     }
 
-    if first_uncovered <= rand_end {
+    if first_uncovered <= i64::from(rand_end) {
         DMError::new(
             location,
             format!(
-- 
2.43.0


From 3001748c30fb8f73d7307119dab44dc88d5a20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 36/88] fix: no claims about gaps in switch(rand()) when a case
 is not a constant

---
 crates/dreamchecker/src/switch_rand_range.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 39e3d36..8803b72 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -21,6 +21,7 @@ pub fn check_switch_rand_range(
     };
 
     let mut case_ranges = Vec::with_capacity(cases.len());
+    let mut all_known = true;
     for case_block in cases.iter() {
         let location = case_block.0.location;
         for case in case_block.0.elem.iter() {
@@ -35,12 +36,15 @@ pub fn check_switch_rand_range(
                         .set_severity(Severity::Warning)
                         .register(context);
                 }
+            } else {
+                all_known = false;
             }
         }
     }
 
-    if default.is_some() {
-        // covers the whole range directly so no need to check for gaps
+    if default.is_some() || !all_known {
+        // covers the whole range directly so no need to check for gaps,
+        // or there's no telling which values are covered
         return;
     }
 
-- 
2.43.0


From 9e9720f0f7b7031bdb018cd5c2b0ba8e40afde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 37/88] fix: a global proc is not the parent of a type's proc
 of the same name

---
 crates/dreammaker/src/objtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 3925d8f..b3f7ec4 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -614,7 +614,11 @@ impl<'a> ProcRef<'a> {
                 idx,
             })
         } else {
-            self.ty.parent_type().and_then(|ty| ty.get_proc(self.name))
+            // Global procs aren't parents of procs which happen to share their name.
+            self.ty
+                .parent_type_without_root()
+                .and_then(|ty| ty.get_proc(self.name))
+                .filter(|proc| !proc.ty().is_root())
         }
     }
 
-- 
2.43.0


From 19bef1440c9a79e725030b6c0bda294cb77d1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 38/88] fix: calls to global procs cannot reach a type's proc
 of the same name

---
 crates/dreamchecker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index a2ce9c8..7c3023e 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3302,6 +3302,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         inherit_receiver: bool,
         local_vars: &mut HashMap<Ident, LocalVar<'o>>,
     ) -> Analysis<'o> {
+        // Global procs have no overrides.
+        let is_exact = is_exact || proc.ty().is_root();
         self.env
             .call_tree
             .entry(self.proc_ref)
-- 
2.43.0


From 51cfb7215411c7cc7a144246ae96b6956ff1b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 39/88] fix: find overrides missing keywords below types that
 inherit or redefine the proc

---
 crates/dreamchecker/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 7c3023e..2e153e3 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1108,13 +1108,22 @@ impl<'o> AnalyzeObjectTree<'o> {
 
     /// Check and build a list of bad overrides of kwargs for a ProcRef
     pub fn check_kwargs(&mut self, proc: ProcRef) {
+        // An implementation that was redefined on the same type is never called
+        // from outside.
+        if !proc.is_externally_visible() {
+            return;
+        }
+
         let param_names: HashSet<&Ident> = proc.parameters.iter().map(|p| &p.name).collect();
 
         // Start at the parent - calls which immediately resolve to bad kwargs
         // error earlier in the process.
-        let mut next = proc.parent_proc();
+        let mut next = proc.ty().parent_type_without_root();
         while let Some(current) = next {
-            if let Some(kwargs) = self.used_kwargs.get_mut(&current.to_string()) {
+            if let Some(kwargs) = self
+                .used_kwargs
+                .get_mut(&format!("{}/proc/{}", current, proc.name()))
+            {
                 let mut missing = Vec::new();
 
                 for (keyword, location) in kwargs.called_at.iter() {
@@ -1133,7 +1142,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                     );
                 }
             }
-            next = current.parent_proc();
+            next = current.parent_type_without_root();
         }
     }
 
-- 
2.43.0


From d47282d0078eaf42cba4eae9fa8de6e826aa8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 40/88] fix: look at filter() flags inside parentheses

---
 crates/dreamchecker/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 2e153e3..93cc2be 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3277,6 +3277,15 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     return;
                 }
                 match &term.elem {
+                    Term::Expr(expr) => self.check_filter_flag(
+                        expr,
+                        can_be_zero,
+                        location,
+                        typevalue,
+                        valid_flags,
+                        flagfieldname,
+                        exclusive,
+                    ),
                     Term::Ident(flagname) => {
                         if !valid_flags.iter().any(|&x| x == flagname) {
                             error(location, format!("filter(type=\"{typevalue}\") called with invalid '{flagfieldname}' flag '{flagname}'"))
-- 
2.43.0


From 3b1374084169c994d6b5c0518c1b1967e35beba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 41/88] fix: global vars and procs are not members of every
 object

---
 crates/dreamchecker/src/lib.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 93cc2be..b51d130 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -5,7 +5,7 @@
 extern crate dreammaker as dm;
 use dm::ast::*;
 use dm::constants::{ConstFn, Constant};
-use dm::objtree::{ObjectTree, ProcRef, TypeRef};
+use dm::objtree::{ObjectTree, ProcRef, TypeRef, VarDeclaration};
 use dm::{Context, DMError, Location, Severity};
 
 use foldhash::{HashMap, HashMapExt, HashSet, HashSetExt};
@@ -1208,6 +1208,22 @@ impl<'o> AnalyzeObjectTree<'o> {
     }
 }
 
+/// The declaration of the var `name` of objects of type `ty`. Global vars, which
+/// lookups on the type fall back to, are not members of it.
+fn member_var<'o>(ty: TypeRef<'o>, name: &str) -> Option<&'o VarDeclaration> {
+    let declared_on = var_declared_on(ty, name);
+    if declared_on.is_root() && !ty.is_root() {
+        return None;
+    }
+    ty.get_var_declaration(name)
+}
+
+/// The proc `name` of objects of type `ty`, which global procs are not.
+fn member_proc<'o>(ty: TypeRef<'o>, name: &str) -> Option<ProcRef<'o>> {
+    ty.get_proc(name)
+        .filter(|proc| ty.is_root() || !proc.ty().is_root())
+}
+
 /// The type up from `ty` whose declaration of the var `name` applies to it.
 fn var_declared_on<'o>(ty: TypeRef<'o>, name: &str) -> TypeRef<'o> {
     let mut current = Some(ty);
@@ -2913,7 +2929,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         // Special cased for now because this might be the only place it appears?
                         // Or maybe we should also handle new procpath() returning a procpath.
                         Analysis::from(StaticType::Proc)
-                    } else if let Some(decl) = ty.get_var_declaration(name) {
+                    } else if let Some(decl) = member_var(ty, name) {
                         if ty != self.ty && decl.var_type.flags.is_private() {
                             error(
                                 location,
@@ -2985,7 +3001,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         found_type
                     },
                 };
-                let Some(decl) = real_type.get_var_declaration(name) else {
+                let Some(decl) = member_var(real_type, name) else {
                     error(
                         location,
                         format!("undefined field: {name:?} on {real_type}"),
@@ -3001,7 +3017,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Follow::Call(kind, name, arguments) => {
                 if let Some(ty) = lhs.static_ty.basic_type() {
                     self.check_type_sleepers(ty, location, name);
-                    if let Some(proc) = ty.get_proc(name) {
+                    if let Some(proc) = member_proc(ty, name) {
                         if let Some((privateproc, true, decllocation)) =
                             self.env.private.get_self_or_parent(proc)
                         {
@@ -3087,7 +3103,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         found_type
                     },
                 };
-                let Some(decl) = real_type.get_proc(name) else {
+                let Some(decl) = member_proc(real_type, name) else {
                     error(location, format!("undefined proc: {name:?} on {real_type}"))
                         .register(self.context);
                     return Analysis::empty();
-- 
2.43.0


From fc7db8ae99033de89bc66d5828400156a2abe70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:54 +0000
Subject: [PATCH 42/88] fix: check the arguments of calls that cannot be
 resolved

---
 crates/dreamchecker/src/lib.rs | 37 +++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b51d130..ca3ed7b 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2603,6 +2603,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("undefined proc: {:?} on {}", unscoped_name, self.ty),
                     )
                     .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2621,6 +2622,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, format!("proc has no parent: {}", self.proc_ref))
                         .with_errortype("proc_has_no_parent")
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2638,6 +2640,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 } else {
                     error(location, format!("undefined global proc: {global_name:?}"))
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2649,6 +2652,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, "no type hint available on implicit new()")
                         .with_errortype("no_typehint_implicit_new")
                         .register(self.context);
+                    if let Some(args) = args {
+                        self.visit_arguments(location, args, local_vars);
+                    }
                     Analysis::empty()
                 }
             },
@@ -2662,6 +2668,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("failed to resolve path {}", FormatTypePath(&prefab.path)),
                     )
                     .register(self.context);
+                    if let Some(args) = args {
+                        self.visit_arguments(location, args, local_vars);
+                    }
                     Analysis::empty()
                 }
             },
@@ -2815,16 +2824,21 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 false,
                 local_vars,
             );
-        } else if typepath.path != "/list"
-            && typepath.path != "/alist"
-            && typepath.path != "/vector"
-            && typepath.path != "/pixloc"
-        {
-            error(
-                location,
-                format!("couldn't find {}/proc/New", typepath.path),
-            )
-            .register(self.context);
+        } else {
+            if typepath.path != "/list"
+                && typepath.path != "/alist"
+                && typepath.path != "/vector"
+                && typepath.path != "/pixloc"
+            {
+                error(
+                    location,
+                    format!("couldn't find {}/proc/New", typepath.path),
+                )
+                .register(self.context);
+            }
+            if let Some(args) = args {
+                self.visit_arguments(location, args, local_vars);
+            }
         }
         assumption_set![Assumption::IsType(true, typepath)].into()
     }
@@ -3061,6 +3075,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     } else {
                         error(location, format!("undefined proc: {name:?} on {ty}"))
                             .register(self.context);
+                        self.visit_arguments(location, arguments, local_vars);
                         Analysis::empty()
                     }
                 } else {
@@ -3072,6 +3087,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     .with_errortype("proc_call_static_type")
                     .with_fix_hint(&lhs)
                     .register(self.context);
+                    // Still be sure to visit the arguments
+                    self.visit_arguments(location, arguments, local_vars);
                     Analysis::empty()
                 }
             },
-- 
2.43.0


From d19c540c003ee985fd052f7c748c6a48e5637e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 43/88] fix: elements of untyped containers do not have the
 type of the container

---
 crates/dreamchecker/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index ca3ed7b..b1f21fe 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2923,7 +2923,12 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                 .with_errortype("improper_index")
                                 .register(self.context);
                         }
-                        lhs.clone()
+                        // What the container holds is unknown.
+                        Analysis {
+                            fix_hint: lhs.fix_hint,
+                            is_impure: lhs.is_impure,
+                            ..Analysis::empty()
+                        }
                     },
                     _ => lhs.clone(), // carry through fix_hint
                 }
-- 
2.43.0


From d08b054502cae291babd0350fceae654bf45c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 44/88] fix: check the variable and start of loops over an
 existing variable

---
 crates/dreamchecker/src/lib.rs | 88 +++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b1f21fe..b94cf59 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1967,6 +1967,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, None, &mut scoped_locals);
+                } else {
+                    self.visit_loop_var(location, name, &scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 state.end_loop();
@@ -1988,6 +1990,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
+                } else {
+                    let var = self.visit_loop_var(location, name, &scoped_locals);
+                    let type_hint = var.static_ty.basic_type();
+                    self.visit_expression(location, start, type_hint, &mut scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 if let Some(startterm) = start.as_term() {
@@ -2493,35 +2499,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             ),
             Term::As(_) => assumption_set![Assumption::IsNum(true)].into(),
 
-            Term::Ident(unscoped_name) => {
-                if let Some(var) = local_vars.get(unscoped_name) {
-                    var.analysis
-                        .clone()
-                        .with_fix_hint(var.location, "add additional type info here")
-                } else if unscoped_name == "type" {
-                    // Strictly speaking "type" might be any subset of our current type, but let's return something useful
-                    // so that `nameof(type::foo)` is sensible.
-                    let ty = self.ty;
-                    let pop = dm::constants::Pop::from_path_str(&ty.path);
-                    Analysis {
-                        static_ty: StaticType::None,
-                        aset: assumption_set![Assumption::IsPath(true, ty)],
-                        value: Some(Constant::Prefab(Box::new(pop))),
-                        fix_hint: None,
-                        is_impure: None,
-                    }
-                } else if let Some(decl) = self.ty.get_var_declaration(unscoped_name) {
-                    let mut ana = self
-                        .static_type(location, &decl.var_type.type_path)
-                        .with_fix_hint(decl.location, "add additional type info here");
-                    ana.is_impure = Some(true);
-                    ana
-                } else {
-                    error(location, format!("undefined var: {unscoped_name:?}"))
-                        .register(self.context);
-                    Analysis::empty()
-                }
-            },
+            Term::Ident(unscoped_name) => self.visit_ident(location, unscoped_name, local_vars),
             Term::GlobalIdent(global_name) => {
                 if let Some(decl) = self.objtree.root().get_var_declaration(global_name) {
                     let mut ana = self
@@ -2805,6 +2783,58 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         }
     }
 
+    fn visit_ident(
+        &mut self,
+        location: Location,
+        unscoped_name: &Ident,
+        local_vars: &HashMap<Ident, LocalVar<'o>>,
+    ) -> Analysis<'o> {
+        if let Some(var) = local_vars.get(unscoped_name) {
+            var.analysis
+                .clone()
+                .with_fix_hint(var.location, "add additional type info here")
+        } else if unscoped_name == "type" {
+            // Strictly speaking "type" might be any subset of our current type, but let's return something useful
+            // so that `nameof(type::foo)` is sensible.
+            let ty = self.ty;
+            let pop = dm::constants::Pop::from_path_str(&ty.path);
+            Analysis {
+                static_ty: StaticType::None,
+                aset: assumption_set![Assumption::IsPath(true, ty)],
+                value: Some(Constant::Prefab(Box::new(pop))),
+                fix_hint: None,
+                is_impure: None,
+            }
+        } else if let Some(decl) = self.ty.get_var_declaration(unscoped_name) {
+            let mut ana = self
+                .static_type(location, &decl.var_type.type_path)
+                .with_fix_hint(decl.location, "add additional type info here");
+            ana.is_impure = Some(true);
+            ana
+        } else {
+            error(location, format!("undefined var: {unscoped_name:?}")).register(self.context);
+            Analysis::empty()
+        }
+    }
+
+    /// Visit the name of a loop variable which the loop itself does not declare.
+    fn visit_loop_var(
+        &mut self,
+        location: Location,
+        name: &Ident,
+        local_vars: &HashMap<Ident, LocalVar<'o>>,
+    ) -> Analysis<'o> {
+        let var = self.visit_ident(location, name, local_vars);
+        if let Some(true) = var.is_impure {
+            self.env.impure_procs.insert_violator(
+                self.proc_ref,
+                "Assignment on purity breaking expression",
+                location,
+            );
+        }
+        var
+    }
+
     fn visit_new(
         &mut self,
         location: Location,
-- 
2.43.0


From 2372ad0c2ef3fcfc28d8426dc68a85012cc68c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:51 +0000
Subject: [PATCH 45/88] fix: __IMPLIED_TYPE__ is the type implied, not the type
 of the proc

---
 crates/dreamchecker/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b94cf59..400fc2b 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2771,10 +2771,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 let Some(implied_type) = type_hint else {
                     return Analysis::empty();
                 };
-                let pop = dm::constants::Pop::from_path_str(&self.ty.path);
+                let pop = dm::constants::Pop::from_path_str(&implied_type.path);
                 Analysis {
                     static_ty: StaticType::None,
-                    aset: assumption_set![Assumption::IsPath(true, self.ty)],
+                    aset: assumption_set![Assumption::IsPath(true, implied_type)],
                     value: Some(Constant::Prefab(Box::new(pop))),
                     fix_hint: None,
                     is_impure: None,
-- 
2.43.0


From 90fe73bb976e54ac4217fdc5aba9b816d55c5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 46/88] fix: the delay of a spawn is evaluated by the proc
 itself

---
 crates/dreamchecker/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 400fc2b..990c1db 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2038,11 +2038,12 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
             Statement::Setting { .. } => {},
             Statement::Spawn { delay, block } => {
-                self.inside_newcontext = self.inside_newcontext.wrapping_add(1);
                 let mut scoped_locals = local_vars.clone();
+                // The delay is evaluated before anything is spawned.
                 if let Some(delay) = delay {
                     self.visit_expression(location, delay, None, &mut scoped_locals);
                 }
+                self.inside_newcontext = self.inside_newcontext.wrapping_add(1);
                 self.visit_block(block, &mut scoped_locals, false);
                 self.inside_newcontext = self.inside_newcontext.wrapping_sub(1);
             },
-- 
2.43.0


From 2d3f948b58e0bc6b0046d5d5339828dc599b583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 47/88] fix: print numbers to six significant digits at every
 magnitude

---
 crates/dreammaker/src/lexer.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 98b44a5..63b49b3 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -402,20 +402,20 @@ impl fmt::Display for FormatFloat {
         } else if n == 0.0 {
             f.write_str("0")
         } else {
-            let exp = n.abs().log10().floor();
-            let factor = 10.0f32.powf(5.0 - exp);
-            if exp >= 6.0 || exp <= -5.0 {
-                let n2 = (n * factor).round() * 1.0e-5;
-                let mut precision = 0;
-                while precision < 5
-                    && (n2 * 10.0f32.powi(precision)) != (n2 * 10.0f32.powi(precision)).round()
-                {
-                    precision += 1;
+            // Six significant digits, like C's `%g` but with a three-digit exponent.
+            let scientific = format!("{n:.5e}");
+            let (mantissa, exp) = scientific.split_once('e').unwrap_or((&scientific, "0"));
+            let exp: i32 = exp.parse().unwrap_or(0);
+            let trim = |digits: &str| -> String {
+                match digits.contains('.') {
+                    true => digits.trim_end_matches('0').trim_end_matches('.').to_owned(),
+                    false => digits.to_owned(),
                 }
-                write!(f, "{:.*}e{:+04}", precision as usize, n2, exp)
+            };
+            if (-4..6).contains(&exp) {
+                f.write_str(&trim(&format!("{:.*}", (5 - exp) as usize, n)))
             } else {
-                let n2 = (n * factor).round() / factor;
-                write!(f, "{n2}")
+                write!(f, "{}e{:+04}", trim(mantissa), exp)
             }
         }
     }
-- 
2.43.0


From ada18a42c4c35d7a3b6d920e46ba8d6ac14b67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 48/88] fix: warn of precision loss exactly where an integer is
 not representable

---
 crates/dreammaker/src/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 63b49b3..48f31c6 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -930,8 +930,9 @@ impl<'ctx> Lexer<'ctx> {
             // integer type.
             if radix == 10 {
                 if let Ok(val) = f32::from_str(&buf) {
-                    let val_str = val.to_string();
-                    if val_str != buf {
+                    // The shortest digits that identify `val` are not its exact value.
+                    let exact = format!("{val:.0}");
+                    if exact != buf.trim_start_matches('0') {
                         self.error(format!(
                             "precision loss of integer constant: \"{buf}\" to {val}"
                         ))
-- 
2.43.0


From 6a61ab092a5e3d4ada7e0231a88b0ca741a8a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 49/88] fix: print raw strings and resource names so that they
 read back the same

---
 crates/dreammaker/src/constants.rs |  2 +-
 crates/dreammaker/src/lexer.rs     | 39 ++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 33f7489..fca9d91 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -421,7 +421,7 @@ impl fmt::Display for Constant {
             },
             Constant::Prefab(ref val) => write!(f, "{val}"),
             Constant::String(ref val) => crate::lexer::Quote(val).fmt(f),
-            Constant::Resource(ref val) => write!(f, "'{val}'"),
+            Constant::Resource(ref val) => crate::lexer::QuoteResource(val).fmt(f),
             Constant::Float(val) => crate::lexer::FormatFloat(val).fmt(f),
         }
     }
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 48f31c6..143e9a4 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -346,7 +346,7 @@ impl fmt::Display for Token {
             InterpStringBegin(ref i) => write!(f, "\"{i}["),
             InterpStringPart(ref i) => write!(f, "]{i}["),
             InterpStringEnd(ref i) => write!(f, "]{i}\""),
-            Resource(ref i) => write!(f, "'{i}'"),
+            Resource(ref i) => QuoteResource(i).fmt(f),
             Int(i) => FormatFloat(i as f32).fmt(f),
             Float(i) => FormatFloat(i).fmt(f),
             DocComment(ref c) => c.fmt(f),
@@ -363,16 +363,27 @@ impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
         // Escapes are kept as written, so `\"` may appear in a plain string.
-        let (mut quote, mut long_end, mut backslash) = (false, false, false);
+        // What came from a raw string may only be written in one.
+        let (mut quote, mut raw, mut backslash) = (false, false, false);
         for (i, ch) in s.bytes().enumerate() {
             if ch == b'"' && !backslash {
                 quote = true;
-                long_end |= s[i + 1..].starts_with('}');
+                raw |= s[i + 1..].starts_with('}');
             }
+            raw |= ch == b'[' && !backslash || ch == b'\n' && backslash;
             backslash = ch == b'\\' && !backslash;
         }
-        if long_end {
-            write!(f, "@@{s}@")
+        raw |= backslash;
+        if raw {
+            if !s.contains(['"', '\n']) {
+                write!(f, "@\"{s}\"")
+            } else if !s.contains("\"}") {
+                write!(f, "@{{\"{s}\"}}")
+            } else {
+                let delimiter = "@#$%&|~^!?*+-".chars().find(|&ch| !s.contains(ch));
+                let delimiter = delimiter.unwrap_or('@');
+                write!(f, "@{delimiter}{s}{delimiter}")
+            }
         } else if quote || s.contains('\n') {
             write!(f, "{{\"{s}\"}}")
         } else {
@@ -381,6 +392,24 @@ impl<'a> fmt::Display for Quote<'a> {
     }
 }
 
+/// Formatting helper to quote a resource name.
+///
+/// Assumes that escapes within the name HAVE been parsed
+pub struct QuoteResource<'a>(pub &'a str);
+
+impl<'a> fmt::Display for QuoteResource<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        f.write_str("'")?;
+        for ch in self.0.chars() {
+            if matches!(ch, '\\' | '\'') {
+                f.write_str("\\")?;
+            }
+            write!(f, "{ch}")?;
+        }
+        f.write_str("'")
+    }
+}
+
 /// Formatting helper to format a float according to DM's rules.
 pub struct FormatFloat(pub f32);
 
-- 
2.43.0


From d9a34aaf91f4637126e82cdb17127df25d0271ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 50/88] fix: let the no_operator_overload option govern its
 diagnostic

---
 crates/dreamchecker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 990c1db..bcd231e 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3220,6 +3220,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             location,
             format!("Attempting {operator} on a {typeerror} which does not overload {operator}"),
         )
+        .with_errortype("no_operator_overload")
         .register(self.context);
         Analysis::empty()
     }
-- 
2.43.0


From c7769af9e98fbef94b465c51915a3d1c9741c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 51/88] fix: give maps of the same name their own render-many
 output files

---
 crates/dmm-tools-cli/src/main.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index febfede..7b5e228 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -603,6 +603,21 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
         panic!();
     }
 
+    // Files which share a name must not share their output filenames.
+    let mut taken = HashSet::default();
+    let stems: Vec<String> = command
+        .files
+        .iter()
+        .enumerate()
+        .map(|(file_idx, file)| {
+            let mut stem = file.path.file_stem().unwrap().to_string_lossy().into_owned();
+            while !taken.insert(stem.clone()) {
+                stem.push_str(&format!("_file{file_idx}"));
+            }
+            stem
+        })
+        .collect();
+
     // Iterate over the maps
     let result_files: Vec<_> = command
         .files
@@ -610,7 +625,7 @@ fn render_many(context: &Context, command: RenderManyCommand) -> RenderManyComma
         .enumerate()
         .map(|(file_idx, file)| {
             eprintln!("{}: load {}", file_idx, file.path.display());
-            let stem = file.path.file_stem().unwrap().to_string_lossy();
+            let stem = &stems[file_idx];
             let map = dmm::Map::from_file(&file.path).unwrap(); // TODO: error handling
             let (dim_x, dim_y, dim_z) = map.dim_xyz();
 
-- 
2.43.0


From b30c902ccd786b534b45b0998efe729939eb2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 52/88] fix: keep document positions past a line's end on that
 line and refuse reversed ranges

---
 crates/dm-langserver/src/document.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index b5f96c4..5a98976 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -144,6 +144,9 @@ impl Document {
 
         let start_pos = total_offset(&self.text, range.start.line, range.start.character)?;
         let end_pos = total_offset(&self.text, range.end.line, range.end.character)?;
+        if start_pos > end_pos {
+            return Err(invalid_request("range ends before it starts"));
+        }
         Rc::make_mut(&mut self.text).replace_range(start_pos..end_pos, &change.text);
         Ok(())
     }
@@ -166,8 +169,12 @@ fn line_offset(text: &str, line_number: u32) -> Result<usize, jsonrpc::Error> {
 fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, jsonrpc::Error> {
     let start = line_offset(text, line)?;
 
+    // "If the character value is greater than the line length it defaults
+    // back to the line length."
+    let line = text[start..].lines().next().unwrap_or("");
+
     // column is measured in UTF-16 code units, which is really inconvenient.
-    let mut chars = text[start..].chars();
+    let mut chars = line.chars();
     while character > 0 {
         if let Some(ch) = chars.next() {
             character = character.saturating_sub(ch.len_utf16() as u32);
@@ -175,7 +182,7 @@ fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, json
             break;
         }
     }
-    Ok(text.len() - chars.as_str().len())
+    Ok(start + line.len() - chars.as_str().len())
 }
 
 // Reverse of the above.
-- 
2.43.0


From ff7c91d949733bb1ca01b3ee9abab6e57637800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 53/88] fix: drop cached annotations when a document is opened
 or the environment is reparsed

---
 crates/dm-langserver/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ec3beb8..113281c 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -539,6 +539,9 @@ impl Engine {
             );
         };
 
+        // Annotations depend on the macros defined by the rest of the environment.
+        self.annotations.clear();
+
         // Set up the preprocessor.
         self.context.reset_io_time();
         self.context.autodetect_config(&environment);
@@ -2508,6 +2511,8 @@ impl Engine {
     // ------------------------------------------------------------------------
     // document content management
     fn DidOpenTextDocument(&mut self, params: N<DidOpenTextDocument>) -> NR {
+        // Forget anything learned from the file's contents on disk.
+        self.annotations.remove(&params.text_document.uri);
         self.docs.open(params.text_document)?;
         Ok(())
     }
-- 
2.43.0


From a5512087c1a218fa4936a40a729c72ab6e161db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 54/88] fix: refuse colour requests for reversed ranges instead
 of crashing

---
 crates/dm-langserver/src/document.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index 5a98976..e4a016f 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -206,10 +206,10 @@ pub fn offset_to_position(text: &str, offset: usize) -> lsp_types::Position {
 }
 
 pub fn get_range(text: &str, range: lsp_types::Range) -> Result<&str, jsonrpc::Error> {
-    Ok(
-        &text[total_offset(text, range.start.line, range.start.character)?
-            ..total_offset(text, range.end.line, range.end.character)?],
-    )
+    let start_pos = total_offset(text, range.start.line, range.start.character)?;
+    let end_pos = total_offset(text, range.end.line, range.end.character)?;
+    text.get(start_pos..end_pos)
+        .ok_or_else(|| invalid_request("range ends before it starts"))
 }
 
 pub fn find_word(text: &str, offset: usize) -> &str {
-- 
2.43.0


From 5b44e22b93847ae55e5ba056e35c4160067bcf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 55/88] fix: macros in force where a file is included were
 taken from the order of locations

---
 crates/dreammaker/src/preprocessor.rs | 86 ++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 14 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 74b32e0..75916eb 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1,6 +1,6 @@
 //! The preprocessor.
 use std::borrow::Cow;
-use std::collections::VecDeque;
+use std::collections::{BTreeMap, VecDeque};
 use std::fs::File;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
@@ -90,6 +90,17 @@ pub struct DefineHistory {
     env_file: PathBuf,
     last_input_loc: Location,
     tree: InnerDefineHistory,
+    log: DefineLog,
+}
+
+/// The order in which macros were defined and undefined. This is not the order
+/// of their locations, since an `#include` can be followed by more directives.
+#[derive(Debug, Default)]
+struct DefineLog {
+    /// The name of each macro defined (with its location) or undefined (without).
+    entries: Vec<(Ident, Option<Location>)>,
+    /// The number of entries when each file was first entered.
+    file_starts: HashMap<FileId, usize>,
 }
 
 impl DefineHistory {
@@ -105,7 +116,11 @@ impl DefineHistory {
             line: 0,
             column: 0,
         };
-        let defines = DefineMap::from_history(self, location);
+        let len = match self.log.file_starts.get(&file) {
+            Some(&start) => start,
+            None => self.log.entries.len(),
+        };
+        let defines = self.defines_after(len);
 
         Preprocessor {
             context,
@@ -114,6 +129,7 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(), // TODO: support branching a second time
+            define_log: Default::default(),
             defines,
             maps: Default::default(),
             skins: Default::default(),
@@ -139,7 +155,8 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(), // TODO: support branching a second time
-            defines: DefineMap::from_history(self, self.last_input_loc),
+            define_log: Default::default(),
+            defines: self.defines_after(self.log.entries.len()),
             maps: Default::default(),
             skins: Default::default(),
             scripts: Default::default(),
@@ -156,6 +173,41 @@ impl DefineHistory {
     }
 }
 
+impl DefineHistory {
+    /// Cut a DefineMap from the state after the given number of log entries.
+    fn defines_after(&self, len: usize) -> DefineMap {
+        let mut known = BTreeMap::new();
+        let mut map = DefineMap::default();
+        for (range, (name, define)) in self.tree.iter() {
+            if range.start.is_builtins() {
+                map.insert(name.clone(), (range.start, define.clone()));
+            } else {
+                known.insert((name, range.start), define);
+            }
+        }
+        for (name, defined) in self.log.entries[..len].iter() {
+            if let &Some(location) = defined {
+                if let Some(&define) = known.get(&(name, location)) {
+                    map.insert(name.clone(), (location, define.clone()));
+                }
+            } else {
+                map.remove(name);
+            }
+        }
+        map
+    }
+}
+
+impl DefineLog {
+    fn enter(&mut self, include: &Include<'_>) {
+        if let Include::File { lexer, .. } = include {
+            self.file_starts
+                .entry(lexer.location().file)
+                .or_insert(self.entries.len());
+        }
+    }
+}
+
 impl std::ops::Deref for DefineHistory {
     type Target = IntervalTree<Location, (Ident, Define)>;
 
@@ -235,15 +287,6 @@ impl DefineMap {
         result
     }
 
-    /// Cut a DefineMap from the state of a DefineHistory at the given location.
-    fn from_history(history: &InnerDefineHistory, location: Location) -> DefineMap {
-        let mut map = DefineMap::default();
-        for (range, (name, define)) in history.range(range(location, location)) {
-            map.insert(name.clone(), (range.start, define.clone()));
-        }
-        map
-    }
-
     /*
     /// Test whether two DefineMaps are equal, ignoring definition locations.
     fn equals(&self, rhs: &DefineMap) -> bool {
@@ -410,6 +453,7 @@ pub struct Preprocessor<'ctx> {
     annotations: Option<AnnotationTree>,
 
     history: InnerDefineHistory,
+    define_log: DefineLog,
     defines: DefineMap,
     maps: Vec<PathBuf>,
     skins: Vec<PathBuf>,
@@ -438,6 +482,8 @@ impl<'ctx> Preprocessor<'ctx> {
         // Buffer the entire environment file. Large environments take a while
         // to load and locking it for the whole time is somewhat inconvenient.
         let include = Include::from_path(context, env_file.clone())?;
+        let mut define_log = DefineLog::default();
+        define_log.enter(&include);
 
         Ok(Preprocessor {
             context,
@@ -449,6 +495,7 @@ impl<'ctx> Preprocessor<'ctx> {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(),
+            define_log,
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
             skins: Default::default(),
@@ -475,6 +522,8 @@ impl<'ctx> Preprocessor<'ctx> {
             Cow::Owned(s) => Cow::Owned(s.into_bytes()),
         };
         let include = Include::from_buffer(context, env_file.clone(), cow_u8);
+        let mut define_log = DefineLog::default();
+        define_log.enter(&include);
         Preprocessor {
             context,
             env_file,
@@ -485,6 +534,7 @@ impl<'ctx> Preprocessor<'ctx> {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(),
+            define_log,
             defines: DefineMap::with_builtins(),
             maps: Default::default(),
             skins: Default::default(),
@@ -522,6 +572,7 @@ impl<'ctx> Preprocessor<'ctx> {
             env_file: self.env_file,
             last_input_loc: self.last_input_loc,
             tree: self.history,
+            log: self.define_log,
         }
     }
 
@@ -547,11 +598,13 @@ impl<'ctx> Preprocessor<'ctx> {
         read: R,
     ) -> Result<FileId, DMError> {
         let idx = self.context.register_file(&path);
-        self.include_stack.stack.push(Include::File {
+        let include = Include::File {
             lexer: Lexer::from_read(self.context, idx, read)?,
             //file: idx,
             path,
-        });
+        };
+        self.define_log.enter(&include);
+        self.include_stack.stack.push(include);
         Ok(idx)
     }
 
@@ -884,6 +937,7 @@ impl<'ctx> Preprocessor<'ctx> {
                                         // directive being indented from making
                                         // the first line of the file indented.
                                         self.push_output(Token::Punct(Punctuation::Newline));
+                                        self.define_log.enter(&include);
                                         self.include_stack.stack.push(include);
                                     },
                                     Err(e) => self.context.register_error(e),
@@ -1022,6 +1076,9 @@ impl<'ctx> Preprocessor<'ctx> {
                         };
                         // DEBUG can only be defined in the root .dme file
                         if define_name != "DEBUG" || self.in_environment() {
+                            self.define_log
+                                .entries
+                                .push((define_name.clone(), Some(define_name_loc)));
                             if let Some(previous_loc) = self
                                 .defines
                                 .insert(define_name.clone(), (define_name_loc, define))
@@ -1050,6 +1107,7 @@ impl<'ctx> Preprocessor<'ctx> {
                         let define_name_loc = _last_expected_loc;
                         expect_token!(() = Token::Punct(Punctuation::Newline));
                         if let Some(previous) = self.defines.remove(&define_name) {
+                            self.define_log.entries.push((define_name.clone(), None));
                             self.move_to_history(define_name, previous);
                         } else {
                             DMError::new(
-- 
2.43.0


From 3b2ba35249564d30947ff883efe41984563a287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 56/88] fix: annotate catch variables, relative paths and names
 in var blocks

---
 crates/dreammaker/src/parser.rs | 37 +++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index f50c6b2..d711b43 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1806,17 +1806,29 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             let try_block = require!(self.block(loop_ctx));
             self.skip_phantom_semicolons()?;
             require!(self.exact_ident("catch"));
+            let mut catch_vars = Vec::new();
             let catch_params = if let Some(()) = self.exact(Token::Punct(Punctuation::LParen))? {
                 require!(
                     self.separated(Punctuation::Comma, Punctuation::RParen, None, |this| {
                         // TODO: improve upon this cheap approximation
-                        success(leading!(this.tree_path(true)).1.into_boxed_slice())
+                        let path = leading!(this.tree_path(true)).1.into_boxed_slice();
+                        catch_vars.push((this.location, path.clone()));
+                        success(path)
                     })
                 )
             } else {
                 Vec::new()
             };
             let catch_block = require!(self.block(loop_ctx));
+            for (loc, path) in catch_vars {
+                if let Some((name, type_path)) = path.split_last() {
+                    self.annotate(loc, || {
+                        let var_type: VarTypeBuilder =
+                            type_path.iter().filter(|x| *x != "var").cloned().collect();
+                        Annotation::LocalVarScope(var_type.build(), name.clone())
+                    });
+                }
+            }
             spanned(Statement::TryCatch {
                 try_block,
                 catch_params: catch_params.into_boxed_slice(),
@@ -2080,18 +2092,21 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
     // distinct from a tree_path, path must begin with a path separator and can
     // use any path separator rather than just slash, AND can be followed by vars
     fn prefab(&mut self) -> Status<Box<Prefab>> {
-        self.prefab_ex(Vec::new())
+        let start = self.updated_location();
+        self.prefab_ex(start, Vec::new())
     }
 
-    fn prefab_ex(&mut self, mut parts: TypePath) -> Status<Box<Prefab>> {
+    fn prefab_ex(&mut self, start: Location, mut parts: TypePath) -> Status<Box<Prefab>> {
         // path :: path_sep ident (path_sep ident?)*
         // path_sep :: '/' | '.' | ':'
-        let start = self.updated_location();
 
         // expect at least one path element
         let sep = match self.path_separator()? {
             Some(sep) => sep,
-            None if !parts.is_empty() => return Ok(Some(Box::new(Prefab::from(parts)))),
+            None if !parts.is_empty() => {
+                self.annotate(start, || Annotation::TypePath(parts.clone()));
+                return Ok(Some(Box::new(Prefab::from(parts))));
+            },
             None => return Ok(None),
         };
         let mut separator_loc = self.location;
@@ -2376,12 +2391,12 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 // The following is what seems a reasonable approximation.
 
                 // Try to read an ident or path, then read the arguments.
+                let start = self.updated_location();
                 if let Some(()) = self.exact(Token::Punct(Punctuation::Dot))? {
-                    if let Some(ident) = self.ident()? {
+                    if let Some(ident) = self.ident_in_seq(0)? {
                         // prefab
-                        // TODO: arrange for this ident to end up in the prefab's annotation
                         Term::NewPrefab {
-                            prefab: require!(self.prefab_ex(vec![(PathOp::Dot, ident)])),
+                            prefab: require!(self.prefab_ex(start, vec![(PathOp::Dot, ident)])),
                             args: self.arguments(&[], &ident!("New"))?,
                         }
                     } else {
@@ -2564,10 +2579,9 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             // term :: '.'
             Token::Punct(Punctuation::Dot) => {
                 let mut dot_loc = self.location;
-                if let Some(ident) = self.ident()? {
+                if let Some(ident) = self.ident_in_seq(0)? {
                     // prefab
-                    // TODO: arrange for this ident to end up in the prefab's annotation
-                    Term::Prefab(require!(self.prefab_ex(vec![(PathOp::Dot, ident)])))
+                    Term::Prefab(require!(self.prefab_ex(start, vec![(PathOp::Dot, ident)])))
                 } else if let Some(args) = self.arguments(&[], &ident!("."))? {
                     // .() call
                     Term::SelfCall(args)
@@ -2888,6 +2902,7 @@ fn reconstruct_path(
         result.extend(deets.flags.iter().map(Ident::from_static));
     }
     if let Some(var) = var_type {
+        result.push(ident!("var"));
         result.extend(var.flags.iter().map(Ident::from_static));
         result.extend(var.type_path.iter().cloned());
     }
-- 
2.43.0


From 533481990526f60493ad0db1bf5ccd56ce1c05f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 57/88] fix: parameters and parent calls of overrides spread
 over files led to another override

---
 crates/dm-langserver/src/main.rs | 35 +++++++++++++++++++++-----------
 crates/dreammaker/src/objtree.rs |  7 ++++---
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 113281c..c6b2e02 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -836,12 +836,12 @@ impl Engine {
         })
     }
 
-    fn find_type_context<'b, I, Ign>(
+    fn find_type_context<'b, I>(
         &self,
         iter: &I,
     ) -> (Option<TypeRef<'_>>, Option<(&'b str, usize)>)
     where
-        I: Iterator<Item = (Ign, &'b Annotation)> + Clone,
+        I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
         let mut found = None;
         let mut proc_name = None;
@@ -864,13 +864,27 @@ impl Engine {
             if_annotation! { Annotation::TreeBlock(tree_path) in iter; {
                 // cut off if we're in a declaration block
                 let mut tree_path = &tree_path[..];
-                match tree_path.split_last() {
-                    Some((kwd, rest)) if kwd == "proc" || kwd == "verb" || kwd == "var" => tree_path = rest,
-                    _ => {}
+                if let Some(i) = tree_path.iter().position(|kwd| kwd == "proc" || kwd == "verb" || kwd == "var") {
+                    tree_path = &tree_path[..i];
                 }
                 found = self.objtree.type_by_path(tree_path);
             }}
         }
+        if let (Some((name, index)), Some((span, _))) = (proc_name, iter.clone().next()) {
+            // Annotations operate against a dummy ObjectTree which does not
+            // contain any definitions from other files, so they count only
+            // those in the same file. Find which one it is among all of them.
+            let ty = found.unwrap_or_else(|| self.objtree.root());
+            if let Some(proc) = ty.get().procs.get(name) {
+                let mut in_file: Vec<_> = proc.value.iter().enumerate()
+                    .filter(|(_, value)| value.location.file == span.start.file)
+                    .collect();
+                in_file.sort_by_key(|(_, value)| value.location);
+                if let Some(&(index, _)) = in_file.get(index) {
+                    proc_name = Some((name, index));
+                }
+            }
+        }
         (found, proc_name)
     }
 
@@ -1823,20 +1837,17 @@ impl Engine {
                 }
             },
             Annotation::ParentCall => {
-                if let (Some(ty), Some((proc_name, idx))) = self.find_type_context(&iter) {
-                    // TODO: idx is always 0 unless there are multiple overrides in
-                    // the same .dm file, due to annotations operating against a
-                    // dummy ObjectTree which does not contain any definitions from
-                    // other files.
+                if let (ty, Some((proc_name, idx))) = self.find_type_context(&iter) {
+                    let ty = ty.unwrap_or_else(|| self.objtree.root());
                     if idx == 0 {
                         // first proc on the type, go to the REAL parent
-                        let mut next = ty.parent_type();
+                        let mut next = ty.parent_type_without_root();
                         while let Some(ty) = next {
                             if let Some(proc) = ty.procs.get(proc_name) {
                                 results.push(self.convert_location(proc.main_value().location, &proc.main_value().docs, &[&ty.path, "/proc/", proc_name])?);
                                 break;
                             }
-                            next = ty.parent_type();
+                            next = ty.parent_type_without_root();
                         }
                     } else if let Some(proc) = ty.procs.get(proc_name) {
                         // override, go to the previous version of the proc
diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index b3f7ec4..17a5252 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1306,7 +1306,8 @@ impl ObjectTreeBuilder {
         // Correctly implementing the "existence of a /proc block" check would
         // be too onerous, so let's assume the user wrote something that they
         // expect DM to compile.
-        let len = proc.value.len();
+        // The index among the definitions in the same file, for annotations.
+        let index = proc.value.iter().filter(|v| v.location.file == location.file).count();
         match declaration {
             Some(decl) if !proc.value.is_empty() => {
                 // Show the hint now, make up for it by putting the original
@@ -1324,11 +1325,11 @@ impl ObjectTreeBuilder {
                 )
                 .register(context);
                 proc.value.insert(0, value);
-                Ok((len, proc.value.first_mut().unwrap()))
+                Ok((index, proc.value.first_mut().unwrap()))
             },
             _ => {
                 proc.value.push(value);
-                Ok((len, proc.value.last_mut().unwrap()))
+                Ok((index, proc.value.last_mut().unwrap()))
             },
         }
     }
-- 
2.43.0


From 8187e439f06411efec1048a480a390853c5c609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 58/88] fix: answer for the innermost of nested annotations

---
 crates/dm-langserver/src/macros.rs  | 13 ++++++++++---
 crates/dm-langserver/src/main.rs    | 29 +++++++++++++++++++++--------
 crates/dreammaker/src/annotation.rs | 24 ++++++++++++++++++++++--
 3 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/crates/dm-langserver/src/macros.rs b/crates/dm-langserver/src/macros.rs
index 56d7436..26bc316 100644
--- a/crates/dm-langserver/src/macros.rs
+++ b/crates/dm-langserver/src/macros.rs
@@ -1,13 +1,20 @@
 //! Utility macros.
+
+// Where several annotations match, they are nested, and the last of them is the
+// innermost one.
 macro_rules! if_annotation {
     ($p:pat in $a:expr; $b:block) => {
+        let mut innermost = None;
         for (_, thing) in $a.clone() {
+            #[allow(unused_variables)]
             if let $p = thing {
-                $b
-                break
+                innermost = Some(thing);
             }
         }
-    }
+        if let Some($p) = innermost {
+            $b
+        }
+    };
 }
 
 macro_rules! match_annotation {
diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index c6b2e02..b334689 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -898,17 +898,21 @@ impl Engine {
     where
         I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
-        // local variables
+        // local variables, where the innermost one comes last
+        let mut local = None;
         for (span, annotation) in iter.clone() {
             if let Annotation::LocalVarScope(var_type, name) = annotation {
                 if name == var_name {
-                    return UnscopedVar::Local {
+                    local = Some(UnscopedVar::Local {
                         loc: span.start,
                         var_type,
-                    };
+                    });
                 }
             }
         }
+        if let Some(local) = local {
+            return local;
+        }
 
         // proc parameters
         let ty = ty.unwrap_or_else(|| self.objtree.root());
@@ -2061,12 +2065,21 @@ impl Engine {
         let iter = annotations.get_location(location);
         let mut result = None;
 
-        if_annotation! { Annotation::ProcArguments(priors, proc_name, idx) in iter; {
-            // take the specific argument we're working on
+        // the innermost call comes last
+        let call = iter.clone().filter_map(|(span, annotation)| match annotation {
+            Annotation::ProcArguments(priors, proc_name, idx) => Some((span, priors, proc_name, idx)),
+            _ => None,
+        }).last();
+        if let Some((call_span, priors, proc_name, idx)) = call {
+            // take the specific argument of this call we're working on
             let mut idx = *idx;
-            if_annotation! { Annotation::ProcArgument(i) in iter; {
-                idx = *i;
-            }}
+            for (span, annotation) in iter.clone() {
+                if let Annotation::ProcArgument(i) = annotation {
+                    if span.start >= call_span.start {
+                        idx = *i;
+                    }
+                }
+            }
 
             let mut next = self.find_scoped_type(&iter, priors);
             while let Some(ty) = next {
diff --git a/crates/dreammaker/src/annotation.rs b/crates/dreammaker/src/annotation.rs
index b38ffd0..83a8e48 100644
--- a/crates/dreammaker/src/annotation.rs
+++ b/crates/dreammaker/src/annotation.rs
@@ -90,8 +90,28 @@ impl AnnotationTree {
         self.tree.iter()
     }
 
-    pub fn get_location(&self, loc: Location) -> Iter<'_> {
-        self.tree.range(range(loc.pred(), loc))
+    pub fn get_location(
+        &self,
+        loc: Location,
+    ) -> impl Iterator<Item = (RangeInclusive<Location>, &Annotation)> + Clone {
+        // The end of an identifier is part of it, but something which starts
+        // here is not part of the blocks and scopes which end just before it.
+        let starts_here = self
+            .tree
+            .range(range(loc, loc))
+            .any(|(span, _)| span.start == loc);
+        self.tree
+            .range(range(loc.pred(), loc))
+            .filter(move |(span, annotation)| {
+                !(starts_here
+                    && span.end < loc
+                    && matches!(
+                        annotation,
+                        Annotation::TreeBlock(_)
+                            | Annotation::ProcBody(..)
+                            | Annotation::LocalVarScope(..)
+                    ))
+            })
     }
 
     pub fn get_range(&self, place: std::ops::Range<Location>) -> Iter<'_> {
-- 
2.43.0


From 0a8157a11a1d74f107bfc6dd9edbb80da45c69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:49 +0000
Subject: [PATCH 59/88] fix: keywords and members of untyped values led to
 unrelated definitions

---
 crates/dm-langserver/src/main.rs | 38 +++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b334689..7f2e569 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -967,14 +967,14 @@ impl Engine {
         } else {
             next = match self.find_unscoped_var(iter, next, proc_name, first) {
                 UnscopedVar::Parameter { param, .. } => {
-                    self.objtree.type_by_path(param.var_type.type_path.iter())
+                    self.declared_type(&param.var_type.type_path)
                 },
                 UnscopedVar::Variable { ty, .. } => match ty.get_var_declaration(first) {
-                    Some(decl) => self.objtree.type_by_path(decl.var_type.type_path.iter()),
+                    Some(decl) => self.declared_type(&decl.var_type.type_path),
                     None => None,
                 },
                 UnscopedVar::Local { var_type, .. } => {
-                    self.objtree.type_by_path(var_type.type_path.iter())
+                    self.declared_type(&var_type.type_path)
                 },
                 UnscopedVar::None => None,
             };
@@ -984,7 +984,7 @@ impl Engine {
         for var_name in priors {
             if let Some(current) = next.take() {
                 if let Some(decl) = current.get_var_declaration(var_name) {
-                    next = self.objtree.type_by_path(decl.var_type.type_path.iter());
+                    next = self.declared_type(&decl.var_type.type_path);
                 }
             } else {
                 break;
@@ -993,6 +993,15 @@ impl Engine {
         next
     }
 
+    /// The type of a value declared with the given path, if it is declared with any.
+    fn declared_type(&self, type_path: &[Ident]) -> Option<TypeRef<'_>> {
+        if type_path.is_empty() {
+            None
+        } else {
+            self.objtree.type_by_path(type_path)
+        }
+    }
+
     fn symbol_id_at(
         &mut self,
         text_document_position: lsp_types::TextDocumentPositionParams,
@@ -1761,23 +1770,26 @@ impl Engine {
             Annotation::TreePath(absolute, parts) => {
                 let full_path: Vec<&str> = completion::combine_tree_path(&iter, *absolute, parts).collect();
 
-                if let Some(ty) = self.objtree.type_by_path(full_path.iter().cloned()) {
+                if full_path.is_empty() {
+                    // a keyword such as 'var', nothing to go to
+                } else if let Some(ty) = self.objtree.type_by_path(full_path.iter().cloned()) {
                     results.push(self.convert_location(ty.location, &ty.docs, &[&ty.path])?);
-                } else if let Some((&proc_name, prefix)) = full_path.split_last() {
-                    // If it's not a type, try to find the proc equivalent. Start
-                    // at the parent type so that this is a decent shortcut for
-                    // going to the parent proc.
-                    // TODO: only do this if we're in a ProcHeader.
+                } else if let (Some((&proc_name, prefix)), true) = (
+                    full_path.split_last(),
+                    iter.clone().any(|(_, annotation)| matches!(annotation, Annotation::ProcHeader(path, _) if *path == full_path)),
+                ) {
+                    // If it's the header of a proc, start at the parent type so
+                    // that this is a decent shortcut for going to the parent proc.
                     let mut next = self.objtree.type_by_path(prefix);
                     if let Some(ty) = next {
-                        next = ty.parent_type();
+                        next = ty.parent_type_without_root();
                     }
                     while let Some(ty) = next {
                         if let Some(proc) = ty.procs.get(proc_name) {
                             results.push(self.convert_location(proc.main_value().location, &proc.main_value().docs, &[&ty.path, "/proc/", proc_name])?);
                             break;
                         }
-                        next = ty.parent_type();
+                        next = ty.parent_type_without_root();
                     }
                 }
             },
@@ -2133,7 +2145,7 @@ impl Engine {
                     }
                 }
             }
-        }}
+        }
 
         Ok(result)
     }
-- 
2.43.0


From 14b1e41102aa44f1f9fece722db9c2f091ff2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 60/88] fix: references were answered from the table of an
 environment that had been replaced

---
 crates/dm-langserver/src/background.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dm-langserver/src/background.rs b/crates/dm-langserver/src/background.rs
index c61a7ad..2e1141a 100644
--- a/crates/dm-langserver/src/background.rs
+++ b/crates/dm-langserver/src/background.rs
@@ -26,6 +26,8 @@ impl<T: Send + 'static> Background<T> {
     }
 
     pub fn spawn<F: FnOnce() -> T + Send + 'static>(&mut self, f: F) {
+        // The old value belongs to what is being replaced.
+        self.value = None;
         self.rx = Some(spawn(f));
     }
 
-- 
2.43.0


From 034de4957b48b5cbae3df6779a63c60d64d8b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 61/88] fix: references asked on the type of a declaration were
 those of what it declares

---
 crates/dm-langserver/src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 7f2e569..a65723a 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1017,8 +1017,20 @@ impl Engine {
         let mut symbol_id = None;
 
         let iter = annotations.get_location(location);
+
+        // whether this is a part of a path before the last
+        let mut before_last = false;
+        if_annotation! { Annotation::TreePath(_, parts) in iter; {
+            if_annotation! { Annotation::InSequence(idx) in iter; {
+                before_last = idx + 1 < parts.len();
+            }}
+        }}
+
         match_annotation! { iter;
             Annotation::Variable(path) => {
+                if before_last {
+                    continue;
+                }
                 let mut current = self.objtree.root();
                 let (var_name, most) = path.split_last().unwrap();
                 for part in most {
@@ -1035,6 +1047,9 @@ impl Engine {
                 }
             },
             Annotation::ProcHeader(parts, _) => {
+                if before_last {
+                    continue;
+                }
                 let mut current = self.objtree.root();
                 let (proc_name, most) = parts.split_last().unwrap();
                 for part in most {
-- 
2.43.0


From 03c6658d1564078cc0917fde6fa1e150c6fcdc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 62/88] fix: find references missed arguments, loop variables
 and overrides, and counted globals as members

---
 crates/dm-langserver/src/find_references.rs | 91 ++++++++++++++++++---
 1 file changed, 78 insertions(+), 13 deletions(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 9f446d2..3c9c10d 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -40,13 +40,20 @@ impl ReferencesTable {
             }
             for (name, proc) in ty.procs.iter() {
                 if let Some(decl) = ty.get_proc_declaration(name) {
-                    tab.impl_symbol(decl.id, proc.value.first().unwrap().location);
+                    for value in proc.value.iter() {
+                        tab.impl_symbol(decl.id, value.location);
+                    }
                 }
             }
         });
 
         objtree.root().recurse(&mut |ty| {
             for (name, var) in ty.vars.iter() {
+                if let Some(ref decl) = var.declaration {
+                    let mut walk = WalkProc::from_ty(&mut tab, objtree, ty);
+                    let declared = walk.static_type(decl.location, &decl.var_type.type_path);
+                    walk.use_type(decl.location, &declared);
+                }
                 if let Some(ref expr) = var.value.expression {
                     let mut walk = WalkProc::from_ty(&mut tab, objtree, ty);
                     let type_hint = match ty.get_var_declaration(name) {
@@ -143,12 +150,33 @@ struct Local<'o> {
     symbol: SymbolId,
 }
 
+/// The declaration of the var `name` of objects of type `ty`. Global vars, which
+/// lookups on the type fall back to, are not members of it.
+fn member_var<'o>(ty: TypeRef<'o>, name: &str) -> Option<&'o VarDeclaration> {
+    let mut next = Some(ty);
+    while let Some(current) = next {
+        if let Some(decl) = current.get().vars.get(name).and_then(|v| v.declaration.as_ref()) {
+            return Some(decl);
+        }
+        next = current.parent_type_without_root();
+    }
+    None
+}
+
+/// The proc `name` of objects of type `ty`, which global procs are not.
+fn member_proc<'o>(ty: TypeRef<'o>, name: &str) -> Option<ProcRef<'o>> {
+    ty.get_proc(name)
+        .filter(|proc| ty.is_root() || !proc.ty().is_root())
+}
+
 struct WalkProc<'o> {
     tab: &'o mut ReferencesTable,
     objtree: &'o ObjectTree,
     ty: TypeRef<'o>,
     proc: Option<ProcRef<'o>>,
     local_vars: HashMap<Ident, Local<'o>>,
+    /// The local vars declared by the blocks being visited, and what they hide.
+    hidden_vars: Vec<(Ident, Option<Local<'o>>)>,
 }
 
 impl<'o> WalkProc<'o> {
@@ -200,6 +228,7 @@ impl<'o> WalkProc<'o> {
             ty: proc.ty(),
             proc: Some(proc),
             local_vars,
+            hidden_vars: Vec::new(),
         }
     }
 
@@ -219,6 +248,7 @@ impl<'o> WalkProc<'o> {
             ty,
             proc: None,
             local_vars,
+            hidden_vars: Vec::new(),
         }
     }
 
@@ -241,9 +271,21 @@ impl<'o> WalkProc<'o> {
     }
 
     fn visit_block(&mut self, block: &'o [Spanned<Statement>]) {
+        let outer = self.hidden_vars.len();
         for stmt in block.iter() {
             self.visit_statement(stmt.location, &stmt.elem);
         }
+        self.end_scope(outer);
+    }
+
+    /// Forget the local vars declared since there were `outer` of them.
+    fn end_scope(&mut self, outer: usize) {
+        for (name, hidden) in self.hidden_vars.drain(outer..).rev() {
+            match hidden {
+                Some(local) => self.local_vars.insert(name, local),
+                None => self.local_vars.remove(&name),
+            };
+        }
     }
 
     fn visit_statement(&mut self, location: Location, statement: &'o Statement) {
@@ -311,6 +353,8 @@ impl<'o> WalkProc<'o> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, None);
+                } else {
+                    self.visit_ident(location, name);
                 }
                 self.visit_block(block);
             },
@@ -329,6 +373,9 @@ impl<'o> WalkProc<'o> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start));
+                } else {
+                    self.visit_ident(location, name);
+                    self.visit_expression(location, start, None);
                 }
                 self.visit_block(block);
             },
@@ -375,6 +422,7 @@ impl<'o> WalkProc<'o> {
                 catch_block,
             } => {
                 self.visit_block(try_block);
+                let outer = self.hidden_vars.len();
                 for caught in catch_params.iter() {
                     let (var_name, mut type_path) = match caught.split_last() {
                         Some(x) => x,
@@ -388,11 +436,16 @@ impl<'o> WalkProc<'o> {
                     self.visit_var(location, &var_type, var_name, None);
                 }
                 self.visit_block(catch_block);
+                self.end_scope(outer);
             },
             Statement::Continue(_) => {},
             Statement::Break(_) => {},
             Statement::Goto(_) => {},
-            Statement::Crash(_) => {},
+            Statement::Crash(expr) => {
+                if let Some(expr) = expr {
+                    self.visit_expression(location, expr, None);
+                }
+            },
             Statement::Label { name: _, block } => self.visit_block(block),
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None);
@@ -411,6 +464,8 @@ impl<'o> WalkProc<'o> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, key, None);
+                } else {
+                    self.visit_ident(location, key);
                 }
                 // the "v" in a DM for (var/k, v) statement is essentially typeless.
                 // There is currently no way to change that.
@@ -441,13 +496,14 @@ impl<'o> WalkProc<'o> {
         if let Some(expr) = value {
             self.visit_expression(location, expr, ty.basic_type());
         }
-        self.local_vars.insert(
+        let hidden = self.local_vars.insert(
             name.clone(),
             Local {
                 ty,
                 symbol: self.tab.new_symbol(location),
             },
         );
+        self.hidden_vars.push((name.clone(), hidden));
     }
 
     fn use_type(&mut self, location: Location, ty: &StaticType<'o>) {
@@ -555,6 +611,7 @@ impl<'o> WalkProc<'o> {
                 if let Some(proc) = self.ty.get_proc(unscoped_name) {
                     self.visit_call(location, src, proc, args, false)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -564,6 +621,7 @@ impl<'o> WalkProc<'o> {
                     // Self calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -574,6 +632,7 @@ impl<'o> WalkProc<'o> {
                     // Parent calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -583,11 +642,14 @@ impl<'o> WalkProc<'o> {
                 let typepath = self.visit_prefab(location, prefab);
                 self.visit_new(location, typepath, args)
             },
-            Term::NewMiniExpr { expr, .. } => {
+            Term::NewMiniExpr { expr, args } => {
                 let mut current = self.visit_ident(location, &expr.ident);
                 for field in expr.fields.iter() {
                     current = self.visit_field(location, current, &field.ident);
                 }
+                if let Some(args) = args {
+                    self.visit_arguments(location, args);
+                }
                 // The whole point is it's dynamic, so don't try anything
                 StaticType::None
             },
@@ -694,22 +756,23 @@ impl<'o> WalkProc<'o> {
         typepath: Option<TypeRef<'o>>,
         args: &'o Option<Box<[Expression]>>,
     ) -> StaticType<'o> {
+        let args = args.as_ref().map_or(&[][..], |v| &v[..]);
         if let Some(typepath) = typepath {
             if let Some(new_proc) = typepath.get_proc("New") {
                 self.visit_call(
-                    location,
-                    typepath,
-                    new_proc,
-                    args.as_ref().map_or(&[], |v| &v[..]),
+                    location, typepath, new_proc, args,
                     // New calls are exact: `new /datum()` will always call
                     // `/datum/New()` and never an override.
                     true,
                 );
+            } else {
+                self.visit_arguments(location, args);
             }
             // If we had a diagnostic context here, we'd error for
             // types other than `/list`, which has no `New()`.
             StaticType::Type(typepath)
         } else {
+            self.visit_arguments(location, args);
             StaticType::None
         }
     }
@@ -727,7 +790,7 @@ impl<'o> WalkProc<'o> {
                 // Use the prefab's vars
                 for (key, expr) in prefab.vars.iter() {
                     let mut type_hint = None;
-                    if let Some(decl) = nav.ty().get_var_declaration(key) {
+                    if let Some(decl) = member_var(nav.ty(), key) {
                         self.tab.use_symbol(decl.id, location);
                         type_hint = self
                             .static_type(location, &decl.var_type.type_path)
@@ -749,7 +812,7 @@ impl<'o> WalkProc<'o> {
         name: &'o str,
     ) -> StaticType<'o> {
         if let Some(ty) = lhs.basic_type() {
-            if let Some(decl) = ty.get_var_declaration(name) {
+            if let Some(decl) = member_var(ty, name) {
                 self.tab.use_symbol(decl.id, location);
                 self.static_type(location, &decl.var_type.type_path)
             } else {
@@ -781,7 +844,7 @@ impl<'o> WalkProc<'o> {
             Follow::StaticField(name) => self.visit_field(location, lhs, name),
             Follow::Call(_, name, arguments) => {
                 if let Some(ty) = lhs.basic_type() {
-                    if let Some(proc) = ty.get_proc(name) {
+                    if let Some(proc) = member_proc(ty, name) {
                         self.visit_call(location, ty, proc, arguments, false)
                     } else {
                         self.visit_arguments(location, arguments);
@@ -794,8 +857,10 @@ impl<'o> WalkProc<'o> {
             },
             Follow::ProcReference(name) => {
                 if let Some(ty) = lhs.basic_type() {
-                    if let Some(decl) = ty.get_proc_declaration(name) {
-                        self.tab.use_symbol(decl.id, location);
+                    if member_proc(ty, name).is_some() {
+                        if let Some(decl) = ty.get_proc_declaration(name) {
+                            self.tab.use_symbol(decl.id, location);
+                        }
                     }
                 }
                 StaticType::None
-- 
2.43.0


From 4fedb7367ac1ec5fc6f1e0e0be766054b77fdb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 63/88] fix: printing a macro whose braces do not balance
 underflowed

---
 crates/dreammaker/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/lib.rs b/crates/dreammaker/src/lib.rs
index 2e7e818..a1268f1 100644
--- a/crates/dreammaker/src/lib.rs
+++ b/crates/dreammaker/src/lib.rs
@@ -66,7 +66,7 @@ where
     W: std::fmt::Write,
     I: IntoIterator<Item = lexer::Token>,
 {
-    let mut indents = 0;
+    let mut indents: usize = 0;
     let mut needs_newline = false;
     let mut prev = None;
     for token in input {
@@ -79,7 +79,7 @@ where
                 }
             },
             lexer::Token::Punct(lexer::Punctuation::RBrace) => {
-                indents -= 1;
+                indents = indents.saturating_sub(1);
                 needs_newline = true;
                 if show_ws {
                     write!(w, "}}")?;
-- 
2.43.0


From dc8842e493cf484ae8c087d0f1224cfebd457def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 64/88] fix: a block swallowing the end of the file panicked
 the parser

---
 crates/dreammaker/src/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index d711b43..cc89aca 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -688,7 +688,6 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             }
 
             take_match!(self {
-                Token::Eof => break,
                 tok if tok == &terminator => break,
                 Token::Punct(Punctuation::Semicolon) => continue,
             } else {
-- 
2.43.0


From 3bf3fdfe2f3a5bce39f03296851dff191b3f7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:19 +0000
Subject: [PATCH 65/88] fix: stray interpolation ends underflowed and an
 unfinished macro call was reported nowhere

---
 crates/dreammaker/src/preprocessor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 75916eb..7f1764f 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -471,7 +471,7 @@ impl<'ctx> HasLocation for Preprocessor<'ctx> {
         match self.include_stack.stack.last() {
             Some(Include::File { lexer, .. }) => lexer.location(),
             Some(&Include::Expansion { location, .. }) => location,
-            None => Location::default(),
+            None => self.last_input_loc,
         }
     }
 }
@@ -1455,7 +1455,9 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1)
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From c5467f527a846a4901d352b676c16e766a01ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 66/88] fix: declaring operator** or operator>= panicked debug
 builds

---
 crates/dreammaker/src/intern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/intern.rs b/crates/dreammaker/src/intern.rs
index cef3b7f..bcd7172 100644
--- a/crates/dreammaker/src/intern.rs
+++ b/crates/dreammaker/src/intern.rs
@@ -487,6 +487,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator[]",
     "operator[]=",
     "operator*",
+    "operator**",
     "operator*=",
     "operator/",
     "operator/=",
@@ -508,6 +509,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator<=",
     "operator<=>",
     "operator>",
+    "operator>=",
     "operator>>",
     "operator>>=",
     "operator|",
-- 
2.43.0


From 093f7ed29bc1fab3e52cd6cffac4cc43771e9f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:56 +0000
Subject: [PATCH 67/88] fix: a line longer than 65535 bytes panicked

---
 crates/dreammaker/src/error.rs  |  2 +-
 crates/dreammaker/src/lexer.rs  |  8 +++-----
 crates/dreammaker/src/parser.rs | 14 +++++++-------
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index e17822f..6c43f5a 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -331,7 +331,7 @@ impl Location {
     }
 
     pub fn add_columns(mut self, num: u16) -> Location {
-        self.column += num;
+        self.column = self.column.saturating_add(num);
         self
     }
 
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 143e9a4..1bd1366 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -649,10 +649,8 @@ impl<'a> Iterator for LocationTracker<'a> {
         if ch == b'\n' {
             self.at_line_end = true;
         }
-        match self.location.column.checked_add(1) {
-            Some(new) => self.location.column = new,
-            None => panic!("per-line column limit of {} exceeded", self.location.column),
-        }
+        // Everything beyond the per-line column limit is located at it.
+        self.location.column = self.location.column.saturating_add(1);
         Some(ch)
     }
 }
@@ -1243,7 +1241,7 @@ impl<'ctx> Iterator for Lexer<'ctx> {
                     if !self.final_newline {
                         self.final_newline = true;
                         let mut location = self.location();
-                        location.column += 1;
+                        location.column = location.column.saturating_add(1);
                         return Some(LocatedToken {
                             location,
                             token: Token::Punct(Punctuation::Newline),
diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index cc89aca..195ae5d 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -715,7 +715,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             Some(i) => parts.push(i),
             None if !(absolute || spurious_lead) => return Ok(None),
             None => {
-                slash_loc.column += 1;
+                slash_loc = slash_loc.add_columns(1);
                 self.annotate_precise(slash_loc..slash_loc, || {
                     Annotation::IncompleteTreePath(absolute, parts.clone())
                 });
@@ -739,7 +739,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     *last = owned.into();
                 }
 
-                slash_loc.column += 1;
+                slash_loc = slash_loc.add_columns(1);
                 self.annotate_precise(slash_loc..slash_loc, || {
                     Annotation::IncompleteTreePath(absolute || always_absolute, parts.clone())
                 });
@@ -2112,7 +2112,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         if let Some(ident) = self.ident_in_seq(parts.len())? {
             parts.push((sep, ident));
         } else {
-            separator_loc.column += 1;
+            separator_loc = separator_loc.add_columns(1);
             self.annotate_precise(separator_loc..separator_loc, || {
                 Annotation::IncompleteTypePath(parts.clone(), sep)
             });
@@ -2124,7 +2124,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             if let Some(ident) = self.ident_in_seq(parts.len())? {
                 parts.push((sep, ident));
             } else {
-                separator_loc.column += 1;
+                separator_loc = separator_loc.add_columns(1);
                 self.annotate_precise(separator_loc..separator_loc, || {
                     Annotation::IncompleteTypePath(parts.clone(), sep)
                 });
@@ -2586,7 +2586,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     Term::SelfCall(args)
                 } else {
                     // bare dot
-                    dot_loc.column += 1;
+                    dot_loc = dot_loc.add_columns(1);
                     self.annotate_precise(dot_loc..dot_loc, || {
                         Annotation::IncompleteTypePath(Vec::new(), PathOp::Dot)
                     });
@@ -2700,7 +2700,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         let ident = match self.ident()? {
             Some(ident) => ident,
             None => {
-                index_op_loc.column += kind.name().len() as u16;
+                index_op_loc = index_op_loc.add_columns(kind.name().len() as u16);
                 self.annotate_precise(index_op_loc..index_op_loc, || {
                     Annotation::ScopedMissingIdent(belongs_to.clone())
                 });
@@ -2758,7 +2758,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         let ident = match self.ident()? {
             Some(ident) => ident,
             None => {
-                index_op_loc.column += kind.name().len() as u16;
+                index_op_loc = index_op_loc.add_columns(kind.name().len() as u16);
                 self.annotate_precise(index_op_loc..index_op_loc, || {
                     Annotation::ScopedMissingIdent(belongs_to.clone())
                 });
-- 
2.43.0


From b6dc93da6dc0da99b7dc2abce9e33235df66b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 68/88] fix: procs without a body at the end of a file were
 outlined outside of their type

---
 crates/dm-langserver/src/main.rs    | 2 +-
 crates/dreammaker/src/annotation.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index a65723a..1ff5755 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2201,7 +2201,7 @@ impl Engine {
 
             loop {
                 if let Some((range, _)) = iter.peek() {
-                    if range.start >= section_end {
+                    if range.start > section_end {
                         break;
                     }
                 }
diff --git a/crates/dreammaker/src/annotation.rs b/crates/dreammaker/src/annotation.rs
index 83a8e48..c05a98d 100644
--- a/crates/dreammaker/src/annotation.rs
+++ b/crates/dreammaker/src/annotation.rs
@@ -68,8 +68,10 @@ impl Default for AnnotationTree {
 
 impl AnnotationTree {
     pub fn insert(&mut self, place: std::ops::Range<Location>, value: Annotation) {
-        self.tree
-            .insert(range(place.start, place.end.pred()), value);
+        // An empty place, such as the body of a proc without one, counts as
+        // the end of what comes before it, not as a range ending before it starts.
+        let end = place.end.pred();
+        self.tree.insert(range(place.start.min(end), end), value);
         self.len += 1;
     }
 
-- 
2.43.0


From a1cab9a269c0f3f5c036cc158634f5477411b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 69/88] fix: macros of a file opened on its own had no outline,
 hover or definition

---
 crates/dm-langserver/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 1ff5755..5d88007 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -768,6 +768,7 @@ impl Engine {
                         // selective definition deletion/reintroduction is implemented.
                         self.objtree = Arc::new(parser.parse_object_tree());
                     }
+                    annotations.merge(pp.take_annotations().unwrap());
                     pp.finalize();
                     dreamchecker::run(&self.context, &self.objtree);
 
-- 
2.43.0


From 8e59fd5e2f3240a13a1da8b23f5b96dea425bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:31 +0000
Subject: [PATCH 70/88] fix: hovering over a member showed a global of the same
 name as what it overrides

---
 crates/dm-langserver/src/main.rs | 38 +++++++++++++-------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 5d88007..10ee3c9 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1150,7 +1150,6 @@ impl Engine {
         &self,
         proc_name: &str,
         mut provided_tok: Option<TypeRef>,
-        scoped: bool,
     ) -> Result<Vec<String>, jsonrpc::Error> {
         let mut results = Vec::new();
         let mut proclink = String::new();
@@ -1197,11 +1196,8 @@ impl Engine {
                 }
             }
 
-            if scoped {
-                provided_tok = ty.parent_type_without_root();
-            } else {
-                provided_tok = ty.parent_type();
-            }
+            // a global of the same name is not what this overrides
+            provided_tok = ty.parent_type_without_root();
         }
 
         if let Some(ds) = docstring {
@@ -1215,7 +1211,6 @@ impl Engine {
         &self,
         var_name: &str,
         mut provided_tok: Option<TypeRef>,
-        scoped: bool,
     ) -> Result<Vec<String>, jsonrpc::Error> {
         let mut results = Vec::new();
         let mut infos = String::new();
@@ -1243,11 +1238,8 @@ impl Engine {
                 }
             }
 
-            if scoped {
-                provided_tok = ty.parent_type_without_root();
-            } else {
-                provided_tok = ty.parent_type();
-            }
+            // a global of the same name is not what this overrides
+            provided_tok = ty.parent_type_without_root();
         }
         if !infos.is_empty() {
             results.push(infos);
@@ -1655,7 +1647,7 @@ impl Engine {
                                 docstring = Some(var.value.docs.text());
                             }
                         }
-                        next = current.parent_type();
+                        next = current.parent_type_without_root();
                     }
                     if !infos.is_empty() {
                         results.push(infos.into_iter().collect::<Vec<_>>().join("\n\n"));
@@ -1717,7 +1709,7 @@ impl Engine {
                                 docstring = Some(proc_value.docs.text());
                             }
                         }
-                        next = current.parent_type();
+                        next = current.parent_type_without_root();
                     }
                     if !infos.is_empty() {
                         results.push(infos.into_iter().collect::<Vec<_>>().join("\n\n"));
@@ -1732,26 +1724,26 @@ impl Engine {
                         self.find_unscoped_var(&iter, ty, proc_name, var_name)
                     {
                         if let Some(_decl) = ty.get_var_declaration(var_name) {
-                            results.append(&mut self.construct_var_hover(
-                                var_name,
-                                Some(ty),
-                                false,
-                            )?);
+                            results
+                                .append(&mut self.construct_var_hover(var_name, Some(ty))?);
                         }
                     }
                 },
                 Annotation::UnscopedCall(proc_name) if symbol_id.is_some() => {
                     let (ty, _) = self.find_type_context(&iter);
-                    let next = ty.or_else(|| Some(self.objtree.root()));
-                    results.append(&mut self.construct_proc_hover(proc_name, next, false)?);
+                    let mut next = ty.or_else(|| Some(self.objtree.root()));
+                    while let Some(ty) = next.filter(|ty| !ty.procs.contains_key(proc_name)) {
+                        next = ty.parent_type();
+                    }
+                    results.append(&mut self.construct_proc_hover(proc_name, next)?);
                 },
                 Annotation::ScopedCall(priors, proc_name) if symbol_id.is_some() => {
                     let next = self.find_scoped_type(&iter, priors);
-                    results.append(&mut self.construct_proc_hover(proc_name, next, true)?);
+                    results.append(&mut self.construct_proc_hover(proc_name, next)?);
                 },
                 Annotation::ScopedVar(priors, var_name) if symbol_id.is_some() => {
                     let next = self.find_scoped_type(&iter, priors);
-                    results.append(&mut self.construct_var_hover(var_name, next, true)?);
+                    results.append(&mut self.construct_var_hover(var_name, next)?);
                 },
                 Annotation::MacroUse { docs: Some(dc), .. } if !dc.is_empty() => {
                     results.push(dc.text());
-- 
2.43.0


From 7a9e82b31c185ccc11de8fe6f4617077dfcf7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 71/88] fix: completion in a type offered to override global
 variables and procs

---
 crates/dm-langserver/src/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/completion.rs b/crates/dm-langserver/src/completion.rs
index 5c3f1b9..43e1ef6 100644
--- a/crates/dm-langserver/src/completion.rs
+++ b/crates/dm-langserver/src/completion.rs
@@ -312,7 +312,7 @@ impl Engine {
                     });
                 }
             }
-            next = ty.parent_type();
+            next = ty.parent_type_without_root();
         }
     }
 
-- 
2.43.0


From 6af7c333ba102bfb314bc7a6f12ee8fddc679a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 72/88] fix: an overridden proc was not offered when completing
 the path to it

---
 crates/dm-langserver/src/completion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dm-langserver/src/completion.rs b/crates/dm-langserver/src/completion.rs
index 43e1ef6..679902a 100644
--- a/crates/dm-langserver/src/completion.rs
+++ b/crates/dm-langserver/src/completion.rs
@@ -369,9 +369,6 @@ impl Engine {
                 while let Some(ty) = next {
                     // reference a declared proc
                     for (name, proc) in ty.get().procs.iter() {
-                        if !skip.insert(("proc", name)) {
-                            continue;
-                        }
                         // declarations only
                         let proc_decl = match proc.declaration.as_ref() {
                             Some(decl) => decl,
@@ -380,6 +377,9 @@ impl Engine {
                         if proc_decl.kind.is_verb() != (decl == "verb") {
                             continue;
                         }
+                        if !skip.insert(("proc", name)) {
+                            continue;
+                        }
                         if contains(name, query) {
                             results.push(item_proc(ty, name, proc));
                         }
-- 
2.43.0


From a4b73560938a6d93b01deee5a6570cce98c80657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:14 +0000
Subject: [PATCH 73/88] fix: langserver: a checker outrun by a newer parse no
 longer publishes its diagnostics

---
 crates/dm-langserver/src/main.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 10ee3c9..5d8e206 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -169,6 +169,8 @@ impl ClientCaps {
 #[derive(Default)]
 struct DiagnosticsTracker {
     sent: HashSet<Url>,
+    /// Which parse of the environment the diagnostics belong to.
+    generation: usize,
 }
 
 impl DiagnosticsTracker {
@@ -521,6 +523,12 @@ impl Engine {
         let original_start = std::time::Instant::now();
         let mut start = original_start;
         eprintln!("environment: {}", environment.display());
+        // A dreamchecker still running for a previous parse has nothing more to say.
+        let generation = {
+            let mut tracker = self.diagnostics_tracker.lock().unwrap();
+            tracker.generation += 1;
+            tracker.generation
+        };
         if let Some(stem) = environment.file_stem() {
             self.issue_notification::<extras::WindowStatus>(extras::WindowStatusParams {
                 environment: Some(stem.to_string_lossy().into_owned()),
@@ -641,9 +649,11 @@ impl Engine {
                     &context.errors(),
                     related_info,
                 );
-                diagnostics_tracker.lock().unwrap().send(map);
-
-                issue_notification::<extras::WindowStatus>(Default::default());
+                let mut tracker = diagnostics_tracker.lock().unwrap();
+                if tracker.generation == generation {
+                    tracker.send(map);
+                    issue_notification::<extras::WindowStatus>(Default::default());
+                }
             });
         } else {
             self.issue_notification::<extras::WindowStatus>(Default::default());
-- 
2.43.0


From 6117ce357c79acf0d62119141b40d7204cbb1cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:30 +0000
Subject: [PATCH 74/88] fix: langserver: an object tree overtaken by a newer
 one is not sent

---
 crates/dm-langserver/src/main.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 5d8e206..cbff6e7 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -286,6 +286,8 @@ struct Engine {
     context: dm::Context,
     defines: Option<dm::preprocessor::DefineHistory>,
     objtree: Arc<dm::objtree::ObjectTree>,
+    objtree_updates: usize,
+    objtree_latest_sent: Arc<Mutex<usize>>,
     references_table: background::Background<find_references::ReferencesTable>,
 
     annotations: HashMap<Url, (FileId, FileId, Rc<AnnotationTree>)>,
@@ -309,6 +311,8 @@ impl Engine {
             context: dm::Context::default(),
             defines: None,
             objtree: Default::default(),
+            objtree_updates: 0,
+            objtree_latest_sent: Default::default(),
             references_table: Default::default(),
 
             annotations: Default::default(),
@@ -401,14 +405,22 @@ impl Engine {
     // ------------------------------------------------------------------------
     // Object tree explorer
 
-    fn update_objtree(&self) {
+    fn update_objtree(&mut self) {
         if self.client_caps.object_tree_2 {
             issue_notification::<extras::ObjectTree2>(extras::ObjectTree2Params {});
         } else if self.client_caps.object_tree {
             let root = self.objtree_recurse(self.objtree.root());
+            self.objtree_updates += 1;
+            let update = self.objtree_updates;
+            let latest_sent = self.objtree_latest_sent.clone();
             // offload serialization costs to another thread
             std::thread::spawn(move || {
                 let start = std::time::Instant::now();
+                let mut latest_sent = latest_sent.lock().unwrap();
+                if *latest_sent > update {
+                    return; // a newer tree has overtaken this one
+                }
+                *latest_sent = update;
                 issue_notification::<extras::ObjectTree>(extras::ObjectTreeParams { root });
                 let elapsed = start.elapsed();
                 eprintln!(
-- 
2.43.0


From 479ad65a2d55629aec02908949e3b16389b574c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 75/88] fix: parser: a run of //! comments at the start of a
 block documents its item, not just the first

---
 crates/dreammaker/src/parser.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 195ae5d..ac467c7 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -654,6 +654,15 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         self.next_comment_of_target(DocTarget::EnclosingItem)
     }
 
+    /// Read all the `//!` comments at the start of a block, each of which may be on its own line.
+    fn block_doc_comments(&mut self, docs: &mut DocCollection) -> Result<(), DMError> {
+        while let Some(comment) = self.enclosing_doc_comment()? {
+            docs.push(comment);
+            self.exact(Token::Punct(Punctuation::Semicolon))?;
+        }
+        Ok(())
+    }
+
     // ------------------------------------------------------------------------
     // Object tree - root
 
@@ -928,9 +937,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 let start = self.updated_location();
 
                 // Inside-block `//!` comments for types.
-                while let Some(comment) = self.enclosing_doc_comment()? {
-                    docs.push(comment);
-                }
+                self.block_doc_comments(&mut docs)?;
                 if !docs.is_empty() && (proc_builder.is_some() || var_type.is_some()) {
                     // Can't apply docs to `var/` or `proc/` blocks.
                     DMError::new(
@@ -1218,9 +1225,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             body_tt.push(LocatedToken::new(self.location, Punct(LBrace)));
 
             // enclosing doc comments `//!` can appear after the `{`
-            while let Some(comment) = self.enclosing_doc_comment()? {
-                docs.push(comment);
-            }
+            self.block_doc_comments(&mut docs)?;
 
             // read the rest of the line
             while self.exact(Punct(RBrace))?.is_none() {
-- 
2.43.0


From ea40dda0d37f75f417b8aaf80c4997b555fcb152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 76/88] fix: lexer: the second asterisk of /** is not part of
 the comment's text

---
 crates/dreammaker/src/lexer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 1bd1366..a7092f3 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -775,15 +775,17 @@ impl<'ctx> Lexer<'ctx> {
 
         // read the first character and check for being a comment
         let mut comment = None;
+        let mut opener = false;
         match self.next() {
-            // '*' must be tracked to accurately end the block comment, and
-            // will be stripped by the documentation parser.
+            // '*' must be tracked to accurately end the block comment, but is
+            // not part of its text.
             Some(b'*') => {
                 comment = Some(DocComment::new(
                     CommentKind::Block,
                     DocTarget::FollowingItem,
                 ));
                 buffer[1] = b'*';
+                opener = true;
             },
             // '!' will not be skipped by the documentation parser, and is not
             // important to checking when the block comment has ended.
@@ -818,7 +820,7 @@ impl<'ctx> Lexer<'ctx> {
                 }
             }
 
-            if buffer[0] != 0 && comment.is_some() {
+            if buffer[0] != 0 && comment.is_some() && !std::mem::take(&mut opener) {
                 comment_text.push(buffer[0]);
             }
         }
-- 
2.43.0


From c0d84ef8332b1d19ae0efe37286a50996f1e254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 77/88] fix: docs: block comments and runs of line comments are
 separate paragraphs

---
 crates/dreammaker/src/docs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/docs.rs b/crates/dreammaker/src/docs.rs
index 3c4dc14..c2bd0a2 100644
--- a/crates/dreammaker/src/docs.rs
+++ b/crates/dreammaker/src/docs.rs
@@ -36,7 +36,12 @@ impl DocCollection {
             match each.kind {
                 CommentKind::Block => {
                     if !line_comments.is_empty() {
-                        simplify(&mut output, &line_comments, '/');
+                        if !output.is_empty() {
+                            output.push('\n');
+                        }
+                        if simplify(&mut output, &line_comments, '/') {
+                            output.push('\n');
+                        }
                         line_comments.clear();
                     }
                     if each.is_empty() {
@@ -56,6 +61,9 @@ impl DocCollection {
             }
         }
         if !line_comments.is_empty() {
+            if !output.is_empty() {
+                output.push('\n');
+            }
             simplify(&mut output, &line_comments, '/');
         }
         output
-- 
2.43.0


From e73227c77431839ac09836b508c74213fce166ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 78/88] fix: dmdoc: a multiple of 256 broken links did not
 count as a failure in a dry run

---
 crates/dmdoc/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index fd35482..7f44cee 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -660,7 +660,8 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         // Ensure the diagnostic count is not increased after this point.
         let exit_code = diagnostic_count.into_inner();
         if dry_run {
-            std::process::exit(exit_code);
+            // An exit status has only 8 bits, and must not wrap around to 0.
+            std::process::exit(exit_code.min(255));
         }
     }
 
-- 
2.43.0


From 2c16292527179b9a66026974a0d9023a0db1ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:09 +0000
Subject: [PATCH 79/88] fix: dmdoc: comments on the root's var block made an
 (unknown) page with a broken link

---
 crates/dmdoc/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 7f44cee..9b78f91 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -512,8 +512,9 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
             }
         }
 
-        // file the type under its module as well
-        if let Some(ref block) = parsed_type.docs {
+        // file the type under its module as well, unless it is the root, which
+        // can be documented by way of its `var` block but is in no module
+        if let Some(block) = parsed_type.docs.as_ref().filter(|_| !ty.is_root()) {
             let module = module_entry(&mut modules1, &context.file_path(ty.location.file));
             module.items_wip.push((
                 ty.location.line,
-- 
2.43.0


From 564215884ee5abf323cf34b2b3e11e29db1792d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:21 +0000
Subject: [PATCH 80/88] fix: langserver: extools: requests made at the
 initialized event could find no connection yet

---
 crates/dm-langserver/src/debugger/extools.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 9226d44..33152c8 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -158,7 +158,6 @@ pub struct Extools {
 impl Extools {
     fn from_stream(seq: Arc<SequenceNumber>, stream: TcpStream) -> (Extools, ExtoolsThread) {
         output!(in seq, "[extools] Connected.");
-        seq.issue_event(dap_types::InitializedEvent);
 
         let sender = ExtoolsSender {
             seq: seq.clone(),
@@ -397,6 +396,9 @@ struct ExtoolsThread {
 
 impl ExtoolsThread {
     fn read_loop(&mut self) {
+        // The connection has been handed over by now, so requests can be made.
+        self.seq.issue_event(dap_types::InitializedEvent);
+
         let mut buffer = Vec::new();
         let mut read_buf = [0u8; 4096];
         loop {
-- 
2.43.0


From 3e995333e7313a345fdcfe4fadf329d7a155f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:21 +0000
Subject: [PATCH 81/88] fix: langserver: clearing a breakpoint also cleared one
 of another kind at the same instruction

---
 crates/dm-langserver/src/debugger/mod.rs | 51 ++++++++++++++++--------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index aa484e0..4154527 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -354,6 +354,15 @@ impl Debugger {
         });
     }
 
+    /// The breakpoints of everything but the given file.
+    fn saved_elsewhere(&self, file_id: FileId) -> HashSet<(String, usize, i64)> {
+        self.saved_breakpoints
+            .iter()
+            .filter(|&(&id, _)| id != file_id)
+            .flat_map(|(_, saved)| saved.iter().cloned())
+            .collect()
+    }
+
     fn cull_thread_list(&mut self) {
         // Cull threads other than the main thread so that VSC goes back to
         // acting like the application is single-threaded, rather than showing
@@ -666,6 +675,7 @@ impl Debugger {
         }
 
         let inputs = params.breakpoints.unwrap_or_default();
+        let elsewhere = self.saved_elsewhere(file_id);
         let saved = self.saved_breakpoints.entry(file_id).or_default();
         let mut keep = HashSet::new();
 
@@ -728,7 +738,9 @@ impl Debugger {
 
                 saved.retain(|k| {
                     if !keep.contains(k) {
-                        extools.unset_breakpoint(&k.0, k.1, k.2);
+                        if !elsewhere.contains(k) {
+                            extools.unset_breakpoint(&k.0, k.1, k.2);
+                        }
                         false
                     } else {
                         true
@@ -806,13 +818,15 @@ impl Debugger {
 
                 saved.retain(|k| {
                     if !keep.contains(k) {
-                        let _ = auxtools.unset_breakpoint(&auxtools_types::InstructionRef {
-                            proc: auxtools_types::ProcRef {
-                                path: k.0.clone(),
-                                override_id: k.1 as u32,
-                            },
-                            offset: k.2 as u32,
-                        });
+                        if !elsewhere.contains(k) {
+                            let _ = auxtools.unset_breakpoint(&auxtools_types::InstructionRef {
+                                proc: auxtools_types::ProcRef {
+                                    path: k.0.clone(),
+                                    override_id: k.1 as u32,
+                                },
+                                offset: k.2 as u32,
+                            });
+                        }
                         false
                     } else {
                         true
@@ -832,6 +846,7 @@ impl Debugger {
 
         let inputs = params.breakpoints;
         let mut breakpoints = Vec::new();
+        let elsewhere = self.saved_elsewhere(file_id);
         let saved = self.saved_breakpoints.entry(file_id).or_default();
         let mut keep = HashSet::new();
 
@@ -881,7 +896,9 @@ impl Debugger {
 
                 saved.retain(|k| {
                     if !keep.contains(k) {
-                        extools.unset_breakpoint(&k.0, k.1, k.2);
+                        if !elsewhere.contains(k) {
+                            extools.unset_breakpoint(&k.0, k.1, k.2);
+                        }
                         false
                     } else {
                         true
@@ -936,13 +953,15 @@ impl Debugger {
 
                 saved.retain(|k| {
                     if !keep.contains(k) {
-                        let _ = auxtools.unset_breakpoint(&auxtools_types::InstructionRef {
-                            proc: auxtools_types::ProcRef {
-                                path: k.0.clone(),
-                                override_id: k.1 as u32,
-                            },
-                            offset: k.2 as u32,
-                        });
+                        if !elsewhere.contains(k) {
+                            let _ = auxtools.unset_breakpoint(&auxtools_types::InstructionRef {
+                                proc: auxtools_types::ProcRef {
+                                    path: k.0.clone(),
+                                    override_id: k.1 as u32,
+                                },
+                                offset: k.2 as u32,
+                            });
+                        }
                         false
                     } else {
                         true
-- 
2.43.0


From 7d68533f6ef6606aecb441b9f41841b7e5927ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:34 +0000
Subject: [PATCH 82/88] fix: langserver: a stddef.dm proc written with /proc/
 was looked up without its own definition

---
 crates/dm-langserver/src/debugger/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index 4154527..058d1de 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -212,7 +212,10 @@ fn get_proc<'o>(
             return ty_proc
                 .value
                 .iter()
-                .skip_while(|pv| pv.location.is_builtins() && !STDDEF_PROCS.contains(&proc_ref))
+                .skip_while(|pv| {
+                    pv.location.is_builtins()
+                        && !STDDEF_PROCS.contains(&format!("{typename}/{procname}").as_str())
+                })
                 .nth(override_id);
         }
     }
-- 
2.43.0


From be1ee1504373f11d6d0822c48d3e94511b1eb4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:34 +0000
Subject: [PATCH 83/88] fix: langserver: the instruction references of stack
 frames could not be disassembled

---
 crates/dm-langserver/src/debugger/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index 058d1de..a9f2b49 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -989,7 +989,7 @@ impl Debugger {
                         name: ex_frame.proc.clone(),
                         id: (i * extools.get_all_threads().len()) as i64 + params.threadId,
                         instructionPointerReference: Some(format!(
-                            "{}@{}#{}",
+                            "{}#{}@{}",
                             ex_frame.proc, ex_frame.override_id, ex_frame.offset
                         )),
                         ..Default::default()
@@ -1071,7 +1071,7 @@ impl Debugger {
                         name: aux_proc.path.to_owned(),
                         id: aux_frame.id as i64,
                         instructionPointerReference: Some(format!(
-                            "{}@{}#{}",
+                            "{}#{}@{}",
                             aux_proc.path, aux_proc.override_id, aux_frame.instruction.offset
                         )),
                         ..Default::default()
-- 
2.43.0


From d0a9378433c4b130fb1a9fe2a204f7fc80280e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:34 +0000
Subject: [PATCH 84/88] fix: langserver: extools: asking for variables before
 any call stack was known ended the debug adapter

---
 crates/dm-langserver/src/debugger/extools.rs | 3 +++
 crates/dm-langserver/src/debugger/mod.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 33152c8..42a4fcf 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -223,6 +223,9 @@ impl Extools {
     ) -> Result<(ThreadInfo, usize), Box<dyn Error>> {
         let frame_id = frame_id as usize;
         let threads = self.threads.lock().unwrap();
+        if threads.is_empty() {
+            return Err(Box::new(super::GenericError("Getting call stack failed")));
+        }
         let thread_id = (frame_id % threads.len()) as i64;
         let frame_no = frame_id / threads.len();
         let thread = threads.get(&thread_id).cloned().ok_or_else(|| {
diff --git a/crates/dm-langserver/src/debugger/mod.rs b/crates/dm-langserver/src/debugger/mod.rs
index a9f2b49..c4f781a 100644
--- a/crates/dm-langserver/src/debugger/mod.rs
+++ b/crates/dm-langserver/src/debugger/mod.rs
@@ -1147,6 +1147,9 @@ impl Debugger {
                 let frame_id = frameId as usize;
 
                 let threads = extools.get_all_threads();
+                if threads.is_empty() {
+                    return Err(Box::new(GenericError("Getting call stack failed")));
+                }
                 let thread_id = (frame_id % threads.len()) as i64;
                 let frame_no = frame_id / threads.len();
 
-- 
2.43.0


From d6eafbfe141e4164541d41b1818d72834d7503ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:05 +0000
Subject: [PATCH 85/88] fix: langserver: extools: a connection that was reset
 ended its thread without announcing the end

---
 crates/dm-langserver/src/debugger/extools.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 42a4fcf..17e478e 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -416,7 +416,10 @@ impl ExtoolsThread {
                     }
                     buffer.extend_from_slice(slice);
                 },
-                Err(e) => panic!("extools read error: {e:?}"),
+                Err(e) => {
+                    output!(in self.seq, "[extools] Connection lost: {}", e);
+                    break;
+                },
             }
 
             // chop off as many full messages from the buffer as we can
-- 
2.43.0


From 4ec764664e684e8e19e8c75e603d4da159408095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:02 +0000
Subject: [PATCH 86/88] fix: langserver: extools: a request made after the game
 was gone ended the debug adapter

---
 crates/dm-langserver/src/debugger/extools.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dm-langserver/src/debugger/extools.rs b/crates/dm-langserver/src/debugger/extools.rs
index 17e478e..26ace3f 100644
--- a/crates/dm-langserver/src/debugger/extools.rs
+++ b/crates/dm-langserver/src/debugger/extools.rs
@@ -248,7 +248,7 @@ impl Extools {
                 proc: proc_ref.to_owned(),
                 override_id,
             }));
-            bytecode_rx.recv().expect("error receiving bytecode").instructions
+            bytecode_rx.recv().map_or(Vec::new(), |proc| proc.instructions)
         })
     }
 
@@ -631,8 +631,8 @@ impl ExtoolsSender {
         .expect("extools encode error");
         buffer.push(0);
         // TODO: needs more synchronization
-        (&self.stream)
-            .write_all(&buffer[..])
-            .expect("extools write error");
+        if let Err(e) = (&self.stream).write_all(&buffer[..]) {
+            output!(in self.seq, "[extools] Sending failed: {}", e);
+        }
     }
 }
-- 
2.43.0


From 1517ceafe0fef98137c0e629736740f5f54dc9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:52 +0000
Subject: [PATCH 87/88] fix: take the text of #warn and #error as it is written

A bracket in it began an interpolation, which swallowed what followed, and
on the last line of a file without a final newline it was reported as an
unterminated string.
---
 crates/dreammaker/src/lexer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index a7092f3..a02ddf3 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -1043,6 +1043,8 @@ impl<'ctx> Lexer<'ctx> {
         loop {
             let ch = match self.next() {
                 Some(ch) => ch,
+                // The text of `#warn` and `#error` also ends at the end of the file.
+                None if end == b"\n" => break,
                 None => {
                     self.context
                         .register_error(DMError::new(start_loc, "unterminated string literal"));
@@ -1081,7 +1083,8 @@ impl<'ctx> Lexer<'ctx> {
                     buf.push(ch);
                 },
                 // `backslash` is false hereafter
-                b'[' => {
+                // The text of `#warn` and `#error` is not interpolated.
+                b'[' if end != b"\n" => {
                     self.interp_stack.push(Interpolation {
                         end,
                         bracket_depth: 1,
-- 
2.43.0


From 6f2a0842c647e696323aad02f1fa384c2ff695a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:57 +0000
Subject: [PATCH 88/88] fix: paste a number written in a macro's body

`a##1` was left as two tokens, while pasting a parameter that is a number
gave one identifier.
---
 crates/dreammaker/src/preprocessor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 7f1764f..35896e0 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1381,6 +1381,12 @@ impl<'ctx> Preprocessor<'ctx> {
                                                 ws,
                                             )),
                                         },
+                                        (Some(Token::Ident(first, ws)), Some(Token::Int(second))) => {
+                                            expansion.push_back(Token::Ident(
+                                                format!("{first}{second}").into(),
+                                                ws,
+                                            ));
+                                        },
                                         (non_ident_first, Some(Token::Ident(second, ws))) => {
                                             expansion.extend(non_ident_first);
                                             match params.iter().position(|x| *x == second) {
-- 
2.43.0

