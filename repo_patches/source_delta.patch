From 8d22dca15b7d059e3facb4668db0fa1716a1893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 01/39] fix: rotate Southwest clockwise to Northwest, not
 Northeast

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..dfd3f2b 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -172,7 +172,7 @@ impl Dir {
             Dir::Northeast => Dir::Southeast,
             Dir::Northwest => Dir::Northeast,
             Dir::Southeast => Dir::Southwest,
-            Dir::Southwest => Dir::Northeast,
+            Dir::Southwest => Dir::Northwest,
         }
     }
 
-- 
2.43.0


From c111b1185d1739f5883a78a42ed1fc0a3ba1f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 02/39] fix: closing brace after a partial unindent must not
 underflow the block depth

---
 crates/dreammaker/src/indents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..bc9f593 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -177,7 +177,7 @@ where
             },
             Token::Punct(Punctuation::RBrace) => {
                 self.current = match self.current {
-                    None => {
+                    None | Some((_, 0)) => {
                         DMError::new(self.last_input_loc, "unmatched right brace")
                             .register(self.context);
                         None
-- 
2.43.0


From a06a82b7ed90787b9195434b05051bd26d5047b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 03/39] fix: reject the map key 'ymp', it is Key::invalid

BYOND's largest key is 'ymo' (65534), as the error text says; 65535 is the
sentinel Key::invalid() and was accepted by the reader.
---
 crates/dmm-tools/src/dmm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dmm-tools/src/dmm.rs b/crates/dmm-tools/src/dmm.rs
index f1b1647..caf0df3 100644
--- a/crates/dmm-tools/src/dmm.rs
+++ b/crates/dmm-tools/src/dmm.rs
@@ -408,6 +408,8 @@ fn advance_key(current: KeyType, next_digit: KeyType) -> Result<KeyType, &'stati
     current
         .checked_mul(52)
         .and_then(|b| b.checked_add(next_digit))
+        // 'ymp' is reserved for `Key::invalid`
+        .filter(|&key| key != KeyType::MAX)
         .ok_or({
             // https://www.byond.com/forum/?post=2340796#comment23770802
             "Key overflow, max is 'ymo'"
-- 
2.43.0


From 8cac24c57bcd63b2bbcf2ab09617b1e0b7149b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:31 +0000
Subject: [PATCH 04/39] fix: map strings ending in an escaped backslash

The second backslash of '\\' started another escape, so the closing quote of
"back\\" was taken for an escaped one and the following variables were lost.
---
 crates/dmm-tools/src/dmm/read.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..62734f8 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -89,14 +89,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         if in_data_block {
             if in_varedit_block {
                 if in_quote_block {
-                    if ch == b'\\' {
+                    if escaping {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
+                        escaping = false;
+                    } else if ch == b'\\' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = false;
+                        escaping = true;
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-- 
2.43.0


From 39098055ca85f5b47886fdbcdbe74cb5220646ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 05/39] fix: read {"..."} strings in map variables

The map writer emits this form for strings which contain quotes, but the reader
took the first quote inside for the end of the string and the closing brace for
the end of the variable block, losing the variables after it.
---
 crates/dmm-tools/src/dmm/read.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 62734f8..8ca9577 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -31,6 +31,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut in_varedit_block = false;
     let mut after_data_block = false;
     let mut escaping = false;
+    let mut in_long_string = false;
+    let mut closing_long_string = false;
     let mut skip_whitespace = false;
 
     let mut curr_key_start_location = Location::default();
@@ -97,6 +99,16 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                         escaping = true;
+                        closing_long_string = false;
+                    } else if in_long_string {
+                        // {"..."} only ends at a quote followed by a brace
+                        set_curr_datum_start_location!();
+                        curr_datum.push(ch);
+                        if closing_long_string && ch == b'}' {
+                            in_quote_block = false;
+                            in_long_string = false;
+                        }
+                        closing_long_string = ch == b'"';
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
@@ -115,6 +127,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
                     if ch == b'"' {
                         set_curr_datum_start_location!();
+                        in_long_string = curr_datum.last() == Some(&b'{');
+                        closing_long_string = false;
                         curr_datum.push(ch);
                         in_quote_block = true;
                     } else if ch == b'=' && curr_var.is_empty() {
-- 
2.43.0


From ed6afbe37a6321e51094e023a7767ae9527f0087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 06/39] fix: FileList::get_path of the first unregistered id
 must not index past the end

---
 crates/dreammaker/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index e17822f..a7eab5b 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -79,7 +79,7 @@ impl FileList {
             return Ref::map(files, |_| Path::new("(builtins)"));
         }
         let idx = (file.0 - FILEID_MIN.0) as usize;
-        if idx > files.len() {
+        if idx >= files.len() {
             Ref::map(files, |_| Path::new("(unknown)"))
         } else {
             Ref::map(files, |files| files[idx].as_path())
-- 
2.43.0


From 1ab08e0b3979d1861bd0ddb6c70010344c1f1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 07/39] fix: FileList::register must not hand out FILEID_BAD

With 65534 files registered the next one was given 0xffff, which stands for an
invalid file, instead of reporting that the limit is exceeded.
---
 crates/dreammaker/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index a7eab5b..a275b80 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -57,7 +57,7 @@ impl FileList {
             return id;
         }
         let mut files = self.files.borrow_mut();
-        if files.len() > FILEID_MAX.0 as usize {
+        if files.len() >= FILEID_MAX.0 as usize {
             panic!("file limit of {} exceeded", FILEID_MAX.0);
         }
         let len = files.len() as u16;
-- 
2.43.0


From 0dfe6806a98870046ab961a7f7b2ba1b5bd06d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 08/39] fix: don't expand macros in conditions that are not
 evaluated

Inside a region that is left out, the name of a function-like macro in an
#if or #elif took the following lines with it, directives included.
---
 crates/dreammaker/src/preprocessor.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..ab7fd45 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -619,8 +619,22 @@ impl<'ctx> Preprocessor<'ctx> {
     }
 
     fn evaluate_inner(&mut self) -> Result<bool, DMError> {
-        // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
+
+        // If we're inside an inactive #if, don't actually evaluate, or even
+        // expand, which may read past the end of the line.
+        // #ifdef FOO -- #if FOO == 5 will error otherwise.
+        if self.is_disabled() {
+            while let Some(tok) = self.inner_next() {
+                self.last_input_loc = tok.location;
+                if let Token::Punct(Punctuation::Newline) = tok.token {
+                    break;
+                }
+            }
+            return Ok(false);
+        }
+
+        // pump real_next to fill output until we get a real newline on input
         while let Some(tok) = self.inner_next() {
             self.last_input_loc = tok.location;
 
@@ -633,13 +647,6 @@ impl<'ctx> Preprocessor<'ctx> {
             }
         }
 
-        // If we're inside an inactive #if, don't actually evaluate.
-        // #ifdef FOO -- #if FOO == 5 will error otherwise.
-        if self.is_disabled() {
-            self.output.clear();
-            return Ok(false);
-        }
-
         let expr = crate::parser::parse_expression(self.context, start, self.output.drain(..))?;
         Ok(
             crate::constants::preprocessor_evaluate(
-- 
2.43.0


From 8e468fe311472362763b780760ae7579146e593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 09/39] fix: accept the end of an interpolated string whose
 beginning was left out

---
 crates/dreammaker/src/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index ab7fd45..5edb6de 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1222,7 +1222,10 @@ impl<'ctx> Preprocessor<'ctx> {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
                                 match other {
                                     Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+                                    Token::InterpStringEnd(_) => {
+                                        self.in_interp_string =
+                                            self.in_interp_string.saturating_sub(1)
+                                    },
                                     _ => {},
                                 }
                                 self.push_output(other);
@@ -1398,7 +1401,9 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1)
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From 4daf893a14cc612745696d87c3bd9303f0983cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 10/39] fix: end a condition at its line when a function-like
 macro is not called

The token after the name was taken with it even when it ended the line, so
the condition went on with the following lines.
---
 crates/dreammaker/src/preprocessor.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 5edb6de..4f7dd4d 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -645,6 +645,17 @@ impl<'ctx> Preprocessor<'ctx> {
             if let Err(e) = self.real_next(tok.token, true) {
                 self.context.register_error(e);
             }
+
+            // a function-like macro that isn't called takes the token after
+            // its name with it, which may have been the end of the line
+            if let Some(LocatedToken {
+                token: Token::Punct(Punctuation::Newline),
+                ..
+            }) = self.output.back()
+            {
+                self.output.pop_back();
+                break;
+            }
         }
 
         let expr = crate::parser::parse_expression(self.context, start, self.output.drain(..))?;
-- 
2.43.0


From f80d86fc3d659618ebc2d5a8373ad36125bfbd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:49 +0000
Subject: [PATCH 11/39] fix: constant trigonometric functions take and return
 degrees

---
 crates/dreammaker/src/constants.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ad7a611..ecb2f40 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -604,6 +604,24 @@ fn constant_ident_lookup(
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
+// DM's trigonometric functions work in degrees.
+
+fn sin_degrees(x: f32) -> f32 {
+    x.to_radians().sin()
+}
+
+fn cos_degrees(x: f32) -> f32 {
+    x.to_radians().cos()
+}
+
+fn arcsin_degrees(x: f32) -> f32 {
+    x.asin().to_degrees()
+}
+
+fn arccos_degrees(x: f32) -> f32 {
+    x.acos().to_degrees()
+}
+
 struct ConstantFolder<'a> {
     context: Option<&'a Context>,
     tree: Option<&'a mut ObjectTree>,
@@ -852,10 +870,10 @@ impl<'a> ConstantFolder<'a> {
                 "generator" => Constant::Call(ConstFn::Generator, self.arguments(args)?),
                 "vector" => Constant::Call(ConstFn::Vector, self.arguments(args)?),
                 // constant-evaluatable functions
-                "sin" => self.trig_op(args, f32::sin)?,
-                "cos" => self.trig_op(args, f32::cos)?,
-                "arcsin" => self.trig_op(args, f32::asin)?,
-                "arccos" => self.trig_op(args, f32::acos)?,
+                "sin" => self.trig_op(args, sin_degrees)?,
+                "cos" => self.trig_op(args, cos_degrees)?,
+                "arcsin" => self.trig_op(args, arcsin_degrees)?,
+                "arccos" => self.trig_op(args, arccos_degrees)?,
                 "rgb" => Constant::String(self.rgb(args)?.into()),
                 "defined" if self.defines.is_some() => {
                     let defines = self.defines.unwrap(); // annoying, but keeps the match clean
-- 
2.43.0


From 92fad5dd8708d88e86f27033736df809122d0214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 12/39] fix: null equals null in constant expressions whatever
 type it was declared with

---
 crates/dreammaker/src/constants.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ecb2f40..b8ecb5a 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -788,7 +788,7 @@ impl<'a> ConstantFolder<'a> {
     }
 
     fn binary(&mut self, lhs: Constant, rhs: Constant, op: BinaryOp) -> Result<Constant, DMError> {
-        use self::Constant::{Float, String};
+        use self::Constant::{Float, Null, String};
 
         match (op, lhs, rhs) {
             (BinaryOp::Add, Float(lhs), Float(rhs)) => Ok(Constant::from(lhs + rhs)),
@@ -832,6 +832,9 @@ impl<'a> ConstantFolder<'a> {
             (BinaryOp::Add, String(lhs), String(rhs)) => {
                 Ok(String((lhs.into_owned() + &rhs).into()))
             },
+            // null is null, whatever type it was declared as
+            (BinaryOp::Eq, Null(_), Null(_)) => Ok(Constant::from(true)),
+            (BinaryOp::NotEq, Null(_), Null(_)) => Ok(Constant::from(false)),
             (BinaryOp::Eq, lhs, rhs) => Ok(Constant::from(lhs == rhs)),
             (BinaryOp::NotEq, lhs, rhs) => Ok(Constant::from(lhs != rhs)),
             (BinaryOp::And, lhs, rhs) => Ok(if lhs.to_bool() { rhs } else { lhs }),
-- 
2.43.0


From 3d7b82df842711690ed5469f9ac11ab327b900d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 13/39] fix: rgb() accepts named components in any order and
 reports missing ones

---
 crates/dreammaker/src/constants.rs | 34 +++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index b8ecb5a..e0358ce 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1216,13 +1216,16 @@ impl<'a> ConstantFolder<'a> {
             ColorSpace::Rgb // Default
         };
 
-        let mut value_vec: Vec<f64> = vec![];
+        // The three components, then alpha.
+        let mut values: [Option<f64>; 4] = [None; 4];
+        let mut next_pos = 0;
 
-        for (arg_pos, (value, potential_kwarg_value)) in arguments.iter().enumerate() {
+        for (value, potential_kwarg_value) in arguments.iter() {
             let mut to_check = value;
+            let mut pos = next_pos;
 
             // Determines the range based on predetermined colorspace
-            let mut range = match arg_pos {
+            let mut range = match pos {
                 0 => match space {
                     ColorSpace::Rgb => 0..=255, //r
                     ColorSpace::Hsv => 0..=360, //h
@@ -1249,6 +1252,12 @@ impl<'a> ConstantFolder<'a> {
                 if let Some(kwarg) = value.as_str() {
                     to_check = kwarg_value; // Set the value to actually check to be our associated vaue
 
+                    pos = match kwarg {
+                        "r" | "red" | "h" | "hue" => 0,
+                        "g" | "green" | "s" | "saturation" | "c" | "chroma" => 1,
+                        "a" | "alpha" => 3,
+                        _ => 2,
+                    };
                     range = match kwarg {
                         "r" | "red" | "g" | "green" | "b" | "blue" => 0..=255,
                         "h" | "hue" => 0..=360,
@@ -1283,28 +1292,33 @@ impl<'a> ConstantFolder<'a> {
                         .with_location(self.location));
                 }
                 let clamped = std::cmp::max(::std::cmp::min(i, *range.end()), *range.start());
-                value_vec.push(clamped.into());
+                if let Some(slot) = values.get_mut(pos) {
+                    *slot = Some(clamped.into());
+                }
+                next_pos += 1;
             } else {
                 return Err(self.error("malformed rgb() call, value wasn't an int"));
             }
         }
 
-        assert!(value_vec.len() >= 3); // Make sure we got 3+ values
+        let [Some(first), Some(second), Some(third), positional_alpha] = values else {
+            return Err(self.error("malformed rgb() call, must have 3 color components"));
+        };
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-            ColorSpace::Rgb => Rgb::new(value_vec[0], value_vec[1], value_vec[2]),
+            ColorSpace::Rgb => Rgb::new(first, second, third),
             ColorSpace::Hsv => {
-                Hsv::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
+                Hsv::new(first, second * 0.01, third * 0.01).into()
             },
             ColorSpace::Hsl => {
-                Hsl::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
+                Hsl::new(first, second * 0.01, third * 0.01).into()
             },
-            ColorSpace::Hcy => Lch::new(value_vec[2], value_vec[1], value_vec[0]).into(),
+            ColorSpace::Hcy => Lch::new(third, second, first).into(),
         };
 
         // Extract the raw 4th alpha positional argument if it wasn't a kwarg
-        let alpha = color_args.a.or_else(|| value_vec.get(3).map(|&x| x as i32));
+        let alpha = color_args.a.or(positional_alpha.map(|x| x as i32));
 
         // APPARENTLY the author thinks fractional rgb is a thing, hence the rounding
         if let Some(alpha) = alpha {
-- 
2.43.0


From 3a3b63d7e428aa529806716750c11cd192b3af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 14/39] fix: a constant that failed to evaluate is not reported
 as recursive later

---
 crates/dreammaker/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index e0358ce..7c5efdd 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -596,11 +596,12 @@ fn constant_ident_lookup(
         } else {
             Some(&type_hint)
         },
-    )?;
+    );
     // and store it into 'value', then return it
     let var = tree[ty].vars.get_mut(ident).unwrap();
-    var.value.constant = Some(value.clone());
     var.value.being_evaluated = false;
+    let value = value?;
+    var.value.constant = Some(value.clone());
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
-- 
2.43.0


From b06541864f2e7c351bdccdb261020fa66acba7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 15/39] fix: do not overflow the column of the final newline
 after a line of 65535 columns

---
 crates/dreammaker/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..8d9dd28 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -1204,7 +1204,7 @@ impl<'ctx> Iterator for Lexer<'ctx> {
                     if !self.final_newline {
                         self.final_newline = true;
                         let mut location = self.location();
-                        location.column += 1;
+                        location.column = location.column.saturating_add(1);
                         return Some(LocatedToken {
                             location,
                             token: Token::Punct(Punctuation::Newline),
-- 
2.43.0


From bf8caf18a6833dd15792d72e31d072b16e4251b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 16/39] fix: a circular parent_type hung every lookup that
 follows parents

---
 crates/dreammaker/src/objtree.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..3de7e08 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1012,6 +1012,38 @@ impl ObjectTreeBuilder {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
+        self.break_parent_cycles(context);
+    }
+
+    /// Make types which would be their own ancestors children of the root.
+    fn break_parent_cycles(&mut self, context: &Context) {
+        // Parent paths alone can't form a cycle, so each one contains a redirected type.
+        let redirected = std::mem::take(&mut self.inner.redirected_parent_types);
+        for &type_idx in &redirected {
+            // Be sure to stop if this type merely leads to a cycle further up.
+            let mut current = self.inner[type_idx].parent_type;
+            let mut limit = self.inner.graph.len();
+            while limit > 0 && current != type_idx && current.index() < self.inner.graph.len() {
+                current = self.inner[current].parent_type;
+                limit -= 1;
+            }
+
+            let type_ref = &mut self.inner[type_idx];
+            if current == type_idx {
+                let location = match type_ref.vars.get("parent_type") {
+                    Some(var) => var.value.location,
+                    None => type_ref.location,
+                };
+                context.register_error(DMError::new(
+                    location,
+                    format!("{} is its own ancestor through parent_type", type_ref.path),
+                ));
+                type_ref.parent_type = NodeIndex::new(0); // fall back to the root, as above
+            }
+            if type_ref.parent_type != type_ref.parent_path {
+                self.inner.redirected_parent_types.push(type_idx);
+            }
+        }
     }
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From 3e6faaaabaa053743fa1379429a7f90a597171d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 17/39] fix: blending onto a partly transparent pixel
 overflowed into a wrong colour

---
 crates/dmm-tools/src/dmi.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..afece9b 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -214,10 +214,13 @@ impl Image {
                 // out_RGB = (src_RGB src_A + dst_RGB dst_A (1 - src_A)) / out_A
                 let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);
                 if out_a != 0 {
+                    // The weights are kept exact: dividing by the rounded out_A
+                    // could bring the result above 255.
+                    let src_weight = src_tint.a as u32 * 255;
+                    let dst_weight = dst.a as u32 * (255 - src_tint.a as u32);
                     for i in 0..3 {
-                        dst[i] = ((src_tint[i] as u32 * src_tint.a as u32
-                            + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32) / 255)
-                            / out_a as u32) as u8;
+                        dst[i] = ((src_tint[i] as u32 * src_weight + dst[i] as u32 * dst_weight)
+                            / (src_weight + dst_weight)) as u8;
                     }
                 } else {
                     for i in 0..3 {
-- 
2.43.0


From 5d6243a42200bfce547b75601873a44194a10c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 18/39] fix: layers just below an integer sorted before their
 whole layer

---
 crates/dmm-tools/src/minimap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 947c542..1349e7f 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -461,7 +461,7 @@ impl From<f32> for Layer {
     fn from(f: f32) -> Layer {
         Layer {
             whole: f.floor() as i16,
-            frac: ((f.fract() + 1.).fract() * 65536.) as u16,
+            frac: ((f - f.floor()) * 65536.) as u16,
         }
     }
 }
-- 
2.43.0


From 290173129934be981f3ec7af3aee67453eb560e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 19/39] fix: a colour string with more than eight hex digits
 overflowed

---
 crates/dmm-tools/src/minimap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index 1349e7f..dcf5244 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -563,9 +563,9 @@ pub fn color_of<'s, T: GetVar<'s> + ?Sized>(objtree: &'s ObjectTree, atom: &T) -
 
     match *atom.get_var("color", objtree) {
         Constant::String(ref color) if color.starts_with('#') => {
-            let mut sum = 0;
+            let mut sum = 0u32;
             for ch in color[1..color.len()].chars() {
-                sum = 16 * sum + ch.to_digit(16).unwrap_or(0);
+                sum = (sum << 4) + ch.to_digit(16).unwrap_or(0);
             }
             if color.len() == 7 {
                 // #rrggbb
-- 
2.43.0


From 290ea47473fffd5a0ad9ddc4ab021c01add73567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:01 +0000
Subject: [PATCH 20/39] fix: sprites with huge pixel offsets overflowed the
 coordinates

---
 crates/dmm-tools/src/minimap.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/dmm-tools/src/minimap.rs b/crates/dmm-tools/src/minimap.rs
index dcf5244..ac544a0 100644
--- a/crates/dmm-tools/src/minimap.rs
+++ b/crates/dmm-tools/src/minimap.rs
@@ -162,10 +162,10 @@ pub fn generate(ctx: Context, icon_cache: &IconCache) -> Result<Image, ()> {
 
         if let Some(rect) = icon_file.rect_of(&sprite.icon_state.into(), sprite.dir) {
             let pixel_x = sprite.ofs_x;
-            let pixel_y = sprite.ofs_y + icon_file.metadata.height as i32;
+            let pixel_y = sprite.ofs_y.saturating_add(icon_file.metadata.height as i32);
             let loc = (
-                ((x - ctx.min.0 as u32) * TILE_SIZE) as i32 + pixel_x,
-                ((y + 1 - min_y as u32) * TILE_SIZE) as i32 - pixel_y,
+                (((x - ctx.min.0 as u32) * TILE_SIZE) as i32).saturating_add(pixel_x),
+                (((y + 1 - min_y as u32) * TILE_SIZE) as i32).saturating_sub(pixel_y),
             );
 
             if let Some((loc, rect)) = clip((map_image.width, map_image.height), loc, rect) {
@@ -195,20 +195,20 @@ fn clip(
     mut rect: dmi::Rect,
 ) -> Option<(dmi::Coordinate, dmi::Rect)> {
     if loc.0 < 0 {
-        rect.0 += (-loc.0) as u32;
-        rect.2 = rect.2.checked_sub((-loc.0) as u32)?;
+        rect.2 = rect.2.checked_sub(loc.0.unsigned_abs())?;
+        rect.0 += loc.0.unsigned_abs();
         loc.0 = 0;
     }
-    let overhang = loc.0 + rect.2 as i32 - bounds.0 as i32;
+    let overhang = loc.0 as i64 + rect.2 as i64 - bounds.0 as i64;
     if overhang > 0 {
         rect.2 = rect.2.checked_sub(overhang as u32)?;
     }
     if loc.1 < 0 {
-        rect.1 += (-loc.1) as u32;
-        rect.3 = rect.3.checked_sub((-loc.1) as u32)?;
+        rect.3 = rect.3.checked_sub(loc.1.unsigned_abs())?;
+        rect.1 += loc.1.unsigned_abs();
         loc.1 = 0;
     }
-    let overhang = loc.1 + rect.3 as i32 - bounds.1 as i32;
+    let overhang = loc.1 as i64 + rect.3 as i64 - bounds.1 as i64;
     if overhang > 0 {
         rect.3 = rect.3.checked_sub(overhang as u32)?;
     }
@@ -512,8 +512,8 @@ impl<'s> Sprite<'s> {
                 .and_then(Dir::from_int)
                 .unwrap_or_default(),
             color: color_of(objtree, vars),
-            ofs_x: pixel_x + pixel_w + step_x,
-            ofs_y: pixel_y + pixel_z + step_y,
+            ofs_x: pixel_x.saturating_add(pixel_w).saturating_add(step_x),
+            ofs_y: pixel_y.saturating_add(pixel_z).saturating_add(step_y),
             plane: plane_of(objtree, vars),
             layer: layer_of(objtree, vars),
         }
-- 
2.43.0


From f2ded1a518215c8f9f7c8998e1daeede60cd29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:48 +0000
Subject: [PATCH 21/39] fix: constants in maps may not be followed by further
 tokens

evaluate_str looked only at the bytes the lexer had not read, so what
follows the expression was ignored: "1 2" was read as 1.
---
 crates/dreammaker/src/constants.rs | 17 +++--------------
 crates/dreammaker/src/parser.rs    | 17 +++++++++++++++++
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 7c5efdd..1a0e8b0 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -446,22 +446,11 @@ impl fmt::Display for ConstFn {
 // The constant evaluator
 
 pub fn evaluate_str(location: Location, input: &[u8]) -> Result<Constant, DMError> {
-    use super::lexer::{Lexer, LocationTracker, from_utf8_or_latin1_borrowed};
+    use super::lexer::{Lexer, LocationTracker};
 
     let ctx = Context::default();
-    let mut lexer = Lexer::from_input(&ctx, LocationTracker::from_location(location, input.into()));
-    let expr = crate::parser::parse_expression(&ctx, location, &mut lexer)?;
-    let leftover = lexer.remaining();
-    if !leftover.is_empty() {
-        return Err(DMError::new(
-            location,
-            format!(
-                "leftover: {:?} {}",
-                from_utf8_or_latin1_borrowed(input),
-                leftover.len()
-            ),
-        ));
-    }
+    let lexer = Lexer::from_input(&ctx, LocationTracker::from_location(location, input.into()));
+    let expr = crate::parser::parse_whole_expression(&ctx, location, lexer)?;
     expr.simple_evaluate(location)
 }
 
diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..e4337b3 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -117,6 +117,23 @@ where
     Ok(require!(parser.expression()))
 }
 
+/// Parse an expression which is followed by nothing but the end of the input.
+pub fn parse_whole_expression<I>(
+    context: &Context,
+    location: Location,
+    iter: I,
+) -> Result<Expression, DMError>
+where
+    I: IntoIterator<Item = LocatedToken>,
+{
+    let mut parser = Parser::new(context, iter);
+    parser.location = location;
+    let expr = require!(parser.expression());
+    while parser.exact(Token::Punct(Punctuation::Newline))?.is_some() {}
+    require!(parser.exact(Token::Eof));
+    Ok(expr)
+}
+
 // ----------------------------------------------------------------------------
 // Operator precedence table
 
-- 
2.43.0


From ff24a74d06c5fa4ef93184ac1da6dbb6b29d5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:05 +0000
Subject: [PATCH 22/39] fix: line breaks and tabs in quoted strings of a map
 were dropped

---
 crates/dmm-tools/src/dmm/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 8ca9577..536df9c 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -67,7 +67,12 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     while let Some(ch) = chars.next() {
         // Readability, simple elif chain isn't duplicate code
         #[allow(clippy::if_same_then_else)]
-        if ch == b'\n' || ch == b'\r' {
+        if in_quote_block {
+            // line breaks and tabs belong to the string
+            if ch == b'\r' {
+                continue;
+            }
+        } else if ch == b'\n' || ch == b'\r' {
             in_comment_line = false;
             comment_trigger = false;
             continue;
-- 
2.43.0


From 41e7ec415e306b0852a71d1bcf9e71d27efdaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 23/39] fix: a variable without a value in a map was added to
 the next variable's name

---
 crates/dmm-tools/src/dmm/read.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 536df9c..9f237bc 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -150,6 +150,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     } else if ch == b'}' {
                         if !curr_var.is_empty() {
                             insert_current_var!();
+                        } else if curr_datum.iter().all(|b| b.is_ascii_whitespace()) {
+                            curr_datum.clear();
+                        } else {
+                            return Err(DMError::new(
+                                curr_datum_start_location,
+                                "variable without a value",
+                            ));
                         }
                         in_varedit_block = false;
                     } else {
-- 
2.43.0


From d6336419c17c2aef826c3fc7ceb6132802c7d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 24/39] fix: report malformed keys of a map instead of
 panicking

---
 crates/dmm-tools/src/dmm/read.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 9f237bc..0b50dc2 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -190,8 +190,21 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if curr_key_length == 0 {
+                    return Err(DMError::new(chars.location(), "Empty key"));
+                }
+                if map.key_length != 0 && map.key_length != curr_key_length {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!(
+                            "Key of length {}, but previous keys have length {}",
+                            curr_key_length, map.key_length
+                        ),
+                    ));
+                }
                 map.key_length = curr_key_length;
+            } else if curr_key_length == super::MAX_KEY_LENGTH {
+                return Err(DMError::new(chars.location(), "Key too long, max is 'ymo'"));
             } else {
                 if curr_key == 0 {
                     curr_key_start_location = chars.location();
@@ -207,6 +220,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 curr_key = 0;
                 curr_key_length = 0;
                 break; // go to grid parsing
+            } else if curr_key_length == 0 {
+                return Err(DMError::new(chars.location(), "Expected a key"));
             } else {
                 in_data_block = true;
                 after_data_block = false;
-- 
2.43.0


From 0d89780c7a0460c8f57eca0307ddd94a40021151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 25/39] fix: report malformed block coordinates of a map
 instead of panicking

---
 crates/dmm-tools/src/dmm/read.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 0b50dc2..c32ca06 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -10,6 +10,9 @@ use dm::{DMError, Location};
 
 use super::{Key, KeyType, Map, Prefab};
 
+/// Coordinates are 32-bit signed integers elsewhere.
+const MAX_COORD: usize = i32::MAX as usize;
+
 pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let file_id = Default::default();
     let mut chars = LocationTracker::new(file_id, dm::lexer::buffer_file(file_id, path)?.into());
@@ -267,14 +270,30 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
                 max_z = max(max_z, curr_z);
+                if curr_x == 0 || curr_y == 0 || curr_z == 0 {
+                    return Err(DMError::new(chars.location(), "Map coordinates start at 1"));
+                }
                 in_coord_block = false;
                 reading_coord = Coord::X;
             } else {
                 match (ch as char).to_digit(10) {
-                    Some(x) => curr_num = 10 * curr_num + x as usize,
+                    Some(x) => {
+                        curr_num = 10 * curr_num + x as usize;
+                        if curr_num > MAX_COORD {
+                            return Err(DMError::new(
+                                chars.location(),
+                                "Map coordinate is too large",
+                            ));
+                        }
+                    },
                     None => {
                         return Err(DMError::new(
                             chars.location(),
-- 
2.43.0


From c48aae4e00cad87afc36a4deffdedb474a3665f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 26/39] fix: the last row of a map block needs no line break,
 and keys must be whole

A block whose last row ended without a line break underflowed the row, an
incomplete key was carried into the next row, and rows of a block taller
than the last were dropped.
---
 crates/dmm-tools/src/dmm/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index c32ca06..a9484d8 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -303,10 +303,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
             }
         } else if in_map_string {
+            if ch == b'"' || ch == b'\n' {
+                if curr_key_length != 0 {
+                    return Err(DMError::new(chars.location(), "Incomplete key"));
+                }
+            }
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
-                curr_y -= 1;
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
@@ -329,6 +333,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         ));
                     }
                     max_x = max(max_x, curr_x);
+                    max_y = max(max_y, curr_y);
                     curr_x += 1;
                 }
             }
-- 
2.43.0


From fb1ef6511c8b6cb7466c76a063cd67de8bfa00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 27/39] fix: check that a map has a value for every tile before
 the grid is made

---
 crates/dmm-tools/src/dmm/read.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a9484d8..0e63359 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -343,22 +343,25 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             in_map_string = true;
         }
     }
-    max_y = max(max_y, curr_y);
 
-    let mut result = Ok(());
-    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
-            tile
-        } else {
-            result = Err(DMError::new(
-                chars.location(),
-                format!("no value for tile ({}, {}, {})", x + 1, y + 1, z + 1),
-            ));
-            Key(0)
+    for z in 1..=max_z {
+        for y in 1..=max_y {
+            for x in 1..=max_x {
+                if !grid.contains_key(&(x, y, z)) {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!("no value for tile ({x}, {y}, {z})"),
+                    ));
+                }
+            }
         }
+    }
+
+    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
+        grid[&(x + 1, y + 1, z + 1)]
     });
 
-    result
+    Ok(())
 }
 
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
-- 
2.43.0


From a7d8df7b8791f32c1a30f7a102e37e50bf930c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:49 +0000
Subject: [PATCH 28/39] fix: report an override of a proc that must not be
 overridden even if it has the setting itself

---
 crates/dreamchecker/src/lib.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..43471f8 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1498,18 +1498,17 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     .register(self.context);
                 }
             }
+            // Ask the parent: an override may have the setting itself.
             if let Some((proc, true, location)) =
-                self.env.must_not_override.get_self_or_parent(self.proc_ref)
+                self.env.must_not_override.get_self_or_parent(parent)
             {
-                if proc != self.proc_ref {
-                    error(
-                        self.proc_ref.location,
-                        format!("proc overrides parent, prohibited by {proc}"),
-                    )
-                    .with_note(location, "prohibited by this must_not_override annotation")
-                    .with_errortype("must_not_override")
-                    .register(self.context);
-                }
+                error(
+                    self.proc_ref.location,
+                    format!("proc overrides parent, prohibited by {proc}"),
+                )
+                .with_note(location, "prohibited by this must_not_override annotation")
+                .with_errortype("must_not_override")
+                .register(self.context);
             }
             if self.calls_parent {
                 if !matches!(
-- 
2.43.0


From fa79ac032caca64f20c27f0ed54de123b02a9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:35 +0000
Subject: [PATCH 29/39] fix: visit the arguments of calls and new() that cannot
 be resolved

---
 crates/dreamchecker/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 43471f8..afd9ad0 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2503,6 +2503,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("undefined proc: {:?} on {}", unscoped_name, self.ty),
                     )
                     .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2538,6 +2539,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 } else {
                     error(location, format!("undefined global proc: {global_name:?}"))
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2549,6 +2551,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, "no type hint available on implicit new()")
                         .with_errortype("no_typehint_implicit_new")
                         .register(self.context);
+                    self.visit_arguments(location, args.as_deref().unwrap_or_default(), local_vars);
                     Analysis::empty()
                 }
             },
@@ -2562,11 +2565,13 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         format!("failed to resolve path {}", FormatTypePath(&prefab.path)),
                     )
                     .register(self.context);
+                    self.visit_arguments(location, args.as_deref().unwrap_or_default(), local_vars);
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { .. } => {
+            Term::NewMiniExpr { args, .. } => {
                 // TODO: evaluate
+                self.visit_arguments(location, args.as_deref().unwrap_or_default(), local_vars);
                 Analysis::empty()
             },
 
@@ -2928,6 +2933,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "prohibited by this private_proc annotation",
                                 )
                                 .register(self.context);
+                                self.visit_arguments(location, arguments, local_vars);
                                 return Analysis::empty(); // dont double up with visit_call()
                             }
                         }
@@ -2954,6 +2960,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     } else {
                         error(location, format!("undefined proc: {name:?} on {ty}"))
                             .register(self.context);
+                        self.visit_arguments(location, arguments, local_vars);
                         Analysis::empty()
                     }
                 } else {
@@ -2965,6 +2972,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     .with_errortype("proc_call_static_type")
                     .with_fix_hint(&lhs)
                     .register(self.context);
+                    self.visit_arguments(location, arguments, local_vars);
                     Analysis::empty()
                 }
             },
-- 
2.43.0


From e24b788ea70a51b4e2b36cdca7e4ae3daaf7f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 30/39] fix: a break or continue in only some branches keeps
 the outcome uncertain

---
 crates/dreamchecker/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index afd9ad0..65bbd7c 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1370,8 +1370,8 @@ impl ControlFlow {
         if !other.breaks {
             self.breaks = false;
         }
-        if other.fuzzy {
-            self.fuzzy = true;
+        if other.fuzzy || other.continues || other.breaks {
+            self.fuzzy = true; // finalize() sees if every branch agrees
         }
     }
 
-- 
2.43.0


From 9a1e9d17072f1620735cfb5f716c7cddb436e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 31/39] fix: follow break and continue out of try, catch and
 labels, and goto to labels

---
 crates/dreamchecker/src/lib.rs | 46 ++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 65bbd7c..1308e73 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1381,6 +1381,24 @@ impl ControlFlow {
         }
     }
 
+    /// What may be left of the outcome of a block that is not always run to its end.
+    pub fn uncertain(&self) -> ControlFlow {
+        ControlFlow {
+            returns: false,
+            continues: false,
+            breaks: false,
+            fuzzy: self.fuzzy || self.breaks || self.continues,
+        }
+    }
+
+    /// A `goto` may lead here, even if what came before never does.
+    pub fn label(&mut self) {
+        if self.returns || self.breaks || self.continues {
+            self.end_loop();
+            self.fuzzy = true;
+        }
+    }
+
     pub fn end_loop(&mut self) {
         self.returns = false;
         self.continues = false;
@@ -1568,12 +1586,20 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         mut setting_allowed: bool,
     ) -> ControlFlow {
         let mut term = ControlFlow::allfalse();
+        let mut reported = false;
         for stmt in block.iter() {
+            if let Statement::Label { .. } = stmt.elem {
+                term.label();
+                reported = false;
+            }
             if term.terminates() {
-                error(stmt.location, "possible unreachable code here")
-                    .with_errortype("unreachable_code")
-                    .register(self.context);
-                return term; // stop evaluating
+                if !reported {
+                    error(stmt.location, "possible unreachable code here")
+                        .with_errortype("unreachable_code")
+                        .register(self.context);
+                    reported = true;
+                }
+                continue; // stop evaluating
             }
             match &stmt.elem {
                 Statement::Setting { name, mode, value } => {
@@ -2015,7 +2041,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 catch_params,
                 catch_block,
             } => {
-                self.visit_block(try_block, &mut local_vars.clone(), false);
+                let mut state = self
+                    .visit_block(try_block, &mut local_vars.clone(), false)
+                    .uncertain();
                 if catch_params.len() > 1 {
                     error(
                         location,
@@ -2040,7 +2068,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
                     self.visit_var(location, &var_type, var_name, None, &mut catch_locals);
                 }
-                self.visit_block(catch_block, &mut catch_locals, false);
+                let catch_state = self.visit_block(catch_block, &mut catch_locals, false);
+                state.merge(catch_state.uncertain());
+                return state;
             },
             Statement::Continue(_) => {
                 return ControlFlow {
@@ -2060,7 +2090,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
             Statement::Goto(_) => {},
             Statement::Label { name: _, block } => {
-                self.visit_block(block, &mut local_vars.clone(), false);
+                return self
+                    .visit_block(block, &mut local_vars.clone(), false)
+                    .uncertain();
             },
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None, local_vars);
-- 
2.43.0


From 6aa1586037ece2d8a7a15e58a14f0bb58d65268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 32/39] fix: what follows a do-while left by break can be
 reached, and its condition is always visited

---
 crates/dreamchecker/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 1308e73..5568851 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1752,20 +1752,24 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Statement::DoWhile { block, condition } => {
                 let mut scoped_locals = local_vars.clone();
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
+                // Visited in any case: a `continue` may reach it.
+                self.visit_expression(
+                    condition.location,
+                    &condition.elem,
+                    None,
+                    &mut scoped_locals,
+                );
                 if state.terminates_loop() {
                     error(
                         location,
                         "do while terminates without ever reaching condition",
                     )
                     .register(self.context);
+                    if !state.returns {
+                        state.end_loop(); // what follows is reached by breaking out
+                    }
                     return state;
                 }
-                self.visit_expression(
-                    condition.location,
-                    &condition.elem,
-                    None,
-                    &mut scoped_locals,
-                );
 
                 state.end_loop();
                 return state;
-- 
2.43.0


From ddd951a6bafcf49a0ba318e06b0b2d2664176132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 33/39] fix: a range loop ends the proc only if its body
 returns at once, and its start is always visited

---
 crates/dreamchecker/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5568851..9fa0520 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1933,6 +1933,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
+                } else {
+                    self.visit_expression(location, start, None, &mut scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 if let Some(startterm) = start.as_term() {
@@ -1944,8 +1946,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "for range loop body is never reached due to invalid range",
                                 )
                                 .register(self.context);
-                            } else {
-                                return state;
+                            } else if state.returns && step.is_none() {
+                                return state; // on the first iteration
                             }
                         }
                     }
-- 
2.43.0


From 16319b1a1ea061ebf5361a0ab510a29885a4f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 34/39] fix: visit the arguments of new() without New() and of
 ..() without a parent

---
 crates/dreamchecker/src/lib.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 9fa0520..232f744 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2560,6 +2560,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     error(location, format!("proc has no parent: {}", self.proc_ref))
                         .with_errortype("proc_has_no_parent")
                         .register(self.context);
+                    self.visit_arguments(location, args, local_vars);
                     Analysis::empty()
                 }
             },
@@ -2755,16 +2756,19 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 false,
                 local_vars,
             );
-        } else if typepath.path != "/list"
-            && typepath.path != "/alist"
-            && typepath.path != "/vector"
-            && typepath.path != "/pixloc"
-        {
-            error(
-                location,
-                format!("couldn't find {}/proc/New", typepath.path),
-            )
-            .register(self.context);
+        } else {
+            if typepath.path != "/list"
+                && typepath.path != "/alist"
+                && typepath.path != "/vector"
+                && typepath.path != "/pixloc"
+            {
+                error(
+                    location,
+                    format!("couldn't find {}/proc/New", typepath.path),
+                )
+                .register(self.context);
+            }
+            self.visit_arguments(location, args.as_deref().unwrap_or_default(), local_vars);
         }
         assumption_set![Assumption::IsType(true, typepath)].into()
     }
-- 
2.43.0


From 6fb7b56778240e62b8ab6df12cf92334aea1229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 35/39] fix: do not report a gap in a switch on rand() when a
 case is not constant

---
 crates/dreamchecker/src/switch_rand_range.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 770b3b8..7314851 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -21,6 +21,7 @@ pub fn check_switch_rand_range(
     };
 
     let mut case_ranges = Vec::with_capacity(cases.len());
+    let mut any_unknown = false;
     for case_block in cases.iter() {
         let location = case_block.0.location;
         for case in case_block.0.elem.iter() {
@@ -35,12 +36,14 @@ pub fn check_switch_rand_range(
                         .set_severity(Severity::Warning)
                         .register(context);
                 }
+            } else {
+                any_unknown = true;
             }
         }
     }
 
-    if default.is_some() {
-        // covers the whole range directly so no need to check for gaps
+    if default.is_some() || any_unknown {
+        // covers the whole range directly, or might, so no need to check for gaps
         return;
     }
 
-- 
2.43.0


From 47773d20d89c707496ecc4acc2e47cfd663af627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:12 +0000
Subject: [PATCH 36/39] fix: a case of a switch on rand() that ends at the
 largest number overflowed

---
 crates/dreamchecker/src/switch_rand_range.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreamchecker/src/switch_rand_range.rs b/crates/dreamchecker/src/switch_rand_range.rs
index 7314851..2888f26 100644
--- a/crates/dreamchecker/src/switch_rand_range.rs
+++ b/crates/dreamchecker/src/switch_rand_range.rs
@@ -52,6 +52,8 @@ pub fn check_switch_rand_range(
     for (start, end) in case_ranges.iter() {
         if *start > first_uncovered {
             break;
+        } else if *end >= rand_end {
+            return; // all of the range is covered
         } else {
             first_uncovered = std::cmp::max(first_uncovered, end + 1);
         }
-- 
2.43.0


From 2e18ddcc56f615244d4ebb1f1024008dd149f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:30 +0000
Subject: [PATCH 37/39] fix: a proc that may sleep was missed when it had been
 visited before

The search for procs that must not sleep kept one set of visited procs for all
its roots, and for all receivers. A root visited on the way from another one was
never looked at itself, and a proc visited with a narrow receiver hid the
overrides that a wider one can dispatch to.
---
 crates/dreamchecker/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 232f744..282216f 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -753,16 +753,15 @@ impl<'o> AnalyzeObjectTree<'o> {
             .iter_types()
             .flat_map(|type_ref: TypeRef| type_ref.iter_self_procs())
             .count();
-        let mut visited = HashSet::<ProcRef<'o>>::with_capacity(total_procs);
+        // which overrides a call can reach depends on its receiver, so it is part of what was visited
+        let mut visited =
+            HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>::with_capacity(total_procs);
+        let mut reported = HashSet::<ProcRef<'o>>::new();
         let mut to_visit =
             VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>::new();
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
         must_not_sleep.sort_by_key(|(procref, _)| procref.get().location);
         for (procref, &(_, location)) in must_not_sleep {
-            if !visited.insert(*procref) {
-                continue;
-            }
-
             if let Some(sleepvec) = self.sleeping_procs.get_violators(*procref) {
                 error(
                     procref.get().location,
@@ -804,7 +803,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if new_context {
                     continue;
                 }
-                if !visited.insert(nextproc) {
+                if !visited.insert((nextproc, receiver, is_exact)) {
                     continue;
                 }
                 if self.waitfor_procs.contains(&nextproc) {
@@ -819,6 +818,9 @@ impl<'o> AnalyzeObjectTree<'o> {
                 }
 
                 if let Some(sleepvec) = self.sleeping_procs.get_violators(nextproc) {
+                    if !reported.insert(nextproc) {
+                        continue;
+                    }
                     let parent_proc_type_index = parent_proc.ty().index();
                     let next_proc_type_index = nextproc.ty().index();
 
-- 
2.43.0


From c9ee620998cca2ef14999d887565066e779239d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:30 +0000
Subject: [PATCH 38/39] fix: a self-call runs what its receiver has

Overrides of a called proc were looked for at and below the receiver, so one
that the receiver inherits from a type between it and the caller's was missed.
---
 crates/dreamchecker/src/lib.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 282216f..c1f2fe4 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -871,8 +871,18 @@ impl<'o> AnalyzeObjectTree<'o> {
 
                 if let Some(calledvec) = self.call_tree.get(&nextproc) {
                     for each in calledvec.iter() {
+                        // A self-call runs what this receiver has, which may be
+                        // an override above it but below the caller's type.
+                        let called = if each.inherit_receiver
+                            && !each.is_exact
+                            && each.proc.ty().index() != self.objtree.root().index()
+                        {
+                            receiver.get_proc(each.proc.name()).unwrap_or(each.proc)
+                        } else {
+                            each.proc
+                        };
                         let mut newstack = callstack.clone();
-                        newstack.add_step(each.proc, each.location, each.new_context);
+                        newstack.add_step(called, each.location, each.new_context);
                         // Self-calls inherit this receiver; explicit calls use their own.
                         let call_receiver = if each.inherit_receiver {
                             receiver
@@ -880,10 +890,10 @@ impl<'o> AnalyzeObjectTree<'o> {
                             each.src
                         };
                         to_visit.push_back((
-                            each.proc,
+                            called,
                             newstack,
                             each.new_context,
-                            each.proc,
+                            called,
                             call_receiver,
                             each.is_exact,
                         ));
-- 
2.43.0


From 199ff331ea1201fade9a90f391a615ed73f33814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:39 +0000
Subject: [PATCH 39/39] fix: purity notes point at the calls

The steps of the chain after the first were given the place of the
SpacemanDMM_should_be_pure setting.
---
 crates/dreamchecker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index c1f2fe4..0a4ff51 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -958,7 +958,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if let Some(calledvec) = self.call_tree.get(&nextproc) {
                     for each in calledvec.iter() {
                         let mut newstack = callstack.clone();
-                        newstack.add_step(each.proc, *location, each.new_context);
+                        newstack.add_step(each.proc, each.location, each.new_context);
                         to_visit.push_back((each.proc, newstack));
                     }
                 }
-- 
2.43.0

