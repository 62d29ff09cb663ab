From 0574c525c75baa202ae0e5be6231a4070239a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:22 +0000
Subject: [PATCH 1/7] fix: load_mtl no longer panics on U+212A where a keyword
 could start

nom's tag_no_case compares lowercased characters but slices the input at
the tag's byte length; KELVIN SIGN lowercases to 'k' and the slice fell
inside a character.
---
 src/tokenizer/mtl.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer/mtl.rs b/src/tokenizer/mtl.rs
index 47ce969..1e82cb9 100644
--- a/src/tokenizer/mtl.rs
+++ b/src/tokenizer/mtl.rs
@@ -3,19 +3,30 @@ use std::result::Result;
 
 use nom::{
     branch::alt,
-    bytes::{is_not, tag, tag_no_case, take_till},
+    bytes::{is_not, tag, take_till},
     character::{
         complete::{line_ending, multispace1},
         multispace0,
     },
     combinator::map,
+    error::{Error, ErrorKind},
     multi::fold_many0,
     sequence::{delimited, preceded},
-    Parser,
+    IResult, Parser,
 };
 
 use super::{Token, TokenSet, TokenizeError};
 
+/// Matches an ASCII keyword, ignoring ASCII case. nom's `tag_no_case` compares
+/// lowercased characters but splits at the byte length of the tag, which panics
+/// for characters such as U+212A (KELVIN SIGN) that lowercase to ASCII.
+fn tag_no_case<'a>(keyword: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    move |input: &'a str| match input.get(..keyword.len()) {
+        Some(found) if found.eq_ignore_ascii_case(keyword) => Ok((&input[keyword.len()..], found)),
+        _ => Err(nom::Err::Error(Error::new(input, ErrorKind::Tag))),
+    }
+}
+
 pub fn parse_mtl(input: &str) -> Result<TokenSet, TokenizeError> {
     match fold_many0(
         alt((
-- 
2.43.0


From a60e7fb68b36e61711538ed654ea8fad5d0b263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 2/7] fix: integer literals outside the i32 range are no longer
 read as 0

-2147483648 now is an integer, and literals that do not fit an i32 become
floats, so coordinates keep their value.
---
 src/tokenizer/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index 6b5ab60..e67ebd1 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -578,11 +578,15 @@ fn parse_digit<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
             }),
         ),
         |(sign, s): (Option<&str>, Vec<&str>)| {
-            let mut val = s.join("").parse::<i32>().unwrap_or_default();
+            let mut acc = s.join("");
             if sign == Some("-") {
-                val *= -1;
+                acc.insert(0, '-');
+            }
+            match acc.parse::<i32>() {
+                Ok(val) => Token::Int(val),
+                // Does not fit an i32, keep the value rather than reading it as 0.
+                Err(_) => Token::Float(acc.parse::<f32>().unwrap_or_default()),
             }
-            Token::Int(val)
         },
     )
 }
-- 
2.43.0


From 2a7511d8fc6f0c28d353c32b1c1b9c2d5eec938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 3/7] fix: read numbers with an exponent and no decimal point
 as one float

'1e-5' was split into an integer and a string, which ended the parse of
the statement and dropped the rest of the file.
---
 src/tokenizer/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/tokenizer/mod.rs b/src/tokenizer/mod.rs
index e67ebd1..d897480 100644
--- a/src/tokenizer/mod.rs
+++ b/src/tokenizer/mod.rs
@@ -657,6 +657,21 @@ fn parse_float<'a>() -> impl Parser<&'a str, Output = Token<'a>, Error = Error<&
                     ),
                     |(f, _, s, e)| (f.unwrap_or_default(), s, e.unwrap_or_default()),
                 ),
+                map(
+                    (
+                        digit1,
+                        alt((tag("e"), tag("E"))),
+                        opt(alt((tag("+"), tag("-")))),
+                        digit1,
+                    ),
+                    |(f, e, sign, digits): (&'a str, &str, Option<&str>, &str)| {
+                        (
+                            vec![f],
+                            Vec::new(),
+                            [e, sign.unwrap_or_default(), digits].concat(),
+                        )
+                    },
+                ),
             )),
         ),
         |(sign, (f, s, e)): (Option<&str>, (Vec<&str>, Vec<&str>, String))| {
-- 
2.43.0


From 29396021d4e47aff63297e50eb75872bc1f25ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 4/7] fix: bevel, c_interp, d_interp, lod, shadow_obj and
 trace_obj reach the model

The statements were parsed and then dropped, so the corresponding fields
of Model and Group never changed; on/off was also parsed as true/false.
---
 src/model.rs | 61 ++++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index 567e016..e255a8c 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -280,12 +280,28 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Smoothing(group_id) => {
                     model.current_smoothing_group = group_id;
                 },
-                ModelElement::Bevel(_flag) => {},
-                ModelElement::CInterp(_flag) => {},
-                ModelElement::DInterp(_flag) => {},
-                ModelElement::Lod(_level) => {},
-                ModelElement::ShadowObj(_name) => {},
-                ModelElement::TraceObj(_name) => {},
+                ModelElement::Bevel(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().bevel = flag;
+                    }
+                },
+                ModelElement::CInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().c_interp = flag;
+                    }
+                },
+                ModelElement::DInterp(flag) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().d_interp = flag;
+                    }
+                },
+                ModelElement::Lod(level) => {
+                    for g in &model.current_group {
+                        model.groups.entry(g.clone()).or_default().lod = level.clamp(0, 100) as u8;
+                    }
+                },
+                ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
+                ModelElement::TraceObj(name) => model.trace_obj = Some(name),
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
@@ -674,19 +690,14 @@ pub(crate) fn parse_bevel<'a>(
     map(
         preceded(token_match!(Token::Bevel), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(v) => v,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::Bevel(flag)
-            } else {
-                ModelElement::Bevel(false)
-            }
+            ModelElement::Bevel(flag)
         },
     )
 }
@@ -696,19 +707,14 @@ pub(crate) fn parse_c_interp<'a>(
     map(
         preceded(token_match!(Token::CInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(v) => v,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::CInterp(flag)
-            } else {
-                ModelElement::CInterp(false)
-            }
+            ModelElement::CInterp(flag)
         },
     )
 }
@@ -718,19 +724,14 @@ pub(crate) fn parse_d_interp<'a>(
     map(
         preceded(token_match!(Token::DInterp), token_match!(Token::String(_))),
         |s| {
-            let res = match get_token_string(&s) {
-                Ok(s) => s,
+            let flag = match get_on_off_from_str(&s) {
+                Ok(v) => v,
                 Err(e) => {
                     log::error!("{}", e);
                     Default::default()
                 },
             };
-
-            if let Ok(flag) = res.parse::<bool>() {
-                ModelElement::DInterp(flag)
-            } else {
-                ModelElement::DInterp(false)
-            }
+            ModelElement::DInterp(flag)
         },
     )
 }
-- 
2.43.0


From fbd698ffc9014353c3b08f09a6ff02c97656821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 5/7] fix: returning to a group with g keeps the settings it
 already has

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index e255a8c..bbecc84 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -265,7 +265,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 ModelElement::Group(groups) => {
                     model.current_group.clear();
                     for g in groups {
-                        model.groups.insert(g.clone(), Default::default());
+                        model.groups.entry(g.clone()).or_default();
                         model.current_group.push(g);
                     }
                 },
-- 
2.43.0


From 9f274635cfd6421e9034b49555a4c7a4dc0c72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:13 +0000
Subject: [PATCH 6/7] fix: a vp statement no longer ends the model

The keyword was tokenized but no parser accepted it, so everything after
the first vp statement was dropped without an error.
---
 src/model.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index bbecc84..d67cd0a 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -210,6 +210,7 @@ pub(crate) enum ModelElement {
     Lod(i32),
     ShadowObj(String),
     TraceObj(String),
+    VertexParam,
     TextureLib(Vec<String>),
     TextureMap(String),
 }
@@ -236,6 +237,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
             parse_texture_lib(),
             parse_texture_map(),
             parse_group(),
+            parse_vertex_param(),
         )),
         Model::default,
         |mut model: Model, item: ModelElement| {
@@ -302,6 +304,7 @@ pub(crate) fn parse(input: TokenSet) -> Result<Model, ModelError> {
                 },
                 ModelElement::ShadowObj(name) => model.shadow_obj = Some(name),
                 ModelElement::TraceObj(name) => model.trace_obj = Some(name),
+                ModelElement::VertexParam => {},
                 ModelElement::TextureLib(libs) => {
                     model.texture_libs.extend(libs);
                 },
@@ -448,6 +451,23 @@ pub(crate) fn parse_vertex_texture<'a>(
     )
 }
 
+/// Parameter space vertices only matter to free-form geometry, which is not
+/// supported, so the statement is consumed and its values are ignored.
+pub(crate) fn parse_vertex_param<'a>(
+) -> impl Parser<TokenSet<'a>, Output = ModelElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::VertexParam),
+            (
+                token_match!(Token::Float(_) | Token::Int(_)),
+                opt(token_match!(Token::Float(_) | Token::Int(_))),
+                opt(token_match!(Token::Float(_) | Token::Int(_))),
+            ),
+        ),
+        |_| ModelElement::VertexParam,
+    )
+}
+
 pub(crate) fn parse_face<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = Face, Error = error::Error<TokenSet<'a>>> {
     preceded(
-- 
2.43.0


From 061ccb827eafcbeda9b5902e3073effd46076ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:16 +0000
Subject: [PATCH 7/7] fix: a -boost texture option no longer ends the material
 file

The option was tokenized but no parser accepted it, so its map lost the
file name and every following statement was dropped without an error.
---
 src/material.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/material.rs b/src/material.rs
index 1c56d41..ebb9e97 100644
--- a/src/material.rs
+++ b/src/material.rs
@@ -51,6 +51,7 @@ enum OptionElement {
     TextureRes(i32),
     ImfChan(String),
     BumpMultiplier(f32),
+    Boost,
     ReflectionType(String),
 }
 
@@ -758,6 +759,7 @@ fn parse_options<'a>(
     many1(alt((
         parse_option_blend(),
         parse_option_bm(),
+        parse_option_boost(),
         parse_option_cc(),
         parse_option_clamp(),
         parse_option_texture_range(),
@@ -838,6 +840,18 @@ fn parse_option_bm<'a>(
     )
 }
 
+/// `-boost` is not exposed by any map, so its value is consumed and ignored.
+fn parse_option_boost<'a>(
+) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
+    map(
+        preceded(
+            token_match!(Token::OptionBoost),
+            token_match!(Token::Float(_) | Token::Int(_)),
+        ),
+        |_| OptionElement::Boost,
+    )
+}
+
 fn parse_option_cc<'a>(
 ) -> impl Parser<TokenSet<'a>, Output = OptionElement, Error = error::Error<TokenSet<'a>>> {
     map(
-- 
2.43.0

