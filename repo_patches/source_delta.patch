From a433acd43fb85acabe03f2d22b4fe1a1fa8593da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 01/18] fix: register a symbol's name before its code becomes
 visible

get_code released the code register before writing the name register, so
another thread could obtain the code of a symbol that had no name yet.
---
 src/symbols.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..eac38c7 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -71,12 +71,11 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
     }
 
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
 
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
-    drop(register);
+    // Other threads can see the code as soon as the code register is released, so
+    // the name must be in place by then.
+    get_name_register().write()?.insert(code, name.clone());
+    register.insert(name, code);
 
     Ok(code)
 }
-- 
2.43.0


From 0f358fc3af802042cf86f05bde86f2f0434ed3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 02/18] fix: matching a context at an index outside the string
 no longer panics

---
 src/productions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..3cff0dc 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -136,7 +136,7 @@ impl ProductionHead {
 
         let left = self.pre.as_ref().unwrap();
 
-        if index == 0 {
+        if index == 0 || index > string.len() {
             return left.is_empty();
         }
 
@@ -155,7 +155,7 @@ impl ProductionHead {
 
         let right = self.post.as_ref().unwrap();
 
-        if index == string.len() - 1 {
+        if index >= string.len().saturating_sub(1) {
             return right.is_empty();
         }
 
-- 
2.43.0


From ebdbc9dc5cdf843f015e275a91b071d27f4212cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 03/18] fix: chances that add up to one in decimals are no
 longer rejected

---
 src/productions.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 3cff0dc..d56e5ad 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -271,15 +271,17 @@ impl Production {
             return Ok(self.body.last().unwrap());
         }
 
-        let total_chance : f32 = self.body.iter()
-            .map(|b| b.chance.unwrap_or(0.0))
+        // Summed with more precision than the chances have, so that decimals that add up
+        // to 1.0 are not rounded to more than that.
+        let total_chance : f64 = self.body.iter()
+            .map(|b| b.chance.unwrap_or(0.0) as f64)
             .sum();
 
         if total_chance < 0.0 {
             return Err(Error::execution("chance should never be negative"));
         }
 
-        if total_chance > 1.0 {
+        if total_chance > 1.0 + f32::EPSILON as f64 {
             return Err(Error::execution("total chance of production bodies should not be greater than 1.0"));
         }
 
@@ -287,7 +289,7 @@ impl Production {
         let default_chance = if remaining == 0 {
             0_f32
         } else {
-            (1.0_f32 - total_chance) / (remaining as f32)
+            ((1.0 - total_chance).max(0.0) / (remaining as f64)) as f32
         };
 
         let mut current = 0_f32;
-- 
2.43.0


From 521ea802c072ac127c84a2089ca344a1d755b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 04/18] fix: tokenize punctuation after white space and
 multi-byte white space

---
 src/parser/iterator.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..b853a8e 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -37,7 +37,7 @@ impl<'a> Iterator for TokenIterator<'a> {
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
-                if i == 0 {
+                if i == index {
                     let mut chars : Vec<char> = vec![c];
                     let mut lookahead = next_break(text, index + 1);
                     while lookahead.is_token() && lookahead.index() == index + chars.len() {
@@ -45,20 +45,20 @@ impl<'a> Iterator for TokenIterator<'a> {
                         lookahead = next_break(text, index + chars.len())
                     }
 
-                    let index_start = self.current;
-                    let index_end = self.current + chars.len();
-                    self.current += chars.len();
+                    let index_start = self.current + index;
+                    let index_end = index_start + chars.len();
+                    self.current = index_end;
 
                     return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
                 }
             }
 
-            let index_start = self.current;
+            let index_start = self.current + index;
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +133,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0


From 42d7e9cdc67fa6d259c8542489cc34ff2c9461d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 05/18] fix: a chance of zero is an error instead of a panic

---
 src/productions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index d56e5ad..afff0d7 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -189,8 +189,8 @@ impl ProductionBody {
     /// Creates a new production body from the given
     /// [`ProductionString`] that can occur with the given chance.
     pub fn try_with_chance(chance: f32, string: ProductionString) -> Result<Self> {
-        if !(0.0..=1.0).contains(&chance) {
-            return Err(Error::new(ErrorKind::Parse, "chance should be between 0.0 and 1.0 inclusive"));
+        if !(chance > 0.0 && chance <= 1.0) {
+            return Err(Error::new(ErrorKind::Parse, "chance should be greater than 0.0 and at most 1.0"));
         }
 
         Ok(ProductionBody {
-- 
2.43.0


From 606ce438004470154638751ef67a763bcf30b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 06/18] fix: report an unmatched ] and ignore turtle symbols
 the store lacks

---
 src/interpretation/abop.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..80361e9 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -82,13 +82,14 @@ impl Interpretation for AbopTurtleInterpretation {
     fn interpret<S: SymbolStore>(&self,
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
-        // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        // We need token values to interpret the strings. Those that the store does not have
+        // cannot be matched.
+        let forward = tokens.get_symbol("Forward");
+        let space = tokens.get_symbol("Move");
+        let right = tokens.get_symbol("+");
+        let left = tokens.get_symbol("-");
+        let push = tokens.get_symbol("[");
+        let pop = tokens.get_symbol("]");
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
@@ -105,7 +106,7 @@ impl Interpretation for AbopTurtleInterpretation {
         path.push(pos);
 
         // todo indicate what productions / tokens haven't been used
-        for token in string {
+        for token in string.into_iter().map(Some) {
             if token == forward {                   // interpret forward tokens.
                 pos = pos + dir;
                 path.push(pos);
@@ -119,7 +120,7 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop().ok_or_else(|| Error::execution("found a ] without a matching ["))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From 28a10fd2df908e3816e7286ce076df906af31d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 07/18] fix: interpret a drawing without width, height or
 points

---
 src/interpretation/svg.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..5d4557b 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -90,17 +90,20 @@ impl<T> Interpretation for SvgPathInterpretation<T>
         let paths = self.initial.interpret(tokens, string)?;
         let bounds = paths.bounds();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.as_ref().map(|bounds| bounds.center()).unwrap_or_default();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
+        // A drawing without any width or height puts no limit on the scale.
         let scale = bounds.as_ref()
-            .map(|bounds| {
+            .and_then(|bounds| {
                 let scale_y = self.height() as f64 / bounds.height();
                 let scale_x = self.width() as f64 / bounds.width();
-                let scale = scale_x.min(scale_y);
 
-                Point::new(scale, -scale)
+                [scale_x, scale_y].into_iter()
+                    .filter(|scale| scale.is_finite())
+                    .reduce(f64::min)
             })
+            .map(|scale| Point::new(scale, -scale))
             .unwrap_or(Point::new(1.0, -1.0));
 
         let elements: Vec<_> = paths.into_iter()
-- 
2.43.0


From 81940de29d7e0d19b144e25a4d04eb3678f57990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 08/18] fix: a path without points has no bounds

---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 7732e6b..a2b48d0 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -380,6 +380,10 @@ impl Bounds for Path {
     /// Returns the bounds for the path.
 
     fn bounds(&self) -> Option<BoundingBox> {
+        if self.is_empty() {
+            return None;
+        }
+
         let mut bounds = BoundingBox::initial_infinite();
 
         let mut center = Point::zero();
-- 
2.43.0


From 65dd3eb16359da30eda752392876a5981af38293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 09/18] fix: verbose mode no longer panics on file names that
 are not UTF-8

---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..775e98b 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.display());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0


From 59180ce135043b274d913f7347bc90712bef94f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 10/18] fix: iterate a production's symbols without nesting per
 alternative

The iterator chained one boxed iterator per body, so adding a production with
tens of thousands of alternatives to a system overflowed the stack, and cost
was quadratic in their number.
---
 src/symbols/iterator.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/symbols/iterator.rs b/src/symbols/iterator.rs
index 2c15db5..5da8f2f 100644
--- a/src/symbols/iterator.rs
+++ b/src/symbols/iterator.rs
@@ -52,13 +52,8 @@ impl SymbolIterable for ProductionBody {
 
 impl SymbolIterable for Production {
     fn all_symbols_iter(&self) -> impl Iterator<Item=Symbol> {
-        let mut result : Box<dyn Iterator<Item=Symbol>> = Box::new(self.head().all_symbols_iter());
-
-        for i in self.all_bodies() {
-            result = Box::new(result.chain(i.all_symbols_iter()));
-        }
-
-        result
+        self.head().all_symbols_iter()
+            .chain(self.all_bodies().iter().flat_map(|body| body.all_symbols_iter()))
     }
 }
 
-- 
2.43.0


From cfa996155c11e02db2fde010f9078a666cf604ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 11/18] fix: choose among many bodies with more precision

The chances were summed with single precision, whose rounding adds up: the
last of some 20,000 bodies were never chosen, the last of 5,000 too often.
---
 src/productions.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index afff0d7..c53b90f 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -287,16 +287,18 @@ impl Production {
 
         let remaining = self.body.iter().filter(|b| b.chance.is_derived()).count();
         let default_chance = if remaining == 0 {
-            0_f32
+            0_f64
         } else {
-            ((1.0 - total_chance).max(0.0) / (remaining as f64)) as f32
+            (1.0 - total_chance).max(0.0) / (remaining as f64)
         };
 
-        let mut current = 0_f32;
-        let random : f32 = thread_rng().gen_range(0.0..=1.0);
+        // Also with the higher precision, so that rounding does not leave the last of many
+        // bodies without their chances.
+        let mut current = 0_f64;
+        let random : f64 = thread_rng().gen_range(0.0..=1.0);
 
         for body in &self.body {
-            current += body.chance.unwrap_or(default_chance);
+            current += body.chance.chance.map_or(default_chance, f64::from);
             if random < current {
                 return Ok(body);
             }
-- 
2.43.0


From 3a443a60599378dd41578fc824087a15ac03dcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 12/18] fix: escape text in SVG attributes

---
 src/interpretation/svg.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 5d4557b..c9d0169 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -146,6 +146,14 @@ pub trait SvgElement : Debug {
 
 }
 
+/// Writes text so that it can be placed between the double quotes of an attribute.
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .replace('"', "&quot;")
+}
+
 #[derive(Debug, Clone)]
 pub struct Svg {
     elements: Vec<Rc<dyn SvgElement>>,
@@ -218,10 +226,10 @@ impl SvgElement for SvgPath {
         string.push_str("<path");
 
         if let Some(fill) = self.fill() {
-            string.push_str(format!(" fill=\"{}\"", fill).as_str());
+            string.push_str(format!(" fill=\"{}\"", escape(fill)).as_str());
         }
         if let Some(stroke) = self.stroke() {
-            string.push_str(format!(" stroke=\"{}\"", stroke).as_str());
+            string.push_str(format!(" stroke=\"{}\"", escape(stroke)).as_str());
         }
 
         if !self.is_empty() {
@@ -257,8 +265,8 @@ pub struct SvgDecorations {
 impl SvgDecorations {
     pub fn to_attr_string(&self) -> String {
         [
-            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", fill)).unwrap_or_default(),
-            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", stroke)).unwrap_or_default(),
+            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", escape(fill))).unwrap_or_default(),
+            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", escape(stroke))).unwrap_or_default(),
             self.stroke_width.as_ref().map(|width| format!("stroke-width=\"{}\"", width)).unwrap_or_default()
         ].join(" ")
 
-- 
2.43.0


From de17eca6d3ad6b40f47a596769c7b523e82c19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 13/18] fix: refuse a circle whose radius is not a number

---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index c9d0169..e0de4d9 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -341,7 +341,7 @@ pub struct SvgCircle {
 
 impl SvgCircle {
     pub fn build<P: Into<Point>>(point: P, radius: f64) -> crate::Result<SvgCircle> {
-        if radius < 0.0 {
+        if radius.is_nan() || radius < 0.0 {
             return Err(Error::general("radius should be non-negative"))
         }
 
-- 
2.43.0


From 5737b46886cb60e8d49e79c90631c5f97379aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:06 +0000
Subject: [PATCH 14/18] fix: describe + and - as the directions they turn

---
 src/interpretation/abop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 80361e9..ac38846 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -15,8 +15,8 @@ pub fn abop_family() -> SystemFamily {
     SystemFamily::define()
         .with_terminal("[", Some("Start a branch"))
         .with_terminal("]", Some("Finish a branch"))
-        .with_terminal("+", Some("Turn turtle right"))
-        .with_terminal("-", Some("Turn turtle left"))
+        .with_terminal("+", Some("Turn turtle left"))
+        .with_terminal("-", Some("Turn turtle right"))
         .with_production("Forward", Some("Move the turtle forward, drawing a line"))
         .with_production("Move", Some("Move the turtle forward WITHOUT drawing"))
         .with_production("X", Some("A growth point for the plant / branch"))
-- 
2.43.0


From 1d999798a6e46c6b3eb90333b388776650c79e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:03 +0000
Subject: [PATCH 15/18] fix: keep tabs and line breaks in SVG attributes

---
 src/interpretation/svg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index e0de4d9..c853a0a 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -147,11 +147,16 @@ pub trait SvgElement : Debug {
 }
 
 /// Writes text so that it can be placed between the double quotes of an attribute.
+///
+/// Tabs and line breaks are written as references, as they would be read back as spaces.
 fn escape(text: &str) -> String {
     text.replace('&', "&amp;")
         .replace('<', "&lt;")
         .replace('>', "&gt;")
         .replace('"', "&quot;")
+        .replace('\t', "&#9;")
+        .replace('\n', "&#10;")
+        .replace('\r', "&#13;")
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From 9391fdaa138ee0cfed106db433755f8b3fbd9fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:54 +0000
Subject: [PATCH 16/18] fix: lsystem interpret crashed when a message could not
 be printed

With standard output or error closed or full, -v crashed before the SVG was written and
an error crashed instead of being a plain failure. What cannot be printed is left out.
---
 src/bin/lsystem/derive.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 775e98b..592c02b 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -1,3 +1,4 @@
+use std::io::{stderr, stdout, Write};
 use std::process::ExitCode;
 
 use rusty_systems::prelude::*;
@@ -7,17 +8,20 @@ use rusty_systems::interpretation::svg::SvgPathInterpretation;
 use crate::{error_style, green};
 use crate::cli::{Cli, InterpretationArgs};
 
+/// Runs the plant and saves its SVG.
+///
+/// Messages that cannot be printed (as when a pipe is closed) are left out, and change nothing else.
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.display());
+        let _ = write!(stdout(), "Reading {} ", derive.file.display());
     }
 
     let (interpretation, system, axiom) = {
         let result = parser::parse_file(derive.file.as_ref());
         if let Err(e) = result {
-            if args.verbose { println!("❌") }
-            eprint!("\n{}: ", error_style().paint("Error"));
-            eprintln!("{}", e);
+            if args.verbose { let _ = writeln!(stdout(), "❌"); }
+            let _ = write!(stderr(), "\n{}: ", error_style().paint("Error"));
+            let _ = writeln!(stderr(), "{}", e);
             return ExitCode::FAILURE;
         }
 
@@ -25,22 +29,22 @@ pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     };
 
     if args.verbose {
-        println!("{}", green().paint("\t✔"));
+        let _ = writeln!(stdout(), "{}", green().paint("\t✔"));
     }
 
     let interpretation = SvgPathInterpretation::new_with(derive.width, derive.height, interpretation);
 
     let result = system.derive(axiom, interpretation.run_settings());
     if let Err(e) = result {
-        eprintln!("\n{}", error_style().paint("Error"));
-        eprintln!("{}", e);
+        let _ = writeln!(stderr(), "\n{}", error_style().paint("Error"));
+        let _ = writeln!(stderr(), "{}", e);
         return ExitCode::FAILURE;
     }
     let result = interpretation.interpret(&system, &result.unwrap());
 
     if let Err(e) = result {
-        eprintln!("\n{}", error_style().paint("Error"));
-        eprintln!("{}", e);
+        let _ = writeln!(stderr(), "\n{}", error_style().paint("Error"));
+        let _ = writeln!(stderr(), "{}", e);
         return ExitCode::FAILURE;
     }
     let result = result.unwrap();
@@ -52,13 +56,13 @@ pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     }
 
     if let Some(e) = result.save_file(output.as_path()).err() {
-        eprintln!("\n{}", error_style().paint("Error"));
-        eprintln!("{}", e);
+        let _ = writeln!(stderr(), "\n{}", error_style().paint("Error"));
+        let _ = writeln!(stderr(), "{}", e);
         return ExitCode::FAILURE;
     }
 
     if args.verbose {
-        println!("Saved SVG file to {} {}", output.to_string_lossy(), green().paint("\t✔"));
+        let _ = writeln!(stdout(), "Saved SVG file to {} {}", output.to_string_lossy(), green().paint("\t✔"));
     }
 
     ExitCode::SUCCESS
-- 
2.43.0


From 2969ea087100e54dba8b51ecf7f375b1030c5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:54 +0000
Subject: [PATCH 17/18] fix: lsystem describe crashed when its output could not
 be written

It reports the error now and fails.
---
 src/bin/lsystem/describe.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/bin/lsystem/describe.rs b/src/bin/lsystem/describe.rs
index 869cf2e..db3967e 100644
--- a/src/bin/lsystem/describe.rs
+++ b/src/bin/lsystem/describe.rs
@@ -1,23 +1,34 @@
+use std::io::{self, stderr, stdout, Write};
 use std::process::ExitCode;
 use rusty_systems::interpretation::abop;
 use rusty_systems::system::family::SymbolDescription;
-use crate::heading_style;
+use crate::{error_style, heading_style};
 
 
 pub fn describe() -> ExitCode {
+    if let Err(e) = print_description(stdout()) {
+        let _ = write!(stderr(), "\n{}: ", error_style().paint("Error"));
+        let _ = writeln!(stderr(), "{}", e);
+        return ExitCode::FAILURE;
+    }
+
+    ExitCode::SUCCESS
+}
+
+fn print_description(mut out: impl Write) -> io::Result<()> {
     let family = abop::abop_family();
 
-    let print= |t : &SymbolDescription| {
-        print!("  {: <10}", t.name);
-        t.description.iter().for_each(|d| print!("{}", d));
-        println!();
+    let print= |out: &mut dyn Write, t : &SymbolDescription| -> io::Result<()> {
+        write!(out, "  {: <10}", t.name)?;
+        t.description.iter().try_for_each(|d| write!(out, "{}", d))?;
+        writeln!(out)
     };
 
-    println!("{}", heading_style().paint("Terminals:"));
-    family.terminals().for_each(&print);
+    writeln!(out, "{}", heading_style().paint("Terminals:"))?;
+    family.terminals().try_for_each(|t| print(&mut out, t))?;
 
-    println!("\n{}", heading_style().paint("Productions:"));
-    family.productions().for_each(&print);
+    writeln!(out, "\n{}", heading_style().paint("Productions:"))?;
+    family.productions().try_for_each(|t| print(&mut out, t))?;
 
-    ExitCode::SUCCESS
+    out.flush()
 }
-- 
2.43.0


From 7f4af4155cd09323497c50b22f46dbb3a65c4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:54 +0000
Subject: [PATCH 18/18] fix: reject plant angles that are not finite numbers

---
 src/interpretation/abop/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interpretation/abop/parser.rs b/src/interpretation/abop/parser.rs
index 8547d53..39cf81b 100644
--- a/src/interpretation/abop/parser.rs
+++ b/src/interpretation/abop/parser.rs
@@ -91,6 +91,9 @@ pub fn parse(string: &str) -> crate::Result<ParsedAbop> {
                 }
                 "d" | "D" | "delta" | "∂" => {
                     delta = equality.value.parse()?;
+                    if !delta.is_finite() {
+                        return Err(Error::new(ErrorKind::Parse, format!("The angle {} is not a finite number", equality.value)))
+                    }
                 }
                 _ => return Err(Error::new(ErrorKind::Parse, format!("Unrecognised line {}", line)))
             }
-- 
2.43.0

