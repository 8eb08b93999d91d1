From e46205f7a8074656579bc965e310e6694c814d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:27 +0000
Subject: [PATCH 1/7] fix: parse objects that have neither elements nor
 materials

Such an object still pushed a material range that pointed at a material
name which does not exist, and parsing it panicked.
---
 src/obj.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..fb35864 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,13 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    // An object with neither elements nor materials has no geometry.
+                    if !material_names.is_empty() {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From 6c4e06c8aa27e970343ef6859f2e38fe2e4d68d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 2/7] fix: resolve negative element indices relative to the
 latest vertex

A negative index counts backwards from the most recently declared vertex,
but the sign was wrong, so that every negative index was out of range and
the smallest one overflowed.
---
 src/obj.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index fb35864..ccd2e71 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -880,8 +880,8 @@ impl<'a> Parser<'a> {
     #[inline(always)]
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
-        let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+        let actual_value = if parsed_value < 0 {
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From 0427117841436a332985c6c9d6bcdebdcae26c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:29 +0000
Subject: [PATCH 3/7] fix: reject invalid indices at the end of a face or line

The first malformed or out of range index ended the index list and was
dropped, so that an invalid face or line could parse as a smaller one.
---
 src/obj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index ccd2e71..88a435b 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -972,9 +972,9 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
+        while !matches!(self.peek(), Some("\n") | None) {
+            let vtn_index =
+                self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
             vtn_indices.push(vtn_index);
             indices_parsed += 1;
         }
-- 
2.43.0


From 450ee646f110bf7b2d0abbd55c1dadab7da871bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:54 +0000
Subject: [PATCH 4/7] fix: do not take a line break for a missing name

A statement without its name (o, usemtl, newmtl or a texture map) took the
line break that follows it as the name.
---
 src/mtl.rs | 49 +++++++++++++++++++++++++++++--------------------
 src/obj.rs | 25 +++++++++++++++++++++----
 2 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..fdd1035 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -314,6 +314,15 @@ impl<'a> Parser<'a> {
         self.next();
     }
 
+    /// Advance the token stream one step, returning the next token if there is
+    /// one left on the current line.
+    fn next_on_line(&mut self) -> Option<&'a str> {
+        match self.peek() {
+            Some("\n") | None => None,
+            Some(_) => self.next(),
+        }
+    }
+
     /// Advance the token stream one step, returning the next token in the
     /// stream.
     ///
@@ -433,11 +442,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ka")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -450,11 +459,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Kd")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -467,11 +476,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ks")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -484,11 +493,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ke")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -505,11 +514,11 @@ impl<'a> Parser<'a> {
             _ => return Ok(None),
         }
 
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -522,11 +531,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("disp")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -539,11 +548,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_d")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -556,11 +565,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("decal")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -573,11 +582,11 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ns")?;
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
+                "Expected texture map name but got end of line.".to_owned(),
             ),
         }
     }
@@ -615,11 +624,11 @@ impl<'a> Parser<'a> {
             }
         }
 
-        match self.next() {
+        match self.next_on_line() {
             Some(st) => Ok(st),
             None => self.error(
                 ErrorKind::EndOfFile,
-                "Expected material name but got end of input.".to_owned(),
+                "Expected material name but got end of line.".to_owned(),
             ),
         }
     }
diff --git a/src/obj.rs b/src/obj.rs
index 88a435b..920b469 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -731,6 +731,15 @@ impl<'a> Parser<'a> {
         self.next();
     }
 
+    /// Advance the token stream one step, returning the next token if there is
+    /// one left on the current line.
+    fn next_on_line(&mut self) -> Option<&'a str> {
+        match self.peek() {
+            Some("\n") | None => None,
+            Some(_) => self.next(),
+        }
+    }
+
     /// Advance the token stream one step, returning the next token in the
     /// stream.
     ///
@@ -868,10 +877,18 @@ impl<'a> Parser<'a> {
         match self.peek() {
             Some("o") => {
                 self.expect_tag("o")?;
-                let object_name = self.next_string();
+                let object_name = match self.next_on_line() {
+                    Some(name) => name,
+                    None => {
+                        return self.error(
+                            ErrorKind::InvalidObjectStatement,
+                            "Got an object declaration without an object name.".to_owned(),
+                        )
+                    }
+                };
                 self.skip_one_or_more_newlines()?;
 
-                object_name
+                Ok(object_name)
             }
             _ => Ok(""),
         }
@@ -1163,7 +1180,7 @@ impl<'a> Parser<'a> {
         smoothing_groups: &mut Vec<SmoothingGroup>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("s")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next_on_line() {
             if name == "off" {
                 smoothing_groups.push(SmoothingGroup(0));
             } else if let Ok(number) = name.parse::<usize>() {
@@ -1194,7 +1211,7 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next_on_line() {
             material_names.push(Some(name));
         } else {
             return self.error(
-- 
2.43.0


From 364e66dbbf337c0fca28773c21c695dfc3457540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:55 +0000
Subject: [PATCH 5/7] fix: accept files with CR LF and CR line endings

The lexer emitted a carriage return as a token of its own that neither
parser recognizes, so that both rejected such files.
---
 src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..56b1855 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -116,7 +116,11 @@ impl<'a> Lexer<'a> {
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                if ch == b'\r' && self.peek() == Some(&b'\n') {
+                    // A carriage return and a line feed form one line break.
+                    self.stream_position += 1;
+                }
+                Some(b"\n")
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0


From 30c2651318bdb5418ba826d2c7a7673208e446be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:57 +0000
Subject: [PATCH 6/7] fix: report an argument missing at the end of a line on
 that line

The parsers consumed the line break before reporting the missing argument,
so that the error named the following line.
---
 src/mtl.rs | 12 +++++++++---
 src/obj.rs | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index fdd1035..6a76ce8 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -326,10 +326,16 @@ impl<'a> Parser<'a> {
     /// Advance the token stream one step, returning the next token in the
     /// stream.
     ///
-    /// This function generates an error is it runs out of input.
+    /// This function generates an error is it runs out of input. A newline is
+    /// returned without advancing past it, so that an error about the token
+    /// that is missing there is reported on the correct line.
     fn next_string(&mut self) -> Result<&'a str, ParseError> {
-        match self.next() {
-            Some(st) => Ok(st),
+        match self.peek() {
+            Some("\n") => Ok("\n"),
+            Some(st) => {
+                self.advance();
+                Ok(st)
+            }
             None => self.error(
                 ErrorKind::EndOfFile,
                 "Expected token but reached end of input.".to_owned(),
diff --git a/src/obj.rs b/src/obj.rs
index 920b469..e82f536 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -743,10 +743,16 @@ impl<'a> Parser<'a> {
     /// Advance the token stream one step, returning the next token in the
     /// stream.
     ///
-    /// This function generates an error is it runs out of input.
+    /// This function generates an error is it runs out of input. A newline is
+    /// returned without advancing past it, so that an error about the token
+    /// that is missing there is reported on the correct line.
     fn next_string(&mut self) -> Result<&'a str, ParseError> {
-        match self.next() {
-            Some(st) => Ok(st),
+        match self.peek() {
+            Some("\n") => Ok("\n"),
+            Some(st) => {
+                self.advance();
+                Ok(st)
+            }
             None => self.error(
                 ErrorKind::EndOfFile,
                 "Reached the end of the input in the process of getting the next token.".to_owned(),
-- 
2.43.0


From bfff0a353caa38ce0d62ae53948f1515b9b194b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:38 +0000
Subject: [PATCH 7/7] fix: a group statement without names selects the default
 group

Elements that followed such a statement did not belong to any group, unless
it was the first group statement of the object.
---
 src/obj.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index e82f536..26c9b29 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1177,6 +1177,12 @@ impl<'a> Parser<'a> {
             }
         }
 
+        // A group statement without names selects the default group.
+        if groups_parsed == 0 {
+            groups.push(Default::default());
+            groups_parsed = 1;
+        }
+
         Ok(groups_parsed)
     }
 
-- 
2.43.0

