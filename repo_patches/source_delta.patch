From 0178dc5de53404864ee3fdd8cdf627f88196be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:51 +0000
Subject: [PATCH 1/6] fix: parsing an object with no elements no longer panics

An object with neither an element nor a usemtl statement has no material
names, but the end of the object still recorded a geometry that looked one
up, so `obj::parse("v 1 2 3\n")` panicked with an out-of-bounds index.
---
 src/obj.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..99223f2 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,14 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    // An object without any elements or `usemtl` statements has no
+                    // material names, and so it has no geometry to record.
+                    if !material_names.is_empty() {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From c9ddf58fc363af71dc75a5c700810cf6c9a1b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:52 +0000
Subject: [PATCH 2/6] fix: resolve negative element indices relative to the
 latest vertex

A negative index counts backwards from the most recently declared vertex,
so it is added to the number of vertices. Subtracting it rejected every
relative index, and overflowed on the smallest integer.
---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 99223f2..f6b1a33 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -881,7 +881,7 @@ impl<'a> Parser<'a> {
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
         let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From f2b1b05afb26c440868a2c6ad3699bf2e17919db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:53 +0000
Subject: [PATCH 3/6] fix: reject faces and lines with an invalid trailing
 index

parse_vtn_indices stopped at the first token that was not a valid index and
dropped it, so `f 1 2 3 99` silently became the triangle 1 2 3. The index
list ends at the end of the line; anything else in it is an error.
---
 src/obj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index f6b1a33..f46c4a0 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -972,9 +972,9 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
+        while !matches!(self.peek(), Some("\n") | None) {
+            let vtn_index =
+                self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
             vtn_indices.push(vtn_index);
             indices_parsed += 1;
         }
-- 
2.43.0


From 403f827ef97ee209b9b8f99090aace2d8b6ece72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:16 +0000
Subject: [PATCH 4/6] fix: an `o` or `usemtl` statement without a name is an
 error

The end of the line was taken for the name, so `usemtl` on its own selected
a material named "\n".
---
 src/obj.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index f46c4a0..6be916a 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -869,6 +869,12 @@ impl<'a> Parser<'a> {
             Some("o") => {
                 self.expect_tag("o")?;
                 let object_name = self.next_string();
+                if let Ok("\n") = object_name {
+                    return self.error(
+                        ErrorKind::InvalidObjectStatement,
+                        "Got an object statement `o` without an object name.".to_owned(),
+                    );
+                }
                 self.skip_one_or_more_newlines()?;
 
                 object_name
@@ -1194,13 +1200,16 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
-            material_names.push(Some(name));
-        } else {
-            return self.error(
-                ErrorKind::MaterialStatementHasNoName,
-                "Got a `usemtl` material declaration without a material name.".to_owned(),
-            );
+        match self.next() {
+            Some(name) if name != "\n" => {
+                material_names.push(Some(name));
+            }
+            _ => {
+                return self.error(
+                    ErrorKind::MaterialStatementHasNoName,
+                    "Got a `usemtl` material declaration without a material name.".to_owned(),
+                );
+            }
         }
 
         Ok(1)
-- 
2.43.0


From 3fa4d8a7650f911630bd0be37903047a5ff03b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:18 +0000
Subject: [PATCH 5/6] fix: a material or texture map without a name is an error

The end of the line was taken for the name, so `newmtl` on its own declared
a material named "\n" and `map_Kd` on its own a texture map named "\n".
---
 src/mtl.rs | 94 ++++++++++++++----------------------------------------
 1 file changed, 24 insertions(+), 70 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..c5116d1 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -328,6 +328,20 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Advance the token stream one step, returning the name of a material or
+    /// of a texture map.
+    ///
+    /// This function generates an error if the line ends before the name.
+    fn next_name(&mut self) -> Result<&'a str, ParseError> {
+        match self.next_string()? {
+            "\n" => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected a name but got the end of the line.".to_owned(),
+            ),
+            st => Ok(st),
+        }
+    }
+
     /// Advance the token stream if the next token in the stream matches the
     /// input tag.
     ///
@@ -433,13 +447,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ka")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's diffuse texture map from the input stream.
@@ -450,13 +458,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Kd")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's specular texture map from the input stream.
@@ -467,13 +469,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ks")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's emissive texture map from the input stream.
@@ -484,13 +480,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ke")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's bump texture map from the input stream.
@@ -505,13 +495,7 @@ impl<'a> Parser<'a> {
             _ => return Ok(None),
         }
 
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's displacement texture map from the input stream.
@@ -522,13 +506,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("disp")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's dissolve (alpha) texture map from the input stream.
@@ -539,13 +517,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_d")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's decal texture map from the input stream.
@@ -556,13 +528,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("decal")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse the name of a material's specular exponent texture map from the input stream.
@@ -573,13 +539,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ns")?;
-        match self.next() {
-            Some(st) => Ok(Some(st)),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected texture map name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name().map(Some)
     }
 
     /// Parse a material's illumination model.
@@ -615,13 +575,7 @@ impl<'a> Parser<'a> {
             }
         }
 
-        match self.next() {
-            Some(st) => Ok(st),
-            None => self.error(
-                ErrorKind::EndOfFile,
-                "Expected material name but got end of input.".to_owned(),
-            ),
-        }
+        self.next_name()
     }
 
     /// Parse one material from a MTL file.
-- 
2.43.0


From 6df817c5367a852521800116f24112c1488bd995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:07 +0000
Subject: [PATCH 6/6] fix: read every kind of line ending as a newline

The lexer handed the parsers a carriage return as a token of its own, which
they do not know as a newline: files with CRLF or CR line endings were
rejected, or had "\r" read as a group or library name.
---
 src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..7b6a117 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -116,7 +116,11 @@ impl<'a> Lexer<'a> {
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                // A carriage return and line feed pair is one line ending.
+                if ch == b'\r' && self.peek() == Some(&b'\n') {
+                    self.advance();
+                }
+                Some(&[b'\n'])
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0

