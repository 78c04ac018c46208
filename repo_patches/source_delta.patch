From 732046469ef5d5861f827c1ba78abec5cd6e08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 01/24] fix: read the entries first..=last of a palette chunk

The number of entries of a palette chunk is given by the first and last
index, not by the size of the whole palette. Chunks that change only a
part of the palette were rejected or read beyond their entries.
---
 src/binary/chunks/palette.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..9b15f67 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -6,9 +6,7 @@ use nom::{bytes::complete::take, combinator::cond, multi::count, Parser};
 use crate::binary::{
     errors::{ParseError, ParseResult},
     palette::PaletteError,
-    scalars::{
-        parse_color, parse_dword_as_u8, parse_dword_as_usize, parse_string, word, Color, Word,
-    },
+    scalars::{dword, parse_color, parse_dword_as_u8, parse_string, word, Color, Word},
 };
 
 #[derive(Debug)]
@@ -30,7 +28,7 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    let (input, _palette_size) = dword(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,7 +43,10 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
+    // A chunk carries the entries first..=last, which can be less than
+    // the whole palette.
+    let number_of_entries = usize::from(last_color_index - first_color_index) + 1;
+    let (input, entries) = count(parse_palette_entry, number_of_entries).parse(input)?;
     Ok((
         input,
         PaletteChunk {
-- 
2.43.0


From 180f59aec49c70bbf547899791864b6cc7f591e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 02/24] fix: use the right bits for the layer flags

The values 16, 32 and 64 were written as hexadecimal numbers, so these
flags overlapped with each other and with VISIBLE, EDITABLE and others.
---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..653e7a0 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 0x10;
+        const COLLAPSED = 0x20;
+        const REFERENCE = 0x40;
     }
 }
 
-- 
2.43.0


From 877553cf2588a70a2baccf06fd996a56d2f9a8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/24] fix: read the flip masks of a tilemap cel in the right
 order

The mask for the X flip precedes the one for the Y flip.
---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..c9ef057 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -117,8 +117,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From 3320c549bbd6deefd8ab8e10ec65a7217a75c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 04/24] fix: scale the colors of 0x0011 palette chunks to 8
 bits

The components in this chunk range from 0 to 63 while those of the
resulting palette range from 0 to 255.
---
 src/binary/palette.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..cf197fe 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -52,7 +52,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0004_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0004_chunks, &mut palette)?;
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0004_chunks,
+            &mut palette,
+            |v| v,
+        )?;
         return Ok(palette);
     }
     let palette0011_chunks: Vec<_> = frames
@@ -68,7 +73,13 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         })
         .collect();
     if !palette0011_chunks.is_empty() {
-        process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        // The color components of this chunk are in the range 0..=63
+        process_old_palette_chunks(
+            header.transparent_index,
+            &palette0011_chunks,
+            &mut palette,
+            |v| (v << 2) | (v >> 4),
+        )?;
         return Ok(palette);
     }
     Err(PaletteError::Missing)
@@ -101,6 +112,7 @@ fn process_old_palette_chunks(
     transparent_index: u8,
     chunks: &[&OldPaletteChunk],
     palette: &mut Palette,
+    scale: fn(u8) -> u8,
 ) -> Result<(), PaletteError> {
     let mut ok = false;
     for chunk in chunks.iter() {
@@ -112,9 +124,9 @@ fn process_old_palette_chunks(
             }
             for color in &packet.colors {
                 palette.colors[color_idx] = Color {
-                    red: color.red,
-                    green: color.green,
-                    blue: color.blue,
+                    red: scale(color.red),
+                    green: scale(color.green),
+                    blue: scale(color.blue),
                     alpha: 255,
                 };
                 color_idx += 1;
-- 
2.43.0


From 4398e1369476c17d6b62a0f7fff2a0aa849ae9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/24] fix: reject a cel whose layer index equals the number
 of layers

It passed the bounds check and caused a panic.
---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From d835f151faef3aeac16aa16fb55ccf59cb060a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 06/24] fix: reject a properties size below its minimum

The size includes the eight bytes of the size and the number of maps.
Smaller values caused an integer underflow.
---
 src/binary/chunks/user_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..69db28c 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -2,6 +2,7 @@ use bitflags::bitflags;
 use nom::{
     bytes::complete::take,
     combinator::{cond, map},
+    error::{ErrorKind, ParseError as _},
     multi::count,
     number::complete::{
         le_f32, le_f64, le_i16, le_i32, le_i64, le_i8, le_u16, le_u32, le_u64, le_u8,
@@ -144,8 +145,14 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes itself and the number of maps.
+    let Some(size_maps) = size_maps.checked_sub(8) else {
+        return Err(nom::Err::Failure(ParseError::from_error_kind(
+            input,
+            ErrorKind::Verify,
+        )));
+    };
+    let (input, input_maps) = take(size_maps)(input)?;
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
-- 
2.43.0


From dde08541df008ab28afd0aea15562d1c7b66b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 07/24] fix: parse nested properties maps without a key

Only the maps of the user data chunk itself start with a key. Reading
one from a nested map as well shifted everything that followed, so
nested maps were reported as malformed or with wrong contents.
---
 src/binary/chunks/user_data.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 69db28c..8cb1071 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -161,8 +161,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) = parse_properties(input)?;
     Ok((
         input,
         PropertiesMap {
@@ -172,6 +171,24 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
     ))
 }
 
+/// Parse a properties map that is the value of a property or the element of
+/// a vector. Only the maps of the chunk itself have a key.
+fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = parse_properties(input)?;
+    Ok((
+        input,
+        PropertiesMap {
+            extension_entry_id: 0,
+            properties,
+        },
+    ))
+}
+
+fn parse_properties(input: &[u8]) -> ParseResult<'_, Vec<Property<'_>>> {
+    let (input, num_props) = parse_dword_as_usize(input)?;
+    count(parse_property, num_props).parse(input)
+}
+
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
     let (input, value) = parse_value(input)?;
@@ -202,7 +219,7 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
         PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
         PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
@@ -242,7 +259,7 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
             map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
         }
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(parse_nested_properties_map, len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From 15164becab98ec824066d5f5c017ba8797fb0318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 08/24] fix: limit the nesting depth of user data properties

Maps and vectors are parsed recursively without any limit, so a file of a
few hundred kilobytes could overflow the stack and abort the process.
---
 src/binary/chunks/user_data.rs | 69 +++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 8cb1071..1f97130 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -20,6 +20,10 @@ use crate::binary::{
     },
 };
 
+/// Properties maps and vectors which are nested deeper than this are reported
+/// as an error. The parser is recursive and must not overflow the stack.
+const MAX_DEPTH: usize = 64;
+
 bitflags! {
     pub struct UserDataFlags: Dword {
         const HAS_TEXT = 0x1;
@@ -161,7 +165,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, properties) = parse_properties(input)?;
+    let (input, properties) = parse_properties(input, 0)?;
     Ok((
         input,
         PropertiesMap {
@@ -173,8 +177,8 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
 
 /// Parse a properties map that is the value of a property or the element of
 /// a vector. Only the maps of the chunk itself have a key.
-fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
-    let (input, properties) = parse_properties(input)?;
+fn parse_nested_properties_map(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
+    let (input, properties) = parse_properties(input, depth)?;
     Ok((
         input,
         PropertiesMap {
@@ -184,18 +188,37 @@ fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_
     ))
 }
 
-fn parse_properties(input: &[u8]) -> ParseResult<'_, Vec<Property<'_>>> {
+fn parse_properties(input: &[u8], depth: usize) -> ParseResult<'_, Vec<Property<'_>>> {
+    check_depth(input, depth)?;
     let (input, num_props) = parse_dword_as_usize(input)?;
-    count(parse_property, num_props).parse(input)
+    count(|input| parse_property_at(input, depth), num_props).parse(input)
+}
+
+fn check_depth(input: &[u8], depth: usize) -> Result<(), nom::Err<ParseError<'_>>> {
+    if depth > MAX_DEPTH {
+        return Err(nom::Err::Failure(ParseError::from_error_kind(
+            input,
+            ErrorKind::TooLarge,
+        )));
+    }
+    Ok(())
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    parse_property_at(input, 0)
+}
+
+fn parse_property_at(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = parse_value_at(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    parse_value_at(input, 0)
+}
+
+fn parse_value_at(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -217,19 +240,32 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
-        PropertyType::PropertiesMap => {
-            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
+        PropertyType::Vector => {
+            map(|input| parse_vector_at(input, depth + 1), Value::Vector).parse(input)?
         }
+        PropertyType::PropertiesMap => map(
+            |input| parse_nested_properties_map(input, depth + 1),
+            Value::PropertiesMap,
+        )
+        .parse(input)?,
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    parse_vector_at(input, 0)
+}
+
+fn parse_vector_at(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    check_depth(input, depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| parse_value_at(input, depth), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -255,11 +291,16 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
+        PropertyType::Vector => map(
+            count(|input| parse_vector_at(input, depth + 1), len_elements),
+            Vector::Vector,
+        )
+        .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(parse_nested_properties_map, len_elements),
+            count(
+                |input| parse_nested_properties_map(input, depth + 1),
+                len_elements,
+            ),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From 112cd5a78a5bdbb6f1aaef33b2f0ed67e914e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 09/24] fix: keep the value of the first code after the known
 ones

`from_repr` also accepts the discriminant of the `Unknown` variant and
returns it with a default value, so e.g. blend mode 19 was reported as
`Unknown(0)`.
---
 src/binary/blend_mode.rs            | 6 +++++-
 src/binary/chunks/cel.rs            | 6 +++++-
 src/binary/chunks/color_profile.rs  | 7 +++++--
 src/binary/chunks/external_files.rs | 6 +++++-
 src/binary/chunks/tags.rs           | 6 +++++-
 5 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..1963ee4 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -31,7 +31,11 @@ pub enum BlendMode {
 
 impl From<Word> for BlendMode {
     fn from(word: Word) -> Self {
-        BlendMode::from_repr(word.into()).unwrap_or(BlendMode::Unknown(word))
+        match BlendMode::from_repr(word.into()) {
+            // `from_repr` also knows the discriminant of `Unknown` itself
+            Some(BlendMode::Unknown(_)) | None => BlendMode::Unknown(word),
+            Some(known) => known,
+        }
     }
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index c9ef057..938ba6d 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -42,7 +42,11 @@ enum CelType {
 
 impl From<Word> for CelType {
     fn from(word: Word) -> Self {
-        CelType::from_repr(word.into()).unwrap_or(Self::Unknown(word))
+        match CelType::from_repr(word.into()) {
+            // `from_repr` also knows the discriminant of `Unknown` itself
+            Some(CelType::Unknown(_)) | None => CelType::Unknown(word),
+            Some(known) => known,
+        }
     }
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..6d26dba 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -41,8 +41,11 @@ pub enum ColorProfile<'a> {
 
 pub fn parse_color_profile(input: &[u8]) -> ParseResult<'_, ColorProfileChunk<'_>> {
     let (input, profile_type) = word(input)?;
-    let profile_type = ColorProfileType::from_repr(profile_type.into())
-        .unwrap_or(ColorProfileType::Unknown(profile_type));
+    let profile_type = match ColorProfileType::from_repr(profile_type.into()) {
+        // `from_repr` also knows the discriminant of `Unknown` itself
+        Some(ColorProfileType::Unknown(_)) | None => ColorProfileType::Unknown(profile_type),
+        Some(known) => known,
+    };
     let (input, flags) = word(input)?;
     let flags = ColorProfileFlags::from_bits_truncate(flags);
     let (input, fixed_gamma) = fixed(input)?;
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..13b1e82 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -34,7 +34,11 @@ pub enum ExternalFileType {
 
 impl From<Byte> for ExternalFileType {
     fn from(byte: Byte) -> Self {
-        Self::from_repr(byte).unwrap_or(Self::Unknown(byte))
+        match Self::from_repr(byte) {
+            // `from_repr` also knows the discriminant of `Unknown` itself
+            Some(Self::Unknown(_)) | None => Self::Unknown(byte),
+            Some(known) => known,
+        }
     }
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..22e4d0d 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -38,7 +38,11 @@ pub enum AnimationDirection {
 
 impl From<Byte> for AnimationDirection {
     fn from(byte: Byte) -> Self {
-        AnimationDirection::from_repr(byte.into()).unwrap_or(AnimationDirection::Unknown(byte))
+        match AnimationDirection::from_repr(byte.into()) {
+            // `from_repr` also knows the discriminant of `Unknown` itself
+            Some(AnimationDirection::Unknown(_)) | None => AnimationDirection::Unknown(byte),
+            Some(known) => known,
+        }
     }
 }
 
-- 
2.43.0


From 1a248f3977f37b395470100d48587c2079f091bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 10/24] fix: keep the user data of cels with an extra chunk

The cel extra chunk belongs to the cel before it and is written between
the cel and its user data, which was lost.
---
 src/binary/file.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index fa6de72..feef92a 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -58,10 +58,18 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     user_data: next_user_data(&mut chunks),
                     ..layer
                 }),
-                Chunk::Cel(cel) => cels.push(CelChunk {
-                    user_data: next_user_data(&mut chunks),
-                    ..cel
-                }),
+                Chunk::Cel(cel) => {
+                    // The extra chunk of a cel stands between the cel
+                    // and its user data.
+                    while chunks
+                        .next_if(|c| matches!(c, Chunk::CelExtra(_)))
+                        .is_some()
+                    {}
+                    cels.push(CelChunk {
+                        user_data: next_user_data(&mut chunks),
+                        ..cel
+                    })
+                }
                 Chunk::CelExtra(_) => {}
                 Chunk::ColorProfile(_) => {}
                 Chunk::ExternalFiles(_) => {}
-- 
2.43.0


From 2ec9d92c1d184bbf3215fbaf6e24ced683fe275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 11/24] fix: report raw image data of the wrong length instead
 of panicking

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..3a1297d 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -359,7 +359,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if image.data.len() != target.len() {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data);
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From a402d207fc02d3660a1c6bb9487dc84638525b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 12/24] fix: refuse compressed images that end too early

---
 src/loader/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 3a1297d..112998f 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -456,7 +456,14 @@ pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError>
     let mut decompressor = Decompress::new(true);
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
-        Ok(flate2::Status::StreamEnd) => Ok(()),
+        Ok(flate2::Status::StreamEnd) => {
+            // a stream may also end before it has filled the target
+            if decompressor.total_out() == target.len() as u64 {
+                Ok(())
+            } else {
+                Err(LoadImageError::DecompressError)
+            }
+        }
         Err(_) => Err(LoadImageError::DecompressError),
     }
 }
-- 
2.43.0


From c246dde1f1fa68d076be852e89f9fdd1e847c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 13/24] fix: return image errors from render_frame instead of
 panicking

---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 112998f..400c9f7 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From d66c7cc6b687d4da07728010a56562bf6b711942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 14/24] fix: return an error for unknown blend modes instead of
 panicking

---
 src/loader/blend.rs | 8 ++++----
 src/loader/mod.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..f368b1a 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -106,8 +106,8 @@ impl From<&[f64; 4]> for Color {
 }
 
 type BlendFn = fn(Color, Color, u8) -> Color;
-pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
-    match mode {
+pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
+    Some(match mode {
         BlendMode::Normal => normal,
         BlendMode::Multiply => multiply,
         BlendMode::Screen => screen,
@@ -127,8 +127,8 @@ pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
         BlendMode::Addition => addition,
         BlendMode::Subtract => subtract,
         BlendMode::Divide => divide,
-        m => panic!("unimplemented blend mode: {:?}", m),
-    }
+        BlendMode::Unknown(_) => return None,
+    })
 }
 
 // --- addition ----------------------------------------------------------------
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 400c9f7..97985c6 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,7 +311,8 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
-            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
+            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
+                .ok_or(LoadImageError::UnsupportedBlendMode)?;
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -441,6 +442,9 @@ pub enum LoadImageError {
     /// The file uses an unsupported color depth.
     #[error("unsupported color depth")]
     UnsupportedColorDepth,
+    /// A layer uses an unsupported blend mode.
+    #[error("unsupported blend mode")]
+    UnsupportedBlendMode,
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
-- 
2.43.0


From 3eb14e9a858025bd43021eb8f3baf654a5c888d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 15/24] fix: blend the blue channel of soft light layers with
 its source

---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index f368b1a..cd8e4c1 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From 86d08460f44a83d07d5266ec870ae6a0b563c1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 16/24] fix: scale colors to 0..1 in the HSL blend modes

---
 src/loader/blend.rs | 46 ++++++++++++++++-----------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index cd8e4c1..20a2901 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,13 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
-    }
-    fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.b) / 255.0
     }
 }
 
@@ -43,6 +40,15 @@ impl Color {
     fn new(r: u8, g: u8, b: u8, a: u8) -> Self {
         Self { r, g, b, a }
     }
+    /// The components are in the range `0.0..=1.0`.
+    fn from_f64(r: f64, g: f64, b: f64, a: u8) -> Self {
+        Self::from(&[
+            (r * 255.0) as i32,
+            (g * 255.0) as i32,
+            (b * 255.0) as i32,
+            a.into(),
+        ])
+    }
 }
 
 impl From<&[u8]> for Color {
@@ -85,26 +91,6 @@ impl From<&[i32; 4]> for Color {
     }
 }
 
-impl From<&[f64]> for Color {
-    fn from(value: &[f64]) -> Self {
-        debug_assert!(value.len() == 4);
-        Self::from(
-            [
-                (value[0] * 255.0) as i32,
-                (value[1] * 255.0) as i32,
-                (value[2] * 255.0) as i32,
-                (value[3] * 255.0) as i32,
-            ]
-            .as_slice(),
-        )
-    }
-}
-impl From<&[f64; 4]> for Color {
-    fn from(value: &[f64; 4]) -> Self {
-        Self::from(value.as_ref())
-    }
-}
-
 type BlendFn = fn(Color, Color, u8) -> Color;
 pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
     Some(match mode {
@@ -176,7 +162,7 @@ fn hsl_hue_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let (r, g, b) = set_saturation(front.r_f64(), front.g_f64(), front.b_f64(), sat);
     let (r, g, b) = set_luminocity(r, g, b, lum);
 
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- hsl_saturation ----------------------------------------------------------
@@ -191,7 +177,7 @@ fn hsl_saturation_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let (r, g, b) = set_saturation(back.r_f64(), back.g_f64(), back.b_f64(), sat);
     let (r, g, b) = set_luminocity(r, g, b, lum);
 
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- hsl_color ---------------------------------------------------------------
@@ -202,7 +188,7 @@ fn hsl_color(back: Color, front: Color, opacity: u8) -> Color {
 fn hsl_color_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let lum = luminosity(back.r_f64(), back.g_f64(), back.b_f64());
     let (r, g, b) = set_luminocity(front.r_f64(), front.g_f64(), front.b_f64(), lum);
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- hsl_luminosity ----------------------------------------------------------
@@ -214,7 +200,7 @@ fn hsl_luminosity_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let lum = luminosity(front.r_f64(), front.g_f64(), front.b_f64());
     let (r, g, b) = set_luminocity(back.r_f64(), back.g_f64(), back.b_f64(), lum);
 
-    normal(back, Color::from(&[r, g, b, front.a_f64()]), opacity)
+    normal(back, Color::from_f64(r, g, b, front.a), opacity)
 }
 
 // --- exclusion ----------------------------------------------------------------
-- 
2.43.0


From de865ae0f65ec3a435f50bbc8fe6e85955f65a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 17/24] fix: ignore layer opacities that the header says are
 not valid

---
 src/loader/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 97985c6..5b16d18 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -131,6 +131,8 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
+        // without this flag the stored opacities are meaningless
+        let layer_opacity_valid = file.header.flags & 1 != 0;
         let layers: Vec<_> = file
             .layers
             .iter()
@@ -138,7 +140,11 @@ impl AsepriteFile<'_> {
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
                     Some(Layer {
                         name: layer.name.to_string(),
-                        opacity: layer.opacity,
+                        opacity: if layer_opacity_valid {
+                            layer.opacity
+                        } else {
+                            255
+                        },
                         blend_mode: layer.blend_mode,
                         visible: layer.flags.contains(LayerFlags::VISIBLE),
                         layer_type: layer.layer_type,
-- 
2.43.0


From 8ed8323c823127866f570547127bd19f34d95d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:12 +0000
Subject: [PATCH 18/24] fix: keep cels on their layer when layers are skipped

---
 src/loader/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 5b16d18..deb0a15 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -155,6 +155,19 @@ impl AsepriteFile<'_> {
             })
             .collect();
 
+        // index into `layers` for each layer in the file
+        let mut layer_count = 0;
+        let layer_map: Vec<Option<usize>> = file
+            .layers
+            .iter()
+            .map(|layer| {
+                matches!(layer.layer_type, LayerType::Normal | LayerType::Group).then(|| {
+                    layer_count += 1;
+                    layer_count - 1
+                })
+            })
+            .collect();
+
         let mut image_vec: Vec<Image<'_>> = Vec::new();
         let mut image_map: HashMap<(usize, usize), usize> = HashMap::new();
 
@@ -203,12 +216,16 @@ impl AsepriteFile<'_> {
                         })
                     }
                 };
+                // cels of layers that are not reported
+                let Some(layer_index) = layer_map[usize::from(cel.layer_index)] else {
+                    continue;
+                };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
-                    layer_index: cel.layer_index.into(),
+                    layer_index,
                     image_index,
                 });
             }
-- 
2.43.0


From d712f79814975bc6bcd0340abcdfb3827b88c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:15 +0000
Subject: [PATCH 19/24] fix: apply the opacity of cels

---
 src/loader/blend.rs |  2 +-
 src/loader/mod.rs   | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 20a2901..a23835f 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -430,7 +430,7 @@ where
     normal(back, Color::new(r, g, b, front.a), opacity)
 }
 
-fn mul8(a: i32, b: i32) -> u8 {
+pub(crate) fn mul8(a: i32, b: i32) -> u8 {
     let t = a * b + 0x80;
     let r = ((t >> 8) + t) >> 8;
     r as u8
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index deb0a15..f973794 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -26,7 +26,7 @@ use crate::{
         image::Image,
         palette::Palette,
     },
-    loader::blend::{blend_mode_to_blend_fn, Color},
+    loader::blend::{blend_mode_to_blend_fn, mul8, Color},
 };
 
 /// This can be used to load an Aseprite file.
@@ -53,6 +53,8 @@ pub struct FrameCel {
     pub origin: (i16, i16),
     /// Cel size in pixels `(width, height)`.
     pub size: (u16, u16),
+    /// Cel opacity in the range `0..=255`.
+    pub opacity: u8,
     /// Index into [`AsepriteFile::layers`].
     pub layer_index: usize,
     /// Index into [`AsepriteFile::images`].
@@ -225,6 +227,7 @@ impl AsepriteFile<'_> {
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
+                    opacity: cel.opacity,
                     layer_index,
                     image_index,
                 });
@@ -297,7 +300,14 @@ impl AsepriteFile<'_> {
         let mut hasher = DefaultHasher::new();
         let frame = &self.frames[frame_index];
         for cel in frame.cels.iter() {
-            (cel.image_index, cel.layer_index, cel.origin, cel.size).hash(&mut hasher);
+            (
+                cel.image_index,
+                cel.layer_index,
+                cel.origin,
+                cel.size,
+                cel.opacity,
+            )
+                .hash(&mut hasher);
         }
         Ok(hasher.finish())
     }
@@ -332,7 +342,7 @@ impl AsepriteFile<'_> {
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
             self.load_image(cel.image_index, &mut cel_target)?;
-            let layer = &self.layers[cel.layer_index];
+            let opacity = mul8(layer.opacity.into(), cel.opacity.into());
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
                 .ok_or(LoadImageError::UnsupportedBlendMode)?;
@@ -362,7 +372,7 @@ impl AsepriteFile<'_> {
 
                     let back = Color::from(&*target_pixel);
                     let front = Color::from(cel_pixel);
-                    let out = blend_fn(back, front, layer.opacity);
+                    let out = blend_fn(back, front, opacity);
 
                     target_pixel[0] = out.r;
                     target_pixel[1] = out.g;
-- 
2.43.0


From 14143ca9dd4124e3d0d2c36e3ca8d3c1f3027bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 20/24] fix: draw cels in the order given by their z-index

---
 src/loader/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index f973794..5b0c475 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -70,7 +70,7 @@ pub struct Frame {
     pub duration: u16,
     /// Frame origin in sprite coordinates.
     pub origin: (i16, i16),
-    /// Cels in this frame.
+    /// Cels in this frame in drawing order.
     pub cels: Vec<FrameCel>,
 }
 
@@ -201,7 +201,12 @@ impl AsepriteFile<'_> {
 
         for (index, frame) in file.frames.iter().enumerate() {
             let mut cels: Vec<FrameCel> = Vec::new();
-            for cel in frame.cels.iter().filter_map(|x| x.as_ref()) {
+            let mut frame_cels: Vec<_> = frame.cels.iter().filter_map(|x| x.as_ref()).collect();
+            frame_cels.sort_by_key(|cel| {
+                let order = i32::from(cel.layer_index) + i32::from(cel.z_index);
+                (order, cel.z_index)
+            });
+            for cel in frame_cels {
                 let image_index = match cel.content {
                     CelContent::Image(_) => image_map[&(index, cel.layer_index.into())],
                     CelContent::LinkedCel { frame_position } => *image_map
-- 
2.43.0


From 5f9c6a8deafedfd5d226e846c8be8a33512331a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 21/24] fix: hide the layers inside of hidden groups

---
 src/loader/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 5b0c475..31647e5 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -98,7 +98,8 @@ pub struct Layer {
     pub opacity: u8,
     /// Layer blend mode.
     pub blend_mode: BlendMode,
-    /// Whether the layer is visible in the source file.
+    /// Whether the layer and all the groups it is part of are visible in the
+    /// source file.
     pub visible: bool,
     /// Layer kind (normal/group/etc).
     pub layer_type: LayerType,
@@ -133,12 +134,27 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
+        // a layer is only visible if all the groups it is part of are
+        let mut enclosing: Vec<bool> = Vec::new();
+        let visible: Vec<bool> = file
+            .layers
+            .iter()
+            .map(|layer| {
+                enclosing.truncate(layer.child_level.into());
+                let visible = layer.flags.contains(LayerFlags::VISIBLE)
+                    && enclosing.last().copied().unwrap_or(true);
+                enclosing.push(visible);
+                visible
+            })
+            .collect();
+
         // without this flag the stored opacities are meaningless
         let layer_opacity_valid = file.header.flags & 1 != 0;
         let layers: Vec<_> = file
             .layers
             .iter()
-            .filter_map(|layer| {
+            .zip(visible)
+            .filter_map(|(layer, visible)| {
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
                     Some(Layer {
                         name: layer.name.to_string(),
@@ -148,7 +164,7 @@ impl AsepriteFile<'_> {
                             255
                         },
                         blend_mode: layer.blend_mode,
-                        visible: layer.flags.contains(LayerFlags::VISIBLE),
+                        visible,
                         layer_type: layer.layer_type,
                     })
                 } else {
-- 
2.43.0


From 9221a33884ec1e6652100c41815557c14aab97c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:07 +0000
Subject: [PATCH 22/24] fix: do not allocate pixels of images whose data cannot
 fill them

render_frame allocated width * height * 4 bytes for each cel before it looked
at the data. A cel of 65535 x 65535 pixels with a few bytes of data asked for
17 GB.
---
 src/loader/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 31647e5..e35ee7e 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -361,6 +361,7 @@ impl AsepriteFile<'_> {
                 continue;
             }
 
+            self.check_image_data(cel.image_index)?;
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
             self.load_image(cel.image_index, &mut cel_target)?;
             let opacity = mul8(layer.opacity.into(), cel.opacity.into());
@@ -405,6 +406,29 @@ impl AsepriteFile<'_> {
         Ok(())
     }
 
+    /// Check that the data of an image can be enough for its size, so that no
+    /// memory is allocated for pixels which the file does not contain.
+    fn check_image_data(&self, index: usize) -> Result<(), LoadImageError> {
+        // deflate needs at least two bits for a run of 258 bytes
+        const MAX_DEFLATE_RATIO: usize = 1032;
+
+        let image = &self.images[index];
+        let pixel_size = self
+            .file
+            .header
+            .color_depth
+            .pixel_size()
+            .ok_or(LoadImageError::UnsupportedColorDepth)?;
+        let size = usize::from(image.width) * usize::from(image.height) * pixel_size;
+        if !image.compressed && size != image.data.len() {
+            return Err(LoadImageError::InvalidImageData);
+        }
+        if image.compressed && size / MAX_DEFLATE_RATIO > image.data.len() {
+            return Err(LoadImageError::DecompressError);
+        }
+        Ok(())
+    }
+
     /// Get image loader for a given image index
     pub fn load_image(&self, index: usize, target: &mut [u8]) -> Result<(), LoadImageError> {
         let image = &self.images[index];
-- 
2.43.0


From 35552ab3085f9647610435677ee4dd2625ff480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:26 +0000
Subject: [PATCH 23/24] fix: report chunk sizes below four as InvalidChunkSize

---
 src/binary/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunk.rs b/src/binary/chunk.rs
index 516b23b..01ae2a7 100644
--- a/src/binary/chunk.rs
+++ b/src/binary/chunk.rs
@@ -44,7 +44,7 @@ pub fn parse_chunks(input: &[u8], chunk_count: usize) -> ParseResult<'_, Vec<Chu
 }
 
 pub fn parse_chunk(input: &[u8]) -> ParseResult<'_, Chunk<'_>> {
-    let (input, size) = dword_size(input, ParseError::InvalidFrameSize)?;
+    let (input, size) = dword_size(input, ParseError::InvalidChunkSize)?;
     // FIXME handle underflows
     let (rest, input) = take(size - 4)(input)?;
     let (chunk_data, chunk_type) = parse_chunk_type(input)?;
-- 
2.43.0


From ad8cff643e0fb3bdee26582662fb9eadaa66feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:26 +0000
Subject: [PATCH 24/24] fix: report the errors of all frames, not only of the
 first

---
 src/binary/raw_frame.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/binary/raw_frame.rs b/src/binary/raw_frame.rs
index 31e6634..845a33f 100644
--- a/src/binary/raw_frame.rs
+++ b/src/binary/raw_frame.rs
@@ -1,7 +1,8 @@
 use nom::{
     bytes::complete::{tag, take},
-    combinator::{all_consuming, complete},
+    combinator::{all_consuming, complete, cut, eof, not},
     multi::many1,
+    sequence::preceded,
     Parser,
 };
 
@@ -36,7 +37,12 @@ impl RawFrame<'_> {
 const FRAME_MAGIC_NUMBER: [u8; 2] = 0xF1FAu16.to_le_bytes();
 
 pub fn parse_frames(input: &[u8]) -> ParseResult<'_, Vec<RawFrame<'_>>> {
-    complete(all_consuming(many1(parse_rawframe))).parse(input)
+    // `many1` stops at the first error, which must not be one in a later frame
+    complete(all_consuming(many1(preceded(
+        not(eof),
+        cut(parse_rawframe),
+    ))))
+    .parse(input)
 }
 
 pub fn parse_rawframe(input: &[u8]) -> ParseResult<'_, RawFrame<'_>> {
-- 
2.43.0

