From 8ba30d51e9a5c25af53bdddb44defb0a3dbb5405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:07 +0000
Subject: [PATCH 1/9] fix: find the end of a compressed bitmap by its blocks

The compressed data of a bitmap may contain the bytes of the next record's tag,
which cut the bitmap short and made the rest of the image unreadable.
---
 src/vpx/biff.rs  | 20 ++++++++++++++++++++
 src/vpx/image.rs |  8 ++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/vpx/biff.rs b/src/vpx/biff.rs
index 2f18fc0..0de21db 100644
--- a/src/vpx/biff.rs
+++ b/src/vpx/biff.rs
@@ -505,6 +505,26 @@ impl<'a> BiffReader<'a> {
         self.bytes_in_record_remaining = 0;
         data.to_vec()
     }
+
+    /// Reads a sequence of data sub-blocks (a size byte followed by that many bytes) until the
+    /// given record header is found where the next block would start.
+    /// Contrary to [`BiffReader::data_until`] the contents of the blocks can not be mistaken for
+    /// that header.
+    ///
+    /// Returns `None`, leaving the position unchanged, if the data is not made of such blocks.
+    pub fn blocks_until(&mut self, header: &[u8]) -> Option<Vec<u8>> {
+        let mut pos = self.pos;
+        while pos < self.data.len() && self.data.len() - pos >= header.len() {
+            if &self.data[pos..pos + header.len()] == header {
+                let data = &self.data[self.pos..pos];
+                self.pos = pos;
+                self.bytes_in_record_remaining = 0;
+                return Some(data.to_vec());
+            }
+            pos += 1 + self.data[pos] as usize;
+        }
+        None
+    }
 }
 
 pub struct BiffWriter {
diff --git a/src/vpx/image.rs b/src/vpx/image.rs
index 70921b7..ff338a0 100644
--- a/src/vpx/image.rs
+++ b/src/vpx/image.rs
@@ -395,8 +395,12 @@ fn read(reader: &mut BiffReader) -> ImageData {
             }
             "BITS" => {
                 // these have zero as length
-                // read all the data until the next expected tag
-                let data = reader.data_until("ALTV".as_bytes());
+                // read all the data until the next expected tag, the compressed data might
+                // contain the name of that tag so we have to skip over the blocks it is made of
+                let data = match reader.blocks_until(b"\x08\0\0\0ALTV") {
+                    Some(data) => data,
+                    None => reader.data_until("ALTV".as_bytes()),
+                };
                 //let reader = std::io::Cursor::new(data);
 
                 // uncompressed = zlib.decompress(image_data.data[image_data.pos:]) #, wbits=9)
-- 
2.43.0


From f54b6e2679db22c5ef927e6a2fbdb9ba8a0bafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:52 +0000
Subject: [PATCH 2/9] fix: a camera layout mode does not make a 10.8 table a
 beta one

---
 src/vpx/gamedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/gamedata.rs b/src/vpx/gamedata.rs
index 9834893..c41d946 100644
--- a/src/vpx/gamedata.rs
+++ b/src/vpx/gamedata.rs
@@ -2115,7 +2115,8 @@ pub fn read_all_gamedata_records(input: &[u8], version: &Version) -> GameData {
             "SCLY" => gamedata.bg_scale_y_desktop = reader.get_f32(),
             "SCLZ" => gamedata.bg_scale_z_desktop = reader.get_f32(),
             "EFSS" => {
-                if version.u32() == 1080 && previous_tag != "BOTM" {
+                // since 10.8.0 beta5 this record directly follows BOTM or the optional CLMO
+                if version.u32() == 1080 && previous_tag != "BOTM" && previous_tag != "CLMO" {
                     gamedata.is_10_8_0_beta1_to_beta4 = true;
                 }
                 gamedata.bg_enable_fss = Some(reader.get_bool())
-- 
2.43.0


From 7f5c8ebecebefa819f1fc7628bf1f3b793490fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:07 +0000
Subject: [PATCH 3/9] fix: keep a sound's average byte rate in its WAV file

It was computed from the other format fields, which loses the stored value of compressed
formats and overflows for large ones.
---
 src/vpx/sound.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/vpx/sound.rs b/src/vpx/sound.rs
index 79e2325..e856c18 100644
--- a/src/vpx/sound.rs
+++ b/src/vpx/sound.rs
@@ -178,11 +178,6 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
     } else {
         sound_data.wave_form.cb_size as u32 // 4
     };
-    //let bytes_per_sec = sound_data.wave_form.avg_bytes_per_sec;
-    let bytes_per_sec = sound_data.wave_form.samples_per_sec
-        * sound_data.wave_form.bits_per_sample as u32
-        * sound_data.wave_form.channels as u32
-        / 8;
     let extension_size = if sound_data.wave_form.format_tag == 1 {
         None
     } else {
@@ -197,7 +192,7 @@ fn write_wav_header2(sound_data: &SoundData) -> Vec<u8> {
         format_tag: sound_data.wave_form.format_tag,
         channels: sound_data.wave_form.channels,
         samples_per_sec: sound_data.wave_form.samples_per_sec,
-        avg_bytes_per_sec: bytes_per_sec,
+        avg_bytes_per_sec: sound_data.wave_form.avg_bytes_per_sec,
         block_align: sound_data.wave_form.block_align,
         bits_per_sample: sound_data.wave_form.bits_per_sample,
         extension_size,
-- 
2.43.0


From 4e07925430fbee04e806b9e58dc4269597411294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:31 +0000
Subject: [PATCH 4/9] fix: a custom info name that names a storage does not
 stop the signature

An empty name gave the path of the TableInfo storage itself, which exists but has no bytes
to sign, so writing the table failed.
---
 src/vpx/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpx/mod.rs b/src/vpx/mod.rs
index 3ab9304..d8345bc 100644
--- a/src/vpx/mod.rs
+++ b/src/vpx/mod.rs
@@ -762,7 +762,7 @@ fn generate_mac<F: Read + Seek>(comp: &mut CompoundFile<F>) -> io::Result<Vec<u8
                     let cust_name = biff.get_string();
                     //println!("Hashing custom information block {}", cust_name);
                     let path = format!("TableInfo/{cust_name}");
-                    if comp.exists(&path) {
+                    if comp.is_stream(&path) {
                         let data = read_bytes_at(&path, comp)?;
                         hasher.update(&data);
                     }
-- 
2.43.0


From c98cb4bbae99e201d61bb1bb1c2a0891522f589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:33 +0000
Subject: [PATCH 5/9] fix: a primitive named json keeps its mesh and animation
 files

---
 src/vpx/expanded/primitives.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vpx/expanded/primitives.rs b/src/vpx/expanded/primitives.rs
index 49e39ed..efc5cf7 100644
--- a/src/vpx/expanded/primitives.rs
+++ b/src/vpx/expanded/primitives.rs
@@ -608,8 +608,7 @@ fn write_animation_frames_to_meshes(
         let animation_frame_vertices =
             read_vpx_animation_frame(compressed_frame, compressed_length);
         let full_vertices = replace_vertices(vertices, animation_frame_vertices)?;
-        let file_name_without_ext = json_file_name.trim_end_matches(".json");
-        let file_name = animation_frame_file_name(file_name_without_ext, i, mesh_format);
+        let file_name = animation_frame_file_name(json_file_name, i, mesh_format);
         let mesh_path = gameitems_dir.join(&file_name);
 
         match mesh_format {
@@ -691,7 +690,10 @@ pub(super) fn read_gameitem_binaries(
     fs: &dyn FileSystem,
 ) -> io::Result<GameItemEnum> {
     if let GameItemEnum::Primitive(primitive) = &mut item {
-        let gameitem_file_name = gameitem_file_name.trim_end_matches(".json");
+        // only the extension, the name of the item itself might also end with ".json"
+        let gameitem_file_name = gameitem_file_name
+            .strip_suffix(".json")
+            .unwrap_or(&gameitem_file_name);
 
         // Check for OBJ first (backward compatibility), then GLB
         let obj_path = gameitems_dir.join(format!("{gameitem_file_name}.obj"));
-- 
2.43.0


From f60b3f846173f49cc7133d7bd4e5143d4d00993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:00 +0000
Subject: [PATCH 6/9] fix: a primitive named like an animation frame does not
 overwrite that frame's file

---
 src/vpx/expanded/gameitems.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vpx/expanded/gameitems.rs b/src/vpx/expanded/gameitems.rs
index 948f7a6..66fe7e1 100644
--- a/src/vpx/expanded/gameitems.rs
+++ b/src/vpx/expanded/gameitems.rs
@@ -132,6 +132,12 @@ pub(super) fn write_gameitems<P: AsRef<Path>>(
     Ok(())
 }
 
+/// Whether a mesh file with this stem would look like an animation frame: `..._anim_<index>`
+fn is_animation_frame_stem(name: &str) -> bool {
+    let without_index = name.trim_end_matches(|c: char| c.is_ascii_digit());
+    without_index.len() < name.len() && without_index.to_lowercase().ends_with("_anim_")
+}
+
 fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEnum) -> String {
     let mut name = gameitem.name().to_string();
     if name.is_empty() {
@@ -139,6 +145,10 @@ fn gameitem_filename_stem(file_name_gen: &mut FileNameGen, gameitem: &GameItemEn
     }
     // escape any characters that are not allowed in file names, for any os
     name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+    // the mesh of a primitive should not be taken for an animation frame of another primitive
+    if matches!(gameitem, GameItemEnum::Primitive(_)) && is_animation_frame_stem(&name) {
+        name.push('_');
+    }
     let file_name = format!("{}.{}", gameitem.type_name(), name);
     file_name_gen.ensure_unique(file_name)
 }
-- 
2.43.0


From ef3fee065d4c9d85cc70116794a58be84327a470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:02 +0000
Subject: [PATCH 7/9] fix: images and sounds with colliding or invalid names
 get distinct valid file names

---
 src/vpx/expanded/images.rs | 27 +++------------------------
 src/vpx/expanded/sounds.rs | 29 ++++-------------------------
 src/vpx/expanded/util.rs   | 29 +++++++++++++++++++++++++++++
 3 files changed, 36 insertions(+), 49 deletions(-)

diff --git a/src/vpx/expanded/images.rs b/src/vpx/expanded/images.rs
index 17d7245..ec6fd45 100644
--- a/src/vpx/expanded/images.rs
+++ b/src/vpx/expanded/images.rs
@@ -4,13 +4,12 @@ use crate::filesystem::FileSystem;
 use crate::vpx::image::{ImageData, ImageDataJson, swap_red_and_blue, vpx_image_to_dynamic_image};
 use crate::vpx::lzw::to_lzw_blocks;
 use log::{debug, info, warn};
-use std::collections::HashSet;
 use std::ffi::OsStr;
 use std::io::{self, BufRead, Seek, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileNames, read_json};
 
 struct ImageBmp {
     width: u32,
@@ -27,8 +26,7 @@ pub(super) fn write_images<P: AsRef<Path>>(
 
     let images_index_path = expanded_dir.as_ref().join("images.json");
     let mut images_index_file = fs.create_buffered_file(&images_index_path)?;
-    let mut image_names_lower: HashSet<String> = HashSet::new();
-    let mut image_names_dupe_counter = 0;
+    let mut file_names = UniqueFileNames::default();
     let mut json_images = Vec::with_capacity(images.len());
     let images_list: io::Result<Vec<(String, &ImageData)>> = images
         .iter()
@@ -43,26 +41,7 @@ pub(super) fn write_images<P: AsRef<Path>>(
                 image.height
             );
             let mut json = ImageDataJson::from_image_data(image);
-            let name_sanitized = sanitize_filename(&image.name);
-            if name_sanitized != image.name {
-                info!(
-                    "Image name {} contained invalid characters, sanitized to {}",
-                    image.name, name_sanitized
-                );
-                json.name_dedup = Some(name_sanitized.clone());
-            }
-            let lower_name = name_sanitized.to_lowercase();
-            if image_names_lower.contains(&lower_name) {
-                image_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", image.name, image_names_dupe_counter);
-                info!(
-                    "Image name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
-                );
-                json.name_dedup = Some(name_dedup);
-            }
-            image_names_lower.insert(lower_name);
-
+            json.name_dedup = file_names.dedup(&image.name);
             let actual_name = json.name_dedup.as_ref().unwrap_or(&image.name);
             let file_name = format!("{}.{}", actual_name, image.ext());
 
diff --git a/src/vpx/expanded/sounds.rs b/src/vpx/expanded/sounds.rs
index be8af44..8a6aac0 100644
--- a/src/vpx/expanded/sounds.rs
+++ b/src/vpx/expanded/sounds.rs
@@ -3,12 +3,11 @@
 use crate::filesystem::FileSystem;
 use crate::vpx::sound::{SoundData, SoundDataJson, read_sound, write_sound};
 use log::info;
-use std::collections::HashSet;
 use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileNames, read_json};
 
 pub(super) fn write_sounds<P: AsRef<Path>>(
     sounds: &[SoundData],
@@ -17,34 +16,14 @@ pub(super) fn write_sounds<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let sounds_index_path = expanded_dir.as_ref().join("sounds.json");
     let mut sounds_index_file = fs.create_buffered_file(&sounds_index_path)?;
-    let mut sound_names_lower: HashSet<String> = HashSet::new();
-    let mut sound_names_dupe_counter = 0;
+    let mut file_names = UniqueFileNames::default();
     let mut json_sounds = Vec::with_capacity(sounds.len());
     let sounds: Vec<(String, &SoundData)> = sounds
         .iter()
         .map(|sound| {
             let mut json = SoundDataJson::from_sound_data(sound);
-            let name_sanitized = sanitize_filename(&sound.name);
-            if name_sanitized != sound.name {
-                info!(
-                    "Sound name {} contained invalid characters, sanitized to {}",
-                    sound.name, name_sanitized
-                );
-                json.name_dedup = Some(name_sanitized.clone());
-            }
-            let lower_name = name_sanitized.to_lowercase();
-            if sound_names_lower.contains(&lower_name) {
-                sound_names_dupe_counter += 1;
-                let name_dedup = format!("{}_dedup{}", sound.name, sound_names_dupe_counter);
-                info!(
-                    "Sound name {} is not unique, renaming file to {}",
-                    name_sanitized, name_dedup
-                );
-                json.name_dedup = Some(name_dedup);
-            }
-            sound_names_lower.insert(lower_name);
-
-            let actual_name = json.name_dedup.as_ref().unwrap_or(&name_sanitized);
+            json.name_dedup = file_names.dedup(&sound.name);
+            let actual_name = json.name_dedup.as_ref().unwrap_or(&sound.name);
             let file_name = format!("{}.{}", actual_name, sound.ext());
             json_sounds.push(json);
             (file_name, sound)
diff --git a/src/vpx/expanded/util.rs b/src/vpx/expanded/util.rs
index 9dc8f95..03fc38c 100644
--- a/src/vpx/expanded/util.rs
+++ b/src/vpx/expanded/util.rs
@@ -1,7 +1,9 @@
 //! Utility functions for expanded VPX operations
 
 use crate::filesystem::FileSystem;
+use log::info;
 use serde::de;
+use std::collections::HashSet;
 use std::io;
 use std::path::Path;
 
@@ -14,6 +16,33 @@ pub(crate) fn sanitize_filename<S: AsRef<str>>(name: S) -> String {
     sanitize_filename::sanitize(name)
 }
 
+/// Hands out the file names (without extension) for named parts of a table,
+/// unique regardless of letter case
+#[derive(Default)]
+pub(super) struct UniqueFileNames {
+    used_names_lowercase: HashSet<String>,
+    dupe_counter: usize,
+}
+
+impl UniqueFileNames {
+    /// Returns the replacement for a name that can't be used as is: because it contains
+    /// characters that are not allowed in a file name or because it is already used
+    pub(super) fn dedup(&mut self, name: &str) -> Option<String> {
+        let name_sanitized = sanitize_filename(name);
+        let mut file_name = name_sanitized.clone();
+        while !self.used_names_lowercase.insert(file_name.to_lowercase()) {
+            self.dupe_counter += 1;
+            file_name = format!("{}_dedup{}", name_sanitized, self.dupe_counter);
+        }
+        if file_name == name {
+            None
+        } else {
+            info!("Name {name} is not unique or contains invalid characters, using {file_name}");
+            Some(file_name)
+        }
+    }
+}
+
 /// Read and parse a JSON file from the filesystem
 pub(super) fn read_json<P: AsRef<Path>, T>(json_path: P, fs: &dyn FileSystem) -> io::Result<T>
 where
-- 
2.43.0


From 2bed383e4c416249a770d3f0457c0f17fbf32cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 8/9] fix: fonts with the same or an invalid file name do not
 overwrite each other

---
 src/vpx/expanded/fonts.rs | 48 ++++++++++++++++++++++++---------------
 src/vpx/font.rs           |  5 ++++
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/vpx/expanded/fonts.rs b/src/vpx/expanded/fonts.rs
index 40396ee..927e3de 100644
--- a/src/vpx/expanded/fonts.rs
+++ b/src/vpx/expanded/fonts.rs
@@ -7,7 +7,7 @@ use std::io::{self, Write};
 use std::path::Path;
 
 use super::WriteError;
-use super::util::{read_json, sanitize_filename};
+use super::util::{UniqueFileNames, read_json, sanitize_filename};
 
 pub(super) fn write_fonts<P: AsRef<Path>>(
     fonts: &[FontData],
@@ -16,19 +16,30 @@ pub(super) fn write_fonts<P: AsRef<Path>>(
 ) -> Result<(), WriteError> {
     let fonts_json_path = expanded_dir.as_ref().join("fonts.json");
     let mut fonts_index_file = fs.create_buffered_file(&fonts_json_path)?;
-    let fonts_index: Vec<FontDataJson> = fonts.iter().map(FontDataJson::from_font_data).collect();
+    let mut file_names = UniqueFileNames::default();
+    let fonts_index: Vec<FontDataJson> = fonts
+        .iter()
+        .map(|font| {
+            let mut json = FontDataJson::from_font_data(font);
+            json.name_dedup = file_names.dedup(&font.name);
+            json
+        })
+        .collect();
     serde_json::to_writer_pretty(&mut fonts_index_file, &fonts_index)?;
     fonts_index_file.flush()?;
 
     let fonts_dir = expanded_dir.as_ref().join("fonts");
     fs.create_dir_all(&fonts_dir)?;
-    fonts.iter().try_for_each(|font| {
-        let sanitized_name = sanitize_filename(&font.name);
-        let file_name = format!("{}.{}", sanitized_name, font.ext());
-        let font_path = fonts_dir.join(file_name);
-        let mut file = fs.create_file(&font_path)?;
-        file.write_all(&font.data)
-    })?;
+    fonts
+        .iter()
+        .zip(&fonts_index)
+        .try_for_each(|(font, json)| {
+            let name = json.name_dedup.as_ref().unwrap_or(&font.name);
+            let file_name = format!("{}.{}", name, font.ext());
+            let font_path = fonts_dir.join(file_name);
+            let mut file = fs.create_file(&font_path)?;
+            file.write_all(&font.data)
+        })?;
     Ok(())
 }
 
@@ -42,16 +53,17 @@ pub(super) fn read_fonts<P: AsRef<Path>>(
         return Ok(vec![]);
     }
     let fonts_json: Vec<FontDataJson> = read_json(fonts_index_path, fs)?;
-    let fonts_index: Vec<FontData> = fonts_json
-        .iter()
-        .map(|font_data_json| font_data_json.to_font_data())
-        .collect();
     let fonts_dir = expanded_dir.as_ref().join("fonts");
-    let fonts: io::Result<Vec<FontData>> = fonts_index
-        .into_iter()
-        .map(|mut font| {
-            let sanitized_name = sanitize_filename(&font.name);
-            let file_name = format!("{}.{}", sanitized_name, font.ext());
+    let fonts: io::Result<Vec<FontData>> = fonts_json
+        .iter()
+        .map(|font_data_json| {
+            let mut font = font_data_json.to_font_data();
+            // without this field the file has the sanitized name
+            let name = match &font_data_json.name_dedup {
+                Some(name_dedup) => name_dedup.clone(),
+                None => sanitize_filename(&font.name),
+            };
+            let file_name = format!("{}.{}", name, font.ext());
             let font_path = fonts_dir.join(file_name);
             if fs.exists(&font_path) {
                 let font_data = fs.read_file(&font_path)?;
diff --git a/src/vpx/font.rs b/src/vpx/font.rs
index 3b195aa..41ad5c4 100644
--- a/src/vpx/font.rs
+++ b/src/vpx/font.rs
@@ -16,6 +16,10 @@ pub struct FontData {
 pub(crate) struct FontDataJson {
     name: String,
     path: String,
+    /// In case the file name is not simply the name, because of special characters or because
+    /// another font has the same name
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub(crate) name_dedup: Option<String>,
 }
 
 impl FontDataJson {
@@ -23,6 +27,7 @@ impl FontDataJson {
         Self {
             name: font_data.name.clone(),
             path: font_data.path.clone(),
+            name_dedup: None,
         }
     }
     pub fn to_font_data(&self) -> FontData {
-- 
2.43.0


From c0a9a7e254dee4b0348cc90718f6a5b5b8249c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 9/9] fix: a line break in a primitive's name does not make its
 OBJ file unreadable

---
 src/vpx/obj.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vpx/obj.rs b/src/vpx/obj.rs
index 4be9231..86a43be 100644
--- a/src/vpx/obj.rs
+++ b/src/vpx/obj.rs
@@ -125,7 +125,8 @@ pub(crate) fn write_obj_to_writer<W: io::Write>(
         vpx_vertices.len(),
         vpx_indices.len()
     ))?;
-    obj_writer.write_object_name(name)?;
+    // the name is a single line of the file, a line break in it would make the file unreadable
+    obj_writer.write_object_name(name.replace(|c: char| c.is_control(), "_"))?;
 
     for VertexWrapper { vertex, .. } in vpx_vertices {
         obj_writer.write_vertex(vertex.x, vertex.y, -vertex.z, None)?;
-- 
2.43.0

