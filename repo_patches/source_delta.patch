From 153a41092c525963517d24d656e47fc9a6d6ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 01/80] fix: don't reserve memory for array counts before
 checking them against the data

---
 src/ringhopper-primitives/src/primitive/data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index fe2f049..50c5224 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -445,7 +445,7 @@ impl BSPVertexData {
         let rendered_size = rendered_count.mul_overflow_checked(if compressed { 32 } else { 56 })?;
         let lightmap_size = lightmap_count.mul_overflow_checked(if compressed { 8 } else { 20 })?;
         let total_size = rendered_size.add_overflow_checked(lightmap_size)?;
-        let mut data: Vec<u8> = Vec::with_capacity(total_size);
+        let mut data: Vec<u8> = Vec::new();
 
         if !map.get_engine().external_bsps || p_address != 0 {
             match map.get_data_at_address(p_address, domain_type, total_size) {
@@ -596,6 +596,10 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         let count = c_primitive.count as usize;
         let item_size = T::size();
         let total_length = count.mul_overflow_checked(item_size)?;
+
+        // Don't reserve memory for elements that can't be there
+        fits(total_length, *extra_data_cursor, data.len())?;
+
         let mut result = Reflexive {
             items: Vec::with_capacity(count)
         };
@@ -641,8 +645,9 @@ impl<T: TagData + Sized> TagData for Reflexive<T> {
         // Make sure we can add all of these
         count.mul_overflow_checked(item_size)?.add_overflow_checked(address)?;
 
+        // Don't reserve memory for the count since it can't be trusted; elements that aren't there will fail to read
         let mut result = Reflexive {
-            items: Vec::with_capacity(count)
+            items: Vec::new()
         };
 
         for _ in 0..count {
-- 
2.43.0


From bcecc5ee15cf69e422cb6b26b8c5ed55d3fde465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 02/80] fix: ID::from_u32_checked accepted invalid IDs and
 rejected valid ones

---
 src/ringhopper-primitives/src/primitive/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 50c5224..b3951c7 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -134,7 +134,7 @@ impl ID {
     /// Convert from a [`u32`] with validity checks.
     pub const fn from_u32_checked(id: u32) -> RinghopperResult<Self> {
         let id = Self::from_u32(id);
-        if id.is_valid() {
+        if !id.is_valid() {
             Err(Error::InvalidID)
         }
         else {
-- 
2.43.0


From b89586e04dba3b59509ef4d61114ce199150d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 03/80] fix: get_at_index(_mut) panicked if out of range
 instead of returning None

---
 src/ringhopper-primitives/src/primitive/array.rs | 4 ++--
 src/ringhopper-primitives/src/primitive/data.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/array.rs b/src/ringhopper-primitives/src/primitive/array.rs
index c30c063..c2b7173 100644
--- a/src/ringhopper-primitives/src/primitive/array.rs
+++ b/src/ringhopper-primitives/src/primitive/array.rs
@@ -240,11 +240,11 @@ impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> SimpleTagData fo
 
 impl<T: DynamicTagData + SimpleTagData + Sized, const U: usize> DynamicTagDataArray for [T; U] {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self[index])
+        self.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self[index])
+        self.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index b3951c7..94689d5 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -873,11 +873,11 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
 
 impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagDataArray for Reflexive<T> {
     fn get_at_index(&self, index: usize) -> Option<&dyn DynamicTagData> {
-        Some(&self.items[index])
+        self.items.get(index).map(|i| i as &dyn DynamicTagData)
     }
 
     fn get_at_index_mut(&mut self, index: usize) -> Option<&mut dyn DynamicTagData> {
-        Some(&mut self.items[index])
+        self.items.get_mut(index).map(|i| i as &mut dyn DynamicTagData)
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 63275ec866fe03351edd60b85ad119c392c70a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 04/80] fix: Plane2D and Plane3D gave their size in memory as
 the size they are stored with

---
 src/ringhopper-primitives/src/primitive/plane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/plane.rs b/src/ringhopper-primitives/src/primitive/plane.rs
index 9b2dbc0..d30c109 100644
--- a/src/ringhopper-primitives/src/primitive/plane.rs
+++ b/src/ringhopper-primitives/src/primitive/plane.rs
@@ -36,7 +36,7 @@ impl Plane for Plane2D {
 
 impl SimpleTagData for Plane2D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector2D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector2D::read::<B>(data, at, struct_end)?;
@@ -77,7 +77,7 @@ impl Plane for Plane3D {
 
 impl SimpleTagData for Plane3D {
     fn simple_size() -> usize {
-        std::mem::size_of::<Self>()
+        Vector3D::simple_size() + f64::simple_size()
     }
     fn read<B: ByteOrder>(data: &[u8], at: usize, struct_end: usize) -> RinghopperResult<Self> {
         let vector = Vector3D::read::<B>(data, at, struct_end)?;
-- 
2.43.0


From 3d4d42fa4441b0a3bf27892fa36d63d6fee9f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 05/80] fix: reflexives could not be accessed with
 as_reflexive_mut

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 94689d5..00b5f56 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -862,6 +862,10 @@ impl<T: DynamicTagData + Sized + Default + Clone> DynamicTagData for Reflexive<T
         DynamicTagDataType::Reflexive
     }
 
+    fn as_reflexive_mut(&mut self) -> Option<&mut dyn DynamicReflexive> {
+        Some(self as &mut dyn DynamicReflexive)
+    }
+
     fn as_array(&self) -> Option<&dyn DynamicTagDataArray> {
         Some(self as &dyn DynamicTagDataArray)
     }
-- 
2.43.0


From 044b3e1386cad4bd68b413b0913b04363ef0a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 06/80] fix: references in tag files were not checked for being
 valid tag paths

---
 src/ringhopper-primitives/src/primitive/path.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 7645310..3de55ce 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -484,10 +484,7 @@ impl TagData for TagReference {
         *extra_data_cursor = end;
 
         Ok(TagReference::Set(
-            TagPath {
-                path: std::str::from_utf8(&data[start..null_byte_index]).map_err(|_| Error::InvalidTagPath)?.to_owned(),
-                group
-            }
+            TagPath::new(std::str::from_utf8(&data[start..null_byte_index]).map_err(|_| Error::InvalidTagPath)?, group)?
         ))
     }
 
-- 
2.43.0


From 6d9957d49c7b33a939a14a60ab53725cda1e42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 07/80] fix: references to an empty path were written as broken
 tag files

---
 src/ringhopper-primitives/src/primitive/path.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper-primitives/src/primitive/path.rs b/src/ringhopper-primitives/src/primitive/path.rs
index 3de55ce..2e7108f 100644
--- a/src/ringhopper-primitives/src/primitive/path.rs
+++ b/src/ringhopper-primitives/src/primitive/path.rs
@@ -496,6 +496,7 @@ impl TagData for TagReference {
                     ..Default::default()
                 }
             },
+            TagReference::Set(path) if path.path.is_empty() => return Err(Error::InvalidTagPath), // length 0 means null
             TagReference::Set(path) => {
                 data.extend_from_slice(path.path.as_bytes());
                 data.push(0x00);
-- 
2.43.0


From 83c4ba2701784f3171d03df173ce715fa3b9bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 08/80] fix: the name of the wind group was not recognised

---
 src/ringhopper-primitives/src/primitive/group.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/group.rs b/src/ringhopper-primitives/src/primitive/group.rs
index 160c457..9ce9c47 100644
--- a/src/ringhopper-primitives/src/primitive/group.rs
+++ b/src/ringhopper-primitives/src/primitive/group.rs
@@ -215,7 +215,8 @@ impl TagGroup {
     ///
     /// Returns an error `Error::NoSuchTagGroup` if `str` doesn't correspond to a group.
     pub fn from_str(str: &str) -> RinghopperResult<TagGroup> {
-        ALL_GROUPS.binary_search_by(|probe| probe.0.cmp(str))
+        // The last group is the unset group, which has no name and is not in order
+        ALL_GROUPS[..TagGroup::_Unset as usize].binary_search_by(|probe| probe.0.cmp(str))
             .map(|n| ALL_GROUPS[n].1)
             .map_err(|_| Error::InvalidFourCC)
     }
-- 
2.43.0


From dfdfb00a51871c7b7fb9fe7e862ec4dd55cb5a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 09/80] fix: String32::from_str kept text after a null
 terminator, so equal strings were not equal

---
 src/ringhopper-primitives/src/primitive/string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/string.rs b/src/ringhopper-primitives/src/primitive/string.rs
index b4d6389..b7c1728 100644
--- a/src/ringhopper-primitives/src/primitive/string.rs
+++ b/src/ringhopper-primitives/src/primitive/string.rs
@@ -37,7 +37,9 @@ impl String32 {
             return Err(Error::String32SizeLimitExceeded)
         }
 
-        output.string_data[0..strlen].copy_from_slice(bytes);
+        // Anything past a null terminator is not part of the string
+        let end = bytes.iter().position(|&b| b == 0).unwrap_or(strlen);
+        output.string_data[0..end].copy_from_slice(&bytes[0..end]);
         Ok(output)
     }
 
-- 
2.43.0


From b31ea0415fd8397b56830615fcf61b58502387de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 10/80] fix: DataC was written with its address where it is not
 read

---
 src/ringhopper-primitives/src/primitive/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/data.rs b/src/ringhopper-primitives/src/primitive/data.rs
index 00b5f56..5adaabf 100644
--- a/src/ringhopper-primitives/src/primitive/data.rs
+++ b/src/ringhopper-primitives/src/primitive/data.rs
@@ -1012,8 +1012,8 @@ impl SimpleTagData for DataC {
         self.size.write::<B>(data, at, struct_end)?;
         self.flags.write::<B>(data, at + 0x4, struct_end)?;
         self.file_offset.write::<B>(data, at + 0x8, struct_end)?;
-        self.padding.write::<B>(data, at + 0xC, struct_end)?;
-        self.address.write::<B>(data, at + 0x10, struct_end)?;
+        self.address.write::<B>(data, at + 0xC, struct_end)?;
+        self.padding.write::<B>(data, at + 0x10, struct_end)?;
         Ok(())
     }
 }
-- 
2.43.0


From 4076ad5a6dcb5c26004b572a716370eaafaa909a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 11/80] fix: do not compress negative values close to zero to
 -1.0

---
 src/ringhopper-primitives/src/primitive/vector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index ff741ee..080c2f5 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -859,6 +859,10 @@ fn compress_float<const BITS: usize>(value: f64) -> u32 {
     let value = (positive * (max as f64)).round();
     let mut integer = value as u32;
     if is_negative {
+        // Too close to zero to be a negative value; setting the sign would give -1.0.
+        if integer == max {
+            return 0;
+        }
         integer = integer | 1 << (BITS - 1);
     }
 
-- 
2.43.0


From 706fe57dfae1fb70bc64b5b1c58d1b02731fbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 12/80] fix: normalize vectors into any length, and do not
 assert that non-finite ones have one

---
 src/ringhopper-primitives/src/primitive/vector.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index 080c2f5..d4fdadf 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -32,21 +32,17 @@ pub trait Vector: Sized + Copy + Clone {
         if self.is_unit_vector() {
             return *self
         }
-        let value = self.normalize_into(1.0);
-        debug_assert!(value.is_unit_vector());
-        value
+        self.normalize_into(1.0)
     }
 
     /// Normalize the vector into the given unit.
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
         if magnitude_sq == 0.0 {
-            return Self::one();
+            return Self::one().scale(unit);
         }
 
-        let result = self.scale(unit / magnitude_sq.sqrt());
-        debug_assert!(result.is_unit_vector());
-        result
+        self.scale(unit / magnitude_sq.sqrt())
     }
 
     /// Return `true` if the vector is a unit vector.
-- 
2.43.0


From 5a8c8d1a22d4c10bb5a08783f927e0551b513557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 13/80] fix: match tag filters by character so that non-ASCII
 paths and filters do not panic

---
 src/ringhopper/src/tag/tree.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 2989d79..f6b3bec 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -84,7 +84,7 @@ impl TagFilter {
             let group_len = group_as_string.len();
             let filter_len = filter.len();
             let possible_dot = filter_len.wrapping_sub(group_len + 1);
-            if filter_len > group_len && filter.chars().nth(possible_dot) == Some('.') && filter.ends_with(group_as_string) {
+            if filter_len > group_len && filter.as_bytes()[possible_dot] == b'.' && filter.ends_with(group_as_string) {
                 filter = &filter[..possible_dot];
             }
         }
@@ -136,7 +136,7 @@ impl TagFilter {
         let group_len = group_as_string.len();
         let filter_len = path.len();
         let possible_dot = filter_len.wrapping_sub(group_len + 1);
-        if filter_len > group_len && path.chars().nth(possible_dot) == Some('.') && path.ends_with(group_as_string) {
+        if filter_len > group_len && path.as_bytes()[possible_dot] == b'.' && path.ends_with(group_as_string) {
             &path[..possible_dot]
         }
         else {
@@ -256,9 +256,9 @@ impl TagFilter {
 
             let what_first = what_first.unwrap();
 
-            filter = &filter[1..];
+            filter = &filter[filter_first.len_utf8()..];
             if filter_first != '*' {
-                what = &what[1..];
+                what = &what[what_first.len_utf8()..];
             }
 
             if filter_first == '?' || filter_first == what_first {
@@ -268,11 +268,11 @@ impl TagFilter {
                 if filter.is_empty() {
                     return true
                 }
-                while !what.is_empty() {
+                while let Some(c) = what.chars().next() {
                     if Self::filter_passes_raw(filter, what) {
                         return true
                     }
-                    what = &what[1..];
+                    what = &what[c.len_utf8()..];
                 }
                 return false
             }
-- 
2.43.0


From 4c20ac188412ca00ac5b9a56c663d75526d67c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 14/80] fix: list each tag once when several tags directories
 have it

---
 src/ringhopper/src/tag/tree.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index f6b3bec..ea0afe6 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -1,5 +1,5 @@
 use std::borrow::Cow;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use crc64::crc64;
@@ -670,6 +670,7 @@ impl TagTree for VirtualTagsDirectory {
     }
     fn files_in_path(&self, path: &str) -> Option<Vec<TagTreeItem>> {
         let mut result = Vec::new();
+        let mut found = HashSet::new();
         let mut success = false;
 
         for dir_path in &self.directories {
@@ -712,14 +713,13 @@ impl TagTree for VirtualTagsDirectory {
                 });
 
             for f in entries {
-                result.push(f);
+                // A lower directory can have the same item
+                if found.insert((f.path.to_string(), f.tag_group)) {
+                    result.push(f);
+                }
             }
         }
 
-        result.dedup_by(|a, b| {
-            a.item_type == b.item_type && a.tag_group == b.tag_group && a.path == b.path
-        });
-
         if !success {
             return None
         }
-- 
2.43.0


From 452969bb14d1046932ecd6ba58467b2b4047d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 15/80] fix: do not list or panic on files in a tags directory
 which cannot be referred to by a tag path

---
 src/ringhopper/src/tag/tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index ea0afe6..d8a4670 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -694,6 +694,11 @@ impl TagTree for VirtualTagsDirectory {
                         let extension = path.rfind('.')?;
                         let tag_group = TagGroup::from_str(&path[extension + 1..]).ok()?;
                         path.truncate(extension);
+
+                        // Not a tag if there is no tag path which refers to it
+                        let tag_path = TagPath::new(&path, tag_group).ok()?;
+                        self.path_for_tag(&tag_path)?;
+
                         Some(TagTreeItem::new(
                             TagTreeItemType::Tag,
                             Cow::Owned(path),
-- 
2.43.0


From 1c237531a0590c4ee126fefde324baf0e55f5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 16/80] fix: do not take a directory which is named like a tag
 for the tag

---
 src/ringhopper/src/tag/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index d8a4670..4fbb952 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -645,7 +645,7 @@ impl VirtualTagsDirectory {
         for index in 0..self.directories.len() {
             let directory = &self.directories[index];
             let path_to_test = directory.join(&native_path);
-            if !path_to_test.exists() {
+            if !path_to_test.is_file() {
                 continue
             }
             return Some((index, path_to_test));
-- 
2.43.0


From 83e74cc0c6cea39d9b638dfc3bcfec480e17ea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 17/80] fix: do not list a tag again for files and directories
 whose names only differ in case

---
 src/ringhopper/src/tag/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 4fbb952..80d2181 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -691,6 +691,7 @@ impl TagTree for VirtualTagsDirectory {
 
                     let mut path = path.strip_prefix(dir_path).unwrap().to_owned().into_os_string().into_string().ok()?;
                     if !is_dir {
+                        let file_name = path.clone();
                         let extension = path.rfind('.')?;
                         let tag_group = TagGroup::from_str(&path[extension + 1..]).ok()?;
                         path.truncate(extension);
@@ -699,6 +700,11 @@ impl TagTree for VirtualTagsDirectory {
                         let tag_path = TagPath::new(&path, tag_group).ok()?;
                         self.path_for_tag(&tag_path)?;
 
+                        // If file names are case sensitive, that path refers to another file
+                        if !cfg!(any(windows, target_os = "macos")) && tag_path.to_native_path() != file_name {
+                            return None
+                        }
+
                         Some(TagTreeItem::new(
                             TagTreeItemType::Tag,
                             Cow::Owned(path),
-- 
2.43.0


From fe7ecabee6d26536e6db3bcb1a46318a666abd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 18/80] fix: evicting a tag from the cache panicked if it was
 still open somewhere

---
 src/ringhopper/src/tag/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 80d2181..a0aee0a 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -482,7 +482,10 @@ impl<T: TagTree> CachingTagTree<T> {
             .lock()
             .unwrap()
             .remove(path)
-            .map(|tag| Arc::into_inner(tag).unwrap().into_inner().unwrap())
+            .map(|tag| match Arc::try_unwrap(tag) {
+                Ok(n) => n.into_inner().unwrap(),
+                Err(shared) => shared.lock().unwrap().clone_inner() // still open somewhere else
+            })
     }
 
     /// Write the tag to the delegate.
-- 
2.43.0


From 752e25672984c296a29be4062d06b0c3e0c13c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 19/80] fix: writing a tag through an instant cache said it was
 saved when it was unchanged

---
 src/ringhopper/src/tag/tree.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index a0aee0a..29d5eba 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -537,11 +537,12 @@ impl<T: TagTree> TagTree for CachingTagTree<T> {
         self.inner.files_in_path(path)
     }
     fn write_tag(&mut self, path: &TagPath, tag: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
-        if self.strategy == CachingTagTreeWriteStrategy::Instant {
-            self.inner.write_tag(path, tag)?;
-        }
+        let saved = match self.strategy {
+            CachingTagTreeWriteStrategy::Instant => self.inner.write_tag(path, tag)?,
+            CachingTagTreeWriteStrategy::Manual => true
+        };
         self.tag_cache.lock().unwrap().insert(path.to_owned(), Arc::new(Mutex::new(tag.clone_inner())));
-        Ok(true)
+        Ok(saved)
     }
     fn contains(&self, path: &TagPath) -> bool {
         self.inner.contains(path)
-- 
2.43.0


From bd14ece0cb9b018c91dce179fe8aa17dbd1cd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:25 +0000
Subject: [PATCH 20/80] fix: a tag which is written to the cache but not yet
 committed was not contained in the tree

---
 src/ringhopper/src/tag/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 29d5eba..5aa9405 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -545,7 +545,7 @@ impl<T: TagTree> TagTree for CachingTagTree<T> {
         Ok(saved)
     }
     fn contains(&self, path: &TagPath) -> bool {
-        self.inner.contains(path)
+        self.tag_cache.lock().unwrap().contains_key(path) || self.inner.contains(path)
     }
     fn root(&self) -> TagTreeItem {
         self.inner.root()
-- 
2.43.0


From 80c61da5dae526a9559bf2a7857c99dd6f0c4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 21/80] fix: looking for reverse dependencies panicked if a tag
 could not be opened

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 7240892..a2a6c60 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -130,7 +130,7 @@ pub fn get_reverse_dependencies_for_tag<T: TagTree>(tag: &TagPath, tag_tree: &T)
             continue
         }
 
-        let t = tag_tree.open_tag_shared(&i).unwrap();
+        let t = tag_tree.open_tag_shared(&i)?;
         let t = t.lock().unwrap();
         if get_tag_dependencies_for_block(t.as_ref().as_dynamic()).contains(tag) {
             result.insert(i);
-- 
2.43.0


From 5e3b978c279aa0c23c0d28a001e4ec98ad2e70d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 22/80] fix: the dependency tree did not show tags which depend
 on each other

---
 src/invader/src/verb/dependency_tree.rs | 27 ++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/invader/src/verb/dependency_tree.rs b/src/invader/src/verb/dependency_tree.rs
index 82b63c2..2ea44b7 100644
--- a/src/invader/src/verb/dependency_tree.rs
+++ b/src/invader/src/verb/dependency_tree.rs
@@ -165,8 +165,9 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
     // Sort out all root tags.
     let mut next_on_depths = Vec::new();
     let output = make_stdout_logger();
-    let root_tags = all_tags.iter().filter(|&t| {
-        if tags_with_broken_dependencies.is_some_and(|b| !b.contains(&t)) {
+    let can_be_shown = |t: &TagPath| !tags_with_broken_dependencies.is_some_and(|b| !b.contains(&t));
+    let mut root_tags: Vec<&TagPath> = all_tags.iter().filter(|&t| {
+        if !can_be_shown(t) {
             return false;
         }
         for r in &result {
@@ -175,7 +176,27 @@ pub fn dependency_tree(args: Args, description: &'static str) -> Result<(), Stri
             }
         }
         true
-    });
+    }).collect();
+
+    // Tags which depend on each other (or themselves) may not be reachable from any of these.
+    fn find_reachable<'a>(tag_path: &'a TagPath, result: &'a HashMap<TagPath, Vec<TagPath>>, reachable: &mut HashSet<&'a TagPath>) {
+        let mut pending = Vec::from([tag_path]);
+        while let Some(t) = pending.pop() {
+            if reachable.insert(t) {
+                pending.extend(result.get(t).into_iter().flatten());
+            }
+        }
+    }
+    let mut reachable = HashSet::new();
+    for i in &root_tags {
+        find_reachable(i, &result, &mut reachable);
+    }
+    for i in &all_tags {
+        if can_be_shown(i) && !reachable.contains(i) {
+            root_tags.push(i);
+            find_reachable(i, &result, &mut reachable);
+        }
+    }
 
     let mut stack = Vec::new();
     for i in root_tags {
-- 
2.43.0


From f3f80cf2a406bd04251184477738a2de1553eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 23/80] fix: a tag file which holds another group than its name
 says was opened as that tag

---
 src/ringhopper/src/tag/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/tree.rs b/src/ringhopper/src/tag/tree.rs
index 5aa9405..bb32eb0 100644
--- a/src/ringhopper/src/tag/tree.rs
+++ b/src/ringhopper/src/tag/tree.rs
@@ -669,6 +669,9 @@ impl TagTree for VirtualTagsDirectory {
         let hash = Self::hash_file(file.as_slice());
         let mut tag = ringhopper_structs::read_any_tag_from_file_buffer(&file, self.strictness)
             .map_err(|e| Error::FailedToReadTag(path.clone(), vec![e]))?;
+        if tag.group() != path.group() {
+            return Err(Error::FailedToReadTag(path.clone(), vec![Error::TagHeaderGroupTypeMismatch]))
+        }
         tag.metadata_mut().hash = Some(hash);
         Ok(tag)
     }
-- 
2.43.0


From 963091dfe1fc3c16c2760c278d6610b811f38607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:46 +0000
Subject: [PATCH 24/80] fix: report a tag that cannot be opened while fixing
 references instead of panicking

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index a2a6c60..08924e5 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -340,7 +340,7 @@ pub fn refactor_paths_for_tag_tree(
                 Ok(n) => n,
                 Err(e) => {
                     let mut l = context.results.lock().unwrap();
-                    l.get_mut(tag).unwrap().errors.push(format!("Can't open {tag}: {e}"));
+                    l.entry(tag.to_owned()).or_default().errors.push(format!("Can't open {tag}: {e}"));
                     continue;
                 }
             };
-- 
2.43.0


From 74ebaefd143e8e39e72e40cd4ea5b3770937d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:46 +0000
Subject: [PATCH 25/80] fix: do not rename a reference again after it was
 redirected

---
 src/ringhopper/src/tag/dependency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 08924e5..2637877 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -352,6 +352,7 @@ pub fn refactor_paths_for_tag_tree(
                     if r.path() == Some(old_path) {
                         *r = TagReference::Set(new_path.to_owned());
                         changes_made = true;
+                        break;
                     }
                 }
             });
-- 
2.43.0


From 07427a9c47c56d1bcfea413cbd8469cb97b28861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 26/80] fix: move renamed tags back into directories that were
 emptied when renaming fails

---
 src/ringhopper/src/tag/dependency.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 2637877..9508770 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -279,8 +279,14 @@ pub fn refactor_paths_for_tag_tree(
         }
 
         if undo_history.len() != tags_to_rename.len() {
-            for i in undo_history {
-                std::fs::rename(&i.1, &i.0).unwrap();
+            for ((old_actual_path, new_actual_path), (old_path, _)) in undo_history.iter().zip(&tags_to_rename).rev() {
+                // the directory the tag was in is gone if the tag was the only thing in it
+                let undone = old_actual_path.parent()
+                    .map_or(Ok(()), |parent| std::fs::create_dir_all(parent))
+                    .and_then(|_| std::fs::rename(new_actual_path, old_actual_path));
+                if let Err(e) = undone {
+                    results.entry(old_path.to_owned()).or_default().errors.push(format!("Couldn't move {} back to {}: {e:?}", new_actual_path.display(), old_actual_path.display()));
+                }
             }
             return Err((Error::Other("Filesystem errors occurred".to_owned()), results));
         }
-- 
2.43.0


From f3eee1b9e02c7c0219a48823566465d07c719977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:34 +0000
Subject: [PATCH 27/80] fix: refuse to rename a tag to an empty path, which
 nothing can refer to

---
 src/ringhopper/src/tag/dependency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index 9508770..a2caba2 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -215,6 +215,9 @@ pub fn refactor_paths_for_tag_tree(
                 }
             };
             let replacement = TagPath::new(&replacement, i.group()).map_err(|e| (e, HashMap::default()))?;
+            if replacement.path().is_empty() {
+                return Err((Error::Other(format!("Can't rename {i} because nothing would be left of its path")), HashMap::default()));
+            }
             if no_move && !all_tags.contains(&replacement) {
                 return Err((Error::TagNotFound(replacement), HashMap::default()));
             }
-- 
2.43.0


From 5b2243b627aa6e27f35c51fca3d5455b59aa59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 28/80] fix: report detail object palettes missing from the
 scenario when verifying a BSP

---
 src/ringhopper/src/tag/verify/scenario_structure_bsp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
index 6ffd795..c025a29 100644
--- a/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
+++ b/src/ringhopper/src/tag/verify/scenario_structure_bsp.rs
@@ -69,7 +69,7 @@ pub fn verify_scenario_structure_bsp<T: TagTree + Send + Sync + 'static>(tag: &d
                     .and_then(|r| r.path())
                     .and_then(|r| context.tag_tree.open_tag_shared(r).ok()) else {
                     let bit = 1 << bit_offset;
-                    if (complained_bitfield & bit) != 0 {
+                    if (complained_bitfield & bit) == 0 {
                         complained_bitfield |= bit;
                         result.errors.push(format!("Missing detail object collection palette #{bit_offset} in scenario tag"));
                     }
-- 
2.43.0


From 64b02d663081fe5fd38d4e0f35924436d7b0ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:52 +0000
Subject: [PATCH 29/80] fix: do not panic when verifying references to groups
 which are not allowed

---
 src/ringhopper/src/tag/verify.rs                 |  9 ++++++++-
 src/ringhopper/src/tag/verify/hud_interface.rs   | 14 +++++++-------
 src/ringhopper/src/tag/verify/object.rs          | 12 ++++++------
 src/ringhopper/src/tag/verify/particle_system.rs |  4 ++--
 4 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 52880e9..71531e9 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -67,6 +67,9 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         let hud_globals_path = n.hud_globals
             .path()
             .ok_or_else(|| Error::InvalidTagData(format!("{globals_path} does not have HUD globals set for interface bitmaps #0")))?;
+        if hud_globals_path.group() != TagGroup::HUDGlobals {
+            return Err(Error::InvalidTagData(format!("{globals_path} references {hud_globals_path} as HUD globals for interface bitmaps #0")))
+        }
         hud_globals_ref = tag_tree.open_tag_shared(hud_globals_path)?;
     }
     else {
@@ -203,8 +206,12 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
         Some(is_ok)
     }
 
-    fn open_tag_reference_maybe(&self, tag_reference: &TagReference, result: &mut TagResult, must_be_set_error: Option<&'static str>) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
+    /// Open the referenced tag if it is one of the `expected` groups and it has no errors.
+    ///
+    /// References to any other group are reported by [`verify_dependencies`], so they're ignored here.
+    fn open_tag_reference_maybe(&self, tag_reference: &TagReference, expected: &[TagGroup], result: &mut TagResult, must_be_set_error: Option<&'static str>) -> Option<Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>> {
         match tag_reference {
+            TagReference::Set(tp) if !expected.contains(&tp.group()) => None,
             TagReference::Set(tp) => self.open_tag_maybe(tp, result),
             TagReference::Null(_) => {
                 if let Some(n) = must_be_set_error {
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index ededa66..a383763 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -2,7 +2,7 @@ use std::collections::HashSet;
 
 use definitions::WeaponHUDInterface;
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::{TagPath, TagReference};
+use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{Bitmap, GrenadeHUDInterface, HUDGlobals, HUDInterfaceMeterElement, HUDInterfaceStaticElement, UnicodeStringList, UnitHUDInterface};
 use crate::tag::tree::TagTree;
@@ -17,7 +17,7 @@ pub fn verify_weapon_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dyn
     macro_rules! check_sequence_index_for_2d_thing {
         ($outer_reflexive:tt, $outer_reflexive_bitmap:tt, $inner_reflexive:tt, $name:expr) => {
             for (oi, outer) in ziperator!(weapon_hud_interface.$outer_reflexive) {
-                let bitmap = match context.open_tag_reference_maybe(&outer.$outer_reflexive_bitmap, result, None) {
+                let bitmap = match context.open_tag_reference_maybe(&outer.$outer_reflexive_bitmap, &[TagGroup::Bitmap], result, None) {
                     Some(n) => n,
                     None => continue
                 };
@@ -76,7 +76,7 @@ pub fn verify_grenade_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dy
     check_static_element(&grenade_hud_interface.background, context, result, || "Background".to_string());
     check_static_element(&grenade_hud_interface.total_grenades_background, context, result, || "Total grenades background".to_string());
 
-    match context.open_tag_reference_maybe(&grenade_hud_interface.total_grenades_overlays.bitmap, result, None) {
+    match context.open_tag_reference_maybe(&grenade_hud_interface.total_grenades_overlays.bitmap, &[TagGroup::Bitmap], result, None) {
         Some(bitmap) => {
             let mut bitmap = bitmap.lock().unwrap();
             let bitmap = bitmap.as_any_mut().downcast_mut::<Bitmap>().unwrap();
@@ -95,7 +95,7 @@ pub fn verify_grenade_hud_interface<T: TagTree + Send + Sync + 'static>(tag: &dy
 pub fn verify_hud_globals<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let hud_globals: &HUDGlobals = tag.as_any().downcast_ref().unwrap();
 
-    match context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
+    match context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, &[TagGroup::UnicodeStringList], result, None) {
         Some(item_message_text) => {
             let mut item_message_text = item_message_text.lock().unwrap();
             let item_message_text = item_message_text.as_any_mut().downcast_mut::<UnicodeStringList>().unwrap();
@@ -122,7 +122,7 @@ pub fn verify_hud_globals<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryT
 }
 
 fn check_static_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String>(element: &HUDInterfaceStaticElement, context: &ScenarioContext<T>, result: &mut TagResult, name: N) {
-    let bitmap = match context.open_tag_reference_maybe(&element.interface_bitmap, result, None) {
+    let bitmap = match context.open_tag_reference_maybe(&element.interface_bitmap, &[TagGroup::Bitmap], result, None) {
         Some(n) => n,
         None => return
     };
@@ -135,7 +135,7 @@ fn check_static_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> Strin
 }
 
 fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String>(element: &HUDInterfaceMeterElement, context: &ScenarioContext<T>, result: &mut TagResult, name: N) {
-    let bitmap = match context.open_tag_reference_maybe(&element.meter_bitmap, result, None) {
+    let bitmap = match context.open_tag_reference_maybe(&element.meter_bitmap, &[TagGroup::Bitmap], result, None) {
         Some(n) => n,
         None => return
     };
@@ -157,7 +157,7 @@ fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDI
             break
         }
 
-        child_ref = match context.open_tag_reference_maybe(&child_ref, result, None) {
+        child_ref = match context.open_tag_reference_maybe(&child_ref, &[TagGroup::WeaponHUDInterface], result, None) {
             Some(n) => {
                 let lock = n.lock().unwrap();
                 let child = lock.as_any().downcast_ref::<WeaponHUDInterface>().unwrap();
diff --git a/src/ringhopper/src/tag/verify/object.rs b/src/ringhopper/src/tag/verify/object.rs
index b6a3c9c..4b5fc2f 100644
--- a/src/ringhopper/src/tag/verify/object.rs
+++ b/src/ringhopper/src/tag/verify/object.rs
@@ -1,6 +1,6 @@
 use definitions::{Bitmap, Weapon, WeaponHUDInterface};
 use primitives::dynamic::DynamicTagDataArray;
-use primitives::primitive::TagPath;
+use primitives::primitive::{TagGroup, TagPath};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_structs::{GBXModel, HUDGlobals, Model, ModelAnimations, UnicodeStringList, WeaponHUDInterfaceCrosshairType};
 use crate::tag::object::downcast_base_object;
@@ -14,7 +14,7 @@ const IGNORED_MODEL_NODE_LIST_CHECKSUM: i32 = 0;
 pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStructDyn, _path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let object = downcast_base_object(tag).unwrap();
 
-    let model = context.open_tag_reference_maybe(&object.model, result, None);
+    let model = context.open_tag_reference_maybe(&object.model, &[TagGroup::Model, TagGroup::GBXModel], result, None);
 
     if object.model.is_null() {
         if !object.animation_graph.is_null() {
@@ -33,7 +33,7 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
             ($group:ty) => {
                 if let Some(model) = model.as_any().downcast_ref::<$group>() {
                     if model.node_list_checksum != IGNORED_MODEL_NODE_LIST_CHECKSUM {
-                        if let Some(anim) = context.open_tag_reference_maybe(&object.animation_graph, result, None) {
+                        if let Some(anim) = context.open_tag_reference_maybe(&object.animation_graph, &[TagGroup::ModelAnimations], result, None) {
                             let anim = anim.lock().unwrap();
                             let anim = anim.as_any().downcast_ref::<ModelAnimations>().unwrap();
 
@@ -59,7 +59,7 @@ pub fn verify_object<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
     let hud_globals_lock = context.hud_globals.clone();
     let hud_globals = hud_globals_lock.lock().unwrap();
     let hud_globals = hud_globals.as_any().downcast_ref::<HUDGlobals>().unwrap();
-    if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, result, None) {
+    if let Some(r) = context.open_tag_reference_maybe(&hud_globals.messaging_parameters.item_message_text, &[TagGroup::UnicodeStringList], result, None) {
         let item_message_text = r.lock().unwrap();
         let index = object.hud_text_message_index;
         let max = item_message_text.as_any().downcast_ref::<UnicodeStringList>().unwrap().strings.len();
@@ -74,7 +74,7 @@ pub fn verify_weapon<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
 
     let zoom_levels = weapon.zoom_levels as usize;
     if zoom_levels > 0 {
-        if let Some(r) = context.open_tag_reference_maybe(&weapon.hud_interface, result, None) {
+        if let Some(r) = context.open_tag_reference_maybe(&weapon.hud_interface, &[TagGroup::WeaponHUDInterface], result, None) {
             let hud = r.lock().unwrap();
             let weapon_hud_interface: &WeaponHUDInterface = hud.as_any().downcast_ref().unwrap();
             for (crosshair_index, crosshair) in (0..weapon_hud_interface.crosshairs.len()).zip(&weapon_hud_interface.crosshairs) {
@@ -82,7 +82,7 @@ pub fn verify_weapon<T: TagTree + Send + Sync + 'static>(tag: &dyn PrimaryTagStr
                     continue
                 }
 
-                let b = match context.open_tag_reference_maybe(&crosshair.crosshair_bitmap, result, None) {
+                let b = match context.open_tag_reference_maybe(&crosshair.crosshair_bitmap, &[TagGroup::Bitmap], result, None) {
                     Some(n) => n,
                     None => continue
                 };
diff --git a/src/ringhopper/src/tag/verify/particle_system.rs b/src/ringhopper/src/tag/verify/particle_system.rs
index d7c7fb8..7da42b0 100644
--- a/src/ringhopper/src/tag/verify/particle_system.rs
+++ b/src/ringhopper/src/tag/verify/particle_system.rs
@@ -1,4 +1,4 @@
-use primitives::{primitive::TagPath, tag::PrimaryTagStructDyn};
+use primitives::{primitive::{TagGroup, TagPath}, tag::PrimaryTagStructDyn};
 use ringhopper_structs::{Bitmap, ParticleSystem, ParticleSystemComplexSpriteRenderMode};
 
 use crate::tag::tree::TagTree;
@@ -20,7 +20,7 @@ pub fn verify_particle_system<T: TagTree + Send + Sync + 'static>(tag: &dyn Prim
                 None => continue // TODO: check if this is OK
             };
 
-            let bitmap = match context.open_tag_reference_maybe(&state.bitmaps, result, None) {
+            let bitmap = match context.open_tag_reference_maybe(&state.bitmaps, &[TagGroup::Bitmap], result, None) {
                 Some(n) => n,
                 None => continue // TODO: check if this is OK
             };
-- 
2.43.0


From 4cd09f18283e5a7b2fa3adb6cf364c8bd07e750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 30/80] fix: verify tags that were locked for something else,
 and do not let go of a tag before its result is in

---
 src/ringhopper/src/tag/verify.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 71531e9..76e4d1f 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -137,19 +137,27 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
 
     /// Verify the tag
     ///
-    /// If `skip_if_locked` is true, then this will return `None` if the tag is currently open in another thread.
+    /// If `skip_if_locked` is true, then this will return `None` if the tag is currently being verified by another thread.
     ///
     /// Otherwise, return `true` if the tag is OK, and `false` if not.
     fn verify_tag(&self, path: &TagPath, skip_if_locked: bool) -> Option<bool> {
         let mut result = TagResult::default();
+
+        // This has to stay locked until the result is in, since anything that can lock the tag may rely on its result.
+        let tag_ref;
+        let _lock;
+
         match self.tag_tree.open_tag_shared(&path) {
             Ok(tag) => {
+                tag_ref = tag;
+
                 // We want to acquire the tag ASAP in case something tries to read this tag before we verify it
-                let lock = if skip_if_locked {
-                    tag.try_lock().ok()?
-                }
-                else {
-                    tag.lock().unwrap()
+                let lock = match tag_ref.try_lock() {
+                    Ok(n) => n,
+
+                    // It may also be locked just to look something up in it, in which case we still have to verify it
+                    Err(_) if skip_if_locked && self.results.lock().unwrap().contains_key(path) => return None,
+                    Err(_) => tag_ref.lock().unwrap()
                 };
 
                 match self.reserve_tag_to_verify(path) {
@@ -190,6 +198,8 @@ impl<T: TagTree + Send + Sync + 'static> ScenarioContext<T> {
                     TagGroup::ScenarioStructureBSP => verify_scenario_structure_bsp(tag, path, self, &mut result),
                     _ => ()
                 }
+
+                _lock = lock;
             },
             Err(e) => {
                 if self.reserve_tag_to_verify(path) != VerifyStatus::Unverified {
-- 
2.43.0


From 85b515b68be3802411e182b9e6738b00b8941c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 31/80] fix: verifying weapon HUD interfaces never finished
 when their child HUDs are a loop

---
 src/ringhopper/src/tag/result.rs              |  5 +++-
 src/ringhopper/src/tag/verify.rs              | 12 +++++++++-
 .../src/tag/verify/hud_interface.rs           | 24 ++++++++-----------
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/ringhopper/src/tag/result.rs b/src/ringhopper/src/tag/result.rs
index aaee43c..ddb0922 100644
--- a/src/ringhopper/src/tag/result.rs
+++ b/src/ringhopper/src/tag/result.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 use std::sync::{Arc, Mutex};
 use definitions::ScenarioType;
 use primitives::engine::Engine;
-use primitives::primitive::TagPath;
+use primitives::primitive::{TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use crate::tag::tree::TagTree;
 
@@ -29,6 +29,9 @@ pub(crate) struct ScenarioContext<T: TagTree + Send + Sync> {
     pub scenario: Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>,
     pub hud_globals: Arc<Mutex<Box<dyn PrimaryTagStructDyn>>>,
     pub scenario_type: ScenarioType,
+
+    /// Child HUD of every weapon HUD interface
+    pub child_huds: HashMap<TagPath, TagReference>,
     pub engine: &'static Engine,
     pub tag_tree: Arc<T>,
     pub results: Mutex<HashMap<TagPath, TagResult>>
diff --git a/src/ringhopper/src/tag/verify.rs b/src/ringhopper/src/tag/verify.rs
index 76e4d1f..47f85f1 100644
--- a/src/ringhopper/src/tag/verify.rs
+++ b/src/ringhopper/src/tag/verify.rs
@@ -20,7 +20,7 @@ use primitives::error::{Error, RinghopperResult};
 use primitives::primitive::{TagGroup, TagPath, TagReference};
 use primitives::tag::PrimaryTagStructDyn;
 use ringhopper_engines::Engine;
-use ringhopper_structs::{Globals, Scenario, ScenarioType};
+use ringhopper_structs::{Globals, Scenario, ScenarioType, WeaponHUDInterface};
 use crate::tag::object::is_object;
 use crate::tag::result::*;
 use crate::tag::tree::TagTree;
@@ -82,6 +82,7 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         scenario: scenario_ref,
         hud_globals: hud_globals_ref,
         scenario_type: ScenarioType::Multiplayer,
+        child_huds: HashMap::new(),
         engine,
         tag_tree: Arc::new(tag_tree),
         results: Mutex::new(HashMap::new())
@@ -91,6 +92,15 @@ pub fn verify<T: TagTree + Send + Sync + 'static>(scenario: &TagPath, tag_tree:
         .map_err(|e| Error::Other(format!("Failed to query dependencies: {e}")))?;
     context.scenario_type = context.scenario.lock().unwrap().as_any().downcast_ref::<Scenario>().unwrap()._type;
 
+    // Tags get locked when they are verified, so a loop can't be followed at that point.
+    for path in all_dependencies.iter().filter(|p| p.group() == TagGroup::WeaponHUDInterface) {
+        if let Ok(tag) = context.tag_tree.open_tag_shared(path) {
+            if let Some(n) = tag.lock().unwrap().as_any().downcast_ref::<WeaponHUDInterface>() {
+                context.child_huds.insert(path.to_owned(), n.child_hud.to_owned());
+            }
+        }
+    }
+
     let mut v = Vec::with_capacity(all_dependencies.len());
     v.extend(all_dependencies.into_iter());
     let all_dependencies = Arc::new(v);
diff --git a/src/ringhopper/src/tag/verify/hud_interface.rs b/src/ringhopper/src/tag/verify/hud_interface.rs
index a383763..e97886f 100644
--- a/src/ringhopper/src/tag/verify/hud_interface.rs
+++ b/src/ringhopper/src/tag/verify/hud_interface.rs
@@ -149,21 +149,17 @@ fn check_meter_element<T: TagTree + Send + Sync + 'static, N: FnOnce() -> String
 
 fn verify_no_infinite_loop<T: TagTree + Send + Sync + 'static>(base: &WeaponHUDInterface, path: &TagPath, context: &ScenarioContext<T>, result: &mut TagResult) {
     let mut all_references = HashSet::new();
-    all_references.insert(path.to_owned());
-    let mut child_ref = base.child_hud.to_owned();
-    while let TagReference::Set(n) = &child_ref {
-        if all_references.contains(n) {
-            result.errors.push(format!("Infinite loop detected (loop start found at {n})"));
-            break
-        }
+    all_references.insert(path);
 
-        child_ref = match context.open_tag_reference_maybe(&child_ref, &[TagGroup::WeaponHUDInterface], result, None) {
-            Some(n) => {
-                let lock = n.lock().unwrap();
-                let child = lock.as_any().downcast_ref::<WeaponHUDInterface>().unwrap();
-                child.child_hud.clone()
-            },
-            None => break // failed to load
+    let mut child_ref = Some(&base.child_hud);
+    while let Some(TagReference::Set(n)) = child_ref {
+        if !all_references.insert(n) {
+            result.errors.push(format!("Infinite loop detected (loop start found at {n})"));
+            return
         }
+        child_ref = context.child_huds.get(n);
     }
+
+    // The child gets its own children verified
+    context.open_tag_reference_maybe(&base.child_hud, &[TagGroup::WeaponHUDInterface], result, None);
 }
-- 
2.43.0


From 6db9a58f026b2da5e77597ca45f65d8066028604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 32/80] fix: bludgeon refused tags which only have a wrong
 checksum

---
 src/invader/src/verb/bludgeon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invader/src/verb/bludgeon.rs b/src/invader/src/verb/bludgeon.rs
index ac90286..ed2eb51 100644
--- a/src/invader/src/verb/bludgeon.rs
+++ b/src/invader/src/verb/bludgeon.rs
@@ -17,7 +17,7 @@ pub fn bludgeon(args: Args, description: &'static str) -> Result<(), String> {
     let mut directory = parser.get_virtual_tags_directory();
     directory.set_strictness(ParseStrictness::Relaxed);
 
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
+    do_with_threads(directory, parser, &tag, None, (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
         let mut tag = context.tags_directory.open_tag_copy(&path)?;
 
         match bludgeon::bludgeon_tag(tag.as_mut(), path) {
-- 
2.43.0


From fd709f866858527fd7c39b1487bb952a638cec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 33/80] fix: plate wrote to another bitmap's file if the path
 had a dot

---
 src/invader/src/verb/plate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/invader/src/verb/plate.rs b/src/invader/src/verb/plate.rs
index f1523f9..880b88b 100644
--- a/src/invader/src/verb/plate.rs
+++ b/src/invader/src/verb/plate.rs
@@ -17,18 +17,18 @@ pub fn plate(args: Args, description: &'static str) -> Result<(), String> {
 
     let tag = parser.get_extra()[0].clone();
     do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, Some(TagGroup::Bitmap), (), DisplayMode::ShowAll, make_stdout_logger(), |context, path, _, _| {
-        let data_dir = context
+        let data_path = context
             .args
             .get_data()
-            .join(path.to_native_path())
-            .with_extension("");
+            .join(path.to_native_path());
+        let data_dir = data_path.with_extension("");
 
         if !data_dir.is_dir() {
             return Ok(ProcessSuccessType::Skipped("no directory to import in data"))
         }
 
         let result = make_color_plate_from_loose(&data_dir)?;
-        let image_file = data_dir.with_extension("tif");
+        let image_file = data_path.with_extension("tif");
         let tiff = result.to_tiff();
 
         std::fs::write(&image_file, tiff)
-- 
2.43.0


From 30c8b51d086aeddb0548759dd10b2efa5b9e4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 34/80] fix: comparing found a difference between a NaN and the
 same NaN

---
 src/ringhopper/src/tag/compare.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/compare.rs b/src/ringhopper/src/tag/compare.rs
index bf0fb8c..5a5f448 100644
--- a/src/ringhopper/src/tag/compare.rs
+++ b/src/ringhopper/src/tag/compare.rs
@@ -1,6 +1,8 @@
 use std::fmt::Display;
 use crc64::crc64;
+use primitives::byteorder::LE;
 use primitives::dynamic::{DynamicEnum, DynamicTagData, DynamicTagDataArray, DynamicTagDataType, SimplePrimitiveType};
+use primitives::parse::SimpleTagData;
 use primitives::primitive::{Address, Angle, BSPVertexData, ColorARGBFloat, ColorARGBInt, ColorARGBIntBytes, ColorRGBFloat, CompressedFloat, CompressedVector2D, CompressedVector3D, Data, Euler2D, Euler3D, FileData, ID, Index, Matrix3x3, Plane2D, Plane3D, Quaternion, Rectangle, ScenarioScriptNodeValue, String32, TagGroup, TagReference, UTF16String, Vector2D, Vector2DInt, Vector3D};
 use primitives::tag::PrimaryTagStructDyn;
 
@@ -149,8 +151,19 @@ fn compare_tag_data<T: DynamicTagData + ?Sized>(first: &T, second: &T, path: &mu
     }
 }
 
-fn compare_primitive<T: PartialEq + Display>(first: &T, second: &T, path: &mut String, comparison: &mut Context, depth: usize) {
-    if first != second {
+/// Determine if both values are the same, including if both are the same NaN (which does not equal itself).
+fn is_same_primitive<T: PartialEq + SimpleTagData>(first: &T, second: &T) -> bool {
+    if first == second {
+        return true
+    }
+    match (first.as_bytes::<LE>(), second.as_bytes::<LE>()) {
+        (Ok(first), Ok(second)) => first.bytes() == second.bytes(),
+        _ => false
+    }
+}
+
+fn compare_primitive<T: PartialEq + Display + SimpleTagData>(first: &T, second: &T, path: &mut String, comparison: &mut Context, depth: usize) {
+    if !is_same_primitive(first, second) {
         comparison.differences.push(TagComparisonDifference {
             depth,
             path: path[1..].to_owned(),
-- 
2.43.0


From 2b4caffd69906ea46b577ddaf4977a3e42e7ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 35/80] fix: set and unset the defaults of a particle's radius
 animation the right way around

---
 src/ringhopper/src/tag/default/particle.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/default/particle.rs b/src/ringhopper/src/tag/default/particle.rs
index 2a0f139..196cdbd 100644
--- a/src/ringhopper/src/tag/default/particle.rs
+++ b/src/ringhopper/src/tag/default/particle.rs
@@ -4,11 +4,11 @@ use ringhopper_structs::Particle;
 pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 0.0 {
-        particle.radius_animation.lower = 1.0;
+    if particle.radius_animation.lower == 1.0 {
+        particle.radius_animation.lower = 0.0;
     }
-    if particle.radius_animation.upper == 0.0 {
-        particle.radius_animation.upper = 1.0;
+    if particle.radius_animation.upper == 1.0 {
+        particle.radius_animation.upper = 0.0;
     }
 
     if (particle.fade_start_size == 5.0 || particle.fade_start_size == 0.0) && (particle.fade_end_size == 4.0 || particle.fade_end_size == 0.0) {
@@ -20,11 +20,11 @@ pub fn unset_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
 pub fn set_defaults_for_particle(tag: &mut dyn PrimaryTagStructDyn) {
     let particle: &mut Particle = tag.as_any_mut().downcast_mut().unwrap();
 
-    if particle.radius_animation.lower == 1.0 {
-        particle.radius_animation.lower = 0.0;
+    if particle.radius_animation.lower == 0.0 {
+        particle.radius_animation.lower = 1.0;
     }
-    if particle.radius_animation.upper == 1.0 {
-        particle.radius_animation.upper = 0.0;
+    if particle.radius_animation.upper == 0.0 {
+        particle.radius_animation.upper = 1.0;
     }
 
     // This is a weird behavior with tool.exe, since it can unset values you might've wanted, so the verification step
-- 
2.43.0


From ea9ca6624e0276e4442a1e0dcffc568c00a0f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 36/80] fix: default values of sounds were not removed if they
 are not exact in 32 bits

---
 src/ringhopper/src/tag/default/sound.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/default/sound.rs b/src/ringhopper/src/tag/default/sound.rs
index 8ba5955..ac358f1 100644
--- a/src/ringhopper/src/tag/default/sound.rs
+++ b/src/ringhopper/src/tag/default/sound.rs
@@ -23,7 +23,8 @@ fn set_or_unset_defaults_for_sound(tag: &mut dyn PrimaryTagStructDyn, undefault:
         if undefault {
             // Check for defaults
             for (val, default) in value.iter().zip(default.iter()) {
-                if **val != *default {
+                // Tags store 32-bit floats, so most values are not the same as the 64-bit default
+                if **val as f32 != *default as f32 {
                     return;
                 }
             }
-- 
2.43.0


From 513ff667ebe622c3b1d6cea1585cafb8a4f16f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 37/80] fix: nudging miscounted when rounding up carried over
 zeroes or past the first digit

---
 src/ringhopper/src/tag/nudge.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 7c8b79a..c24565b 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -193,17 +193,24 @@ pub(crate) fn fix_decimal_rounding(float: f64) -> f64 {
 
     // Do rounding here
     if round_up {
-        for (byte, _) in ignore_dot_iter!(written[..sig_figs_end]).rev() {
+        for byte in written[..sig_figs_end].iter_mut().rev().filter(|b| **b != b'.') {
             if *byte == b'9' {
                 *byte = b'0';
             } else {
                 *byte += 1;
+                round_up = false;
                 break;
             }
         }
     }
 
-    let fstr = std::str::from_utf8(&written).expect("should be utf-8");
+    let mut fstr = std::str::from_utf8(&written).expect("should be utf-8").to_owned();
+
+    // If every digit was a 9, then there is one more digit now
+    if round_up {
+        fstr.insert(0, '1');
+    }
+
     let f: f64 = fstr.parse().map_err(|e| panic!("can't parse the float we just made `{fstr}` as a float: {e:?}")).unwrap();
     f * signum
 }
-- 
2.43.0


From 00d71b65e87b11dcc43a9b572606adb9fe5748a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 38/80] fix: nudging replaced weights which are not a number
 with 1

---
 src/ringhopper/src/tag/nudge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index c24565b..3cbf50c 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -59,7 +59,7 @@ fn nudge_object(object: &mut Object) -> bool {
             let weight = p.weight;
             let proportion = (weight * &permutation_ratio_inverse) - 1.0;
 
-            if p.weight < 0.0 || proportion.abs() > error {
+            if p.weight < 0.0 || proportion.is_nan() || proportion.abs() > error {
                 all_same = false;
                 break;
             }
-- 
2.43.0


From 4e98cf4a1b05db47231224404e73e7126ad6f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 39/80] fix: extracting a color plate allocated as much memory
 as the tag said, whatever data there was

---
 src/ringhopper/src/tag/bitmap.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/tag/bitmap.rs b/src/ringhopper/src/tag/bitmap.rs
index 525028a..278df1b 100644
--- a/src/ringhopper/src/tag/bitmap.rs
+++ b/src/ringhopper/src/tag/bitmap.rs
@@ -338,6 +338,11 @@ pub fn extract_compressed_color_plate_data(bitmap: &Bitmap) -> RinghopperResult<
         return Err(Error::InvalidTagData(format!("compressed color plate data size is wrong (expected 0x{expected_uncompressed_size:08X}, got 0x{uncompressed_size:08X} instead)")))
     }
 
+    // Deflate cannot compress to less than 1/1032 of the input, so don't allocate memory for data that cannot be there.
+    if expected_uncompressed_size / 1032 > compressed_bytes.len() {
+        return Err(Error::InvalidTagData(format!("compressed color plate data is too short for 0x{expected_uncompressed_size:08X} bytes (got 0x{:08X} bytes)", compressed_bytes.len())))
+    }
+
     let mut compressed_data = vec![0u8; expected_uncompressed_size];
     let mut decompressor = flate2::Decompress::new(true);
 
-- 
2.43.0


From 324e5e34bd83382f0ea4228f48da174a2d0646b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 40/80] fix: a lone dash on the command line was silently
 ignored

---
 src/invader/src/cli.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/invader/src/cli.rs b/src/invader/src/cli.rs
index 311b2c1..470a69f 100644
--- a/src/invader/src/cli.rs
+++ b/src/invader/src/cli.rs
@@ -435,6 +435,8 @@ impl CommandLineParser {
                     }
                 }
                 return Err(format!("Argument parse error: Argument {next_arg} not recognized"))
+            } else if next_arg == "-" {
+                return Err(format!("Argument parse error: Argument {next_arg} not recognized"))
             } else if next_arg.starts_with("-") {
                 'char_iter: for short in (&next_arg[1..]).chars() {
                     for p in all_args_mut!(self) {
-- 
2.43.0


From 3f3182b65876aac9a2774813f77a9c613b591bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 41/80] fix: panic if a tags directory is a file

---
 src/invader/src/cli.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/invader/src/cli.rs b/src/invader/src/cli.rs
index 470a69f..d2d602d 100644
--- a/src/invader/src/cli.rs
+++ b/src/invader/src/cli.rs
@@ -487,6 +487,9 @@ impl CommandLineParser {
                     if !path.exists() {
                         return Err(format!("Path `{}` does not exist for --{}", path.display(), n.name))
                     }
+                    if what == StandardParameterType::Tags && !path.is_dir() {
+                        return Err(format!("Path `{}` is not a directory for --{}", path.display(), n.name))
+                    }
                 }
             }
             Ok(())
-- 
2.43.0


From 3026e2569bba4472f07e0f6d25e72b31914fb652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 42/80] fix: crash if asked to use more jobs than there can be
 threads

---
 src/invader/src/threading.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/invader/src/threading.rs b/src/invader/src/threading.rs
index 2e27d90..18c705d 100644
--- a/src/invader/src/threading.rs
+++ b/src/invader/src/threading.rs
@@ -90,6 +90,8 @@ pub fn do_with_threads<T: TagTree + Send + 'static + Clone, U: Clone + Send + 's
                 }
             },
             n => {
+                // No need for more threads than there are tags
+                let n = n.min(tags.len());
                 let mut threads = Vec::with_capacity(n);
                 let tags = Arc::new(Mutex::new(tags));
                 for _ in 0..n {
-- 
2.43.0


From 8f33e9202b74f27c1f73c15807235cf4e3ea2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 43/80] fix: panic if an argument is not valid Unicode

---
 src/invader/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/invader/src/main.rs b/src/invader/src/main.rs
index f803a76..be8fbbd 100644
--- a/src/invader/src/main.rs
+++ b/src/invader/src/main.rs
@@ -16,6 +16,12 @@ extern crate ringhopper;
 extern crate ringhopper_engines;
 
 fn main() -> ExitCode {
+    // Arguments that are not valid Unicode cannot be read with std::env::args()
+    if let Some(n) = std::env::args_os().find(|a| a.to_str().is_none()) {
+        make_stdout_logger().error_fmt_ln(format_args!("Error: Argument {n:?} is not valid Unicode!"));
+        return ExitCode::FAILURE
+    }
+
     let mut args= std::env::args();
     let application_path = args.next().expect("should have application path");
 
-- 
2.43.0


From 2b8c96217ba94f4de4551ad7c4e04193371c35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 44/80] fix: crash if refactoring paths with more jobs than
 there can be threads

---
 src/ringhopper/src/tag/dependency.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/dependency.rs b/src/ringhopper/src/tag/dependency.rs
index a2caba2..9ee8980 100644
--- a/src/ringhopper/src/tag/dependency.rs
+++ b/src/ringhopper/src/tag/dependency.rs
@@ -374,7 +374,7 @@ pub fn refactor_paths_for_tag_tree(
     }
 
     let mut t = Vec::new();
-    for _ in 0..threads.get() {
+    for _ in 0..threads.get().min(context.all_tags_post_rename.len()) {
         let c = context.clone();
         t.push(std::thread::spawn(move || thread_some_shit(c)));
     }
-- 
2.43.0


From 0e95d6ea87907a37322dbc5018018538c73bb816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 45/80] fix: trailing empty line lost when recovering unicode
 string lists

---
 src/ringhopper/src/tag/unicode_string_list.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/unicode_string_list.rs b/src/ringhopper/src/tag/unicode_string_list.rs
index 7c1eb49..8db3494 100644
--- a/src/ringhopper/src/tag/unicode_string_list.rs
+++ b/src/ringhopper/src/tag/unicode_string_list.rs
@@ -191,7 +191,11 @@ impl UnicodeStringListFunctions for UnicodeStringList {
         data.extend_from_slice(0xFEFFu16.to_le_bytes().as_slice());
         for i in 0..self.string_count() {
             let string = self.strings.items[i].string.get_string().map_err(|_| UnicodeStringListError::InvalidStringData)?;
-            for line in string.lines() {
+
+            // lines() does not yield the empty line after a trailing line ending, so it has to be added back
+            let trailing_line = if string.ends_with(LF) { Some("") } else { None };
+
+            for line in string.lines().chain(trailing_line) {
                 let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
                 data.extend(line_encoder);
             }
-- 
2.43.0


From c50f022ab62f5833551d6a08b8b7c8056849d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 46/80] fix: strings containing an end-of-string line being
 split in two when recovered

---
 src/ringhopper/src/tag/unicode_string_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/tag/unicode_string_list.rs b/src/ringhopper/src/tag/unicode_string_list.rs
index 8db3494..7f7e5dd 100644
--- a/src/ringhopper/src/tag/unicode_string_list.rs
+++ b/src/ringhopper/src/tag/unicode_string_list.rs
@@ -196,6 +196,11 @@ impl UnicodeStringListFunctions for UnicodeStringList {
             let trailing_line = if string.ends_with(LF) { Some("") } else { None };
 
             for line in string.lines().chain(trailing_line) {
+                // this would be read back as the end of the string
+                if line == "###END-STRING###" {
+                    return Err(UnicodeStringListError::InvalidStringData)
+                }
+
                 let line_encoder = line.encode_utf16().chain("\r\n".encode_utf16()).map(|b| b.to_le_bytes()).flatten();
                 data.extend(line_encoder);
             }
-- 
2.43.0


From 9d00e8a90d04eb64d7179463cbd0784fde6a1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 47/80] fix: recovered scripts being written outside of the
 data directory

---
 src/ringhopper/src/tag/recover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ringhopper/src/tag/recover.rs b/src/ringhopper/src/tag/recover.rs
index 281e890..87b0625 100644
--- a/src/ringhopper/src/tag/recover.rs
+++ b/src/ringhopper/src/tag/recover.rs
@@ -53,6 +53,11 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
     let base_scripts_dir = PathBuf::from(tag_path.to_native_path()).parent().unwrap().join("scripts");
     let mut fs = HashMap::new();
     for i in &scenario.source_files.items {
+        // Script names are file names; anything that is part of a path could lead outside of the scripts directory.
+        if i.name.as_str().contains(['/', '\\', ':']) {
+            return Err(InvalidTagData(format!("script name `{}` is not a valid file name", i.name.as_str())))
+        }
+
         let path = match i.name.as_str() {
             "global_scripts" => "global_scripts.hsc".into(),
             name => base_scripts_dir.clone().join(format!("{name}.hsc"))
-- 
2.43.0


From 377a1e371bacc92d163318c1a966c844f4bf5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 48/80] fix: all but one of several scripts with the same name
 being lost when recovered

---
 src/ringhopper/src/tag/recover.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/recover.rs b/src/ringhopper/src/tag/recover.rs
index 87b0625..c5c7c2f 100644
--- a/src/ringhopper/src/tag/recover.rs
+++ b/src/ringhopper/src/tag/recover.rs
@@ -48,7 +48,7 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
         return Ok(None)
     }
 
-    // TODO: Verify that there are no duplicate script source files, and that all source files have lowercase names.
+    // TODO: Verify that all source files have lowercase names.
 
     let base_scripts_dir = PathBuf::from(tag_path.to_native_path()).parent().unwrap().join("scripts");
     let mut fs = HashMap::new();
@@ -69,7 +69,9 @@ fn recover_scenario_scripts(tag_path: &TagPath, tag_data: &Box<dyn PrimaryTagStr
 
         // Finally add the script
         let data = data[..end].to_owned();
-        fs.insert(path, data);
+        if fs.insert(path, data).is_some() {
+            return Err(InvalidTagData(format!("multiple scripts are named `{}`", i.name.as_str())))
+        }
     }
 
     Ok(Some(fs))
-- 
2.43.0


From 89abadbfd64eb897bf25f92d63bbe56947ca72da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 49/80] fix: recovered files being overwritten without
 --overwrite if two tags are recovered at once

---
 src/invader/src/verb/recover.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/invader/src/verb/recover.rs b/src/invader/src/verb/recover.rs
index cf16414..457bff7 100644
--- a/src/invader/src/verb/recover.rs
+++ b/src/invader/src/verb/recover.rs
@@ -1,6 +1,6 @@
 use std::env::Args;
 use std::path::PathBuf;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use crate::cli::CommandLineParser;
 use ringhopper::error::{Error, RinghopperResult};
@@ -16,6 +16,9 @@ struct UserData {
     data: PathBuf,
     logger: Arc<StdoutLogger>,
 
+    /// Different tags can have the same script, so only one thread may check for a file and write it at a time.
+    write_lock: Mutex<()>,
+
     success: AtomicUsize,
     total: AtomicUsize,
     error: AtomicUsize
@@ -37,6 +40,7 @@ pub fn recover(args: Args, description: &'static str) -> Result<(), String> {
         overwrite: parser.get_overwrite(),
         logger: logger.clone(),
         data: parser.get_data().to_path_buf(),
+        write_lock: Mutex::default(),
 
         success: AtomicUsize::default(),
         total: AtomicUsize::default(),
@@ -95,6 +99,7 @@ fn recover_tag(user_data: &UserData, path: &TagPath, context: &ThreadingContext<
     for (dpath, ddata) in fs {
         let full_data_path = user_data.data.join(&dpath);
         let path_as_utf8 = dpath.to_str().unwrap();
+        let _lock = user_data.write_lock.lock().unwrap();
 
         if !user_data.overwrite && full_data_path.exists() {
             user_data.logger.warning_fmt_ln(format_args!("Skipping {path_as_utf8}; already exists"));
-- 
2.43.0


From 9c4bcf2ced91d771b713b0e6224a805e6ced9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 50/80] fix: abort if a PNG file claims to be larger than it
 can be

---
 src/ringhopper/src/data/bitmap/parse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ringhopper/src/data/bitmap/parse.rs b/src/ringhopper/src/data/bitmap/parse.rs
index 4badfe8..18d5211 100644
--- a/src/ringhopper/src/data/bitmap/parse.rs
+++ b/src/ringhopper/src/data/bitmap/parse.rs
@@ -171,6 +171,12 @@ impl Image {
         let (raw_pixels_vec, color_type, bit_depth, width, height) = wrap_png_error!((|| -> Result<(Vec<u8>, ColorType, BitDepth, usize, usize), DecodingError> {
             let decoder = Decoder::new(Cursor::new(&png));
             let mut reader = decoder.read_info()?;
+
+            // Deflate cannot compress to less than 1/1032 of the input, so don't allocate memory for data that cannot be there.
+            if reader.output_buffer_size() / 1032 > png.len() {
+                return Err(DecodingError::LimitsExceeded)
+            }
+
             let mut raw_pixels = vec![0; reader.output_buffer_size()];
             let info = reader.next_frame(&mut raw_pixels)?;
             let color_type = info.color_type;
-- 
2.43.0


From 322a874b62f70e3a3da0504e11b80e12821f26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 51/80] fix: loose color plates without a first sequence being
 accepted

---
 src/ringhopper/src/data/bitmap/plate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index befccc9..bde207e 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -77,6 +77,12 @@ impl<'a> Iterator for LooseColorPlateIterator<'a> {
                 return Some(n);
             }
             None => {
+                // The sequence has no bitmaps, so it does not exist
+                if self.bitmap == 0 {
+                    self.done = true;
+                    return None;
+                }
+
                 advance_sequence(self)?;
                 let next = format_path(self.directory, self.sequence, self.bitmap);
                 if next.is_none() {
-- 
2.43.0


From 428887dc50e7ce759077baf7a658f5844b94671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 52/80] fix: panic if the padding color of a loose color plate
 contains non-ASCII characters

---
 src/ringhopper/src/data/bitmap/plate.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/plate.rs b/src/ringhopper/src/data/bitmap/plate.rs
index bde207e..8085829 100644
--- a/src/ringhopper/src/data/bitmap/plate.rs
+++ b/src/ringhopper/src/data/bitmap/plate.rs
@@ -108,11 +108,10 @@ fn parse_padding_file(padding_metadata: &Path) -> RinghopperResult<ColorARGBInt>
         return Err(Error::Other(format!("{padding_metadata:?} is empty")));
     }
 
-    let (octothorpe, color) = padding_color.split_at(1);
-
-    if octothorpe != "#" || (color.len() != 6 && color.len() != 3) {
-        return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")));
-    }
+    let color = match padding_color.strip_prefix('#') {
+        Some(color) if color.is_ascii() && (color.len() == 6 || color.len() == 3) => color,
+        _ => return Err(Error::Other(format!("{padding_metadata:?} is not in the format #RRGGBB or #RGB")))
+    };
 
     let colors: [char; 6] = if color.len() == 3 {
         let mut colors_iterator = color.chars();
-- 
2.43.0


From 7cf0652059d1c9f2ecf33368cfe1aaeac169636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 53/80] fix: panic if the channels of a TIFF file are stored
 separately

---
 src/ringhopper/src/data/bitmap/parse.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/data/bitmap/parse.rs b/src/ringhopper/src/data/bitmap/parse.rs
index 18d5211..5c60bce 100644
--- a/src/ringhopper/src/data/bitmap/parse.rs
+++ b/src/ringhopper/src/data/bitmap/parse.rs
@@ -144,13 +144,16 @@ impl Image {
             ColorType::RGBA(_) => (|pixels| ColorARGBIntBytes { alpha: pixels[3], red: pixels[0], green: pixels[1], blue: pixels[2] }.into(), 4),
             _ => unreachable!()
         };
+
+        // Not all pixels are there if the channels are stored separately
+        if width.mul_overflow_checked(height)?.mul_overflow_checked(bytes_per_pixel)? != raw_pixels_vec.len() {
+            return Err(Error::Other("unexpected amount of pixel data in tiff (channels stored separately are not supported)".to_string()))
+        }
+
         for i in (0..raw_pixels_vec.len()).step_by(bytes_per_pixel) {
             pixels.push(conversion_function(&raw_pixels_vec[i..]))
         }
 
-        // Assert that we have the correct pixel count
-        debug_assert_eq!(width * height, pixels.len());
-
         // Done!
         Ok(Image { width, height, data: pixels })
     }
-- 
2.43.0


From 8198db1fee1990bd7403848830e147ad05545fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 54/80] fix: visit the values in bounds and arrays when
 visiting each field

---
 src/ringhopper-primitives/src/tag.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ringhopper-primitives/src/tag.rs b/src/ringhopper-primitives/src/tag.rs
index bdf6e70..5f6aae5 100644
--- a/src/ringhopper-primitives/src/tag.rs
+++ b/src/ringhopper-primitives/src/tag.rs
@@ -318,6 +318,7 @@ pub fn for_each_field<P: FnMut(Option<TagFieldMetadata>, &dyn DynamicTagData)>(d
             if let Some(arr) = field.as_array() {
                 for i in 0..arr.len() {
                     let item = arr.get_at_index(i).unwrap();
+                    predicate(None, item);
                     recursion(item, predicate);
                 }
             }
@@ -344,6 +345,7 @@ pub fn for_each_field_mut<P: FnMut(Option<TagFieldMetadata>, &mut dyn DynamicTag
             if let Some(arr) = field.as_array_mut() {
                 for i in 0..arr.len() {
                     let item = arr.get_at_index_mut(i).unwrap();
+                    predicate(None, item);
                     recursion(item, predicate, access_read_only_fields);
                 }
             }
-- 
2.43.0


From da49f146963931d6f1d637d2658738372c3abc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 55/80] fix: normalize vectors of infinite length to a unit
 vector rather than NaN

---
 src/ringhopper-primitives/src/primitive/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-primitives/src/primitive/vector.rs b/src/ringhopper-primitives/src/primitive/vector.rs
index d4fdadf..3e7c6ca 100644
--- a/src/ringhopper-primitives/src/primitive/vector.rs
+++ b/src/ringhopper-primitives/src/primitive/vector.rs
@@ -38,7 +38,7 @@ pub trait Vector: Sized + Copy + Clone {
     /// Normalize the vector into the given unit.
     fn normalize_into(&self, unit: f64) -> Self {
         let magnitude_sq = self.magnitude_squared();
-        if magnitude_sq == 0.0 {
+        if magnitude_sq == 0.0 || !magnitude_sq.is_finite() {
             return Self::one().scale(unit);
         }
 
-- 
2.43.0


From e85b65f13764452d9924ad6b1e378cd1d4eba428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 56/80] fix: restoring missing vertices of a model with local
 nodes gives local node indices

---
 src/ringhopper/src/tag/model.rs | 37 ++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 916fbe4..14710f4 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -395,7 +395,17 @@ impl ModelFunctions for GBXModel {
     }
 
     fn fix_uncompressed_vertices(&mut self) -> bool {
-        fix_vertices!(self, restore_missing_uncompressed_vertices)
+        if !self.flags.parts_have_local_nodes {
+            return fix_vertices!(self, restore_missing_uncompressed_vertices)
+        }
+
+        let mut fixed = false;
+        for g in &mut self.geometries {
+            for p in &mut g.parts {
+                fixed |= restore_missing_uncompressed_local_vertices(p)
+            }
+        }
+        fixed
     }
 
     fn flip_lod_cutoffs(&mut self) {
@@ -617,3 +627,28 @@ fn flip_lod_cutoffs(cutoff: &mut ModelDetailCutoff) {
     std::mem::swap(&mut cutoff.super_low, &mut cutoff.super_high);
     std::mem::swap(&mut cutoff.low, &mut cutoff.high);
 }
+// Compressed vertices do not use local nodes, but uncompressed vertices do
+fn restore_missing_uncompressed_local_vertices(gbxpart: &mut GBXModelGeometryPart) -> bool {
+    if !restore_missing_uncompressed_vertices(&mut gbxpart.model_geometry_part) {
+        return false
+    }
+
+    let local_nodes = gbxpart.local_node_indices.get(..gbxpart.local_node_count as usize).unwrap_or_default();
+    let to_local = |index: &mut Index| {
+        if let Some(n) = *index {
+            *index = local_nodes.iter().position(|l| *l as u16 == n).map(|l| l as u16);
+            return index.is_some()
+        }
+        true
+    };
+
+    let vertices = &mut gbxpart.model_geometry_part.uncompressed_vertices.items;
+    if !vertices.iter_mut().all(|v| to_local(&mut v.node0_index) && to_local(&mut v.node1_index)) {
+        // A node is used that isn't one of the part's local nodes, so it cannot be restored.
+        vertices.clear();
+        return false
+    }
+
+    true
+}
+
-- 
2.43.0


From 326b67589c65b8103a40980832be4cfcc2791058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 57/80] fix: a part without vertices of either kind has nothing
 to restore

---
 src/ringhopper/src/tag/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 14710f4..df60831 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -611,7 +611,7 @@ fn destroy_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
 }
 
 fn restore_missing_uncompressed_vertices(part: &mut ModelGeometryPart) -> bool {
-    if !part.uncompressed_vertices.items.is_empty() {
+    if !part.uncompressed_vertices.items.is_empty() || part.compressed_vertices.items.is_empty() {
         return false
     }
 
-- 
2.43.0


From ff31ebfdf9349625b12d67d1763848f366650456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 58/80] fix: check the shader indices of model tags, too

---
 src/ringhopper/src/tag/model.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index df60831..449e91c 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -218,6 +218,7 @@ impl ModelFunctions for Model {
         check_base_model(self)?;
         for geometry in &self.geometries {
             for part in &geometry.parts {
+                check_base_part(self, &part)?;
                 check_indices_for_part(self, &part)?;
                 if part.flags.zoner {
                     return Err(Error::InvalidTagData("corrupted model: zoner is set on a tag that does not support local nodes".to_string()))
-- 
2.43.0


From 792972fae17cd209c5bedb5f92dcd1b1808ecb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:30 +0000
Subject: [PATCH 59/80] fix: don't compress vertices which can't be compressed,
 and don't discard existing ones then

---
 src/ringhopper/src/tag/model.rs | 39 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/ringhopper/src/tag/model.rs b/src/ringhopper/src/tag/model.rs
index 449e91c..3d76405 100644
--- a/src/ringhopper/src/tag/model.rs
+++ b/src/ringhopper/src/tag/model.rs
@@ -250,13 +250,11 @@ impl ModelFunctions for Model {
     }
 
     fn recompress_vertices(&mut self) -> bool {
-        let result = fix_vertices!(self, destroy_compressed_vertices);
-
         if !self.supports_compressed_vertices() {
-            return result
+            return fix_vertices!(self, destroy_compressed_vertices)
         }
 
-        self.fix_compressed_vertices()
+        fix_vertices!(self, recompress_compressed_vertices)
     }
 
     fn fix_compressed_vertices(&mut self) -> bool {
@@ -378,13 +376,11 @@ impl ModelFunctions for GBXModel {
         fix_runtime_markers!(self)
     }
     fn recompress_vertices(&mut self) -> bool {
-        let result = fix_vertices!(self, destroy_compressed_vertices);
-
         if !self.supports_compressed_vertices() {
-            return result
+            return fix_vertices!(self, destroy_compressed_vertices)
         }
 
-        self.fix_compressed_vertices()
+        fix_vertices!(self, recompress_compressed_vertices)
     }
 
     fn fix_compressed_vertices(&mut self) -> bool {
@@ -587,8 +583,15 @@ fn check_indices_for_gbxpart(gbxmodel: &GBXModel, gbxpart: &GBXModelGeometryPart
     Ok(())
 }
 
+/// Return true if there are uncompressed vertices and all of their node indices can be stored in compressed vertices.
+fn can_compress_vertices(part: &ModelGeometryPart) -> bool {
+    let fits = |index: Index| !index.is_some_and(|i| i as usize >= MAX_NODES_FOR_COMPRESSED_VERTICES);
+    let vertices = &part.uncompressed_vertices.items;
+    !vertices.is_empty() && vertices.iter().all(|v| fits(v.node0_index) && fits(v.node1_index))
+}
+
 fn restore_missing_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
-    if !part.compressed_vertices.items.is_empty() {
+    if !part.compressed_vertices.items.is_empty() || !can_compress_vertices(part) {
         return false
     }
 
@@ -600,6 +603,16 @@ fn restore_missing_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
     true
 }
 
+fn recompress_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
+    // If the uncompressed vertices can't be compressed, the existing ones can't be replaced.
+    if !can_compress_vertices(part) {
+        return false
+    }
+
+    part.compressed_vertices.items.clear();
+    restore_missing_compressed_vertices(part)
+}
+
 fn destroy_compressed_vertices(part: &mut ModelGeometryPart) -> bool {
     // If there are no uncompressed vertices, the tag cannot be restored.
     if part.uncompressed_vertices.items.is_empty() {
@@ -624,10 +637,6 @@ fn restore_missing_uncompressed_vertices(part: &mut ModelGeometryPart) -> bool {
     true
 }
 
-fn flip_lod_cutoffs(cutoff: &mut ModelDetailCutoff) {
-    std::mem::swap(&mut cutoff.super_low, &mut cutoff.super_high);
-    std::mem::swap(&mut cutoff.low, &mut cutoff.high);
-}
 // Compressed vertices do not use local nodes, but uncompressed vertices do
 fn restore_missing_uncompressed_local_vertices(gbxpart: &mut GBXModelGeometryPart) -> bool {
     if !restore_missing_uncompressed_vertices(&mut gbxpart.model_geometry_part) {
@@ -653,3 +662,7 @@ fn restore_missing_uncompressed_local_vertices(gbxpart: &mut GBXModelGeometryPar
     true
 }
 
+fn flip_lod_cutoffs(cutoff: &mut ModelDetailCutoff) {
+    std::mem::swap(&mut cutoff.super_low, &mut cutoff.super_high);
+    std::mem::swap(&mut cutoff.low, &mut cutoff.high);
+}
-- 
2.43.0


From 0353f69675c894f8da919c911321be03bb31f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 60/80] fix: don't panic on pitch ranges with more permutations
 than can be counted

---
 src/ringhopper/src/tag/verify/sound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/sound.rs b/src/ringhopper/src/tag/verify/sound.rs
index fcef93e..349c37d 100644
--- a/src/ringhopper/src/tag/verify/sound.rs
+++ b/src/ringhopper/src/tag/verify/sound.rs
@@ -122,7 +122,7 @@ fn next_subpermutation_index(permutation: &SoundPermutation) -> Option<u16> {
 
 /// Return `None` if the permutation count cannot be calculated.
 pub(crate) fn find_actual_permutation_count(sound: &Sound, pitch_range: &SoundPitchRange) -> u16 {
-    let permutation_count_16_bit = u16::try_from(pitch_range.permutations.items.len()).expect("should be < 65535");
+    let permutation_count_16_bit = u16::try_from(pitch_range.permutations.items.len()).unwrap_or(u16::MAX);
     let split_permutations = sound_tag_actually_contains_split_permutations(sound);
 
     if split_permutations {
-- 
2.43.0


From 8353fce2c21ddde6b7d4091792b080f82594bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 61/80] fix: an empty pitch range has no actual permutations to
 count

---
 src/ringhopper/src/tag/verify/sound.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/sound.rs b/src/ringhopper/src/tag/verify/sound.rs
index 349c37d..cfffa17 100644
--- a/src/ringhopper/src/tag/verify/sound.rs
+++ b/src/ringhopper/src/tag/verify/sound.rs
@@ -274,7 +274,7 @@ fn verify_sound_permutation_indices(sound: &Sound, result: &mut TagResult) {
     let split_permutations = sound_tag_actually_contains_split_permutations(sound);
 
     'l: for pitch_range in &sound.pitch_ranges {
-        if pitch_range.actual_permutation_count == 0 && pitch_range.permutations.items.is_empty() {
+        if pitch_range.actual_permutation_count == 0 && !pitch_range.permutations.items.is_empty() {
             result.errors.push("Pitch range has unset actual_permutation_count.".to_owned());
             break 'l;
         }
-- 
2.43.0


From 1f0f7ca45fb5cd961ece93d45be5eecfc2bda62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:45 +0000
Subject: [PATCH 62/80] fix: sounds whose permutation chains don't end can't be
 repaired

---
 src/ringhopper/src/tag/verify/sound.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/verify/sound.rs b/src/ringhopper/src/tag/verify/sound.rs
index cfffa17..98a3c10 100644
--- a/src/ringhopper/src/tag/verify/sound.rs
+++ b/src/ringhopper/src/tag/verify/sound.rs
@@ -94,6 +94,10 @@ pub(crate) fn sound_tag_is_fubar(sound: &Sound) -> bool {
         return true;
     }
 
+    if verify_sound_permutation_indices(sound, &mut result) == Some(false) {
+        return true;
+    }
+
     false
 }
 
@@ -270,8 +274,11 @@ pub(crate) fn verify_sound_formats(sound: &Sound, result: &mut TagResult) -> Opt
     }
 }
 
-fn verify_sound_permutation_indices(sound: &Sound, result: &mut TagResult) {
+/// Return `true` if any issues are repairable, or `None` if no issues were found.
+fn verify_sound_permutation_indices(sound: &Sound, result: &mut TagResult) -> Option<bool> {
     let split_permutations = sound_tag_actually_contains_split_permutations(sound);
+    let issues_before = result.errors.len();
+    let mut repairable = true;
 
     'l: for pitch_range in &sound.pitch_ranges {
         if pitch_range.actual_permutation_count == 0 && !pitch_range.permutations.items.is_empty() {
@@ -301,12 +308,14 @@ fn verify_sound_permutation_indices(sound: &Sound, result: &mut TagResult) {
                 loop {
                     if permutation_index >= subpermutation_count {
                         result.errors.push(format!("Permutation #{ap} (`{}`) of pitch range #{pr} has out-of-bounds permutations", permutation.name.as_str()));
+                        repairable = false;
                         continue 'permutation_loop;
                     }
 
                     traversed += 1;
                     if traversed > subpermutation_count {
                         result.errors.push(format!("Permutation #{ap} (`{}`) of pitch range #{pr} infinitely loops", permutation.name.as_str()));
+                        repairable = false;
                         continue 'permutation_loop;
                     }
 
@@ -324,4 +333,11 @@ fn verify_sound_permutation_indices(sound: &Sound, result: &mut TagResult) {
             }
         }
     }
+
+    if result.errors.len() == issues_before {
+        None
+    }
+    else {
+        Some(repairable)
+    }
 }
-- 
2.43.0


From 40384d64db5d0e678d3ba94d715cd9ded92f5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 63/80] fix: converted tags being overwritten without
 --overwrite if two tags convert into the same one at once

---
 src/invader/src/verb/convert.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/invader/src/verb/convert.rs b/src/invader/src/verb/convert.rs
index c4f21fe..f24f0ea 100644
--- a/src/invader/src/verb/convert.rs
+++ b/src/invader/src/verb/convert.rs
@@ -1,4 +1,5 @@
 use std::env::Args;
+use std::sync::{Arc, Mutex};
 use crate::cli::CommandLineParser;
 use ringhopper::error::Error;
 use ringhopper::primitives::primitive::TagGroup;
@@ -20,7 +21,11 @@ pub fn convert(args: Args, description: &'static str) -> Result<(), String> {
     let tag = parser.get_extra()[0].clone();
     let group = TagGroup::from_str(&parser.get_extra()[1]).map_err(|_| format!("{} does not correspond to a tag group", parser.get_extra()[1]))?;
 
-    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, group, DisplayMode::ShowAll, make_stdout_logger(), |context, path, to_group, _| {
+    // Different tags can convert into the same tag, so only one thread may check for a tag and write it at a time.
+    let user_data = Arc::new((group, Mutex::new(())));
+
+    do_with_threads(parser.get_virtual_tags_directory(), parser, &tag, None, user_data, DisplayMode::ShowAll, make_stdout_logger(), |context, path, user_data, _| {
+        let (to_group, write_lock) = &**user_data;
         let to_group = *to_group;
         let from_group = path.group();
 
@@ -38,6 +43,11 @@ pub fn convert(args: Args, description: &'static str) -> Result<(), String> {
         let tag = context.tags_directory.open_tag_copy(&path)?;
         let new_tag = function(tag.as_ref())?;
 
+        let _lock = write_lock.lock().unwrap();
+        if !context.args.get_overwrite() && context.tags_directory.contains(&new_path) {
+            return Ok(ProcessSuccessType::Skipped("file already exists"));
+        }
+
         ProcessSuccessType::wrap_write_result(context.tags_directory.write_tag(&new_path, new_tag.as_ref()))
     })
 }
-- 
2.43.0


From 3f9f2aff48d9a37f5393438a4f349aa04251aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 64/80] fix: script names and strings that need quotes being
 decompiled without

---
 src/ringhopper/src/tag/scenario.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 0058455..7913d16 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -94,7 +94,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
         tokens.push(Cow::Borrowed("("));
         tokens.push(Cow::Borrowed("global"));
         tokens.push(Cow::Borrowed(i._type.to_str()));
-        tokens.push(Cow::Borrowed(i.name.as_str()));
+        tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         decompile_script_block_to_tokens(scenario, &all_nodes, i.initialization_expression_index, &mut tokens, false)?;
         tokens.push(Cow::Borrowed(")"));
     }
@@ -111,7 +111,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
 
         if !i.parameters.items.is_empty() {
             tokens.push(Cow::Borrowed("("));
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
             for p in &i.parameters {
                 tokens.push(Cow::Borrowed("("));
                 tokens.push(Cow::Borrowed(p.return_type.to_str()));
@@ -121,7 +121,7 @@ pub fn decompile_scripts(scenario: &mut Scenario, scenario_name: &str) -> Ringho
             tokens.push(Cow::Borrowed(")"));
         }
         else {
-            tokens.push(Cow::Borrowed(i.name.as_str()));
+            tokens.push(sanitize(Cow::Borrowed(i.name.as_str())));
         }
 
         decompile_script_block_to_tokens(scenario, &all_nodes, i.root_expression_index, &mut tokens, true)?;
@@ -371,11 +371,10 @@ fn sanitize(mut string: Cow<str>) -> Cow<str> {
     if string == "" {
         return Cow::Borrowed("\"\"");
     }
-    if string.contains("\"") {
-        string = Cow::Owned(string.replace("\"", "\\\""));
-    }
-    if string.contains("(") || string.contains(")") || string.contains(" ") {
-        string = Cow::Owned(format!("\"{string}\""));
+
+    // Anything that would otherwise end the token (or start something else) has to be in quotes
+    if string.contains(|c: char| c.is_whitespace() || matches!(c, '(' | ')' | ';' | '"')) {
+        string = Cow::Owned(format!("\"{}\"", string.replace("\"", "\\\"")));
     }
     string
 }
-- 
2.43.0


From cd38043ae4bcfebfe44bfbcbd2d7a58c172b54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:44 +0000
Subject: [PATCH 65/80] fix: decompiling scripts with reused or deeply nested
 nodes taking forever, all memory or all of the stack

---
 src/ringhopper/src/tag/scenario.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ringhopper/src/tag/scenario.rs b/src/ringhopper/src/tag/scenario.rs
index 7913d16..0c27cc7 100644
--- a/src/ringhopper/src/tag/scenario.rs
+++ b/src/ringhopper/src/tag/scenario.rs
@@ -404,13 +404,16 @@ fn check_scripts_are_ok(scenario: &Scenario, extracted_nodes: &Vec<ScenarioScrip
 
     let mut todo = Vec::with_capacity(64);
 
+    // A node is only ever in one place, thus running out means that nodes are looping or reused
+    let mut remaining_nodes = extracted_nodes.len();
+
     for i in &scenario.scripts {
-        check_bad_scripts(i.root_expression_index, extracted_nodes, &mut todo)
+        check_bad_scripts(i.root_expression_index, extracted_nodes, &mut todo, &mut remaining_nodes)
             .map_err(|e| Error::InvalidTagData(format!("Script {} has errors: {e}", i.name)))?;
     }
 
     for i in &scenario.globals {
-        check_bad_scripts(i.initialization_expression_index, extracted_nodes, &mut todo)
+        check_bad_scripts(i.initialization_expression_index, extracted_nodes, &mut todo, &mut remaining_nodes)
             .map_err(|e| Error::InvalidTagData(format!("Global {} has errors: {e}", i.name)))?;
     }
 
@@ -439,16 +442,18 @@ fn get_string_data_for_node<'a>(scenario: &'a Scenario, node: &ScenarioScriptNod
     }
 }
 
-fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo: &mut Vec<(Index, usize)>) -> RinghopperResult<()> {
+/// Function calls nested any deeper than this can't be run by the game.
+const MAX_SCRIPT_DEPTH: usize = 256;
+
+fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo: &mut Vec<(Index, usize)>, remaining_nodes: &mut usize) -> RinghopperResult<()> {
     todo.clear();
 
     let node_count = extracted_nodes.len();
-    let iteration_limit = node_count + 32;
     todo.push((node.index(), 0));
 
     while let Some((index, depth)) = todo.pop() {
-        if depth > iteration_limit {
-            return Err(Error::InvalidTagData(format!("Depth exceeds actual node count ({node_count}); infinite recursion detected!")))
+        if depth > MAX_SCRIPT_DEPTH {
+            return Err(Error::InvalidTagData(format!("Depth exceeds maximum ({MAX_SCRIPT_DEPTH})!")))
         }
 
         let index = match index {
@@ -460,13 +465,12 @@ fn check_bad_scripts(node: ID, extracted_nodes: &Vec<ScenarioScriptNode>, todo:
         }
 
         // Loop until we are at the end of the block, adding function calls to the stack
-        let mut iterated_nodes = 0usize;
         let mut node = &extracted_nodes[index];
         loop {
-            iterated_nodes += 1;
-            if iterated_nodes > iteration_limit {
-                return Err(Error::InvalidTagData(format!("Block length exceeds actual node count ({node_count}); infinite loop detected!")));
+            if *remaining_nodes == 0 {
+                return Err(Error::InvalidTagData(format!("Node use exceeds actual node count ({node_count}); infinite loop detected!")));
             }
+            *remaining_nodes -= 1;
 
             if !node.flags.is_primitive {
                 let id: ID = node.data.into();
-- 
2.43.0


From b6c5e89ba5d91ecf61dee927b6468c61c3936f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 66/80] fix: enumerators stored one lower in maps being
 extracted off by one

---
 src/ringhopper-structs-codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index 1925a35..fee7061 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -506,7 +506,7 @@ impl ToTokenStream for Struct {
                     let field_name = &fields_with_names[i];
                     let field_type = &fields_with_types[i];
 
-                    let read_map_code = if self.flags.shifted_by_one {
+                    let read_map_code = if self.fields[i].flags.shifted_by_one {
                         "(u16::read_from_map(map, _pos, domain_type)?.wrapping_add(1)).try_into()?".to_owned()
                     }
                     else if field_type == "BSPVertexData" {
-- 
2.43.0


From d275ac2c441d510de35d7c58f14575de22151d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 67/80] fix: tag data not being found from structure BSPs whose
 addresses are above it

---
 src/ringhopper-primitives/src/map.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ringhopper-primitives/src/map.rs b/src/ringhopper-primitives/src/map.rs
index 761deec..aa57f4c 100644
--- a/src/ringhopper-primitives/src/map.rs
+++ b/src/ringhopper-primitives/src/map.rs
@@ -160,10 +160,10 @@ pub trait Map {
         size: usize
     ) -> Option<&[u8]> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let end = offset.checked_add(size)?;
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..offset.checked_add(size)?));
 
-        let data = domain_start.get(offset..end);
         if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             self.get_data_at_address(address, &DomainType::TagData, size)
@@ -188,8 +188,9 @@ pub trait Map {
         domain: &DomainType
     ) -> Option<&str> {
         let (domain_start, domain_base) = self.get_domain(domain)?;
-        let offset = address.checked_sub(domain_base)?;
-        let data = domain_start.get(offset..);
+        let data = address
+            .checked_sub(domain_base)
+            .and_then(|offset| domain_start.get(offset..));
         let data = if data.is_none() && matches!(domain, DomainType::BSP(_)) {
             // try the tag data
             return self.get_c_string_at_address(address, &DomainType::TagData)
-- 
2.43.0


From 8c01390ae38cc12ec874be6173e03ce7f00f1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 68/80] fix: change color weights of projectiles not being
 nudged

---
 src/ringhopper/src/tag/nudge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 3cbf50c..75915c9 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -104,7 +104,7 @@ fn nudge_point_physics(a: &mut PointPhysics) -> bool {
     result
 }
 fn nudge_projectile(a: &mut Projectile) -> bool {
-    let mut result = false;
+    let mut result = nudge_object(&mut a.object);
     nudge(&mut a.minimum_velocity, &mut result);
     nudge(&mut a.initial_velocity, &mut result);
     nudge(&mut a.final_velocity, &mut result);
-- 
2.43.0


From bc9ef680c7adf08874b5ffb079691022a92fa6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 69/80] fix: change color weights which are not numbers being
 extracted from maps

---
 src/ringhopper/src/map/extract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index ccbce26..6d06b64 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -284,7 +284,7 @@ pub fn fix_object_tag(object: &mut Object) -> RinghopperResult<()> {
                 // Check that the weights are valid
                 let mut last_weight = 0.0;
                 for i in &cc.permutations {
-                    if i.weight < last_weight || i.weight > 1.0 {
+                    if !(i.weight >= last_weight && i.weight <= 1.0) {
                         return Err(Error::InvalidTagData("change colors has invalid weights".to_owned()))
                     }
                     last_weight = i.weight;
-- 
2.43.0


From 3a03e675bf2138b55061c8c3c3356a16b5b3775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 70/80] fix: resource maps reserving memory for as many entries
 as they claim to have

---
 src/ringhopper/src/map/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/resource.rs b/src/ringhopper/src/map/resource.rs
index 0e37130..76ed2cb 100644
--- a/src/ringhopper/src/map/resource.rs
+++ b/src/ringhopper/src/map/resource.rs
@@ -26,7 +26,7 @@ impl ResourceMap {
 
         let mut current_offset = header.array_offset as usize;
         let array_len = header.count as usize;
-        let mut resources = Vec::with_capacity(array_len);
+        let mut resources = Vec::new(); // don't reserve memory for the count since it can't be trusted
         let resource_len = ResourceMapResource::simple_size();
 
         for i in 0..array_len {
-- 
2.43.0


From 7cf3626e590b3b9eb89960f0971c43818cb651e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 71/80] fix: decompressing maps trusting the size in the header
 and accepting cut off data

---
 src/ringhopper/src/map.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index a4ddb4f..c731778 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -4,8 +4,6 @@ use std::ops::Range;
 use std::path::Path;
 use std::sync::Arc;
 
-use flate2::FlushDecompress;
-
 use definitions::{read_any_tag_from_map, Scenario, ScenarioType};
 use primitives::engine::{Engine, EngineCacheParser, EngineCompressionType};
 use primitives::error::{Error, RinghopperResult};
@@ -193,19 +191,24 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
         return Err(Error::MapParseFailure("decompression failed: bad padding size in header - larger than uncompressed data".to_owned()))
     }
 
-    let mut result = Vec::with_capacity(header.decompressed_size);
-    result.extend_from_slice(&data[..compressed_start]);
-    result.resize(header.decompressed_size, 0);
+    let decompressed_len = header.decompressed_size
+        .checked_sub(compressed_start)
+        .ok_or_else(|| Error::MapParseFailure("decompression failed: bad decompressed size in header - smaller than the header".to_owned()))?;
+
+    // Don't reserve memory for the size since it can't be trusted
+    let mut result = data[..compressed_start].to_vec();
 
     let compressed_data = &data[compressed_start..compressed_end];
     match engine.compression_type {
         EngineCompressionType::Uncompressed => unreachable!(),
         EngineCompressionType::Deflate => {
-            let mut decompressor = flate2::Decompress::new(true);
-            decompressor
-                .decompress(compressed_data, &mut result[compressed_start..], FlushDecompress::Finish)
+            // Read one byte more than we need so the end of the data gets checked, too, if it ends there
+            flate2::read::ZlibDecoder::new(compressed_data)
+                .take(decompressed_len as u64 + 1)
+                .read_to_end(&mut result)
                 .map_err(|e| Error::MapParseFailure(format!("decompression failed: flate2 error: {e}")))?;
             Ok(result)
         }
     }
 }
+            result.truncate(header.decompressed_size);
-- 
2.43.0


From f200eaa235f5eed473bf3cceb074f7ee7177423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 72/80] fix: panic loading a map whose scenario tag is not in
 the map

---
 src/ringhopper/src/map/gearbox.rs | 2 +-
 src/ringhopper/src/map/util.rs    | 6 ++++--
 src/ringhopper/src/map/xbox.rs    | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index 25b29fc..e3130af 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -95,7 +95,7 @@ impl GearboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags, map.scenario_tag)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index 8fc94e4..f944e13 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -10,8 +10,10 @@ use crate::map::{BSPDomain, header};
 use crate::map::header::ParsedCacheFileHeader;
 
 /// Get all scenario and BSP data for a map.
-pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>]) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
-    let scenario = map.get_scenario_tag();
+pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>], scenario_tag: ID) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
+    let scenario = map
+        .get_tag_by_id(scenario_tag)
+        .ok_or_else(|| Error::MapParseFailure(format!("scenario tag ID 0x{:08X} does not refer to a tag in the map; likely protected/corrupted map", scenario_tag.as_u32())))?;
     if scenario.tag_path.group() != TagGroup::Scenario {
         return Err(Error::MapParseFailure(format!("scenario tag is marked as a {} tag; likely protected/corrupted map", scenario.tag_path.group())))
     }
diff --git a/src/ringhopper/src/map/xbox.rs b/src/ringhopper/src/map/xbox.rs
index 995688d..380d9a2 100644
--- a/src/ringhopper/src/map/xbox.rs
+++ b/src/ringhopper/src/map/xbox.rs
@@ -68,7 +68,7 @@ impl XboxCacheFile {
         map.tags = tags;
 
         // Get the scenario tag to get the BSP data
-        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags)?;
+        let (scenario_tag_data, bsps) = super::util::load_scenario_info(&map, &map.tags, map.scenario_tag)?;
         map.bsp_data = bsps;
         map.scenario_tag_data = scenario_tag_data;
         super::util::fixup_bsp_addresses(&mut map.tags, &map.bsp_data, &map.ids)?;
-- 
2.43.0


From f1f1f6cfe204f36d3eacdc7f0045dcaf3d018acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 73/80] fix: panic loading a CEA map with a BSP that is too
 small for its header

---
 src/ringhopper/src/map/gearbox.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ringhopper/src/map/gearbox.rs b/src/ringhopper/src/map/gearbox.rs
index e3130af..5c59ce8 100644
--- a/src/ringhopper/src/map/gearbox.rs
+++ b/src/ringhopper/src/map/gearbox.rs
@@ -161,8 +161,7 @@ impl GearboxCacheFile {
         self.bsp_vertex_data.reserve(bsp_count);
 
         for bsp_index in 0..bsp_count {
-            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))
-                .expect("should have the bsp here");
+            let bsp_data = ScenarioStructureBSPCompiledHeaderCEA::read_from_map(self, self.bsp_data[bsp_index].base_address, &DomainType::BSP(bsp_index))?;
 
             let start = bsp_data.lightmap_vertices as usize;
             let end = start.add_overflow_checked(bsp_data.lightmap_vertex_size as usize)?;
-- 
2.43.0


From 9d9e0b4903d27dea4583309c4024a185cb550833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 74/80] fix: panic extracting a BSP if the scenario's detail
 object palette has another tag

---
 src/ringhopper/src/map/extract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index 6d06b64..2b431df 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -246,7 +246,7 @@ pub fn fix_scenario_structure_bsp_tag<M: Map>(bsp: &mut ScenarioStructureBSP, sc
         let offset = map.extract_tag(&tag.tag_path)?
             .as_any()
             .downcast_ref::<DetailObjectCollection>()
-            .expect("we just verified this existed!")
+            .ok_or_else(|| Error::InvalidTagData(format!("Detail object collection #{i} refers to {}", tag.tag_path)))?
             .global_z_offset * 0.125;
 
         global_z_offset[i] = offset;
-- 
2.43.0


From 96c16d8364b226a871aa083db2b128299cc9ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 75/80] fix: extracting bitmaps reserving memory for the sizes
 they claim to have

---
 src/ringhopper/src/map/extract.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/ringhopper/src/map/extract.rs b/src/ringhopper/src/map/extract.rs
index 2b431df..5cf6fa1 100644
--- a/src/ringhopper/src/map/extract.rs
+++ b/src/ringhopper/src/map/extract.rs
@@ -373,19 +373,12 @@ pub fn fix_bitmap_tag<M: Map>(tag: &mut Bitmap, map: &M) -> RinghopperResult<()>
         }
     }
 
-    let total_bitmap_data = tag
-        .bitmap_data
-        .items
-        .iter()
-        .map(|b| Ok(b.pixel_data_size as usize))
-        .reduce(|a, b| {
-            a.and_then(|size| b.and_then(|size2| size.add_overflow_checked(size2)))
-        });
-    let new_data = match total_bitmap_data {
-        Some(n) => n?,
-        None => return Ok(())
-    };
-    let mut processed_data: Vec<u8> = Vec::with_capacity(new_data);
+    if tag.bitmap_data.items.is_empty() {
+        return Ok(())
+    }
+
+    // Don't reserve memory for the sizes since they can't be trusted until we have checked that the data is there
+    let mut processed_data: Vec<u8> = Vec::new();
 
     let engine = map.get_engine();
     let engine_name = engine.name;
-- 
2.43.0


From 55574866ef3d214d7f7542d113d9366afc3e7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 76/80] fix: tags with overlapping arrays in corrupted maps
 taking all memory

---
 src/ringhopper/src/map.rs       | 13 ++++-
 src/ringhopper/src/map/limit.rs | 86 +++++++++++++++++++++++++++++++++
 src/ringhopper/src/map/util.rs  |  4 +-
 3 files changed, 101 insertions(+), 2 deletions(-)
 create mode 100644 src/ringhopper/src/map/limit.rs

diff --git a/src/ringhopper/src/map.rs b/src/ringhopper/src/map.rs
index c731778..254e175 100644
--- a/src/ringhopper/src/map.rs
+++ b/src/ringhopper/src/map.rs
@@ -14,6 +14,7 @@ use primitives::tag::{ParseStrictness, PrimaryTagStructDyn};
 use crate::map::extract::*;
 use crate::map::gearbox::GearboxCacheFile;
 use crate::map::header::ParsedCacheFileHeader;
+use crate::map::limit::LimitedMap;
 use crate::map::xbox::XboxCacheFile;
 use crate::tag::object::downcast_base_object_mut;
 use crate::tag::tree::{TagFilter, TagTree, TagTreeItem, TreeType};
@@ -24,6 +25,7 @@ pub mod resource;
 pub mod header;
 pub mod gearbox;
 pub mod xbox;
+mod limit;
 mod util;
 
 type SizeRange = Range<usize>;
@@ -40,6 +42,15 @@ fn extract_tag_from_map<M: Map>(
     map: &M,
     path: &TagPath,
     scenario_tag: &Scenario
+) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
+    let map = LimitedMap::new(map);
+    map.check(read_and_fix_tag_from_map(&map, path, scenario_tag))
+}
+
+fn read_and_fix_tag_from_map<M: Map>(
+    map: &M,
+    path: &TagPath,
+    scenario_tag: &Scenario
 ) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
     let group = path.group();
     let mut tag = read_any_tag_from_map(path, map)?;
@@ -207,8 +218,8 @@ fn decompress_map_data(data: Vec<u8>, header: &ParsedCacheFileHeader, engine: &E
                 .take(decompressed_len as u64 + 1)
                 .read_to_end(&mut result)
                 .map_err(|e| Error::MapParseFailure(format!("decompression failed: flate2 error: {e}")))?;
+            result.truncate(header.decompressed_size);
             Ok(result)
         }
     }
 }
-            result.truncate(header.decompressed_size);
diff --git a/src/ringhopper/src/map/limit.rs b/src/ringhopper/src/map/limit.rs
new file mode 100644
index 0000000..1c1ca54
--- /dev/null
+++ b/src/ringhopper/src/map/limit.rs
@@ -0,0 +1,86 @@
+use std::cell::Cell;
+use primitives::engine::Engine;
+use primitives::error::{Error, RinghopperResult};
+use primitives::map::{DomainType, Map, ResourceMapType, Tag};
+use primitives::primitive::{ID, TagPath};
+use primitives::tag::PrimaryTagStructDyn;
+
+/// How many times as much data as there is in the map a single tag can read.
+const MAX_DATA_MULTIPLE: usize = 16;
+
+/// Wraps a map for reading a single tag, limiting the total amount of data that can be read.
+///
+/// Arrays in a corrupted map can overlap, so a tag with nested arrays could otherwise (try to) grow far larger than what
+/// will ever fit in memory.
+pub struct LimitedMap<'a, M: Map> {
+    map: &'a M,
+    remaining: Cell<Option<usize>>
+}
+
+impl<'a, M: Map> LimitedMap<'a, M> {
+    pub fn new(map: &'a M) -> Self {
+        let total = [
+            DomainType::MapData,
+            DomainType::ResourceMapFile(ResourceMapType::Bitmaps),
+            DomainType::ResourceMapFile(ResourceMapType::Sounds),
+            DomainType::ResourceMapFile(ResourceMapType::Loc),
+        ]
+            .iter()
+            .filter_map(|d| map.get_domain(d))
+            .fold(0usize, |total, (data, _)| total.saturating_add(data.len()));
+        Self { map, remaining: Cell::new(Some(total.saturating_mul(MAX_DATA_MULTIPLE))) }
+    }
+
+    /// Replace the error if it is because too much data was read.
+    pub fn check<T>(&self, result: RinghopperResult<T>) -> RinghopperResult<T> {
+        match self.remaining.get() {
+            Some(_) => result,
+            None => Err(Error::MapParseFailure("tag contains far more data than the map does; likely protected/corrupted map".to_owned()))
+        }
+    }
+}
+
+impl<'a, M: Map> Map for LimitedMap<'a, M> {
+    fn get_name(&self) -> &str {
+        self.map.get_name()
+    }
+
+    fn get_build_string(&self) -> &str {
+        self.map.get_build_string()
+    }
+
+    fn get_engine(&self) -> &'static Engine {
+        self.map.get_engine()
+    }
+
+    fn extract_tag(&self, path: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> {
+        self.map.extract_tag(path)
+    }
+
+    fn get_domain(&self, domain: &DomainType) -> Option<(&[u8], usize)> {
+        self.map.get_domain(domain)
+    }
+
+    fn get_tag_by_id(&self, id: ID) -> Option<&Tag> {
+        self.map.get_tag_by_id(id)
+    }
+
+    fn get_tag(&self, path: &TagPath) -> Option<&Tag> {
+        self.map.get_tag(path)
+    }
+
+    fn get_scenario_tag(&self) -> &Tag {
+        self.map.get_scenario_tag()
+    }
+
+    fn get_data_at_address(&self, address: usize, domain: &DomainType, size: usize) -> Option<&[u8]> {
+        let data = self.map.get_data_at_address(address, domain, size)?;
+        let remaining = self.remaining.get().and_then(|remaining| remaining.checked_sub(size));
+        self.remaining.set(remaining);
+        remaining.map(|_| data)
+    }
+
+    fn get_all_tags(&self) -> Vec<TagPath> {
+        self.map.get_all_tags()
+    }
+}
diff --git a/src/ringhopper/src/map/util.rs b/src/ringhopper/src/map/util.rs
index f944e13..fd30975 100644
--- a/src/ringhopper/src/map/util.rs
+++ b/src/ringhopper/src/map/util.rs
@@ -8,6 +8,7 @@ use primitives::parse::{SimpleTagData, TagData};
 use primitives::primitive::{ID, TagGroup, TagPath};
 use crate::map::{BSPDomain, header};
 use crate::map::header::ParsedCacheFileHeader;
+use crate::map::limit::LimitedMap;
 
 /// Get all scenario and BSP data for a map.
 pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>], scenario_tag: ID) -> RinghopperResult<(Scenario, Vec<BSPDomain>)> {
@@ -25,7 +26,8 @@ pub fn load_scenario_info<M: Map>(map: &M, tags: &[Option<Tag>], scenario_tag: I
         }
     }
 
-    let scenario_tag_data = Scenario::read_from_map(map, scenario.address, &scenario.domain)?;
+    let limited_map = LimitedMap::new(map);
+    let scenario_tag_data = limited_map.check(Scenario::read_from_map(&limited_map, scenario.address, &scenario.domain))?;
     let bsp_count = scenario_tag_data.structure_bsps.items.len();
     let mut bsps: Vec<BSPDomain> = Vec::with_capacity(bsp_count);
     for bsp_index in 0..bsp_count {
-- 
2.43.0


From 6e18dfa9d9ac6062ea9370c928b24b33039decc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:21 +0000
Subject: [PATCH 77/80] fix: sample_rate_from_u32 not accepting sample rates

---
 src/ringhopper/src/tag/sound.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ringhopper/src/tag/sound.rs b/src/ringhopper/src/tag/sound.rs
index 9b340bd..fb1fef6 100644
--- a/src/ringhopper/src/tag/sound.rs
+++ b/src/ringhopper/src/tag/sound.rs
@@ -163,11 +163,11 @@ pub fn sample_rate_to_u32(sample_rate: SoundSampleRate) -> u32 {
     }
 }
 
-/// Get a [`SoundChannelCount`] from its equivalent numerical value.
+/// Get a [`SoundSampleRate`] from its equivalent numerical value.
 pub fn sample_rate_from_u32(sample_rate: u32) -> Option<SoundSampleRate> {
     match sample_rate {
-        1 => Some(SoundSampleRate::_22050Hz),
-        2 => Some(SoundSampleRate::_44100Hz),
+        22050 => Some(SoundSampleRate::_22050Hz),
+        44100 => Some(SoundSampleRate::_44100Hz),
         _ => None
     }
 }
-- 
2.43.0


From b4feadc27cfe0d471cd53184f12e80ac0ef93d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 78/80] fix: nudging reporting tags as nudged when nothing
 changes

---
 src/ringhopper/src/tag/nudge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringhopper/src/tag/nudge.rs b/src/ringhopper/src/tag/nudge.rs
index 75915c9..473dab3 100644
--- a/src/ringhopper/src/tag/nudge.rs
+++ b/src/ringhopper/src/tag/nudge.rs
@@ -66,8 +66,8 @@ fn nudge_object(object: &mut Object) -> bool {
         }
 
         if all_same {
-            result = true;
             for p in &mut cc.permutations {
+                result |= p.weight != 1.0;
                 p.weight = 1.0;
             }
         }
@@ -132,7 +132,7 @@ fn nudge_light(a: &mut Light) -> bool {
 
 fn nudge(float: &mut f64, was_nudged_thus_far: &mut bool) {
     let fixed = fix_decimal_rounding(*float);
-    if fixed != *float {
+    if fixed != *float && !float.is_nan() {
         *float = fixed;
         *was_nudged_thus_far |= true;
     }
-- 
2.43.0


From 7dbc199fc5824593804d859328187c4c005c5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:24 +0000
Subject: [PATCH 79/80] fix: name_of_field_from_ptr not recognizing fields and
 giving names which are not those of fields

---
 src/ringhopper-structs-codegen/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-structs-codegen/src/lib.rs b/src/ringhopper-structs-codegen/src/lib.rs
index fee7061..cabbed6 100644
--- a/src/ringhopper-structs-codegen/src/lib.rs
+++ b/src/ringhopper-structs-codegen/src/lib.rs
@@ -349,7 +349,8 @@ impl ToTokenStream for Struct {
             match &field.field_type {
                 StructFieldType::Object(o) => {
                     if !field.flags.exclude {
-                        writeln!(&mut reverse_field_matcher, "if field == &self.{field_name} as *const dyn DynamicTagData {{ return \"{field_name}\" }}").unwrap();
+                        let field_matcher = &fields_with_matchers[i];
+                        writeln!(&mut reverse_field_matcher, "if std::ptr::addr_eq(field, &self.{field_name} as *const dyn DynamicTagData) {{ return \"{field_matcher}\" }}").unwrap();
 
                         let mut doc = String::new();
                         if let Some(n) = &field.flags.comment {
-- 
2.43.0


From 3270f9b14a507541030f9fc49c07fe6d10bec715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 80/80] fix: default limits of fields being left out when
 engines have limits of their own

---
 src/ringhopper-definitions/src/types/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ringhopper-definitions/src/types/parse.rs b/src/ringhopper-definitions/src/types/parse.rs
index 7646a54..c8c4426 100644
--- a/src/ringhopper-definitions/src/types/parse.rs
+++ b/src/ringhopper-definitions/src/types/parse.rs
@@ -726,7 +726,8 @@ impl LoadFromSerdeJSON for StructField {
                         editor_limit = Some(editor_limit.unwrap_or_default().max(v))
                     }
 
-                    default_limit.unwrap_or_else(|| panic!("No default limit set for {name}"));
+                    let default_limit = default_limit.unwrap_or_else(|| panic!("No default limit set for {name}"));
+                    map.insert(LimitType::Default, default_limit);
 
                     let editor_limit = editor_limit.unwrap_or_else(|| panic!("Unable to establish an editor limit for {name} (no limits maybe?)"));
                     map.insert(LimitType::Editor, editor_limit);
-- 
2.43.0

