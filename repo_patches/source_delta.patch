From ca4dbb041469254c6b733b4166f918573d90d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 01/18] fix: decode integers whose encoding is exactly nine
 bytes

Values from 2^56 to 2^63 - 1 take nine bytes, the last without the
continuation bit. The decoder read a tenth byte for them.
---
 src/serialize/primitives.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 55a6816..74ab9a8 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -72,12 +72,13 @@ impl Deserializable for u64 {
     fn deserialize(mut input: &[u8]) -> Option<(&[u8], Self)> {
         let mut out = 0;
         let mut eaten = 0;
+        let mut more_bytes = true;
 
         // We eat all the bytes that start with 1
         while input.is_empty() == false && eaten < 9 {
             // We shift the 7 data bits forwards, so they're all in front
             let byte = input[0];
-            let more_bytes = byte & 0b1000_0000 == 0b1000_0000;
+            more_bytes = byte & 0b1000_0000 == 0b1000_0000;
             let byte = byte << 1;
             out >>= 7;
             // We make the byte u64, and shift the data aaaaall the way to the front
@@ -97,7 +98,7 @@ impl Deserializable for u64 {
         }
 
         // This means there is one last byte with 1 bit of real data
-        if eaten == 9 {
+        if eaten == 9 && more_bytes {
             out >>= 1;
             if *input.get(0)? == 1 {
                 out |= 0b1000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000;
-- 
2.43.0


From 9a5e2ea0a04ca57126c1bedb7e39b7f4bc954e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 02/18] fix: reject truncated integers and strings instead of
 misreading or panicking

An integer cut off after a byte with the continuation bit decoded to a
wrong value, and a string longer than the remaining input panicked.
---
 src/serialize/collections.rs | 2 +-
 src/serialize/primitives.rs  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 593cbf9..746cda0 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -121,7 +121,7 @@ fn test() {
 impl Deserializable for String {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
         let (input, len) = usize::deserialize(input)?;
-        let bytes = &input[..len];
+        let bytes = input.get(..len)?;
         let string = String::from_utf8(bytes.to_vec()).ok()?;
         Some((&input[len..], string))
     }
diff --git a/src/serialize/primitives.rs b/src/serialize/primitives.rs
index 74ab9a8..5b84ee4 100644
--- a/src/serialize/primitives.rs
+++ b/src/serialize/primitives.rs
@@ -105,7 +105,8 @@ impl Deserializable for u64 {
             }
             input = &input[1..];
             Some((input, out))
-        } else if eaten == 0 {
+        } else if more_bytes {
+            // The input ended before the last byte of this number
             None
         } else {
             // We need to remove the extra padding from the beginning
-- 
2.43.0


From 1d246c9457ace697ec878b8a4614d67c38c86b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 03/18] fix: don't trust collection lengths read from an index
 file

A corrupt length panicked with capacity overflow, aborted on allocation
failure, or tripped an assertion, instead of being reported as None.
---
 src/classic_indexes/categorical.rs |  6 +++---
 src/classic_indexes/tag.rs         |  4 ++--
 src/data/vendor.rs                 |  6 ++++--
 src/serialize/collections.rs       | 30 ++++++++++++++++++++++--------
 src/serialize/mod.rs               |  2 +-
 src/serialize/nodes.rs             |  7 +++++--
 src/serialize/sequential_array.rs  |  4 ++--
 7 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index 2800703..a2767df 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -2,7 +2,7 @@ use ahash::AHashSet;
 
 use crate::{
     data::{Product, ProductContainer, RawProductOption},
-    serialize::{Deserializable, Serializable},
+    serialize::{deserialize_len, Deserializable, Serializable},
 };
 
 #[derive(PartialEq, Eq)]
@@ -49,7 +49,7 @@ impl<'a> Category<'a> {
     ) -> Option<(&'i [u8], Category<'a>)> {
         let (input, exclusive) = bool::deserialize(input)?;
         let (input, name) = String::deserialize(input)?;
-        let (mut input, options_len) = usize::deserialize(input)?;
+        let (mut input, options_len) = deserialize_len(input)?;
 
         let mut options = Vec::with_capacity(options_len);
         for _ in 0..options_len {
@@ -161,7 +161,7 @@ impl<'a> CategoryIndex<'a> {
         input: &'i [u8],
         products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], CategoryIndex<'a>)> {
-        let (mut input, len) = usize::deserialize(input)?;
+        let (mut input, len) = deserialize_len(input)?;
         let mut cats = Vec::with_capacity(len);
         let mut next_option_serialization_id = 0;
         for _ in 0..len {
diff --git a/src/classic_indexes/tag.rs b/src/classic_indexes/tag.rs
index b1b5b14..8f4b344 100644
--- a/src/classic_indexes/tag.rs
+++ b/src/classic_indexes/tag.rs
@@ -2,7 +2,7 @@ use ahash::{AHashMap, AHashSet};
 
 use crate::{
     data::{Product, ProductContainer},
-    serialize::{Deserializable, Serializable},
+    serialize::{deserialize_len, Deserializable, Serializable},
 };
 
 #[derive(PartialEq, Eq)]
@@ -58,7 +58,7 @@ impl<'a> TagIndex<'a> {
         input: &'i [u8],
         existing_products: &'a [Product<'a>],
     ) -> Option<(&'i [u8], TagIndex<'a>)> {
-        let (input, tag_len) = usize::deserialize(input)?;
+        let (input, tag_len) = deserialize_len(input)?;
         let mut input = input;
         let mut tags = Vec::with_capacity(tag_len);
         for id in 0..tag_len {
diff --git a/src/data/vendor.rs b/src/data/vendor.rs
index f53ce78..06cd165 100644
--- a/src/data/vendor.rs
+++ b/src/data/vendor.rs
@@ -1,7 +1,9 @@
 use ahash::AHashMap;
 use colosseum::sync::Arena;
 
-use crate::serialize::{ArenaDeserializableCollection, Deserializable, Serializable};
+use crate::serialize::{
+    deserialize_len, ArenaDeserializableCollection, Deserializable, Serializable,
+};
 
 use super::container::SuperAlloc;
 
@@ -96,7 +98,7 @@ impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'ar
     where
         'arena: 'input,
     {
-        let (mut input, len) = usize::deserialize(input)?;
+        let (mut input, len) = deserialize_len(input)?;
         let mut tags = AHashMap::with_capacity(len);
         let mut by_id = Vec::with_capacity(len);
         for id in 0..len {
diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index 746cda0..cd5a63c 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -8,6 +8,16 @@ use super::{
     Serializable,
 };
 
+/// Reads the amount of items in a collection. Every item takes up at least a byte, so an amount
+/// larger than what remains of the input can't be right, and must not be allocated for.
+pub fn deserialize_len(input: &[u8]) -> Option<(&[u8], usize)> {
+    let (input, len) = usize::deserialize(input)?;
+    if len > input.len() {
+        return None;
+    }
+    Some((input, len))
+}
+
 impl<T: Serializable> Serializable for Vec<&T> {
     fn serialize<Out: FnMut(u8)>(&self, output: &mut Out) {
         self.len().serialize(output);
@@ -37,7 +47,7 @@ impl Serializable for Vec<usize> {
 
 impl<T: Deserializable> Deserializable for Vec<T> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
-        let (mut input, len) = usize::deserialize(input)?;
+        let (mut input, len) = deserialize_len(input)?;
         let mut out = Vec::with_capacity(len);
         for _ in 0..len {
             let (new_input, item) = T::deserialize(input)?;
@@ -58,7 +68,7 @@ impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'a
     where
         'arena: 'input,
     {
-        let (mut input, len) = usize::deserialize(input)?;
+        let (mut input, len) = deserialize_len(input)?;
         let mut out = Vec::with_capacity(len);
         for _ in 0..len {
             let (new_input, item) = T::deserialize_arena(input, arena)?;
@@ -149,7 +159,7 @@ where
     where
         'arena: 'input,
     {
-        let (mut input, len) = usize::deserialize(input)?;
+        let (mut input, len) = deserialize_len(input)?;
         let mut out = AHashMap::with_capacity(len);
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
@@ -163,7 +173,7 @@ where
 
 impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
-        let (mut input, len) = usize::deserialize(input)?;
+        let (mut input, len) = deserialize_len(input)?;
         let mut out = AHashMap::with_capacity(len);
         for _ in 0..len {
             let (new_input, key) = K::deserialize(input)?;
@@ -186,8 +196,10 @@ impl<T: Serializable, const N: usize> Serializable for [T; N] {
 
 impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
-        let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        let (mut input, len) = deserialize_len(input)?;
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
@@ -200,8 +212,10 @@ impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollectio
 
 impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
     fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
-        let (mut input, len) = usize::deserialize(input)?;
-        assert!(len == N);
+        let (mut input, len) = deserialize_len(input)?;
+        if len != N {
+            return None;
+        }
         let mut out = [T::default(); N];
         for position in out.iter_mut().take(len) {
             let (new_input, item) = T::deserialize(input)?;
diff --git a/src/serialize/mod.rs b/src/serialize/mod.rs
index 97c793c..0aba17a 100644
--- a/src/serialize/mod.rs
+++ b/src/serialize/mod.rs
@@ -7,7 +7,7 @@ mod traits;
 pub mod sequential_array;
 
 pub use all_indexes::{deserialize_all, serialize_all};
-pub use collections::serialize_string_with_limit;
+pub use collections::{deserialize_len, serialize_string_with_limit};
 pub use traits::*;
 
 #[cfg(test)]
diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index adb7c99..3d0c445 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -7,7 +7,10 @@ use crate::{
     Product,
 };
 
-use super::{ArenaDeserializable, ArenaDeserializableCollection, Deserializable, Serializable};
+use super::{
+    deserialize_len, ArenaDeserializable, ArenaDeserializableCollection, Deserializable,
+    Serializable,
+};
 
 fn serialize_node<G: GramAtom, Out: FnMut(u8)>(node: &GramNode<'_, G>, output: &mut Out) {
     node.item.serialize(output);
@@ -81,7 +84,7 @@ impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>,
         let container = super_alloc.alloc(container);
         let (input, roots) = AHashMap::deserialize_arena(input, node_arena)?;
 
-        let (mut input, data_len) = usize::deserialize(input)?;
+        let (mut input, data_len) = deserialize_len(input)?;
         let mut data = AHashMap::with_capacity(data_len);
         for _ in 0..data_len {
             let (next_input, gram) = <[G; N]>::deserialize(input)?;
diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 22643b3..32d6aee 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -1,4 +1,4 @@
-use super::{Deserializable, Serializable};
+use super::{deserialize_len, Deserializable, Serializable};
 
 pub fn serialize<T, I, Out: FnMut(u8)>(input: I, output: &mut Out)
 where
@@ -26,7 +26,7 @@ pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
 where
     T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
 {
-    let (mut input, len) = usize::deserialize(input)?;
+    let (mut input, len) = deserialize_len(input)?;
 
     let mut output = Vec::with_capacity(len);
     let mut previous = None;
-- 
2.43.0


From 3e56d89cf09f77a12aedf5f47ecb1a9e29b28969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 04/18] fix: report overflowing id lists in an index file as
 None

Corrupt differences overflowed the addition: a panic with overflow checks,
a wrapped and unsorted id without.
---
 src/serialize/sequential_array.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/serialize/sequential_array.rs b/src/serialize/sequential_array.rs
index 32d6aee..ebf5aa9 100644
--- a/src/serialize/sequential_array.rs
+++ b/src/serialize/sequential_array.rs
@@ -1,5 +1,22 @@
 use super::{deserialize_len, Deserializable, Serializable};
 
+/// Addition which reports overflow, since corrupt input can contain any differences
+pub trait CheckedAdd: Sized {
+    fn checked_add(self, other: Self) -> Option<Self>;
+}
+
+macro_rules! impl_checked_add {
+    ($($t:ty),*) => {
+        $(impl CheckedAdd for $t {
+            fn checked_add(self, other: Self) -> Option<Self> {
+                <$t>::checked_add(self, other)
+            }
+        })*
+    };
+}
+
+impl_checked_add!(u8, u32, u64, usize);
+
 pub fn serialize<T, I, Out: FnMut(u8)>(input: I, output: &mut Out)
 where
     T: std::ops::Sub<Output = T> + Ord + Serializable + Copy,
@@ -24,7 +41,7 @@ where
 
 pub fn deserialize<T>(input: &[u8]) -> Option<(&[u8], Vec<T>)>
 where
-    T: std::ops::Add<Output = T> + Ord + Serializable + Deserializable + Copy,
+    T: CheckedAdd + Ord + Serializable + Deserializable + Copy,
 {
     let (mut input, len) = deserialize_len(input)?;
 
@@ -35,7 +52,7 @@ where
         input = new_input;
 
         let item = match previous {
-            Some(previous) => parsed + previous,
+            Some(previous) => parsed.checked_add(previous)?,
             None => parsed,
         };
 
-- 
2.43.0


From e64d41682fea6982f0055109205dd8341e9e5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 05/18] fix: don't overflow the stack on deeply nested nodes in
 an index file

A few hundred kilobytes of nested nodes crashed the loader.
---
 src/serialize/nodes.rs | 73 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/src/serialize/nodes.rs b/src/serialize/nodes.rs
index 3d0c445..a2871d8 100644
--- a/src/serialize/nodes.rs
+++ b/src/serialize/nodes.rs
@@ -30,6 +30,30 @@ impl<G: GramAtom> Serializable for &GramNode<'_, G> {
     }
 }
 
+struct OpenNode<'arena, G: GramAtom> {
+    item: G,
+    weight: f32,
+    missing_children: usize,
+    by_occurances: Vec<&'arena GramNode<'arena, G>>,
+}
+
+impl<G: GramAtom> OpenNode<'_, G> {
+    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
+        let (input, item) = <G as Deserializable>::deserialize(input)?;
+        let (input, weight) = f32::deserialize(input)?;
+        let (input, missing_children) = deserialize_len(input)?;
+        Some((
+            input,
+            OpenNode {
+                item,
+                weight,
+                missing_children,
+                by_occurances: Vec::new(),
+            },
+        ))
+    }
+}
+
 impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena, G> {
     fn deserialize_arena<'input>(
         input: &'input [u8],
@@ -38,21 +62,42 @@ impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena,
     where
         'arena: 'input,
     {
-        let (input, item) = <G as Deserializable>::deserialize(input)?;
-        let (input, weight) = f32::deserialize(input)?;
-        let (input, by_occurances) = Vec::deserialize_arena(input, arena)?;
-        let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
-            map.insert(item.item, *item);
-            map
-        });
+        let (mut input, root) = OpenNode::deserialize(input)?;
+        // The nodes whose children are still being read, outermost first. We don't recurse, since a
+        // corrupt file could contain nodes nested deeply enough to overflow the stack
+        let mut open = vec![root];
+        loop {
+            let node = open.last_mut()?;
+            if node.missing_children > 0 {
+                node.missing_children -= 1;
+                let (new_input, child) = OpenNode::deserialize(input)?;
+                input = new_input;
+                open.push(child);
+                continue;
+            }
+
+            let OpenNode {
+                item,
+                weight,
+                by_occurances,
+                ..
+            } = open.pop()?;
+            let items = by_occurances.iter().fold(AHashMap::new(), |mut map, item| {
+                map.insert(item.item, *item);
+                map
+            });
 
-        let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
-            item,
-            weight,
-            by_occurances,
-            items,
-        });
-        Some((input, node))
+            let node: &'arena GramNode<'arena, G> = arena.alloc(GramNode {
+                item,
+                weight,
+                by_occurances,
+                items,
+            });
+            match open.last_mut() {
+                Some(parent) => parent.by_occurances.push(node),
+                None => return Some((input, node)),
+            }
+        }
     }
 }
 
-- 
2.43.0


From d7ab73e84a57afa4628c8aa81a197905e3890e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 06/18] fix: keep image urls aligned with their products

A product without media was skipped in the image_url column, so every
product after it was given the image of a later one.
---
 src/data/raw_parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index f9a4f26..8eb94f3 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -67,15 +67,15 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
             vendor,
             id,
             options,
-            mut media,
+            media,
             price,
         } = raw;
 
         let mut other_string = AHashMap::with_capacity(1);
 
-        if !media.is_empty() {
-            other_string.insert("image_url", media.swap_remove(0).url);
-        }
+        // Features are stored by product position, so products without media need a value too
+        let image_url = media.first().map_or("", |item| item.url);
+        other_string.insert("image_url", image_url);
 
         let mut other_numeric = AHashMap::with_capacity(1);
 
-- 
2.43.0


From 550e080fac3f71826b4f181bd554a43a7e8ea824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 07/18] fix: apply exact feature filters

Reading a missing property gives undefined rather than an error, so every
filter was taken to be a range, and {exact: ..} filtered nothing.
---
 src/js_interactable/feature_filter.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/js_interactable/feature_filter.rs b/src/js_interactable/feature_filter.rs
index 707aa02..9b01a7e 100644
--- a/src/js_interactable/feature_filter.rs
+++ b/src/js_interactable/feature_filter.rs
@@ -39,20 +39,18 @@ impl FeatureFilter {
             let feature = entry.get(0).as_string()?;
             let values = entry.get(1);
 
-            if let Some(from) = get_value(&values, "from") {
-                if let Some(to) = get_value(&values, "to") {
-                    out.push(FeatureFilter {
-                        data: FilterData::Range { from, to },
-                        feature,
-                    });
-                    continue;
-                }
-            }
+            let from = get_value(&values, "from")?;
+            let to = get_value(&values, "to")?;
             let exact = get_value(&values, "exact")?;
-            out.push(FeatureFilter {
-                feature,
-                data: FilterData::Exact(exact),
-            });
+            // A missing property is undefined, so we can't tell the two kinds apart by whether it exists
+            let has_bound = from.as_f64().is_some() || to.as_f64().is_some();
+            let has_exact = !(exact.is_undefined() || exact.is_null());
+            let data = if has_exact && !has_bound {
+                FilterData::Exact(exact)
+            } else {
+                FilterData::Range { from, to }
+            };
+            out.push(FeatureFilter { data, feature });
         }
         Some(out)
     }
-- 
2.43.0


From 89395a4b5d08a1a137d901993c149e035fe9633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 08/18] fix: measure tag suggestions in characters on both
 sides

Matching characters were divided by a length in bytes, so that even an
exact match of a tag with non-ASCII letters scored too low.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a08707..edd1359 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -149,7 +149,7 @@ impl TagSuggestionResult {
 #[wasm_bindgen]
 pub fn tag_suggestion(query: &str) -> Option<TagSuggestionResult> {
     fn overlap(original: &str, other: &str, min_len: usize) -> f32 {
-        let min_len_found = original.len().min(other.len());
+        let min_len_found = original.chars().count().min(other.chars().count());
         if min_len_found < min_len {
             return 0.0;
         }
-- 
2.43.0


From f924db4d8d7783c520897d3eec1acd475c63c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 09/18] fix: never shorten a description to nothing

A long description whose only space was its first character was stored
as an empty one.
---
 src/serialize/collections.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serialize/collections.rs b/src/serialize/collections.rs
index cd5a63c..f2f6bbf 100644
--- a/src/serialize/collections.rs
+++ b/src/serialize/collections.rs
@@ -104,7 +104,8 @@ fn limit_string_len(input: &str, max_len: usize) -> &str {
                 None => &input[0..offset],
             };
         }
-        if char == ' ' {
+        // Cutting at the very start would leave nothing
+        if char == ' ' && offset > 0 {
             last_candidate = Some(offset);
         }
     }
-- 
2.43.0


From 9d3edef8c11a9447f2a36a4aa014e3bd1fbfa116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 10/18] fix: count products, not occurrences, for the gram
 cutoff

A gram repeated often enough within a single product was dropped as if
it occurred in most products, making that product unfindable by it.
---
 src/ngram/indexer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ngram/indexer.rs b/src/ngram/indexer.rs
index bcb4c09..6640eb9 100644
--- a/src/ngram/indexer.rs
+++ b/src/ngram/indexer.rs
@@ -149,12 +149,16 @@ impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> {
         let maximum_product_amount = (products_amount as f32) * DATA_CUTOFF_PERCENTAGE;
         #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
         let maximum_product_amount = maximum_product_amount as usize;
-        data_map.retain(|_, data| data.len() < maximum_product_amount);
-
-        // We also sort the data for easier access later
-        for (_, data) in data_map.iter_mut() {
+        data_map.retain(|_, data| {
+            // We also sort the data for easier access later
             data.sort();
-        }
+            // A product is repeated for every time it contains the gram, but only counts once
+            let repeats = data
+                .windows(2)
+                .filter(|pair| pair[0].cmp(pair[1]).is_eq())
+                .count();
+            data.len() - repeats < maximum_product_amount
+        });
 
         GramIndex {
             roots,
-- 
2.43.0


From 7522bae7233e2e2e41a40bc539aed6e4a5175370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 11/18] fix: number category options the way loading does

When an option was added to an earlier category after one of a later
category, the loaded index differed from the one that was built.
---
 src/classic_indexes/categorical.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/classic_indexes/categorical.rs b/src/classic_indexes/categorical.rs
index a2767df..4e2b4ac 100644
--- a/src/classic_indexes/categorical.rs
+++ b/src/classic_indexes/categorical.rs
@@ -154,6 +154,13 @@ impl<'a> CategoryIndex<'a> {
             }
         }
 
+        // The ids are implied by position once serialized, but options can be added to a category after
+        // options of later categories, so they have to be renumbered
+        let options = categories.iter_mut().flat_map(|c| c.options.iter_mut());
+        for (serialization_id, option) in options.enumerate() {
+            option.serialization_id = serialization_id;
+        }
+
         CategoryIndex(categories)
     }
 
-- 
2.43.0


From 55385869383cd90a0d5b02c022bd3caa18c233e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 12/18] fix: accept catalogues whose titles, tags and other
 strings contain JSON escapes

A borrowed string cannot hold an unescaped value, so a single quote mark
in any title, vendor, tag, option, id or url made indexing fail.
---
 src/data/raw_parser.rs | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index 8eb94f3..34d5789 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -1,5 +1,5 @@
 use serde::Deserialize;
-use std::sync::Arc;
+use std::{borrow::Cow, sync::Arc};
 
 use ahash::AHashMap;
 
@@ -26,16 +26,21 @@ pub struct ProductPrice {
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct MediaItem<'a> {
-    pub url: &'a str,
+    #[serde(borrow)]
+    pub url: Cow<'a, str>,
 }
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct RawProduct<'a> {
     pub description: String,
-    pub tags: Vec<&'a str>,
-    pub title: &'a str,
-    pub vendor: &'a str,
-    pub id: &'a str,
+    // Strings containing escapes can't be borrowed from the JSON
+    pub tags: Vec<Cow<'a, str>>,
+    #[serde(borrow)]
+    pub title: Cow<'a, str>,
+    #[serde(borrow)]
+    pub vendor: Cow<'a, str>,
+    #[serde(borrow)]
+    pub id: Cow<'a, str>,
     pub options: Vec<RawProductOption<'a>>,
     pub price: ProductPrice,
     pub media: Vec<MediaItem<'a>>,
@@ -43,18 +48,19 @@ pub struct RawProduct<'a> {
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct RawProductOption<'a> {
-    pub name: &'a str,
-    pub values: Vec<&'a str>,
+    #[serde(borrow)]
+    pub name: Cow<'a, str>,
+    pub values: Vec<Cow<'a, str>>,
 }
 
 pub struct IntermediateRawProduct<'a> {
-    pub title: &'a str,
+    pub title: Cow<'a, str>,
     pub description: String,
-    pub tags: Vec<&'a str>,
-    pub vendor: &'a str,
-    pub id: &'a str,
+    pub tags: Vec<Cow<'a, str>>,
+    pub vendor: Cow<'a, str>,
+    pub id: Cow<'a, str>,
     pub options: Vec<RawProductOption<'a>>,
-    pub other_string: AHashMap<&'a str, &'a str>,
+    pub other_string: AHashMap<&'a str, Cow<'a, str>>,
     pub other_numeric: AHashMap<&'a str, f32>,
 }
 
@@ -74,7 +80,10 @@ fn to_intermediate(input: Vec<RawProduct<'_>>) -> impl Iterator<Item = Intermedi
         let mut other_string = AHashMap::with_capacity(1);
 
         // Features are stored by product position, so products without media need a value too
-        let image_url = media.first().map_or("", |item| item.url);
+        let image_url = media
+            .into_iter()
+            .next()
+            .map_or(Cow::Borrowed(""), |item| item.url);
         other_string.insert("image_url", image_url);
 
         let mut other_numeric = AHashMap::with_capacity(1);
@@ -102,7 +111,7 @@ pub fn optimize(
 
     // We insert all the tags/vendors
     for product in &input {
-        vendors.insert(product.vendor);
+        vendors.insert(&product.vendor);
     }
 
     let vendors: Arc<VendorManager<'static>> = Arc::new(vendors);
@@ -157,6 +166,10 @@ pub fn optimize(
     // We make the products read only
     let out = &*out;
 
+    let tags_for_product = tags_for_product
+        .iter()
+        .map(|tags: &Vec<Cow<'_, str>>| tags.iter().map(|tag| &**tag).collect())
+        .collect();
     let tag_index = TagIndex::index(tags_for_product, out);
 
     let mut order = OrderIndex::new();
-- 
2.43.0


From 40ef4baf52d2b668fb182a12e513e8551be64208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 13/18] fix: reject catalogues whose prices are not numbers
 instead of panicking

---
 src/data/raw_parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data/raw_parser.rs b/src/data/raw_parser.rs
index 34d5789..e0e951e 100644
--- a/src/data/raw_parser.rs
+++ b/src/data/raw_parser.rs
@@ -1,4 +1,4 @@
-use serde::Deserialize;
+use serde::{de::Error, Deserialize, Deserializer};
 use std::{borrow::Cow, sync::Arc};
 
 use ahash::AHashMap;
@@ -20,10 +20,20 @@ pub struct CurrencyAmount {
 
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct ProductPrice {
+    #[serde(deserialize_with = "numeric_amount")]
     pub min: CurrencyAmount,
     pub max: CurrencyAmount,
 }
 
+// The amount is indexed as a number, so it has to be one
+fn numeric_amount<'de, D: Deserializer<'de>>(input: D) -> Result<CurrencyAmount, D::Error> {
+    let price = CurrencyAmount::deserialize(input)?;
+    match price.amount.parse::<f32>() {
+        Ok(amount) if !amount.is_nan() => Ok(price),
+        _ => Err(D::Error::custom("the price is not a number")),
+    }
+}
+
 #[derive(Deserialize, PartialEq, Eq, Debug, Clone)]
 pub struct MediaItem<'a> {
     #[serde(borrow)]
-- 
2.43.0


From 67ee76ef8bd5a67b0745c9b9dba72c321f3822c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 14/18] fix: report bytes that are no index from initialize
 instead of panicking

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index edd1359..0f17415 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,7 +49,10 @@ pub fn init_panic_hook() {
 pub fn initialize(input: &[u8]) -> bool {
     init_panic_hook();
 
-    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
+    let (index, classic) = match deserialize_all(input, &NODE_ARENA, &SUPER_ARENA) {
+        Some(v) => v,
+        None => return false,
+    };
 
     SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
     SHARED_CLASSIC_INDEX
-- 
2.43.0


From f753ae4a8b365f54aaecb8c379fb870ee1c588f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 15/18] fix: reject index files whose orders do not cover the
 products

---
 src/classic_indexes/mod.rs   | 3 +++
 src/classic_indexes/order.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/classic_indexes/mod.rs b/src/classic_indexes/mod.rs
index 1a62bcd..c8b40f6 100644
--- a/src/classic_indexes/mod.rs
+++ b/src/classic_indexes/mod.rs
@@ -27,6 +27,9 @@ impl<'a> ClassicIndexes<'a> {
         let (input, categories) = CategoryIndex::deserialize_many(input, &data.products)?;
         let (input, tags) = TagIndex::deserialize(input, &data.products)?;
         let (input, order) = OrderIndex::deserialize(input)?;
+        if !order.covers(data.products.len()) {
+            return None;
+        }
         Some((
             input,
             ClassicIndexes {
diff --git a/src/classic_indexes/order.rs b/src/classic_indexes/order.rs
index 4aa1e50..6a3be7d 100644
--- a/src/classic_indexes/order.rs
+++ b/src/classic_indexes/order.rs
@@ -65,6 +65,11 @@ impl OrderIndex {
         self.orders.get(feature)
     }
 
+    // Is there a position for each of this many products in every order
+    pub(super) fn covers(&self, products: usize) -> bool {
+        self.orders.values().all(|order| order.len() == products)
+    }
+
     pub fn options(&self) -> impl Iterator<Item = &str> {
         self.orders.keys().map(String::as_str)
     }
-- 
2.43.0


From 7017420fd6efbc036e88be7c65106dd29366fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 16/18] fix: rank results whose confidence is not a number
 without panicking

---
 src/ngram/result_ranker.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ngram/result_ranker.rs b/src/ngram/result_ranker.rs
index 2eafed9..ec77535 100644
--- a/src/ngram/result_ranker.rs
+++ b/src/ngram/result_ranker.rs
@@ -44,11 +44,8 @@ impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Dat
 
     pub fn export_data_by_confidence(mut self) -> Vec<(&'a Data, f32)> {
         let mut all_data: Vec<_> = self.confidence_for_data.drain().map(|(_, v)| v).collect();
-        all_data.sort_by(|(_, a), (_, b)| {
-            a.partial_cmp(b)
-                .unwrap_or(std::cmp::Ordering::Equal)
-                .reverse()
-        });
+        // Weights in an index file can be NaN, which a sort only tolerates in a total order
+        all_data.sort_by(|(_, a), (_, b)| b.total_cmp(a));
         all_data
     }
 
-- 
2.43.0


From 3a1e0faf96bb9fb52a17431547e5d6b22a3bc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 17/18] fix: never leave an incomplete index under out.test

---
 src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0467d76..7f50243 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -17,7 +17,14 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 
     let output = index_and_serialize(products, &SUPER_ARENA)?;
 
-    std::fs::write("out.test", output)?;
+    // The index takes its name only once it is complete, so that nothing else is ever found under it
+    let unfinished = format!("out.test.{}.tmp", std::process::id());
+    let written =
+        std::fs::write(&unfinished, output).and_then(|()| std::fs::rename(&unfinished, "out.test"));
+    if written.is_err() {
+        // What was written of it is of no use, whether or not it can be removed
+        let _ = std::fs::remove_file(&unfinished);
+    }
 
-    Ok(())
+    Ok(written?)
 }
-- 
2.43.0


From 715eca9e6fd2141def83e18028627a4cdc0ff993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 18/18] fix: ignore options and tags of another catalogue when
 filtering instead of panicking

---
 src/js_interactable/category_handler.rs | 9 +++++----
 src/js_interactable/tag_handler.rs      | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/js_interactable/category_handler.rs b/src/js_interactable/category_handler.rs
index 97aea28..ab8ded7 100644
--- a/src/js_interactable/category_handler.rs
+++ b/src/js_interactable/category_handler.rs
@@ -100,10 +100,11 @@ impl CategoryHandler {
 
     pub fn is_valid(&self, product: &Product<'_>) -> bool {
         for (category, option) in self.active.keys() {
-            let category = &self.handle.categories[*category];
-            let option = &category.options[*option];
-            if option.contains(product) == false {
-                return false;
+            // An option of another catalogue may be unknown here, no product has it
+            let category = self.handle.categories.get(*category);
+            match category.and_then(|category| category.options.get(*option)) {
+                Some(option) if option.contains(product) => (),
+                _ => return false,
             }
         }
         true
diff --git a/src/js_interactable/tag_handler.rs b/src/js_interactable/tag_handler.rs
index 2911bc4..5849e2b 100644
--- a/src/js_interactable/tag_handler.rs
+++ b/src/js_interactable/tag_handler.rs
@@ -96,9 +96,10 @@ impl TagHandler {
 
     pub fn is_valid(&self, product: &Product<'_>) -> bool {
         for id in self.active.keys() {
-            let tag = self.handle.tags.get(*id).unwrap();
-            if tag.contains(product) == false {
-                return false;
+            // A tag of another catalogue may be unknown here, no product has it
+            match self.handle.tags.get(*id) {
+                Some(tag) if tag.contains(product) => (),
+                _ => return false,
             }
         }
         true
-- 
2.43.0

