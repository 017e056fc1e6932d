From 500bc4b2941e9639509484bde485ffeebd56e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 01/13] fix: VecSet::union_with must clone the new elements
 instead of panicking

---
 src/vec_set.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index 7dc66e0..ec81db5 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -754,7 +754,12 @@ where
     }
 
     pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.as_slice(), SetUnionOp, NoConverter);
+        InPlaceSmallVecMergeStateRef::merge(
+            &mut self.0,
+            &that.as_slice(),
+            SetUnionOp,
+            CloneConverter,
+        );
     }
 
     pub fn intersection_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-- 
2.43.0


From 997bef8f8e1d3d59687cefc907f5effea7e2d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 02/13] fix: VecSet::xor_with computed an intersection

---
 src/vec_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index ec81db5..9f97102 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -775,8 +775,8 @@ where
         InPlaceSmallVecMergeStateRef::merge(
             &mut self.0,
             &that.as_slice(),
-            SetIntersectionOp,
-            NoConverter,
+            SetXorOp,
+            CloneConverter,
         );
     }
 
-- 
2.43.0


From c130001f5156aa083f11ed64e123d0f0adb455cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 03/13] fix: TotalVecSet::is_superset is not the negation of
 is_subset

---
 src/total_vec_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_set.rs b/src/total_vec_set.rs
index d88680b..7352348 100644
--- a/src/total_vec_set.rs
+++ b/src/total_vec_set.rs
@@ -138,7 +138,7 @@ impl<T: Ord, A: Array<Item = T>> TotalVecSet<A> {
     }
 
     pub fn is_superset(&self, that: &Self) -> bool {
-        !self.is_subset(that)
+        that.is_subset(self)
     }
 
     pub fn is_subset(&self, that: &Self) -> bool {
-- 
2.43.0


From 1d2b7523fd469d9ee435ba7fd07c8bbfc32e5d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 04/13] fix: TotalVecMap equality must take the default value
 into account

---
 src/total_vec_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_map.rs b/src/total_vec_map.rs
index c628a79..663a25a 100644
--- a/src/total_vec_map.rs
+++ b/src/total_vec_map.rs
@@ -66,7 +66,7 @@ impl<K: Hash, V: Hash, A: Array<Item = (K, V)>> Hash for TotalVecMap<V, A> {
 
 impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEq for TotalVecMap<V, A> {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.1 == other.1
     }
 }
 
-- 
2.43.0


From a8519b1bd1c8867e33770d9978d8da04a73215d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 05/13] fix: right_join_with on BTreeMap must drop keys that
 are not in the right map

---
 src/btree_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index b315666..79d7948 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -190,6 +190,7 @@ impl<K, V> InPlaceRelationalOps<K, V> for BTreeMap<K, V> {
         K: Ord + Clone,
         F: Fn(&K, Option<&mut V>, &W) -> bool,
     {
+        self.retain(|k, _| that.get(k).is_some());
         for (k, w) in that.iter() {
             if !f(k, self.get_mut(k), w) {
                 self.remove(k);
-- 
2.43.0


From 8e33c55ca2e82472ffe20b9a613ebb5a98c7e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 06/13] fix: do not preallocate based on an untrusted size hint
 when deserializing

---
 src/vec_map.rs | 3 ++-
 src/vec_set.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 30a861c..316ba1d 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -815,7 +815,8 @@ where
     }
 
     fn visit_map<M: MapAccess<'de>>(self, mut map: M) -> Result<Self::Value, M::Error> {
-        let len = map.size_hint().unwrap_or(0);
+        // the size hint comes from the input, so it can not be trusted
+        let len = map.size_hint().unwrap_or(0).min(4096);
         let mut values: SmallVec<A> = SmallVec::with_capacity(len);
 
         while let Some(value) = map.next_entry::<K, V>()? {
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 9f97102..b28c6e2 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -611,7 +611,8 @@ where
     where
         B: SeqAccess<'de>,
     {
-        let len = seq.size_hint().unwrap_or(0);
+        // the size hint comes from the input, so it can not be trusted
+        let len = seq.size_hint().unwrap_or(0).min(4096);
         let mut values = SmallVec::with_capacity(len);
 
         while let Some(value) = seq.next_element()? {
-- 
2.43.0


From cadeac98be17ffa9a4b94ccf3d7b07587553a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 07/13] fix: LazyRadixTree must not load the whole archive when
 it is opened

---
 src/radix_tree/lazy_radix_tree.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/radix_tree/lazy_radix_tree.rs b/src/radix_tree/lazy_radix_tree.rs
index e926f17..aa10a2f 100644
--- a/src/radix_tree/lazy_radix_tree.rs
+++ b/src/radix_tree/lazy_radix_tree.rs
@@ -125,12 +125,10 @@ impl<'a, K: TKey + Archive<Archived = K>, V: TValue + Archive<Archived = V>>
     From<&'a ArchivedLazyRadixTree<K, V>> for LazyRadixTree<'a, K, V>
 {
     fn from(value: &'a ArchivedLazyRadixTree<K, V>) -> Self {
-        let children = value.children().iter().map(Self::from).collect::<Vec<_>>();
-        let children = Lazy::initialized(Arc::new(children));
         LazyRadixTree {
             prefix: value.prefix().into(),
             value: value.value().cloned(),
-            children,
+            children: Lazy::uninitialized(value.children()),
         }
     }
 }
-- 
2.43.0


From 52128b8350ab264030dfbca4e97b44238f57ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 08/13] fix: validate archived radix tree children before
 following their pointers

---
 src/radix_tree/arc_radix_tree.rs  | 6 +++---
 src/radix_tree/flat_radix_tree.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 5b1b476..3a0e84a 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -297,6 +297,9 @@ mod validation_support {
             CheckBytes::check_bytes(prefix, context).map_err(|_| ArchivedRadixTreeError::Prefix)?;
             // check the value, if present
             CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
+            // recursively check the children, before looking at them
+            CheckBytes::check_bytes(children, context)
+                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
@@ -311,9 +314,6 @@ mod validation_support {
             {
                 return Err(ArchivedRadixTreeError::Order);
             };
-            // recursively check the children
-            CheckBytes::check_bytes(children, context)
-                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
 
             Ok(&*this)
         }
diff --git a/src/radix_tree/flat_radix_tree.rs b/src/radix_tree/flat_radix_tree.rs
index c57c33b..286cb90 100644
--- a/src/radix_tree/flat_radix_tree.rs
+++ b/src/radix_tree/flat_radix_tree.rs
@@ -247,6 +247,9 @@ mod rkyv_support {
                 // check the value, if present
                 CheckBytes::check_bytes(value, context)
                     .map_err(|_| ArchivedRadixTreeError::Value)?;
+                // recursively check the children, before looking at them
+                CheckBytes::check_bytes(children, context)
+                    .map_err(|_| ArchivedRadixTreeError::Children)?;
                 // check that the prefix of all children is of non zero length
                 if !children.iter().all(|child| !child.prefix.is_empty()) {
                     return Err(ArchivedRadixTreeError::Children);
@@ -259,9 +262,6 @@ mod rkyv_support {
                 {
                     return Err(ArchivedRadixTreeError::Order);
                 };
-                // recursively check the children
-                CheckBytes::check_bytes(children, context)
-                    .map_err(|_| ArchivedRadixTreeError::Children)?;
 
                 Ok(&*this)
             }
-- 
2.43.0


From f466d8745aee664a39f020c39ef8a1936816e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 09/13] fix: left_combine must apply the function to every key
 of the left tree

---
 src/radix_tree/mod.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index ad907b3..26b9aa7 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -1142,6 +1142,18 @@ fn inner_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Ma
     res
 }
 
+/// Apply the left combine function f to a tree for which there is nothing on the right side
+fn left_combine_none<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V>>(
+    a: &impl AbstractRadixTree<K, V, Materialized = R>,
+    f: impl Fn(&V, Option<&W>) -> Option<V> + Copy,
+) -> R {
+    let value = a.value().and_then(|v| f(v, None));
+    let children = a.children().iter().map(|x| left_combine_none(x, f));
+    let mut res = R::new(a.prefix().into(), value, children.collect());
+    res.unsplit();
+    res
+}
+
 /// Left combine two trees with a function f
 fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Materialized = R>>(
     a: &impl AbstractRadixTree<K, V, Materialized = R>,
@@ -1149,7 +1161,7 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     f: impl Fn(&V, Option<&W>) -> Option<V> + Copy,
 ) -> R {
     let n = common_prefix(a.prefix(), b.prefix());
-    let mut prefix = a.prefix()[..n].into();
+    let prefix = a.prefix()[..n].into();
     let children;
     let mut value = None;
     if n == a.prefix().len() && n == b.prefix().len() {
@@ -1168,7 +1180,7 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     } else if n == a.prefix().len() {
         // a is a prefix of b
         let b = b.materialize_shortened(n);
-        value = a.value().cloned();
+        value = a.value().and_then(|v| f(v, None));
         children = VecMergeState::merge(
             a.children(),
             &[b],
@@ -1188,13 +1200,7 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
         );
     } else {
         // disjoint
-        prefix = a.prefix().into();
-        value = a.value().cloned();
-        children = a
-            .children()
-            .iter()
-            .map(|x| x.materialize_shortened(0))
-            .collect();
+        return left_combine_none(a, f);
     }
     let mut res = R::new(prefix, value, children);
     res.unsplit();
@@ -1465,7 +1471,13 @@ where
         m: &mut VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>,
         n: usize,
     ) -> bool {
-        m.advance_a(n, true)
+        for _ in 0..n {
+            let res = left_combine_none(m.a.next().unwrap(), self.0);
+            if !res.is_empty() {
+                m.r.push(res);
+            }
+        }
+        true
     }
     fn from_b(
         &self,
-- 
2.43.0


From 8fa362c35390148761a6d59ce85e9edd70dec0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 10/13] fix: retain must leave the collection ordered when the
 predicate panics

---
 src/vec_map.rs | 7 ++++++-
 src/vec_set.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 316ba1d..6fbf9f9 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -5,6 +5,7 @@ use std::collections::BTreeMap;
 use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
+use inplace_vec_builder::InPlaceSmallVecBuilder;
 #[cfg(feature = "rkyv")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
@@ -641,7 +642,11 @@ impl<A: Array> VecMap<A> {
 
     /// retain all pairs matching a predicate
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        let mut builder = InPlaceSmallVecBuilder::from(&mut self.0);
+        while let Some(entry) = builder.source_slice().first() {
+            let keep = f(entry);
+            builder.consume(1, keep);
+        }
     }
 
     #[cfg(feature = "total")]
diff --git a/src/vec_set.rs b/src/vec_set.rs
index b28c6e2..d0898aa 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -10,6 +10,7 @@ use std::collections::BTreeSet;
 use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
+use inplace_vec_builder::InPlaceSmallVecBuilder;
 #[cfg(feature = "rkyv")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
@@ -331,7 +332,11 @@ where
 
     /// Retain all elements matching a predicate.
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        let mut builder = InPlaceSmallVecBuilder::from(&mut self.0);
+        while let Some(entry) = builder.source_slice().first() {
+            let keep = f(entry);
+            builder.consume(1, keep);
+        }
     }
 
     /// creates a set from a vec.
-- 
2.43.0


From 15124af8f2574a29c08acf0015df1b1df9b9cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 11/13] fix: reject archived arc radix trees whose shared
 children form a cycle

---
 src/radix_tree/arc_radix_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 3a0e84a..f847f5a 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -300,6 +300,12 @@ mod validation_support {
             // recursively check the children, before looking at them
             CheckBytes::check_bytes(children, context)
                 .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
+            // shared children are always written before the nodes that refer to them. Anything
+            // else could be a cycle: children that are shared are checked only once, and count
+            // as checked as soon as that has begun.
+            if children.get() as *const _ as usize >= this as usize {
+                return Err(ArchivedRadixTreeError::Children("not before node".into()));
+            }
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
-- 
2.43.0


From 8d4acea47b63066adb5ac482c841cda7afbd1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:51 +0000
Subject: [PATCH 12/13] fix: validating a deep broken radix tree archive must
 not take exponential time

---
 src/radix_tree/arc_radix_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index f847f5a..83ef43a 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -271,7 +271,12 @@ mod validation_support {
 
     impl std::fmt::Display for ArchivedRadixTreeError {
         fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-            write!(f, "{:?}", self)
+            match self {
+                // the reason contains the errors from all levels below. Escaping it again for each
+                // level would make it grow exponentially with the depth of the tree.
+                Self::Children(reason) => write!(f, "Children({})", reason),
+                _ => write!(f, "{:?}", self),
+            }
         }
     }
     impl<C, K, V> bytecheck::CheckBytes<C> for ArchivedArcRadixTree<K, V>
-- 
2.43.0


From aae780e59053f3397ef6cd21377ba32a56657a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:23 +0000
Subject: [PATCH 13/13] fix: do not share one empty children list between
 ArcRadixTrees of different types

The transmuted static was archived as one shared list claimed by several
types, so check_archived_root rejected a valid archive that holds two
ArcRadixTrees of different types.
---
 src/radix_tree/arc_radix_tree.rs | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 83ef43a..f73e6bc 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -1,7 +1,4 @@
-use std::{
-    collections::BTreeMap,
-    sync::{Arc, LazyLock},
-};
+use std::{collections::BTreeMap, sync::Arc};
 
 use internals::{AbstractRadixTreeMut as _, Fragment};
 use rkyv::{
@@ -13,21 +10,6 @@ use rkyv::{
 
 use super::{internals, location, offset_from, AbstractRadixTree, RadixTree, TKey, TValue};
 
-static EMPTY_ARC_VEC: LazyLock<Arc<Vec<u128>>> = LazyLock::new(|| Arc::new(Vec::new()));
-
-fn empty_arc<T>() -> Arc<Vec<T>> {
-    // TODO: this seems to work, but is strictly speaking ub. Get rid of the unsafe
-    unsafe { std::mem::transmute(EMPTY_ARC_VEC.clone()) }
-}
-
-fn wrap_in_arc<T>(data: Vec<T>) -> Arc<Vec<T>> {
-    if data.is_empty() {
-        empty_arc()
-    } else {
-        Arc::new(data)
-    }
-}
-
 /// A generic radix tree with structural sharing and copy on write
 ///
 /// Compared to the simplest radix tree, this adds cheap (O(1)) snapshots and enables incremental
@@ -47,7 +29,7 @@ impl<K: TKey, V: TValue> Default for ArcRadixTree<K, V> {
         Self {
             prefix: Default::default(),
             value: Default::default(),
-            children: empty_arc(),
+            children: Default::default(),
         }
     }
 }
@@ -70,7 +52,7 @@ impl<K: TKey, V: TValue> AbstractRadixTree<K, V> for ArcRadixTree<K, V> {
 
 impl<K: TKey, V: TValue> internals::AbstractRadixTreeMut<K, V> for ArcRadixTree<K, V> {
     fn new(prefix: Fragment<K>, value: Option<V>, children: Vec<Self>) -> Self {
-        let children = wrap_in_arc(children);
+        let children = Arc::new(children);
         Self {
             prefix,
             value,
-- 
2.43.0

