From 3fd432422de571800998d5d4f8f8d954898e3435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 01/17] fix: dropping CycleMap's drain early left right items
 without partner behind

---
 src/cycle_map.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 9d1ca7f..610a4e6 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -797,7 +797,8 @@ where
         self.counter = 0;
         DrainIter {
             left_iter: self.left_set.drain(),
-            right_ref: &mut self.right_set,
+            right_set: mem::take(&mut self.right_set),
+            orig_right_set: &mut self.right_set,
         }
     }
 
@@ -1308,7 +1309,19 @@ impl<T> FusedIterator for SingleIter<'_, T> where T: Hash + Eq {}
 #[allow(missing_debug_implementations)]
 pub struct DrainIter<'a, L, R> {
     left_iter: RawDrain<'a, MappingPair<L>>,
-    right_ref: &'a mut RawTable<MappingPair<R>>,
+    // The right set is moved out of the map while it is drained. So, the map is empty, not
+    // half-empty, even if this iterator is never dropped
+    right_set: RawTable<MappingPair<R>>,
+    orig_right_set: &'a mut RawTable<MappingPair<R>>,
+}
+
+impl<L, R> Drop for DrainIter<'_, L, R> {
+    fn drop(&mut self) {
+        // The left items that haven't been yielded are dropped by `left_iter`. Their companions are
+        // dropped here and the (now empty) right set is moved back into the map
+        self.right_set.clear();
+        mem::swap(&mut self.right_set, self.orig_right_set);
+    }
 }
 
 impl<'a, L, R> Iterator for DrainIter<'a, L, R>
@@ -1321,7 +1334,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let left = self.left_iter.next()?;
         let right = self
-            .right_ref
+            .right_set
             .remove_entry(left.hash, just_id(left.id))
             .unwrap();
         Some((left.extract(), right.extract()))
-- 
2.43.0


From 0e5ec35c1cce8e255ef9711cb7a998d62df75e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 02/17] fix: swapping an absent item removed the cycle of the
 new item

---
 src/cycle_map.rs         | 38 ++++++++++++++++++++------------------
 src/partial_cycle_map.rs | 38 ++++++++++++++++++++------------------
 2 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 610a4e6..137f588 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -348,17 +348,18 @@ where
     /// assert!(map.are_paired(&0, &"84".to_string()));
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, (L, R)> {
-        // Check for Eq left item and remove that cycle if it exists
-        let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
-        let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
         // Find the old left pairing
         let old_l_hash = make_hash::<L, S>(&self.hash_builder, old);
-        let l_pairing: &MappingPair<L> = match self.left_set.get(old_l_hash, equivalent_key(old)) {
-            Some(p) => p,
-            None => {
-                return Neither;
-            }
-        };
+        let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
+        if self.left_set.get(old_l_hash, equivalent_key(old)).is_none() {
+            return Neither;
+        }
+        // Check for Eq left item and remove that cycle if it exists
+        let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
+        let l_pairing: &MappingPair<L> = self
+            .left_set
+            .get(old_l_hash, equivalent_key(old))
+            .unwrap();
         // Use old left pairing to find right pairing
         let r_pairing: &mut MappingPair<R> = self
             .right_set
@@ -498,17 +499,18 @@ where
     /// assert!(map.are_paired(&84, &"0".to_string()));
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, (L, R)> {
-        // Check for Eq left item and remove that cycle if it exists
-        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
-        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
         // Find the old right pairing
         let old_r_hash = make_hash::<R, S>(&self.hash_builder, old);
-        let r_pairing: &MappingPair<R> = match self.right_set.get(old_r_hash, equivalent_key(old)) {
-            Some(p) => p,
-            None => {
-                return Neither;
-            }
-        };
+        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
+        if self.right_set.get(old_r_hash, equivalent_key(old)).is_none() {
+            return Neither;
+        }
+        // Check for Eq right item and remove that cycle if it exists
+        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
+        let r_pairing: &MappingPair<R> = self
+            .right_set
+            .get(old_r_hash, equivalent_key(old))
+            .unwrap();
         // Use old right pairing to find the left pairing
         let l_pairing: &mut MappingPair<L> = self
             .left_set
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 229d56a..289f248 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -840,17 +840,18 @@ where
     /// assert_eq!(map.swap_left(&4, 5), Neither);
     /// ```
     pub fn swap_left(&mut self, old: &L, new: L) -> OptionalPair<L, OptionalPair<L, R>> {
-        // Check for Eq left item and remove that cycle if it exists
-        let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
-        let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
         // Find the old left pairing
         let old_l_hash = make_hash::<L, S>(&self.hash_builder, old);
-        let l_pairing: &MappingPair<L> = match self.left_set.get(old_l_hash, equivalent_key(old)) {
-            Some(p) => p,
-            None => {
-                return Neither;
-            }
-        };
+        let new_l_hash = make_hash::<L, S>(&self.hash_builder, &new);
+        if self.left_set.get(old_l_hash, equivalent_key(old)).is_none() {
+            return Neither;
+        }
+        // Check for Eq left item and remove that cycle if it exists
+        let eq_opt = self.swap_left_eq_check(old, &new, new_l_hash);
+        let l_pairing: &MappingPair<L> = self
+            .left_set
+            .get(old_l_hash, equivalent_key(old))
+            .unwrap();
         if let Some(hash) = l_pairing.hash {
             // Use old left pairing to find right pairing
             let r_pairing: &mut MappingPair<R> = self
@@ -995,17 +996,18 @@ where
     /// assert_eq!(map.swap_right(&"4", "5"), Neither);
     /// ```
     pub fn swap_right(&mut self, old: &R, new: R) -> OptionalPair<R, OptionalPair<L, R>> {
-        // Check for Eq left item and remove that cycle if it exists
-        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
-        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
         // Find the old right pairing
         let old_r_hash = make_hash::<R, S>(&self.hash_builder, old);
-        let r_pairing: &MappingPair<R> = match self.right_set.get(old_r_hash, equivalent_key(old)) {
-            Some(p) => p,
-            None => {
-                return Neither;
-            }
-        };
+        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
+        if self.right_set.get(old_r_hash, equivalent_key(old)).is_none() {
+            return Neither;
+        }
+        // Check for Eq right item and remove that cycle if it exists
+        let eq_opt = self.swap_right_eq_check(old, &new, new_r_hash);
+        let r_pairing: &MappingPair<R> = self
+            .right_set
+            .get(old_r_hash, equivalent_key(old))
+            .unwrap();
         if let Some(hash) = r_pairing.hash {
             // Use old right pairing to find the left pairing
             let l_pairing: &mut MappingPair<L> = self
-- 
2.43.0


From a5cd1e4aa7658a0814d7a93339282b4223de47a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 03/17] fix: a panicking comparison in swap_left/swap_right
 broke the companion's link

---
 src/cycle_map.rs         | 13 ++++++++-----
 src/partial_cycle_map.rs | 12 ++++++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 137f588..18e086b 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -373,10 +373,12 @@ where
             hash: l_pairing.hash,
             id: l_pairing.id,
         };
-        // Remove old left pairing
+        // Remove old left pairing. The companion has been updated already, so this doesn't rely on
+        // the user's `Eq`, which might panic
+        let id = l_pairing.id;
         let old_left_item: L = self
             .left_set
-            .remove_entry(old_l_hash, equivalent_key(old))
+            .remove_entry(old_l_hash, just_id(id))
             .unwrap()
             .extract();
         // Insert new left pairing
@@ -517,7 +519,6 @@ where
             .get_mut(r_pairing.hash, hash_and_id(old_r_hash, r_pairing.id))
             .unwrap();
         // Updated left pairing
-        let new_r_hash = make_hash::<R, S>(&self.hash_builder, &new);
         l_pairing.hash = new_r_hash;
         // Create new right pairing
         let new_right_pairing = MappingPair {
@@ -525,10 +526,12 @@ where
             hash: r_pairing.hash,
             id: r_pairing.id,
         };
-        // Remove old right pairing
+        // Remove old right pairing. The companion has been updated already, so this doesn't rely on
+        // the user's `Eq`, which might panic
+        let id = r_pairing.id;
         let old_right_item: R = self
             .right_set
-            .remove_entry(old_r_hash, equivalent_key(old))
+            .remove_entry(old_r_hash, just_id(id))
             .unwrap()
             .extract();
         // Insert new right pairing
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 289f248..bc6b810 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -867,10 +867,12 @@ where
             hash: l_pairing.hash,
             id: l_pairing.id,
         };
-        // Remove old left pairing
+        // Remove old left pairing. The companion has been updated already, so this doesn't rely on
+        // the user's `Eq`, which might panic
+        let id = l_pairing.id;
         let old_left_item: L = self
             .left_set
-            .remove_entry(old_l_hash, equivalent_key(old))
+            .remove_entry(old_l_hash, just_id(id))
             .unwrap()
             .extract();
         // Insert new left pairing
@@ -1023,10 +1025,12 @@ where
             hash: r_pairing.hash,
             id: r_pairing.id,
         };
-        // Remove old right pairing
+        // Remove old right pairing. The companion has been updated already, so this doesn't rely on
+        // the user's `Eq`, which might panic
+        let id = r_pairing.id;
         let old_right_item: R = self
             .right_set
-            .remove_entry(old_r_hash, equivalent_key(old))
+            .remove_entry(old_r_hash, just_id(id))
             .unwrap()
             .extract();
         // Insert new right pairing
-- 
2.43.0


From 00a30ebe9d4bcb575f2ac6b3957024d2421da6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 04/17] fix: swap_*_or_insert panicked when the inserted items
 displaced existing ones

---
 src/cycle_map.rs         |  8 +++-----
 src/partial_cycle_map.rs | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 18e086b..2232f20 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -612,13 +612,11 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
                 InsertOptional::Neither => Neither,
-                InsertOptional::SomeRight(pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
-                }
+                InsertOptional::SomeLeft(pair) | InsertOptional::SomeRight(pair) => SomeRight(pair),
+                // There is only room for one pair. This mirrors `swap_left_or_insert`
+                InsertOptional::SomeBoth(pair, (_, r)) => SomeBoth(r, pair),
             }
         }
     }
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index bc6b810..c054bdb 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -950,12 +950,13 @@ where
         if self.left_set.get(old_l_hash, equivalent_key(old)).is_some() {
             self.swap_left(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(new, to_insert) {
                 (Neither, Neither) => Neither,
-                (Neither, pair) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (Neither, pair) | (pair, Neither) => SomeRight(pair),
+                // There is only room for one of the two cycles
+                (SomeLeft(l) | SomeBoth(l, _), pair) => SomeBoth(l, pair),
+                (SomeRight(_), _) => {
+                    unreachable!("A cycle removed via a left item has a left item")
                 }
             }
         }
@@ -1113,12 +1114,13 @@ where
         {
             self.swap_right(old, new)
         } else {
-            // TODO: Do further verification on this. All cases _should_ be covered here
             match self.insert(to_insert, new) {
                 (Neither, Neither) => Neither,
-                (pair, Neither) => SomeRight(pair),
-                _ => {
-                    unreachable!("There isn't a left item")
+                (pair, Neither) | (Neither, pair) => SomeRight(pair),
+                // There is only room for one of the two cycles
+                (pair, SomeRight(r) | SomeBoth(_, r)) => SomeBoth(r, pair),
+                (_, SomeLeft(_)) => {
+                    unreachable!("A cycle removed via a right item has a right item")
                 }
             }
         }
-- 
2.43.0


From 25dd9a1edaf8e6e15cdeba9fbb202b28eef91d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 05/17] fix: PartialCycleMap's drain yielded only one of the
 unpaired right items

---
 src/partial_cycle_map.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index c054bdb..0f1525f 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1374,7 +1374,9 @@ where
     pub fn drain(&mut self) -> DrainIter<'_, L, R> {
         DrainIter {
             left_iter: self.left_set.drain(),
-            right_ref: &mut self.right_set,
+            right_iter: None,
+            right_set: mem::take(&mut self.right_set),
+            orig_right_set: &mut self.right_set,
         }
     }
 
@@ -2282,7 +2284,12 @@ where
     R: Eq + Hash,
 {
     left_iter: RawDrain<'a, MappingPair<L>>,
-    right_ref: &'a mut RawTable<MappingPair<R>>,
+    // Walks over the unpaired right items once there are no left items left
+    right_iter: Option<RawIter<MappingPair<R>>>,
+    // The right set is moved out of the map while it is drained. So, the map is empty, not
+    // half-empty, even if this iterator is never dropped
+    right_set: RawTable<MappingPair<R>>,
+    orig_right_set: &'a mut RawTable<MappingPair<R>>,
 }
 
 impl<'a, L, R> Drop for DrainIter<'a, L, R>
@@ -2296,6 +2303,8 @@ where
             drop(item);
             mem::forget(guard);
         }
+        self.right_set.clear();
+        mem::swap(&mut self.right_set, self.orig_right_set);
     }
 }
 
@@ -2320,7 +2329,7 @@ where
             Some(left) => match left.hash {
                 Some(hash) => {
                     let right = self
-                        .right_ref
+                        .right_set
                         .remove_entry(hash, just_id(left.id))
                         .unwrap()
                         .extract();
@@ -2328,11 +2337,15 @@ where
                 }
                 None => Some(SomeLeft(left.extract())),
             },
-            None => self
-                .right_ref
-                .drain()
-                .next()
-                .map(|right| SomeRight(right.extract())),
+            // Only unpaired right items are left. Each is removed once it has been visited
+            None => {
+                let right_set = &mut self.right_set;
+                let right = self
+                    .right_iter
+                    .get_or_insert_with(|| unsafe { right_set.iter() })
+                    .next()?;
+                Some(SomeRight(unsafe { right_set.remove(right).extract() }))
+            }
         }
     }
 
-- 
2.43.0


From 9dc362804d72dc2c4cdd1aeec06f45fda4ebc549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 06/17] fix: PartialCycleMap's drain_filter offered kept pairs
 twice and could break them

---
 src/partial_cycle_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 0f1525f..6ed5525 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2458,7 +2458,8 @@ impl<L: Eq, R: Eq> DrainFilterInner<'_, L, R> {
         }
         for right in self.right_iter.by_ref() {
             let r_pairing = unsafe { right.as_ref() };
-            if f(SomeRight(&r_pairing.value)) {
+            // Paired items have been visited together with their left items
+            if r_pairing.hash.is_none() && f(SomeRight(&r_pairing.value)) {
                 let r = unsafe { self.right_ref.remove(right).extract() };
                 return Some(SomeRight(r));
             }
-- 
2.43.0


From 17b209e06e967eb5f123acb8d197543dea4c6bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 07/17] fix: PartialCycleMap's equality ignored absent and
 unpaired right items

---
 src/partial_cycle_map.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 6ed5525..55bb89a 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1757,14 +1757,14 @@ where
         if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
             return false;
         }
-        self.iter().all(|op| match op {
-            SomeLeft(l) => other.get_right(l).is_none(),
-            SomeRight(r) => other.get_left(r).is_none(),
-            SomeBoth(l, r) => other.are_paired(l, r),
-            _ => {
-                unreachable!("There has to be at least one item.")
-            }
-        })
+        self.iter_paired().all(|(l, r)| other.are_paired(l, r))
+            && self.iter_unpaired().all(|op| match op {
+                SomeLeft(l) => other.contains_left(l) && !other.is_left_paired(l),
+                SomeRight(r) => other.contains_right(r) && !other.is_right_paired(r),
+                _ => {
+                    unreachable!("There is exactly one unpaired item.")
+                }
+            })
     }
 }
 
-- 
2.43.0


From 1f6b337e0f4f48a5702cecb91f870635f0089429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:10 +0000
Subject: [PATCH 08/17] fix: GroupMap's equality ignored lengths and absent
 items

---
 src/group_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index c33b224..62a3cd6 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1065,12 +1065,12 @@ where
     S: BuildHasher,
 {
     fn eq(&self, other: &Self) -> bool {
-        if self.len_left() != other.len_left() && self.len_right() != other.len_right() {
+        if self.len_left() != other.len_left() || self.len_right() != other.len_right() {
             return false;
         }
         self.iter().all(|(l_opt, r)| match l_opt {
             Some(l) => other.are_paired(l, r),
-            None => !other.is_right_paired(r),
+            None => other.contains_right(r) && !other.is_right_paired(r),
         })
     }
 }
-- 
2.43.0


From 9b43734b23cf1804aa367f3aa4f10cbc4d9b3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 09/17] fix: PartialCycleMap's iter and Debug left out unpaired
 right items

---
 src/partial_cycle_map.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 55bb89a..4b0d000 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -1256,6 +1256,7 @@ where
     pub fn iter(&self) -> Iter<'_, L, R, S> {
         Iter {
             left_iter: unsafe { self.left_set.iter() },
+            right_iter: unsafe { self.right_set.iter() },
             map_ref: self,
         }
     }
@@ -1447,7 +1448,8 @@ where
     {
         let mut to_drop: Vec<(Option<u64>, Option<u64>, u64)> =
             Vec::with_capacity(self.left_set.len());
-        for op in self.iter() {
+        // Unpaired right items are not visited
+        for op in self.iter().filter(|op| op.get_left().is_some()) {
             if f(&op) {
                 let (left, right): (Option<&L>, Option<&R>) = op.into();
                 let l_hash = left.map(|l| make_hash::<L, S>(&self.hash_builder, l));
@@ -1998,6 +2000,7 @@ where
 /// An iterator over the entry items of a `PartialCycleMap`.
 pub struct Iter<'a, L, R, S> {
     left_iter: RawIter<MappingPair<L>>,
+    right_iter: RawIter<MappingPair<R>>,
     map_ref: &'a PartialCycleMap<L, R, S>,
 }
 
@@ -2005,6 +2008,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             left_iter: self.left_iter.clone(),
+            right_iter: self.right_iter.clone(),
             map_ref: self.map_ref,
         }
     }
@@ -2036,12 +2040,19 @@ where
                 let right = self.map_ref.get_right(left);
                 Some(OptionalPair::from((Some(left), right)))
             },
-            None => None,
+            // Paired right items have been visited together with their left items
+            None => self
+                .right_iter
+                .by_ref()
+                .map(|r| unsafe { r.as_ref() })
+                .find(|r| r.hash.is_none())
+                .map(|r| SomeRight(&r.value)),
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
-- 
2.43.0


From 27332db0e0f0f115859e3d6a47c573088f5aaf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 10/17] fix: unpair split two pairs whose items have equal
 hashes

---
 src/partial_cycle_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index 4b0d000..b7737c3 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -555,7 +555,7 @@ where
         match (opt_left, opt_right) {
             (Some(left), Some(right)) => match (left.hash, right.hash) {
                 (Some(l_h), Some(r_h)) => {
-                    if l_hash == r_h && r_hash == l_h {
+                    if left.id == right.id && l_hash == r_h && r_hash == l_h {
                         left.hash = None;
                         right.hash = None;
                         right.id = self.counter;
-- 
2.43.0


From 6d5ca64ddcd54d5e3f0e74d22d652e6be5023b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 11/17] fix: size hints of iterators over partly paired maps
 were wrong

---
 src/group_map.rs         |  6 ++++--
 src/partial_cycle_map.rs | 24 +++++++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 62a3cd6..8c1c140 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1377,7 +1377,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -1517,7 +1518,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.right_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
diff --git a/src/partial_cycle_map.rs b/src/partial_cycle_map.rs
index b7737c3..44738aa 100644
--- a/src/partial_cycle_map.rs
+++ b/src/partial_cycle_map.rs
@@ -2129,7 +2129,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2209,7 +2210,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2361,7 +2363,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.left_iter.size_hint()
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
@@ -2371,7 +2374,13 @@ where
     R: Hash + Eq,
 {
     fn len(&self) -> usize {
-        self.left_iter.len()
+        // All paired right items are yielded with their left items
+        let paired = self
+            .left_iter
+            .iter()
+            .filter(|l| unsafe { l.as_ref() }.hash.is_some())
+            .count();
+        self.left_iter.len() + self.right_set.len() - paired
     }
 }
 
@@ -2421,7 +2430,12 @@ where
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, self.inner.left_iter.size_hint().1)
+        let right = if self.inner.reset_right_iter {
+            self.inner.right_ref.len()
+        } else {
+            self.inner.right_iter.len()
+        };
+        (0, Some(self.inner.left_iter.len() + right))
     }
 }
 
-- 
2.43.0


From 9b9c4bba43a4cf1fb9b53e8e298cadeb1eee0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 12/17] fix: GroupMap's swap_right and swap_right_remove left
 items pointing at the old right item

---
 src/group_map.rs | 93 ++++++++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 43 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 8c1c140..1d1d0cf 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1,3 +1,5 @@
+use core::mem;
+
 use std::{
     borrow::Borrow,
     default::Default,
@@ -471,29 +473,43 @@ where
     /// [`swap_right_remove`]: #method.swap_right_remove
     pub fn swap_right(&mut self, old: &R, new: R) {
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
-        match self.right_set.get_mut(old_hash, equivalent_key_right(old)) {
+        let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+        let old_id = match self.right_set.get(old_hash, equivalent_key_right(old)) {
             None => {
                 self.insert_right(new);
+                return;
             }
-            Some(r) => {
-                let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
-                let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
-                let item = RightItem {
-                    value: new,
-                    pairs: set.clone(),
-                    id: self.right_counter,
-                };
-                self.right_set
-                    .insert(new_hash, item, make_hasher(&self.hash_builder));
-                self.right_counter += 1;
-                for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
-                }
-            }
+            // All items are paired with `new` already
+            Some(r) if r.value == new => return,
+            Some(r) => r.id,
+        };
+        // As in `insert_right`, an item that is equal to `new` is replaced
+        self.remove_right(&new);
+        let old_item = self
+            .right_set
+            .get_mut(old_hash, right_with_right_id(old_id))
+            .unwrap();
+        let pairs = mem::take(&mut old_item.pairs);
+        self.insert_right_with_pairs(new, new_hash, pairs);
+    }
+
+    // Inserts a right item, which must not be in the map, and repairs the given left items with it
+    fn insert_right_with_pairs(&mut self, value: R, r_hash: u64, pairs: HashSet<(u64, ID)>) {
+        let id = self.right_counter;
+        self.right_counter += 1;
+        for (l_hash, l_id) in pairs.iter() {
+            let left_item = self
+                .left_set
+                .get_mut(*l_hash, left_with_left_id(*l_id))
+                .unwrap();
+            left_item.hash = r_hash;
+            left_item.r_id = id;
         }
+        self.right_set.insert(
+            r_hash,
+            RightItem { value, pairs, id },
+            make_hasher(&self.hash_builder),
+        );
     }
 
     /// Inserts the given `new` right item, repairs all items paired with the `old` item, and
@@ -514,34 +530,25 @@ where
     /// ```
     pub fn swap_right_remove(&mut self, old: &R, new: R) -> Option<R> {
         let old_hash = make_hash::<R, S>(&self.hash_builder, old);
-        match self
-            .right_set
-            .remove_entry(old_hash, equivalent_key_right(old))
-        {
+        let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
+        let (old_id, same) = match self.right_set.get(old_hash, equivalent_key_right(old)) {
             None => {
                 self.insert_right(new);
-                None
-            }
-            Some(mut r) => {
-                let set: HashSet<(u64, ID)> = r.pairs.drain().collect();
-                let new_hash = make_hash::<R, S>(&self.hash_builder, &new);
-                let item = RightItem {
-                    value: new,
-                    pairs: set.clone(),
-                    id: self.right_counter,
-                };
-                self.right_set
-                    .insert(new_hash, item, make_hasher(&self.hash_builder));
-                self.right_counter += 1;
-                for (hash, id) in set {
-                    self.left_set
-                        .get_mut(hash, left_with_left_id(id))
-                        .unwrap()
-                        .hash = new_hash;
-                }
-                Some(r.value)
+                return None;
             }
+            Some(r) => (r.id, r.value == new),
+        };
+        if !same {
+            // As in `insert_right`, an item that is equal to `new` is replaced
+            self.remove_right(&new);
         }
+        let mut old_item = self
+            .right_set
+            .remove_entry(old_hash, right_with_right_id(old_id))
+            .unwrap();
+        let pairs = mem::take(&mut old_item.pairs);
+        self.insert_right_with_pairs(new, new_hash, pairs);
+        Some(old_item.extract())
     }
 
     /// Pairs two existing items in the map. Returns `true` if they were successfully paired.
-- 
2.43.0


From ef6bde179bbd297d0c013e4f872ca381ffae67e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 13/17] fix: GroupMap's retain_paired left removed items in the
 groups of their right items

---
 src/group_map.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 1d1d0cf..54bff83 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -980,7 +980,7 @@ where
     where
         F: FnMut(&L, &R) -> bool,
     {
-        // right hash, left id
+        // left hash, left id
         let mut to_drop: Vec<(u64, ID)> = Vec::with_capacity(self.left_set.len());
         for (l, r) in self.iter_paired() {
             if f(l, r) {
@@ -990,7 +990,13 @@ where
             }
         }
         for (l_hash, id) in to_drop {
-            self.left_set.remove_entry(l_hash, left_with_left_id(id));
+            if let Some(l_item) = self.left_set.remove_entry(l_hash, left_with_left_id(id)) {
+                self.right_set
+                    .get_mut(l_item.hash, right_with_right_id(l_item.r_id))
+                    .unwrap()
+                    .pairs
+                    .remove(&(l_hash, id));
+            }
         }
     }
 
-- 
2.43.0


From 5b6ca88fdf1fcd53e780d2fc809c2c50ac4b8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 14/17] fix: cloning GroupMap's iter skipped the rest of the
 current group

---
 src/group_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index 54bff83..dbbf60d 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -1327,7 +1327,7 @@ impl<L, R, S> Clone for Iter<'_, L, R, S> {
     fn clone(&self) -> Self {
         Self {
             right_iter: self.right_iter.clone(),
-            left_iter: None,
+            left_iter: self.left_iter.clone(),
             map_ref: self.map_ref,
         }
     }
-- 
2.43.0


From f2c1312974ad5ee5098be6b413ad939b9d5842e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 15/17] fix: a panicking comparison in GroupMap's insert_left,
 pair and remove_right left half-linked items

---
 src/group_map.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/group_map.rs b/src/group_map.rs
index dbbf60d..06b12c6 100644
--- a/src/group_map.rs
+++ b/src/group_map.rs
@@ -386,13 +386,18 @@ where
     /// ```
     pub fn insert_left(&mut self, left: L, right: &R) -> Option<L> {
         let r_hash = make_hash::<R, S>(&self.hash_builder, right);
-        let right_item = self
+        let right_id = self
             .right_set
-            .get_mut(r_hash, equivalent_key_right(right))?;
-        let right_id = right_item.id;
+            .get(r_hash, equivalent_key_right(right))?
+            .id;
         let l_hash = make_hash::<L, S>(&self.hash_builder, &left);
-        right_item.pairs.insert((l_hash, self.left_counter));
         let digest = self.remove_left(&left);
+        // Nothing that might panic is called between linking the items
+        self.right_set
+            .get_mut(r_hash, right_with_right_id(right_id))
+            .unwrap()
+            .pairs
+            .insert((l_hash, self.left_counter));
         let left_item = LeftItem {
             value: left,
             hash: r_hash,
@@ -573,7 +578,7 @@ where
         let opt_right = self.right_set.get(r_hash, equivalent_key_right(right));
         let (digest, to_remove) = match (opt_left, opt_right) {
             (Some(left), Some(r)) => {
-                let to_remove = Some((left.hash, left.r_id, left.id));
+                let to_remove = Some((left.hash, left.r_id, left.id, r.id));
                 left.hash = r_hash;
                 left.r_id = r.id;
                 (true, to_remove)
@@ -582,17 +587,17 @@ where
         };
         // The specified right item is updated here to avoid potential collision should hash ==
         // r_hash
-        if let Some(triple) = to_remove {
+        if let Some((old_hash, old_r_id, l_id, r_id)) = to_remove {
             let old_right = self
                 .right_set
-                .get_mut(triple.0, right_with_right_id(triple.1))
+                .get_mut(old_hash, right_with_right_id(old_r_id))
                 .unwrap();
-            old_right.pairs.remove(&(l_hash, triple.2));
+            old_right.pairs.remove(&(l_hash, l_id));
             let new_right = self
                 .right_set
-                .get_mut(r_hash, equivalent_key_right(right))
+                .get_mut(r_hash, right_with_right_id(r_id))
                 .unwrap();
-            new_right.pairs.insert((l_hash, triple.2));
+            new_right.pairs.insert((l_hash, l_id));
         }
         digest
     }
@@ -744,7 +749,8 @@ where
         let right_item = self
             .right_set
             .remove_entry(r_hash, equivalent_key_right(item))?;
-        let left_vec: HashSet<L> = right_item
+        // Collecting into a set calls the user's code, which might panic. So, all items are removed first
+        let left_vec: Vec<L> = right_item
             .pairs
             .iter()
             .map(|(h, i)| {
@@ -754,7 +760,7 @@ where
                     .extract()
             })
             .collect();
-        Some((left_vec, right_item.extract()))
+        Some((left_vec.into_iter().collect(), right_item.extract()))
     }
 
     /// Removes a pair using the hash of the left item, right item, and their shared pairing id
-- 
2.43.0


From 23c41ac55947247800946858dd38b009572765d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 16/17] fix: deserializing trusted the announced length when
 preallocating

---
 src/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 62af85a..a708653 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -43,8 +43,10 @@ where
     where
         M: SeqAccess<'de>,
     {
+        // The hint might come from untrusted data. So, it only preallocates a limited amount
+        let capacity = access.size_hint().unwrap_or(0).min(4096);
         let mut map: CycleMap<L, R, S> =
-            CycleMap::with_capacity_and_hasher(access.size_hint().unwrap_or(0), Default::default());
+            CycleMap::with_capacity_and_hasher(capacity, Default::default());
 
         while let Some(entry) = access.next_element::<(L, R)>()? {
             map.insert(entry.0, entry.1);
-- 
2.43.0


From 3b50322bd12d8d901644d1d05103a73bddaf6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 17/17] fix: CycleMap's capacity ignored the right set

---
 src/cycle_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cycle_map.rs b/src/cycle_map.rs
index 2232f20..ace0c2d 100644
--- a/src/cycle_map.rs
+++ b/src/cycle_map.rs
@@ -1044,8 +1044,8 @@ impl<L, R, S> CycleMap<L, R, S> {
     /// assert!(map.capacity() >= 100);
     /// ```
     pub fn capacity(&self) -> usize {
-        // The size of the sets is always equal
-        self.left_set.capacity()
+        // The sets hold equally many items, but the space left in them can differ
+        self.left_set.capacity().min(self.right_set.capacity())
     }
 
     /// Returns the number of items in the inner sets.
-- 
2.43.0

