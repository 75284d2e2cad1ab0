From 9d0e53ab5e4de5de4986ff185778a4cdef33fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 1/8] fix: get_or_insert_with leaves the mask unchanged when
 the closure panics

---
 src/masked.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..90e0e37 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // `f` may panic, so it must be called before the mask claims that the index is present.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From a6bf66875a180c8ffbd13e79174ec905b20b1096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 2/8] fix: references returned by GuardedElement borrow from
 the guard

---
 src/masked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index 90e0e37..a7149bf 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -236,11 +236,11 @@ pub struct GuardedElement<'a, S> {
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-    pub fn get(&self) -> &'a S::Item {
+    pub fn get(&self) -> &S::Item {
         unsafe { self.storage.get(self.index) }
     }
 
-    pub fn get_mut(&mut self) -> &'a mut S::Item {
+    pub fn get_mut(&mut self) -> &mut S::Item {
         unsafe { self.storage.get_mut(self.index) }
     }
 }
-- 
2.43.0


From d796cc135e092bb1d2dae7aced4b0f4e59b4d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 3/8] fix: raw_storage_mut is unsafe, it allows breaking the
 raw storage contract

---
 src/masked.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index a7149bf..fd033b9 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -33,7 +33,12 @@ impl<S: RawStorage> MaskedStorage<S> {
         &self.storage
     }
 
-    pub fn raw_storage_mut(&mut self) -> &mut S {
+    /// Access the inner `RawStorage` mutably.
+    ///
+    /// # Safety
+    /// The set of non-empty indexes in the raw storage must always match `MaskedStorage::mask`, so
+    /// the storage must not be replaced or swapped with another.
+    pub unsafe fn raw_storage_mut(&mut self) -> &mut S {
         &mut self.storage
     }
 
-- 
2.43.0


From c4416149a83e36d33f7d9344dbca84e2eb665648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 4/8] fix: joins and guards that hand out mutable references
 are only Send if the storage is

---
 src/masked.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index fd033b9..ce40730 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -1,4 +1,4 @@
-use std::mem;
+use std::{marker::PhantomData, mem};
 
 use hibitset::{BitIter, BitSet, BitSetLike};
 
@@ -72,6 +72,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             Some(GuardedElement {
                 storage: &self.storage,
                 index,
+                marker: PhantomData,
             })
         } else {
             None
@@ -183,15 +184,16 @@ impl<'a, S: RawStorage> Join for &'a MaskedStorage<S> {
 
 impl<'a, S: RawStorage> Join for &'a mut MaskedStorage<S> {
     type Item = &'a mut S::Item;
-    type Access = &'a S;
+    // The marker is here so that a join over mutable items is only `Send` if `S` is.
+    type Access = (&'a S, PhantomData<&'a mut S>);
     type Mask = &'a BitSet;
 
     fn open(self) -> (Self::Mask, Self::Access) {
-        (&self.mask, &self.storage)
+        (&self.mask, (&self.storage, PhantomData))
     }
 
-    unsafe fn get(access: &Self::Access, index: Index) -> Self::Item {
-        access.get_mut(index)
+    unsafe fn get((storage, _): &Self::Access, index: Index) -> Self::Item {
+        storage.get_mut(index)
     }
 }
 
@@ -220,17 +222,18 @@ pub struct GuardedJoin<'a, S: RawStorage>(&'a mut MaskedStorage<S>);
 
 impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
     type Item = GuardedElement<'a, S>;
-    type Access = &'a S;
+    type Access = (&'a S, PhantomData<&'a mut S>);
     type Mask = &'a BitSet;
 
     fn open(self) -> (Self::Mask, Self::Access) {
-        (&self.0.mask, &self.0.storage)
+        (&self.0.mask, (&self.0.storage, PhantomData))
     }
 
-    unsafe fn get(access: &Self::Access, index: Index) -> Self::Item {
+    unsafe fn get((storage, marker): &Self::Access, index: Index) -> Self::Item {
         GuardedElement {
-            storage: *access,
+            storage: *storage,
             index,
+            marker: *marker,
         }
     }
 }
@@ -238,6 +241,7 @@ impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
 pub struct GuardedElement<'a, S> {
     storage: &'a S,
     index: Index,
+    marker: PhantomData<&'a mut S>,
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
@@ -283,17 +287,17 @@ pub struct ModifiedJoinMut<'a, S: RawStorage>(&'a mut MaskedStorage<S>);
 
 impl<'a, S: TrackedStorage> Join for ModifiedJoinMut<'a, S> {
     type Item = Option<&'a mut S::Item>;
-    type Access = (&'a BitSet, &'a S);
+    type Access = (&'a BitSet, &'a S, PhantomData<&'a mut S>);
     type Mask = &'a ModifiedBitSet;
 
     fn open(self) -> (Self::Mask, Self::Access) {
         (
             &self.0.storage.modified_indexes(),
-            (&self.0.mask, &self.0.storage),
+            (&self.0.mask, &self.0.storage, PhantomData),
         )
     }
 
-    unsafe fn get((mask, storage): &Self::Access, index: Index) -> Self::Item {
+    unsafe fn get((mask, storage, _): &Self::Access, index: Index) -> Self::Item {
         if mask.contains(index) {
             Some(storage.get_mut(index))
         } else {
-- 
2.43.0


From 114c26c1b53c137e9b5c14ca5d0bd391047caed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 5/8] fix: entity indexes stay within the range of the bit
 sets, so that queries for any index never panic

---
 src/entity.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..a327697 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -134,7 +134,7 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if index < MAX_INDEX && self.raised_atomic.contains(index) {
             Some(Entity::new(index, generation.raised()))
         } else {
             None
@@ -146,8 +146,8 @@ impl Allocator {
     pub fn allocate(&mut self) -> Entity {
         let index = self.cache.pop().unwrap_or_else(|| {
             let index = *self.index_len.get_mut();
-            let index_len = index.checked_add(1).expect("no entity left to allocate");
-            *self.index_len.get_mut() = index_len;
+            assert!(index < MAX_INDEX, "no entity left to allocate");
+            *self.index_len.get_mut() = index + 1;
             self.update_generation_length();
             index
         });
@@ -291,7 +291,8 @@ impl Extend<Index> for EntityCache {
     }
 }
 
-const MAX_INDEX: Index = u32::MAX;
+// The maximum allocatable index + 1, a `BitSet` cannot hold larger indexes.
+const MAX_INDEX: Index = 1 << 24;
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
-- 
2.43.0


From 5a96f9edbb54346bcb8152ad85c916a74361bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 6/8] fix: a generation overflow panic leaves no dead entity in
 the live set

---
 src/entity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index a327697..1f4c07d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -152,11 +152,10 @@ impl Allocator {
             index
         });
 
-        self.alive.add(index);
-
         let generation = &mut self.generations[index as usize];
         let raised = generation.raised();
         *generation = raised.generation();
+        self.alive.add(index);
         Entity::new(index, raised)
     }
 
@@ -174,8 +173,9 @@ impl Allocator {
             atomic_increment(&self.index_len).expect("no entity left to allocate")
         });
 
+        let raised = self.generation(index).raised();
         self.raised_atomic.add_atomic(index);
-        Entity::new(index, self.generation(index).raised())
+        Entity::new(index, raised)
     }
 
     /// Returns a `BitSetLike` for all live entities.
-- 
2.43.0


From d4437d775aafbaa1565572ff3ac9488c5d01024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:50 +0000
Subject: [PATCH 7/8] fix: RwResources::union left keys written by the other
 set among the reads

---
 src/resources.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resources.rs b/src/resources.rs
index c1d18ca..bab14c1 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -120,6 +120,7 @@ where
 impl<R: Eq + Hash + Clone> Resources for RwResources<R> {
     fn union(&mut self, other: &Self) {
         for w in &other.writes {
+            self.reads.remove(w);
             self.writes.insert(w.clone());
         }
 
-- 
2.43.0


From 29bb80190b554638f76a20889e6ae49edb26a372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:50 +0000
Subject: [PATCH 8/8] fix: RwResources::map left keys mapped to a written one
 among the reads

---
 src/resources.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/resources.rs b/src/resources.rs
index bab14c1..4b71aa2 100644
--- a/src/resources.rs
+++ b/src/resources.rs
@@ -77,10 +77,7 @@ where
         R2: Eq + Hash,
         F: Fn(&R) -> R2,
     {
-        RwResources {
-            reads: self.reads.iter().map(&f).collect(),
-            writes: self.writes.iter().map(&f).collect(),
-        }
+        RwResources::from_iters(self.reads.iter().map(&f), self.writes.iter().map(&f))
     }
 
     pub fn add_read(&mut self, r: R) {
-- 
2.43.0

