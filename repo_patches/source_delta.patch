From 74420b2940ec5bbc13acfebda5d497c78685bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 01/10] fix: refuse entity indexes beyond the bitset capacity

Allocating the 2^24-th entity corrupted the allocator instead of panicking, and
looking up an index beyond the capacity panicked instead of finding nothing.
---
 src/entity.rs | 11 +++++------
 src/join.rs   |  4 ++++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index f931955..77bb9b3 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -8,7 +8,7 @@ use std::{
 use hibitset::{AtomicBitSet, BitSet, BitSetLike, BitSetOr};
 use thiserror::Error;
 
-use crate::join::{Index, Join};
+use crate::join::{Index, Join, MAX_INDEX};
 
 #[derive(Debug, Error)]
 #[error("Entity is no longer alive or has a mismatched generation")]
@@ -134,7 +134,7 @@ impl Allocator {
         let generation = self.generation(index);
         if let Some(alive) = generation.to_alive() {
             Some(Entity::new(index, alive))
-        } else if self.raised_atomic.contains(index) {
+        } else if index < MAX_INDEX && self.raised_atomic.contains(index) {
             Some(Entity::new(index, generation.raised()))
         } else {
             None
@@ -146,8 +146,8 @@ impl Allocator {
     pub fn allocate(&mut self) -> Entity {
         let index = self.cache.pop().unwrap_or_else(|| {
             let index = *self.index_len.get_mut();
-            let index_len = index.checked_add(1).expect("no entity left to allocate");
-            *self.index_len.get_mut() = index_len;
+            assert!(index < MAX_INDEX, "no entity left to allocate");
+            *self.index_len.get_mut() = index + 1;
             self.update_generation_length();
             index
         });
@@ -291,7 +291,6 @@ impl Extend<Index> for EntityCache {
     }
 }
 
-const MAX_INDEX: Index = u32::MAX;
 type AtomicIndex = AtomicU32;
 
 type GenId = i32;
@@ -373,7 +372,7 @@ impl AliveGeneration {
 // Resembles a `fetch_add(1, Ordering::Relaxed)` with checked overflow, returning `None` instead.
 fn atomic_increment(i: &AtomicIndex) -> Option<Index> {
     let mut prev = i.load(Ordering::Relaxed);
-    while prev != MAX_INDEX {
+    while prev < MAX_INDEX {
         match i.compare_exchange_weak(prev, prev + 1, Ordering::Relaxed, Ordering::Relaxed) {
             Ok(x) => return Some(x),
             Err(next_prev) => prev = next_prev,
diff --git a/src/join.rs b/src/join.rs
index f00a9e2..d3356fa 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -5,6 +5,10 @@ use thiserror::Error;
 
 pub type Index = u32;
 
+// The number of distinct indexes that a `hibitset` bitset can hold, all indexes must be less than
+// this.
+pub(crate) const MAX_INDEX: Index = 1 << (4 * usize::BITS.trailing_zeros());
+
 pub trait Join {
     type Item;
     type Access;
-- 
2.43.0


From 3578099cde1ae7f0ce732d925e439f4670d35009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 02/10] fix: keep MaskedStorage consistent if the
 get_or_insert_with closure panics

The index was marked present before the closure ran, so a panic left an
uninitialized value that was later read and dropped.
---
 src/masked.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 7dabd55..6743d66 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -79,8 +79,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            // Evaluate `f` first, the index must not be marked as present if it panics.
+            let v = f();
             self.mask.add(index);
-            unsafe { self.storage.insert(index, f()) };
+            unsafe { self.storage.insert(index, v) };
         }
         unsafe { self.storage.get_mut(index) }
     }
-- 
2.43.0


From b37549b166cf4c48e5cff67050724c0a152806cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 03/10] fix: refuse storage indexes beyond the bitset capacity

Inserting at index 2^24 succeeded but the value was not iterated over and never
dropped, and a tracked storage was left inconsistent.
---
 src/masked.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 6743d66..f229e2a 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -3,7 +3,7 @@ use std::mem;
 use hibitset::{BitIter, BitSet, BitSetLike};
 
 use crate::{
-    join::{Index, Join},
+    join::{Index, Join, MAX_INDEX},
     storage::{DenseStorage, RawStorage},
     tracked::{ModifiedBitSet, TrackedStorage},
 };
@@ -73,12 +73,15 @@ impl<S: RawStorage> MaskedStorage<S> {
         }
     }
 
+    /// # Panics
+    /// Panics if the index is too large to fit in a bitset (2^24 on 64 bit platforms).
     pub fn get_or_insert_with(
         &mut self,
         index: Index,
         f: impl FnOnce() -> S::Item,
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
+            assert!(index < MAX_INDEX, "storage index out of range");
             // Evaluate `f` first, the index must not be marked as present if it panics.
             let v = f();
             self.mask.add(index);
@@ -87,11 +90,14 @@ impl<S: RawStorage> MaskedStorage<S> {
         unsafe { self.storage.get_mut(index) }
     }
 
+    /// # Panics
+    /// Panics if the index is too large to fit in a bitset (2^24 on 64 bit platforms).
     pub fn insert(&mut self, index: Index, mut v: S::Item) -> Option<S::Item> {
         if self.mask.contains(index) {
             mem::swap(&mut v, unsafe { self.storage.get_mut(index) });
             Some(v)
         } else {
+            assert!(index < MAX_INDEX, "storage index out of range");
             self.mask.add(index);
             unsafe { self.storage.insert(index, v) };
             None
-- 
2.43.0


From 2fae6528347713a86b6bdbb0df9c3fd51d480710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:58 +0000
Subject: [PATCH 04/10] fix: remove a deleted entity's components even if
 dropping one panics

---
 src/world.rs | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index b086773..39ec31a 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -50,9 +50,10 @@ impl World {
 
     pub fn delete_entity(&mut self, e: Entity) -> Result<(), WrongGeneration> {
         self.allocator.kill(e)?;
-        for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &[e]);
-        }
+        let components = &self.components;
+        visit_all(self.remove_components.values(), |remove_component| {
+            remove_component(components, &[e])
+        });
         Ok(())
     }
 
@@ -120,9 +121,9 @@ impl World {
             TypeId::of::<C>(),
             Box::new(|resource_set, entities| {
                 let mut storage = resource_set.borrow_mut::<ComponentStorage<C>>();
-                for e in entities {
+                visit_all(entities.iter(), |e| {
                     storage.remove(e.index());
-                }
+                });
             }),
         );
         self.components.insert(ComponentStorage::<C>::default())
@@ -207,10 +208,41 @@ impl World {
     /// No entity is actually removed until this method is called.
     pub fn merge(&mut self) {
         self.allocator.merge_atomic(&mut self.killed);
-        for remove_component in self.remove_components.values() {
-            remove_component(&self.components, &self.killed);
+        let (components, killed) = (&self.components, &self.killed);
+        visit_all(self.remove_components.values(), |remove_component| {
+            remove_component(components, killed)
+        });
+    }
+}
+
+/// Calls `f` on every item.  If a call panics (dropping a component can), the remaining items are
+/// still visited while unwinding, so that no components of a deleted entity are left behind.
+fn visit_all<I, F>(iter: I, f: F)
+where
+    I: Iterator,
+    F: FnMut(I::Item),
+{
+    struct Rest<I, F>(I, F)
+    where
+        I: Iterator,
+        F: FnMut(I::Item);
+
+    impl<I, F> Drop for Rest<I, F>
+    where
+        I: Iterator,
+        F: FnMut(I::Item),
+    {
+        fn drop(&mut self) {
+            while let Some(item) = self.0.next() {
+                (self.1)(item);
+            }
         }
     }
+
+    let mut rest = Rest(iter, f);
+    while let Some(item) = rest.0.next() {
+        (rest.1)(item);
+    }
 }
 
 pub struct Entities<'a>(&'a Allocator);
-- 
2.43.0


From bf4741cb841c5b15fadf8b8ecf97baa743a41edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:40 +0000
Subject: [PATCH 05/10] fix: tie references from GuardedElement to the borrow
 of the guard

get and get_mut returned references for the whole lifetime of the storage
borrow, so safe code could hold two mutable references to one element.
---
 src/masked.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index f229e2a..348b484 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -242,11 +242,11 @@ pub struct GuardedElement<'a, S> {
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-    pub fn get(&self) -> &'a S::Item {
+    pub fn get(&self) -> &S::Item {
         unsafe { self.storage.get(self.index) }
     }
 
-    pub fn get_mut(&mut self) -> &'a mut S::Item {
+    pub fn get_mut(&mut self) -> &mut S::Item {
         unsafe { self.storage.get_mut(self.index) }
     }
 }
-- 
2.43.0


From a92d2e851d30dbf43d2f762e6c92500648bbdc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:41 +0000
Subject: [PATCH 06/10] fix: make GuardedElement Send only if its element is

A guard gives mutable access to its element but held only a shared reference
to the storage, so a component that is Sync but not Send could be moved to
another thread through it.
---
 src/masked.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index 348b484..83981b5 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -1,4 +1,4 @@
-use std::mem;
+use std::{marker::PhantomData, mem};
 
 use hibitset::{BitIter, BitSet, BitSetLike};
 
@@ -67,6 +67,7 @@ impl<S: RawStorage> MaskedStorage<S> {
             Some(GuardedElement {
                 storage: &self.storage,
                 index,
+                marker: PhantomData,
             })
         } else {
             None
@@ -232,13 +233,16 @@ impl<'a, S: RawStorage> Join for GuardedJoin<'a, S> {
         GuardedElement {
             storage: *access,
             index,
+            marker: PhantomData,
         }
     }
 }
 
-pub struct GuardedElement<'a, S> {
+pub struct GuardedElement<'a, S: RawStorage> {
     storage: &'a S,
     index: Index,
+    // A guard gives mutable access to its element, so it must only be `Send` when `&mut S::Item` is.
+    marker: PhantomData<&'a mut S::Item>,
 }
 
 impl<'a, S: RawStorage> GuardedElement<'a, S> {
-- 
2.43.0


From a66d731230c148bb937d044c863c3340abe25f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:44 +0000
Subject: [PATCH 07/10] fix: make JoinIter Send only if the join it iterates is

A mutable join is accessed through a shared reference to the storage, so the
iterator could be moved to another thread and yield there mutable references
to items that are Sync but not Send.
---
 src/join.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/join.rs b/src/join.rs
index d3356fa..b45129e 100644
--- a/src/join.rs
+++ b/src/join.rs
@@ -1,3 +1,5 @@
+use std::marker::PhantomData;
+
 use hibitset::{
     AtomicBitSet, BitIter, BitSet, BitSetAll, BitSetAnd, BitSetLike, BitSetNot, BitSetOr, BitSetXor,
 };
@@ -107,7 +109,8 @@ impl<J: Join> Join for MaybeJoin<J> {
     }
 }
 
-pub struct JoinIter<J: Join>(BitIter<J::Mask>, J::Access);
+// The access alone may be `Send` when the items are not, so this must act as if it holds the join.
+pub struct JoinIter<J: Join>(BitIter<J::Mask>, J::Access, PhantomData<J>);
 
 impl<J: Join> JoinIter<J> {
     pub fn new(j: J) -> Result<Self, JoinIterUnconstrained>
@@ -116,7 +119,7 @@ impl<J: Join> JoinIter<J> {
     {
         let (mask, access) = j.open();
         if mask.is_constrained() {
-            Ok(Self(mask.iter(), access))
+            Ok(Self(mask.iter(), access, PhantomData))
         } else {
             Err(JoinIterUnconstrained)
         }
@@ -124,7 +127,7 @@ impl<J: Join> JoinIter<J> {
 
     pub fn new_unconstrained(j: J) -> Self {
         let (mask, access) = j.open();
-        Self(mask.iter(), access)
+        Self(mask.iter(), access, PhantomData)
     }
 }
 
-- 
2.43.0


From 8288c4acb15037e8b4587ad4ed1fb312e9f0f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 08/10] fix: make MaskedStorage::raw_storage_mut unsafe

The mask is trusted to say which elements of the raw storage are present, but
safe code could replace the raw storage without updating the mask, and then
read elements that do not exist.
---
 src/masked.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/masked.rs b/src/masked.rs
index 83981b5..bc5f39c 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -33,7 +33,10 @@ impl<S: RawStorage> MaskedStorage<S> {
         &self.storage
     }
 
-    pub fn raw_storage_mut(&mut self) -> &mut S {
+    /// # Safety
+    /// The storage must keep holding a value for exactly the indexes in `mask`.  In particular, the
+    /// storage must not be replaced or swapped with one which holds values for other indexes.
+    pub unsafe fn raw_storage_mut(&mut self) -> &mut S {
         &mut self.storage
     }
 
-- 
2.43.0


From 32f226ba5ddc468a475bf8affe0ec8517905ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 09/10] fix: do not mark an index as alive when its generations
 are exhausted

A creation which panicked with a generation overflow had already set the
alive (or atomically raised) bit of the index, so every later join panicked
and, after an atomic creation, so did every later merge.
---
 src/entity.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 77bb9b3..c83b31d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -152,11 +152,13 @@ impl Allocator {
             index
         });
 
-        self.alive.add(index);
-
+        // Panics if the generations of this index are exhausted, so the index must only be marked as
+        // alive afterwards.
         let generation = &mut self.generations[index as usize];
         let raised = generation.raised();
         *generation = raised.generation();
+
+        self.alive.add(index);
         Entity::new(index, raised)
     }
 
@@ -174,8 +176,11 @@ impl Allocator {
             atomic_increment(&self.index_len).expect("no entity left to allocate")
         });
 
+        // Panics if the generations of this index are exhausted, so the index must only be marked as
+        // alive afterwards.
+        let raised = self.generation(index).raised();
         self.raised_atomic.add_atomic(index);
-        Entity::new(index, self.generation(index).raised())
+        Entity::new(index, raised)
     }
 
     /// Returns a `BitSetLike` for all live entities.
-- 
2.43.0


From b68128a07b0f0309942833cafbc58b05c706c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 10/10] fix: do not mark an index as present when
 RawStorage::insert panics

The mask was updated before the raw storage, so when a user's RawStorage
panics in insert, MaskedStorage would later get, overwrite or remove (at the
latest when dropped) a value which the storage does not hold.
---
 src/masked.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/masked.rs b/src/masked.rs
index bc5f39c..e1ada40 100644
--- a/src/masked.rs
+++ b/src/masked.rs
@@ -86,10 +86,10 @@ impl<S: RawStorage> MaskedStorage<S> {
     ) -> &mut S::Item {
         if !self.mask.contains(index) {
             assert!(index < MAX_INDEX, "storage index out of range");
-            // Evaluate `f` first, the index must not be marked as present if it panics.
+            // The index must not be marked as present if `f` or `RawStorage::insert` panics.
             let v = f();
-            self.mask.add(index);
             unsafe { self.storage.insert(index, v) };
+            self.mask.add(index);
         }
         unsafe { self.storage.get_mut(index) }
     }
@@ -102,8 +102,9 @@ impl<S: RawStorage> MaskedStorage<S> {
             Some(v)
         } else {
             assert!(index < MAX_INDEX, "storage index out of range");
-            self.mask.add(index);
+            // The index must not be marked as present if `RawStorage::insert` panics.
             unsafe { self.storage.insert(index, v) };
+            self.mask.add(index);
             None
         }
     }
-- 
2.43.0

