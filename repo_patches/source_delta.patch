From 93abeba44e75b3c3a0c98203f9b3b37cbb813d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 1/7] fix: advance versions before modifying storage in destroy

A slot or archetype version overflow panicked after the component columns had
already been swap-removed (and the destroyed event pushed) but before len was
decremented, leaving the moved-out row readable and dropped twice.
---
 src/archetype/slot.rs    |  9 +++++----
 src/archetype/storage.rs | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..bcb26ec 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -150,13 +150,14 @@ impl Slot {
         // NOTE: We increment the version on release, not assignment.
     }
 
-    /// Releases a slot and increments its version, invalidating all handles.
-    /// Returns an `EcsError::VersionOverflow` if the version increment overflows.
+    /// Releases a slot and sets its next version, invalidating all handles.
+    /// The caller advances the version, since doing so may panic on overflow.
     #[inline(always)]
-    pub(crate) fn release(&mut self, index_next_free: SlotIndex) {
+    pub(crate) fn release(&mut self, index_next_free: SlotIndex, next_version: SlotVersion) {
         debug_assert!(self.is_free() == false);
+        debug_assert!(next_version == self.version.next());
         self.index = index_next_free;
-        self.version = self.version.next();
+        self.version = next_version;
     }
 }
 
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..87a7769 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -559,6 +559,16 @@ macro_rules! declare_storage_n {
                             entities[dense_index_usize].version(),
                             self.slots.slice(self.capacity())[slot_index_usize].version());
 
+                        // Advance both versions up front. Either may panic on overflow, and that
+                        // must not happen once we have started to modify anything below.
+                        let next_version = self.version.next();
+                        let next_slot_version = self
+                            .slots
+                            .slice(self.capacity())
+                            .get_unchecked(slot_index_usize) // SAFETY: See declaration.
+                            .version()
+                            .next();
+
                         #[cfg(feature = "events")]
                         {
                             self.destroyed.push(*entities.get_unchecked(dense_index_usize));
@@ -589,10 +599,10 @@ macro_rules! declare_storage_n {
                         // Return the target slot to the free list
                         slots
                             .get_unchecked_mut(slot_index_usize) // SAFETY: See declaration.
-                            .release(self.free_head);
+                            .release(self.free_head, next_slot_version);
 
                         // Advance this storage's overall version (for add/removes).
-                        self.version = self.version.next();
+                        self.version = next_version;
 
                         result
                     };
-- 
2.43.0


From 3a679a1ce2edbd7ceec0604f05dedf8bff3734ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 2/7] fix: hand current direct entities to ecs_iter_destroy
 closures

The archetype version was read once before the loop, so every direct entity
handed out after the first in-loop destroy was stale on arrival.
---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..ce21f90 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // Destroying advances the version, so refetch it for direct entities.
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From eca893122a670482698d396069bb20a545942962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 3/7] fix: to_direct rejects stale direct entities

Direct keys were returned unchanged, so to_direct reported Some for a direct
entity whose entity no longer exists, unlike every other lookup.
---
 src/archetype/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 87a7769..e6b6159 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -672,7 +672,9 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    // We're already an EntityDirect, but it must still refer to a live entity.
+                    let (_, dense_index) = self.resolve_direct(entity)?;
+                    Some(EntityDirect::new(dense_index, self.version()))
                 }
 
                 #[inline]
-- 
2.43.0


From f097058d6507030d34eed09635d0f54746d3e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:04 +0000
Subject: [PATCH 4/7] fix: never match a typed entity that belongs to another
 archetype

from_any_unchecked can produce an Entity<A> carrying another archetype's id.
Lookups compared only position and version, so in release builds it could
resolve to an unrelated live entity.
---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index e6b6159..b51cbce 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -344,6 +344,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion may have given us another archetype's entity.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // Get the index into the slot array from the entity.
                     let slot_index = entity.slot_index();
 
@@ -400,6 +405,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // An unchecked conversion may have given us another archetype's entity.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // For direct entities, we compare against the storage version
                     if entity.version() != self.version() {
                         return None;
-- 
2.43.0


From f0f477fd097a4410aaba01ee121cd1ba9908fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 5/7] fix: free a partial clone when a component's Clone panics

Clone wrote into raw arrays with no owner, so a panic in the k-th component
clone leaked every value cloned so far along with all of the new buffers.
---
 src/archetype/storage.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index b51cbce..6503d39 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -740,8 +740,8 @@ macro_rules! declare_storage_n {
                     #(let ref_d~I = self.d~I.borrow();)*
 
                     let mut new_slots = DataPtr::with_capacity(self.capacity);
-                    let mut new_entities = DataPtr::with_capacity(self.capacity);
-                    #(let mut new_d~I = DataPtr::with_capacity(self.capacity);)*
+                    let new_entities = DataPtr::with_capacity(self.capacity);
+                    #(let new_d~I = DataPtr::with_capacity(self.capacity);)*
 
                     unsafe {
 
@@ -756,15 +756,10 @@ macro_rules! declare_storage_n {
                             new_slots.write(idx, old_slots.get_unchecked(idx).clone());
                         }
 
-                        for idx in 0..self.len {
-                            // SAFETY: We know that the slot storage is valid up to our len,
-                            // and the new storage has no data that needs to be dropped first.
-                            new_entities.write(idx, old_entities.get_unchecked(idx).clone());
-                            #(new_d~I.write(idx, old_~I.get_unchecked(idx).clone());)*
-                        }
-
-                        Self {
-                            len: self.len,
+                        // NOTE: The new storage owns its data from here on and is kept valid up to
+                        // its own len, so nothing is leaked if one of the clones below panics.
+                        let mut result = Self {
+                            len: 0,
                             version: self.version,
                             capacity: self.capacity,
                             free_head: self.free_head,
@@ -776,7 +771,19 @@ macro_rules! declare_storage_n {
                             created: self.created.clone(),
                             #[cfg(feature = "events")]
                             destroyed: self.destroyed.clone(),
+                        };
+
+                        for idx in 0..self.len {
+                            #(let val_~I = old_~I.get_unchecked(idx).clone();)*
+
+                            // SAFETY: We know that the slot storage is valid up to our len,
+                            // and the new storage has no data that needs to be dropped first.
+                            result.entities.write(idx, old_entities.get_unchecked(idx).clone());
+                            #(result.d~I.get_mut().write(idx, val_~I);)*
+                            result.len += 1;
                         }
+
+                        result
                     }
                 }
             }
-- 
2.43.0


From 07a14b205458956b8e079943ddb85b49a30e0ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 6/7] fix: finish dropping a storage when a component's Drop
 panics

A panicking component Drop made the storage leak every component after it as
well as all of its buffers. Vec already handles this, so let it.
---
 src/archetype/storage.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 6503d39..d908431 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -703,13 +703,13 @@ macro_rules! declare_storage_n {
                 fn drop(&mut self) {
                     // SAFETY: We guarantee that the storage is valid up to self.len.
                     unsafe {
-                        #(self.d~I.get_mut().drop_to(self.len);)*
-                        // We don't need to drop the other stuff since it's all trivial.
-
-                        // For dynamic storage we need to deallocate when dropping.
+                        // We don't need to drop these since they're all trivial.
                         self.slots.dealloc(self.capacity);
                         self.entities.dealloc(self.capacity);
-                        #(self.d~I.get_mut().dealloc(self.capacity);)*
+
+                        // Hand the component data over to vecs to drop and deallocate. This way,
+                        // if a component panics when dropped, the others still get cleaned up.
+                        drop((#(self.d~I.get_mut().take_vec(self.len, self.capacity),)*));
                     };
                 }
             }
@@ -1075,23 +1075,20 @@ impl<T> DataPtr<T> {
         }
     }
 
-    /// Drops all elements in the range `0..len`.
+    /// Takes this array's data block as a `Vec` of the elements in the range `0..len`.
     ///
     /// # Safety
     ///
     /// It is up to the caller to guarantee the following:
+    /// - This array has exactly `capacity` elements allocated
     /// - All elements in the range `0..len` are valid
-    /// - `len <= N`
+    /// - `len <= capacity`
     #[inline(always)]
-    unsafe fn drop_to(&mut self, len: usize) {
-        unsafe {
-            for i in 0..len {
-                let i_ptr = self.0.as_ptr().add(i);
-                // SAFETY: The caller guarantees this element is valid.
-                ptr::drop_in_place(i_ptr as *mut T);
-                ptr::write(i_ptr, MaybeUninit::uninit()); // Hint for Miri
-            }
-        };
+    unsafe fn take_vec(&mut self, len: usize, capacity: usize) -> Vec<T> {
+        // SAFETY: The caller guarantees that our data block and elements are valid, and that block
+        // was allocated with the same layout (or is dangling if zero-sized) that `Vec` would use.
+        let ptr = mem::replace(&mut self.0, NonNull::dangling());
+        unsafe { Vec::from_raw_parts(ptr.as_ptr() as *mut T, len, capacity) }
     }
 }
 
-- 
2.43.0


From 04046f8037f2eb75fb896e608a144689142394c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 7/7] verif hook: preset generation counters of an empty
 storage under cfg(gecs_verif)

---
 src/archetype/slot.rs    |  7 +++++++
 src/archetype/storage.rs | 16 ++++++++++++++++
 src/lib.rs               |  1 +
 src/version.rs           |  9 +++++++++
 4 files changed, 33 insertions(+)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index bcb26ec..1172129 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -161,6 +161,13 @@ impl Slot {
     }
 }
 
+#[cfg(gecs_verif)]
+impl Slot {
+    pub(crate) fn verif_set_version(&mut self, version: u32) {
+        self.version = SlotVersion::new(std::num::NonZeroU32::new(version).unwrap());
+    }
+}
+
 // Need to enforce this invariant here just in case.
 // If this isn't true, then we can't trust the FREE_LIST_END value.
 #[test]
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index d908431..2eb68f8 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -788,6 +788,22 @@ macro_rules! declare_storage_n {
                 }
             }
 
+            #[cfg(gecs_verif)]
+            impl<A: Archetype, #(T~I,)*> $name<A, #(T~I,)*> {
+                /// Verification hook: presets the generation counters of an empty storage.
+                /// Position `i` is given the version `slot(i)`. Versions must be nonzero.
+                pub fn verif_preset_versions(&mut self, slot: &dyn Fn(u32) -> u32, archetype: u32) {
+                    assert!(self.len == 0, "versions may only be preset while empty");
+
+                    self.version = ArchetypeVersion::verif_new(archetype);
+                    // SAFETY: We know that the slot storage is valid up to our capacity.
+                    let slots = unsafe { self.slots.slice_mut(self.capacity) };
+                    for (index, data) in slots.iter_mut().enumerate() {
+                        data.verif_set_version(slot(index as u32));
+                    }
+                }
+            }
+
             pub struct $borrow<'a, A: Archetype, #(T~I,)*> {
                 index: usize,
                 source: &'a $name<A, #(T~I,)*>,
diff --git a/src/lib.rs b/src/lib.rs
index e9a2920..eaf8c4f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,6 +3,7 @@
 #![allow(clippy::needless_doctest_main)] // this has false positives with gecs's macros
 #![allow(clippy::bool_comparison)] // using "== false" is easier to read in some cases
 #![allow(clippy::len_zero)] // using "len() > 0" is easier to read in some cases
+#![allow(unexpected_cfgs)] // for cfg(gecs_verif), which only verification builds set
 
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 
diff --git a/src/version.rs b/src/version.rs
index 1149a9b..d2f389d 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -69,3 +69,12 @@ impl ArchetypeVersion {
         }
     }
 }
+
+#[cfg(gecs_verif)]
+impl ArchetypeVersion {
+    pub(crate) fn verif_new(version: u32) -> Self {
+        Self {
+            version: NonZeroU32::new(version).unwrap(),
+        }
+    }
+}
-- 
2.43.0

