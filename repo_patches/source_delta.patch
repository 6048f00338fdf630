From e331c7692372925a31138cd7de24c011b994b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 01/27] fix: page capacity comes from the current archetype
 layout

A page took the capacity of its entity id Vec as the number of rows it can
hold. That Vec keeps its larger buffer when the page is reused by another
archetype (and Vec::reserve may over-allocate), so rows were written past the
component arrays and past the page itself.
---
 src/archetype_data_page.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index c14ab55..203ef4d 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -5,6 +5,7 @@ use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::
 #[derive(Debug)]
 pub struct ArchetypeDataPage {
     entities_ids: Vec<u32>,
+    entities_capacity: usize,
     components_data_ptr: *mut u8,
 }
 
@@ -21,12 +22,14 @@ impl ArchetypeDataPage {
         ArchetypeDataPage {
             components_data_ptr,
             entities_ids: Vec::new(),
+            entities_capacity: 0,
         }
     }
 
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         let capacity = archetype.entities_capacity();
         self.entities_ids.reserve(capacity);
+        self.entities_capacity = capacity;
     }
 
     #[inline(always)]
@@ -36,7 +39,7 @@ impl ArchetypeDataPage {
 
     #[inline(always)]
     pub(crate) fn entity_capacity(&self) -> usize {
-        self.entities_ids.capacity()
+        self.entities_capacity
     }
 
     #[inline(always)]
-- 
2.43.0


From c57ec3904c644e1df784b3d0769ef20ff802d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 02/27] fix: find a reused archetype in the unsorted free list

free_archetypes is filled in the order archetypes lose their last page, so
binary_search could miss an entry. The archetype was then in use and still
listed as free, and the next new archetype overwrote it under its entities.
---
 src/archetypes_container.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index fc55188..6c55c1d 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -207,9 +207,10 @@ impl ArchetypesContainer {
     fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
-                match self.free_archetypes.binary_search(&i) {
-                    Ok(i) => { self.free_archetypes.remove(i); },
-                    Err(_) => {}
+                // The list is in the order of freeing, it isn't sorted
+                match self.free_archetypes.iter().position(|f| *f == i) {
+                    Some(i) => { self.free_archetypes.remove(i); },
+                    None => {}
                 };
 
                 return i;
-- 
2.43.0


From 63dc953362b63e315597515496b1cfe94893b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 03/27] fix: ordered query takes entities from the page of the
 current range

with_entities used the page before the next range, which is the previous
page until a range is finished: items of a second multi-entity range were
paired with entities of another page.
---
 src/query/ordered_component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 547f86d..8c18103 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -22,6 +22,7 @@ pub struct OrderedComponentQueryIter<'a, T: ComponentQueryAccess> {
     range_pages: &'a [ComponentPageIterView<T>],
 
     next_range_index: u32,
+    current_range_index: u32,
     current_index_in_page: u32,
     next_offset_from_range: u32,
 
@@ -162,6 +163,7 @@ impl Store {
             entity_ranges: &query.index_in_page_ranges,
             range_pages: &query.range_to_page_views,
             next_range_index: 0,
+            current_range_index: 0,
             current_index_in_page: 0,
             next_offset_from_range: 0,
             len
@@ -179,6 +181,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
 
         let curr_range_index = self.next_range_index as usize;
         let current_range = unsafe { self.entity_ranges.get_unchecked(curr_range_index) };
+        self.current_range_index = self.next_range_index;
         self.current_index_in_page = current_range.start + self.next_offset_from_range;
 
         if self.current_index_in_page >= current_range.end - 1 {
@@ -212,7 +215,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for WithEntitiesIter<'a, T> {
             let page = *self
                 .source_iter
                 .range_pages
-                .get_unchecked(self.source_iter.next_range_index.saturating_sub(1) as usize);
+                .get_unchecked(self.source_iter.current_range_index as usize);
 
             let id = *page
                 .entity_ids
-- 
2.43.0


From 88813364908eda1c93eb64a63e75c100ee2471ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 04/27] fix: ordered query skips entities without an archetype

Their page and row are leftovers of a previous user of the id (or were never
set), so the query returned rows of other entities or read out of bounds.
---
 src/query/ordered_component.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 8c18103..a1bd4b1 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -89,6 +89,11 @@ impl Store {
         let mut entity_count = 0;
 
         while curr_entity != Entity::NULL_ID {
+            if unsafe { !self.has_archetype_unchecked(curr_entity) } {
+                curr_entity = unsafe { *id_to_next_map.add(curr_entity as usize) };
+                continue;
+            }
+
             let (curr_page_index, curr_index_in_page) = unsafe {
                 (
                     self.get_page_index_unchecked(curr_entity),
@@ -131,6 +136,7 @@ impl Store {
 
                 if (next_page_index != curr_page_index)
                     | (next_index_in_page != range_end)
+                    | unsafe { !self.has_archetype_unchecked(next_entity) }
                 {
                     break;
                 }
-- 
2.43.0


From bb4cc3337a9f12f64a48f469c0e9c8ac2f13f79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 05/27] fix: entity list query skips entities without an
 archetype

Only the first entity of a range was checked for an archetype; a following
one without components was matched by the page its id used before.
---
 src/query/entity_component.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index ffcd159..66a65c4 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -92,9 +92,13 @@ impl Store {
             while range_end < entities.len() {
                 let inner_entity = entities[range_end];
 
+                if !self.is_valid_entity_with_archetype(inner_entity) {
+                    break;
+                }
+
                 let page_index =
                     unsafe { self.get_page_index_unchecked(inner_entity.id) as usize };
-                if !self.is_alive(inner_entity) | (range_page_index != page_index) {
+                if range_page_index != page_index {
                     break;
                 }
 
-- 
2.43.0


From 0dbe8c754fa34b1034d24ecf9eab69bf09a6f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 06/27] fix: tag filter skips untagged entities without
 recursion

Every untagged entity in a row took another stack frame, so a long enough
run of them overflowed the stack.
---
 src/query/component.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 73a974d..2f90036 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -188,12 +188,11 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.source_iter.next().and_then(|(e, o)| unsafe {
-            if bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) {
-                Some((e, o))
-            } else {
-                self.next()
+        loop {
+            let (e, o) = self.source_iter.next()?;
+            if unsafe { bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) } {
+                return Some((e, o));
             }
-        })
+        }
     }
 }
-- 
2.43.0


From 67ea2191beb40629914047f52b6ab9fd34a19915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:05 +0000
Subject: [PATCH 07/27] fix: filtering by a tag no entity ever had yields
 nothing

It panicked, although has_tag answers false for such a tag.
---
 src/query/component.rs |  7 +++++--
 src/tag_container.rs   | 13 ++++---------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 2f90036..094d5cf 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -34,7 +34,7 @@ pub struct WithEntitiesIter<'a, T: ComponentQueryAccess> {
 
 pub struct FilterTagIter<'a, T: ComponentQueryAccess> {
     source_iter: WithEntitiesIter<'a, T>,
-    entity_to_has_tag: *const u32,
+    entity_to_has_tag: Option<*const u32>,
 }
 
 pub fn readonly<R: ComponentTuple>() -> ComponentQuery<ReadonlyAccess<R>> {
@@ -188,9 +188,12 @@ impl<'a, Q: ComponentQueryAccess> Iterator for FilterTagIter<'a, Q> {
     type Item = (Entity, Q::AccessOutput<'a>);
 
     fn next(&mut self) -> Option<Self::Item> {
+        // No entity ever had the tag
+        let entity_to_has_tag = self.entity_to_has_tag?;
+
         loop {
             let (e, o) = self.source_iter.next()?;
-            if unsafe { bitvec_utils::is_bit_on(self.entity_to_has_tag, e.id as usize) } {
+            if unsafe { bitvec_utils::is_bit_on(entity_to_has_tag, e.id as usize) } {
                 return Some((e, o));
             }
         }
diff --git a/src/tag_container.rs b/src/tag_container.rs
index e9af17c..ed6bacd 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -17,16 +17,11 @@ impl TagContainer {
         }
     }
 
-    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> *const u32 {
+    pub fn has_tag_bitvec<T: Tag + 'static>(&self) -> Option<*const u32> {
         let type_id = TypeId::of::<T>();
-        let tag_index = match self.tag_ids.binary_search(&type_id) {
-            Ok(i) => i,
-            Err(_) => panic!("Failed to find tag with id: {type_id:?}")
-        };
-
-        unsafe {
-            *self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index)
-        }
+        self.tag_ids.binary_search(&type_id).ok().map(|tag_index| unsafe {
+            *self.entity_id_to_has_tag_bitvecs.get_unchecked(tag_index) as *const u32
+        })
     }
 
     pub fn add_tag<T: Tag + 'static>(&mut self, entity_id: u32) {
-- 
2.43.0


From 56a5a6d68ea3c43fe8259e38fea1706a61c2e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 08/27] fix: order groups refuse their only member and foreign
 anchors

The duplicate check looked at links only, and the only member of a group has
none: adding it again linked it to itself. Adding next or previous to an
entity outside of the group built a chain that no head or tail belongs to.
---
 src/order_group_container.rs | 47 ++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 5843087..7227230 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -51,7 +51,7 @@ impl OrderGroupContainer {
                 let fwd_id = *forward_links.add(entity_id as usize);
                 let bwd_id = &mut *backward_links.add(entity_id as usize);
 
-                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id);
+                Self::assert_entity_has_no_order(entity_id, fwd_id, *bwd_id, *head);
 
                 *forward_links.add(*tail as usize) = entity_id;
                 *bwd_id = *tail;
@@ -68,15 +68,25 @@ impl OrderGroupContainer {
         let OrderGroupInfoMut {
             backward_links,
             forward_links,
+            head,
             tail,
-            ..
         } = unsafe { self.get_order_group_info_unchecked_mut(group_index) };
 
         unsafe {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *fwd_entity_id,
+                *bwd_entity_id,
+                *head,
+            );
+            Self::assert_entity_has_order(
+                next_to_id,
+                *backward_links.add(next_to_id as usize),
+                *head,
+            );
 
             let fwd_after_id = &mut *forward_links.add(next_to_id as usize);
             if *fwd_after_id != Entity::NULL_ID {
@@ -112,7 +122,17 @@ impl OrderGroupContainer {
             let fwd_entity_id = &mut *forward_links.add(entity_id as usize);
             let bwd_entity_id = &mut *backward_links.add(entity_id as usize);
 
-            Self::assert_entity_has_no_order(entity_id, *fwd_entity_id, *bwd_entity_id);
+            Self::assert_entity_has_no_order(
+                entity_id,
+                *fwd_entity_id,
+                *bwd_entity_id,
+                *head,
+            );
+            Self::assert_entity_has_order(
+                previous_to_id,
+                *backward_links.add(previous_to_id as usize),
+                *head,
+            );
 
             let bwd_previous_to_id = &mut *backward_links.add(previous_to_id as usize);
             if *bwd_previous_to_id != Entity::NULL_ID {
@@ -129,7 +149,24 @@ impl OrderGroupContainer {
         }
     }
 
-    fn assert_entity_has_no_order(entity_id: u32, fwd_id: u32, bwd_id: u32) {
+    fn assert_entity_has_order(entity_id: u32, bwd_id: u32, head_id: u32) {
+        debug_assert!(
+            bwd_id != Entity::NULL_ID || head_id == entity_id,
+            "Entity {entity_id} is not in the order group, there is no place next or previous to it"
+        );
+    }
+
+    fn assert_entity_has_no_order(
+        entity_id: u32,
+        fwd_id: u32,
+        bwd_id: u32,
+        head_id: u32,
+    ) {
+        debug_assert!(
+            head_id != entity_id,
+            "Entity {entity_id} is already the first in the order group. Added entity must have no orders"
+        );
+
         debug_assert!(
             fwd_id == Entity::NULL_ID,
             "Entity {entity_id} already reference to the next order of entity {fwd_id}. Added entity must have no orders"
-- 
2.43.0


From a46db6f7e461eac726f9435f77b6ee0701bc0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 09/27] fix: tag and order calls ignore dead entities

They used the id only, so a stale handle read and changed the tags and the
order of the entity that uses the id now, or of the next one to use it. Dead
entities are ignored like the component calls already do.
---
 src/order_group_container.rs | 24 ++++++++++++++++++++++++
 src/tag_container.rs         | 10 +++++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/order_group_container.rs b/src/order_group_container.rs
index 7227230..952fb5b 100644
--- a/src/order_group_container.rs
+++ b/src/order_group_container.rs
@@ -378,6 +378,10 @@ impl OrderGroupContainer {
 
 impl Store {
     pub fn add_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container.add_id_ordered_by::<T>(entity.id);
     }
 
@@ -386,6 +390,10 @@ impl Store {
         entity: Entity,
         next_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) || !self.is_alive(next_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_next_to_ordered_by::<T>(entity.id, next_to_entity.id)
     }
@@ -395,16 +403,28 @@ impl Store {
         entity: Entity,
         previous_to_entity: Entity,
     ) {
+        if !self.is_alive(entity) || !self.is_alive(previous_to_entity) {
+            return;
+        }
+
         self.order_group_container
             .add_id_previous_to_ordered_by::<T>(entity.id, previous_to_entity.id);
     }
 
     pub fn remove_entity_order_by<T: Tag>(&mut self, entity: Entity) {
+        if !self.is_alive(entity) {
+            return;
+        }
+
         self.order_group_container
             .remove_id_ordered_by::<T>(entity.id);
     }
 
     pub fn get_next_entity_ordered_by<T: Tag>(&self, entity: Entity) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_next_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
@@ -414,6 +434,10 @@ impl Store {
         &self,
         entity: Entity,
     ) -> Option<Entity> {
+        if !self.is_alive(entity) {
+            return None;
+        }
+
         self.order_group_container
             .get_previous_id_ordered_by::<T>(entity.id)
             .map(|id| unsafe { self.get_entity_by_id_unchecked(id) })
diff --git a/src/tag_container.rs b/src/tag_container.rs
index ed6bacd..ae5f8b7 100644
--- a/src/tag_container.rs
+++ b/src/tag_container.rs
@@ -91,17 +91,21 @@ impl TagContainer {
 impl Store {
     #[inline(always)]
     pub fn add_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.add_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.add_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn remove_tag<T: Tag + 'static>(&mut self, entity: Entity) {
-        self.tag_container.remove_tag::<T>(entity.id);
+        if self.is_alive(entity) {
+            self.tag_container.remove_tag::<T>(entity.id);
+        }
     }
 
     #[inline(always)]
     pub fn has_tag<T: Tag + 'static>(&self, entity: Entity) -> bool {
-        self.tag_container.has_tag::<T>(entity.id)
+        self.is_alive(entity) && self.tag_container.has_tag::<T>(entity.id)
     }
 }
 
-- 
2.43.0


From fc27b5834dc40870656e8815f81cd745a8c9b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 10/27] fix: check that an entity is alive before destroying
 its components

destroy_entity with a stale handle removed the component row of the entity
that uses the id now and only then panicked.
---
 src/store.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/store.rs b/src/store.rs
index f48a636..f535ae6 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -84,6 +84,10 @@ impl Store {
 
     pub fn destroy_entity(&mut self, entity: Entity) {
         let entity_id = entity.id;
+
+        // Panics if the entity isn't alive, so it goes before any other changes
+        self.entities_container.destroy_entity(entity);
+
         let has_archetype = unsafe { self.has_archetype_unchecked(entity.id) };
 
         if has_archetype {
@@ -97,7 +101,6 @@ impl Store {
             self.swap_remove_internal(entity_in_arch);
         }
 
-        self.entities_container.destroy_entity(entity);
         self.tag_container.remove_all_tags_for_entity(entity_id);
         self.order_group_container
             .remove_all_orders_for_id(entity_id);
-- 
2.43.0


From dc5c5caa86c226ae02585b66c0bcfc6f722e2cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 11/27] fix: is_exclude_ids takes the ids in any order

It narrowed the searched range as if the ids were sorted, and so reported
included types as excluded.
---
 src/archetype.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 8834b17..09c795b 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -166,18 +166,9 @@ impl Archetype {
     pub fn is_exclude_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        let mut left_idx = 0;
         for id in ids_to_check {
-            let result = self_ids[left_idx..].binary_search(id);
-            match result {
-                Ok(_) => return false,
-                Err(found_idx) => {
-                    if found_idx >= self_ids.len() {
-                        break;
-                    } else {
-                        left_idx = found_idx;
-                    }
-                }
+            if self_ids.binary_search(id).is_ok() {
+                return false;
             }
         }
 
-- 
2.43.0


From fb0fa1fac200761535e82956d5b7f309a43543f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 12/27] fix: repeated component types count once in archetypes

An archetype of a tuple that repeats a type held the type twice, and
is_include_ids and is_include_only_ids compared lengths, which gives wrong
answers for id lists with repetitions.
---
 src/archetype.rs       | 15 +++------------
 src/component_tuple.rs |  6 +++---
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/archetype.rs b/src/archetype.rs
index 09c795b..69981c7 100644
--- a/src/archetype.rs
+++ b/src/archetype.rs
@@ -127,10 +127,6 @@ impl Archetype {
     pub fn is_include_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        if self_ids.len() < ids_to_check.len() {
-            return false;
-        }
-
         for id in ids_to_check {
             let result = self_ids.binary_search(id);
             if result.is_err() {
@@ -144,18 +140,13 @@ impl Archetype {
     pub fn is_include_only_ids(&self, ids_to_check: &[TypeId]) -> bool {
         let self_ids = self.included_ids();
 
-        if self_ids.len() != ids_to_check.len() {
-            return false;
-        }
-
-        for id in ids_to_check {
-            let result = self_ids.binary_search(id);
-            if result.is_err() {
+        for id in self_ids {
+            if !ids_to_check.contains(id) {
                 return false;
             }
         }
 
-        return true;
+        return self.is_include_ids(ids_to_check);
     }
 
     #[inline(always)]
diff --git a/src/component_tuple.rs b/src/component_tuple.rs
index 430d6d0..c781617 100644
--- a/src/component_tuple.rs
+++ b/src/component_tuple.rs
@@ -250,9 +250,9 @@ macro_rules! components_tuple_impl {
 
             fn into_archetype() -> $crate::Archetype
             {
-                let components = &mut $crate::component_types!( $($T),* );
-                components.sort_by_key(|a| a.id());
-                $crate::Archetype::new(components)
+                $crate::ArchetypeBuilder::new()
+                    .include_component_types(& $crate::component_types!( $($T),* ))
+                    .build()
             }
 
             #[inline(always)]
-- 
2.43.0


From 0738f7628f421f8d8bfb004a5e819d902b221f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 13/27] fix: removing the last component leaves an entity
 without archetype

It panicked while building the empty archetype, although an entity without
components is a regular state.
---
 src/archetype_builder.rs |  4 ++++
 src/store.rs             | 14 ++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index bac7741..2d0b9c4 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -54,6 +54,10 @@ impl ArchetypeBuilder {
         self
     }
 
+    pub(crate) fn is_empty(&self) -> bool {
+        self.component_types.is_empty()
+    }
+
     pub fn build(&mut self) -> Archetype {
         self.component_types.sort_by_key(|a| a.id());
 
diff --git a/src/store.rs b/src/store.rs
index f535ae6..832953f 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -179,12 +179,18 @@ impl Store {
                 .get_archetypes()
                 .get_unchecked(prev_arch_index)
         };
-        let new_arch = ArchetypeBuilder::new()
+        let mut builder = ArchetypeBuilder::new();
+        builder
             .include_archetype(&prev_arch)
-            .exclude_components::<T>()
-            .build();
+            .exclude_components::<T>();
 
-        self.move_entity_to_other_archetype(entity, &new_arch);
+        if builder.is_empty() {
+            self.swap_remove_internal(prev_entity_in_arch);
+            unsafe { self.disable_archetype_unchecked(entity.id) };
+            return;
+        }
+
+        self.move_entity_to_other_archetype(entity, &builder.build());
     }
 
     fn move_entity_to_other_archetype(
-- 
2.43.0


From b8a00914872387863723754a3eb710dfc50f59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 14/27] fix: query iterators report the remaining length

len() kept the initial count during the iteration and size_hint didn't agree
with it, against the contract of ExactSizeIterator.
---
 src/query/component.rs           | 6 ++++++
 src/query/component_page_iter.rs | 6 +++++-
 src/query/ordered_component.rs   | 5 +++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/query/component.rs b/src/query/component.rs
index 094d5cf..b9f2160 100644
--- a/src/query/component.rs
+++ b/src/query/component.rs
@@ -124,6 +124,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
         let current_iter = &mut self.current_page_iter;
 
         if let Some(val) = current_iter.next() {
+            self.queried_entities_count -= 1;
             return Some(val);
         }
 
@@ -134,12 +135,17 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentsQueryIter<'a, T> {
 
             self.current_page_iter = ComponentPageIter::new(*page_view);
 
+            self.queried_entities_count -= 1;
             return self.current_page_iter.next();
         }
 
         self.current_page_iter = ComponentPageIter::empty();
         return None;
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentsQueryIter<'a, T> {
diff --git a/src/query/component_page_iter.rs b/src/query/component_page_iter.rs
index cc31c9f..0c2121d 100644
--- a/src/query/component_page_iter.rs
+++ b/src/query/component_page_iter.rs
@@ -48,10 +48,14 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentPageIter<'a, T> {
         
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> ExactSizeIterator for ComponentPageIter<'a, T> {
     fn len(&self) -> usize {
-        self.view.entity_count
+        self.view.entity_count - self.next_entity_index
     }
 }
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index a1bd4b1..8cf4c82 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -200,8 +200,13 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
         let page_view = unsafe { self.range_pages.get_unchecked(curr_range_index) };
         let ptrs = T::add_to_ptrs(&page_view.ptrs, self.current_index_in_page as usize);
 
+        self.len -= 1;
         return Some(T::ptrs_to_refs(ptrs));
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
 }
 
 impl<'a, T: ComponentQueryAccess> OrderedComponentQueryIter<'a, T> {
-- 
2.43.0


From 93e110eb824b290b60e1366a8baf8c5139e7adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 15/27] fix: no zero-sized allocations and no deallocation of a
 null pointer

ResourceStore::new() and zero-sized resource types passed zero-sized layouts
to the allocator and a null pointer to dealloc, which is undefined behaviour
and aborts in debug builds.
---
 src/mem_utils.rs      | 19 ++++++++++++++++---
 src/resource_store.rs |  2 +-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index cc8cf5c..d04f628 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -11,11 +11,21 @@ pub trait PtrMutReallocExt<T> {
 }
 
 pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc(mem_utils::layout_of::<T>(capacity)) as *mut T
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc(layout) as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
-    std::alloc::alloc_zeroed(self::layout_of::<T>(capacity)) as *mut T
+    let layout = self::layout_of::<T>(capacity);
+    if layout.size() == 0 {
+        return std::ptr::NonNull::dangling().as_ptr();
+    }
+
+    std::alloc::alloc_zeroed(layout) as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -48,7 +58,10 @@ pub unsafe fn realloc_with_uninit_capacity_zeroing<T>(
 }
 
 pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
-    std::alloc::dealloc(ptr as *mut u8, mem_utils::layout_of::<T>(capacity))
+    let layout = mem_utils::layout_of::<T>(capacity);
+    if layout.size() != 0 {
+        std::alloc::dealloc(ptr as *mut u8, layout)
+    }
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
diff --git a/src/resource_store.rs b/src/resource_store.rs
index 5425ca2..69aef8c 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -10,7 +10,7 @@ pub struct ResourceStore<T> {
 impl<T> ResourceStore<T> {
     pub fn new() -> ResourceStore<T> {
         ResourceStore {
-            elements: std::ptr::null_mut(),
+            elements: std::ptr::NonNull::dangling().as_ptr(),
             entities_container: EntitiesContainer::new(0),
         }
     }
-- 
2.43.0


From 6503bdc2a214c5e869a35028fd5c511cd5ea461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 16/27] fix: free the slots of a dropped resource store

The resources were dropped, the memory that held them was leaked.
---
 src/resource_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 69aef8c..0ea3649 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -88,5 +88,7 @@ impl<T> Drop for ResourceStore<T> {
 
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
         }
+
+        unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
-- 
2.43.0


From 7339815c66708ddd4f6e6c986a62c7dcaaa6d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 17/27] fix: align archetype pages for the components they hold

---
 src/archetype_data_page.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 203ef4d..8e8da6b 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -1,4 +1,6 @@
-use crate::{archetype::ArchetypesUnion, mem_utils, Archetype, archetype_layout::ArchetypeLayout};
+use std::alloc::Layout;
+
+use crate::{archetype::ArchetypesUnion, Archetype, archetype_layout::ArchetypeLayout};
 
 /// Reusable page of the components data with a fixed size (4096 Bytes), related to the concrete archetype.
 /// It contains data for all components of the some entities subset
@@ -17,7 +19,7 @@ impl ArchetypeDataPage {
     pub const PAGE_SIZE_BYTES: usize = 4096 * 4;
 
     pub(crate) fn new() -> Self {
-        let components_data_ptr = unsafe { mem_utils::alloc(Self::PAGE_SIZE_BYTES) };
+        let components_data_ptr = unsafe { std::alloc::alloc(Self::memory_layout()) };
 
         ArchetypeDataPage {
             components_data_ptr,
@@ -26,6 +28,13 @@ impl ArchetypeDataPage {
         }
     }
 
+    /// The page is aligned to its size, so any component that fits in it can be aligned
+    fn memory_layout() -> Layout {
+        unsafe {
+            Layout::from_size_align_unchecked(Self::PAGE_SIZE_BYTES, Self::PAGE_SIZE_BYTES)
+        }
+    }
+
     pub(crate) fn set_layout(&mut self, archetype: &ArchetypeLayout) {
         let capacity = archetype.entities_capacity();
         self.entities_ids.reserve(capacity);
@@ -160,6 +169,6 @@ impl ArchetypeDataPage {
 
 impl Drop for ArchetypeDataPage {
     fn drop(&mut self) {
-        unsafe { mem_utils::dealloc(self.components_data_ptr, Self::PAGE_SIZE_BYTES) };
+        unsafe { std::alloc::dealloc(self.components_data_ptr, Self::memory_layout()) };
     }
 }
-- 
2.43.0


From 1e4e17f31e3046606839469f3af3648e4206525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 18/27] fix: refuse components that do not fit in a page

---
 src/archetype_layout.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index acf7d8c..8b5294d 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -16,6 +16,8 @@ impl ArchetypeLayout {
         let entities_capacity = unsafe {
             Self::calculate_entities_capacity(sizes, aligns, component_count)
         };
+        assert!(entities_capacity > 0, "Components do not fit in a page");
+
         let offsets = unsafe {
             Self::calculate_offsets(sizes, aligns, component_count, entities_capacity)
         };
-- 
2.43.0


From e4a6f587b238a5486bb882c4b636daff6d3603fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 19/27] fix: retire an entity id when its versions are used up

---
 src/entities_container.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entities_container.rs b/src/entities_container.rs
index 071aae1..1e7bdc0 100644
--- a/src/entities_container.rs
+++ b/src/entities_container.rs
@@ -110,7 +110,9 @@ impl EntitiesContainer {
             bitvec_utils::toggle_bit(self.entity_to_is_alive_bitvec, id as usize);
         }
 
-        if id == self.next_free_id - 1 {
+        if entity.version == u32::MAX {
+            // The id has no versions left: it would give out the same handles again
+        } else if id == self.next_free_id - 1 {
             self.next_free_id = id;
         } else {
             self.gap_ids.push(id);
-- 
2.43.0


From e82607aa48dee9a5ed7e9bded43d8dcbbd828afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 20/27] fix: refuse an archetype that does not fit before
 registering an entity

---
 src/archetypes_container.rs | 4 ++--
 src/store.rs                | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/archetypes_container.rs b/src/archetypes_container.rs
index 6c55c1d..baefa52 100644
--- a/src/archetypes_container.rs
+++ b/src/archetypes_container.rs
@@ -204,7 +204,7 @@ impl ArchetypesContainer {
         self.free_pages.push(page_index);
     }
 
-    fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
+    pub fn reserve_archetype(&mut self, archetype: &Archetype) -> usize {
         for (i, arch) in self.archetypes.iter().enumerate() {
             if arch.is_same_as(&archetype) {
                 // The list is in the order of freeing, it isn't sorted
@@ -236,7 +236,7 @@ impl ArchetypesContainer {
         }
     }
 
-    fn reserve_page(
+    pub fn reserve_page(
         &mut self,
         entity_id: u32,
         archetype_index: usize,
diff --git a/src/store.rs b/src/store.rs
index 832953f..51d4cdf 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -61,8 +61,13 @@ impl Store {
     }
 
     pub fn create_entity_with_archetype(&mut self, archetype: &Archetype) -> Entity {
+        // Panics if the archetype doesn't fit in a page, so it goes before any other changes
+        let archetype_index = self.archetypes_container.reserve_archetype(archetype);
+
         let entity = self.register_new_entity();
-        let entity_in_arch = self.archetypes_container.add_entity(entity.id, archetype);
+        let entity_in_arch = self
+            .archetypes_container
+            .reserve_page(entity.id, archetype_index);
 
         unsafe {
             self.set_page_index_unchecked(entity.id, entity_in_arch.page_index);
-- 
2.43.0


From b95d2fd1e9165c2e6448e5012217eaa4009e9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 21/27] fix: components of a page in the order of their
 alignments, a set that fits is not refused because of gaps

---
 src/archetype_layout.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/archetype_layout.rs b/src/archetype_layout.rs
index 8b5294d..469f98b 100644
--- a/src/archetype_layout.rs
+++ b/src/archetype_layout.rs
@@ -62,7 +62,12 @@ impl ArchetypeLayout {
         let component_offsets: *mut usize = mem_utils::alloc(component_count);
         let mut offset = 0;
 
-        for i in 0..component_count {
+        // From the greatest alignment to the least one, so that there are no gaps
+        // between the components: the capacity doesn't take them into account
+        let mut order: Vec<usize> = (0..component_count).collect();
+        order.sort_by_key(|i| std::cmp::Reverse(*aligns.add(*i)));
+
+        for i in order {
             let size = *sizes.add(i);
             let align = *aligns.add(i);
             let align_offset = offset % align;
-- 
2.43.0


From 09eaa2abac73cbf0ff7b8a911ddc1607a78a6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 22/27] fix: turning raw pointers into references is unsafe,
 safe code could make aliasing references of any pointer

---
 src/component_tuple.rs           | 8 ++++----
 src/query/access.rs              | 8 ++++----
 src/query/component_page_iter.rs | 2 +-
 src/query/entity_component.rs    | 2 +-
 src/query/ordered_component.rs   | 2 +-
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/component_tuple.rs b/src/component_tuple.rs
index c781617..0a2d6fc 100644
--- a/src/component_tuple.rs
+++ b/src/component_tuple.rs
@@ -50,8 +50,8 @@ pub trait ComponentTuple {
     fn null_ptrs() -> Self::PtrTuple;
     fn null_ptrs_mut() -> Self::MutPtrTuple;
 
-    fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::RefTuple<'a>;
-    fn ptrs_to_refs_mut<'a>(ptrs: Self::MutPtrTuple) -> Self::MutRefTuple<'a>;
+    unsafe fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::RefTuple<'a>;
+    unsafe fn ptrs_to_refs_mut<'a>(ptrs: Self::MutPtrTuple) -> Self::MutRefTuple<'a>;
 
     fn assign_to_refs<'a>(refs: Self::MutRefTuple<'a>, values: Self);
 
@@ -215,7 +215,7 @@ macro_rules! components_tuple_impl {
             }
 
             #[inline(always)]
-            fn ptrs_to_refs<'a>(
+            unsafe fn ptrs_to_refs<'a>(
                 ($( paste!([<$T:lower>]) ),*): <($($T),*) as ComponentTuple>::PtrTuple,
             ) -> Self::RefTuple<'a> {
                 unsafe {(
@@ -226,7 +226,7 @@ macro_rules! components_tuple_impl {
             }
 
             #[inline(always)]
-            fn ptrs_to_refs_mut<'a>(
+            unsafe fn ptrs_to_refs_mut<'a>(
                 ($( paste!([<$T:lower>]) ),*): <($($T),*) as ComponentTuple>::MutPtrTuple,
             ) -> Self::MutRefTuple<'a> {
                 unsafe {(
diff --git a/src/query/access.rs b/src/query/access.rs
index 2fd2e2e..0852ca7 100644
--- a/src/query/access.rs
+++ b/src/query/access.rs
@@ -45,7 +45,7 @@ pub trait ComponentQueryAccess {
 
     fn null_ptrs() -> Self::PtrTuple;
 
-    fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::AccessOutput<'a>;
+    unsafe fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::AccessOutput<'a>;
 }
 
 impl<TRead, TWrite> ComponentQueryAccess for ReadWriteAccess<TRead, TWrite>
@@ -111,7 +111,7 @@ where
     }
 
     #[inline(always)]
-    fn ptrs_to_refs<'a>((read, write): Self::PtrTuple) -> Self::AccessOutput<'a> {
+    unsafe fn ptrs_to_refs<'a>((read, write): Self::PtrTuple) -> Self::AccessOutput<'a> {
         (TRead::ptrs_to_refs(read), TWrite::ptrs_to_refs_mut(write))
     }
 }
@@ -156,7 +156,7 @@ impl<TRead: ComponentTuple> ComponentQueryAccess for ReadonlyAccess<TRead> {
     }
 
     #[inline(always)]
-    fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::AccessOutput<'a> {
+    unsafe fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::AccessOutput<'a> {
         TRead::ptrs_to_refs(ptrs)
     }
 }
@@ -201,7 +201,7 @@ impl<TWrite: ComponentTuple> ComponentQueryAccess for WriteAccess<TWrite> {
     }
 
     #[inline(always)]
-    fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::AccessOutput<'a> {
+    unsafe fn ptrs_to_refs<'a>(ptrs: Self::PtrTuple) -> Self::AccessOutput<'a> {
         TWrite::ptrs_to_refs_mut(ptrs)
     }
 }
diff --git a/src/query/component_page_iter.rs b/src/query/component_page_iter.rs
index 0c2121d..1a882df 100644
--- a/src/query/component_page_iter.rs
+++ b/src/query/component_page_iter.rs
@@ -46,7 +46,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for ComponentPageIter<'a, T> {
         self.next_entity_index += 1;
 
         
-        return Some(T::ptrs_to_refs(ptrs));
+        return Some(unsafe { T::ptrs_to_refs(ptrs) });
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
diff --git a/src/query/entity_component.rs b/src/query/entity_component.rs
index 66a65c4..23f3553 100644
--- a/src/query/entity_component.rs
+++ b/src/query/entity_component.rs
@@ -161,7 +161,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for EntityComponentQueryIter<'a, T> {
         }
 
         let ptrs = T::add_to_ptrs(&page_view.ptrs, index_in_page as usize);
-        return Some(T::ptrs_to_refs(ptrs));
+        return Some(unsafe { T::ptrs_to_refs(ptrs) });
     }
 }
 
diff --git a/src/query/ordered_component.rs b/src/query/ordered_component.rs
index 8cf4c82..14c6569 100644
--- a/src/query/ordered_component.rs
+++ b/src/query/ordered_component.rs
@@ -201,7 +201,7 @@ impl<'a, T: ComponentQueryAccess> Iterator for OrderedComponentQueryIter<'a, T>
         let ptrs = T::add_to_ptrs(&page_view.ptrs, self.current_index_in_page as usize);
 
         self.len -= 1;
-        return Some(T::ptrs_to_refs(ptrs));
+        return Some(unsafe { T::ptrs_to_refs(ptrs) });
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 9d58dfc88f8b85c9c2e5b68f02ebedfa4b3bfe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 23/27] fix: component_types! named the type by the path of the
 crate that uses it, no other crate could use it

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index bde12c1..1fa5e8f 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -1,7 +1,7 @@
 #[macro_export]
 macro_rules! component_types {
     ($($T:ident), *) => {
-        [$(crate::ComponentType::of::<$T>()),*]
+        [$($crate::ComponentType::of::<$T>()),*]
     };
 }
 
-- 
2.43.0


From d173d3ca6413f219c323baa023eb414a4cbcd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 24/27] fix: a panicking destructor while a resource store is
 dropped leaked the other resources and the memory

---
 src/resource_store.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/resource_store.rs b/src/resource_store.rs
index 0ea3649..488aca5 100644
--- a/src/resource_store.rs
+++ b/src/resource_store.rs
@@ -86,9 +86,34 @@ impl<T> Drop for ResourceStore<T> {
                 continue;
             }
 
+            // If the destructor panics, the rest is dropped while unwinding
+            let rest = ElementsRest { store: self, first_index: i + 1 };
             unsafe { ManuallyDrop::drop(&mut self.elements.add(i).read()) };
+            std::mem::forget(rest);
         }
 
         unsafe { mem_utils::dealloc(self.elements, self.entities_container.capacity()) };
     }
 }
+
+struct ElementsRest<T> {
+    store: *const ResourceStore<T>,
+    first_index: usize,
+}
+
+impl<T> Drop for ElementsRest<T> {
+    fn drop(&mut self) {
+        unsafe {
+            let store = &*self.store;
+            let capacity = store.entities_container.capacity();
+
+            for i in self.first_index..capacity {
+                if store.entities_container.is_alive_at_index(i) {
+                    ManuallyDrop::drop(&mut store.elements.add(i).read());
+                }
+            }
+
+            mem_utils::dealloc(store.elements, capacity);
+        }
+    }
+}
-- 
2.43.0


From a87bf322e1fd7c69a7fe1b77ef4558919a5072fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 25/27] fix: a handle with an id beyond the capacity read
 memory outside of the store in builds without debug assertions

---
 src/entities_container.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities_container.rs b/src/entities_container.rs
index 1e7bdc0..da9412d 100644
--- a/src/entities_container.rs
+++ b/src/entities_container.rs
@@ -123,7 +123,8 @@ impl EntitiesContainer {
         self.debug_validate_id_with_panic(entity.id);
 
         unsafe {
-            self.validate_entity_version(entity)
+            self.validate_id(entity.id)
+                && self.validate_entity_version(entity)
                 & bitvec_utils::is_bit_on(
                     self.entity_to_is_alive_bitvec,
                     entity.id as usize,
-- 
2.43.0


From 7f343cc295c78575d3757ab43daf28b4072ddb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 26/27] fix: a refused allocation was used as memory,
 capacities that overflow got too little

---
 src/archetype_data_page.rs |  3 +++
 src/mem_utils.rs           | 19 +++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/archetype_data_page.rs b/src/archetype_data_page.rs
index 8e8da6b..7944dee 100644
--- a/src/archetype_data_page.rs
+++ b/src/archetype_data_page.rs
@@ -20,6 +20,9 @@ impl ArchetypeDataPage {
 
     pub(crate) fn new() -> Self {
         let components_data_ptr = unsafe { std::alloc::alloc(Self::memory_layout()) };
+        if components_data_ptr.is_null() {
+            std::alloc::handle_alloc_error(Self::memory_layout());
+        }
 
         ArchetypeDataPage {
             components_data_ptr,
diff --git a/src/mem_utils.rs b/src/mem_utils.rs
index d04f628..c685e24 100644
--- a/src/mem_utils.rs
+++ b/src/mem_utils.rs
@@ -16,7 +16,12 @@ pub unsafe fn alloc<T>(capacity: usize) -> *mut T {
         return std::ptr::NonNull::dangling().as_ptr();
     }
 
-    std::alloc::alloc(layout) as *mut T
+    let ptr = std::alloc::alloc(layout);
+    if ptr.is_null() {
+        std::alloc::handle_alloc_error(layout);
+    }
+
+    ptr as *mut T
 }
 
 pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
@@ -25,7 +30,12 @@ pub unsafe fn alloc_zeroed<T>(capacity: usize) -> *mut T {
         return std::ptr::NonNull::dangling().as_ptr();
     }
 
-    std::alloc::alloc_zeroed(layout) as *mut T
+    let ptr = std::alloc::alloc_zeroed(layout);
+    if ptr.is_null() {
+        std::alloc::handle_alloc_error(layout);
+    }
+
+    ptr as *mut T
 }
 
 pub unsafe fn realloc<T>(
@@ -65,10 +75,7 @@ pub unsafe fn dealloc<T>(ptr: *mut T, capacity: usize) {
 }
 
 pub unsafe fn layout_of<T>(capacity: usize) -> Layout {
-    Layout::from_size_align_unchecked(
-        std::mem::size_of::<T>() * capacity,
-        std::mem::align_of::<T>(),
-    )
+    Layout::array::<T>(capacity).expect("Capacity overflow")
 }
 
 impl<T> PtrMutReallocExt<T> for *mut T {
-- 
2.43.0


From 4d2d2048b5b9756173ad6c42b6cab1d9501448fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 27/27] fix: every inclusion of an archetype doubled the memory
 of the builder

---
 src/archetype_builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/archetype_builder.rs b/src/archetype_builder.rs
index 2d0b9c4..00aa177 100644
--- a/src/archetype_builder.rs
+++ b/src/archetype_builder.rs
@@ -42,8 +42,7 @@ impl ArchetypeBuilder {
     }
 
     pub fn include_archetype(&mut self, archetype: &Archetype) -> &mut Self {
-        self.component_types
-            .reserve(self.component_types.capacity() + archetype.component_count());
+        self.component_types.reserve(archetype.component_count());
 
         for comp in archetype.components_iter() {
             if !self.component_types.contains(&comp) {
-- 
2.43.0

