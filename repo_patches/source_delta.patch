From a2da84a4a6da73ca88afc77ee330d40a4df8271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:30 +0000
Subject: [PATCH 01/60] fix: only accept a decimal point between digits when
 compacting numeric strings

Strings such as "1_000" or "1a2" matched the number pattern because the
dot was not escaped, and came back with the character replaced by a dot.
---
 dochy_compaction/src/string_compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/string_compaction.rs b/dochy_compaction/src/string_compaction.rs
index 58fbc11..a9061a7 100644
--- a/dochy_compaction/src/string_compaction.rs
+++ b/dochy_compaction/src/string_compaction.rs
@@ -100,7 +100,7 @@ struct NumResult{
 }
 
 fn rex(s : &str) -> Option<regex::Captures>{
-    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(.?)([0-9]*))$"#).unwrap());
+    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(\.?)([0-9]*))$"#).unwrap());
 
     return RE.captures(s);
 }
-- 
2.43.0


From 7bf43887ca29116d06275e5edf9f1a3f37699f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:42 +0000
Subject: [PATCH 02/60] fix: drop the padding byte when converting a URL string
 back to bytes

The padding was removed from a copy and the padded bytes were returned.
---
 dochy_compaction/src/url_string/b8s_and_b6s.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/url_string/b8s_and_b6s.rs b/dochy_compaction/src/url_string/b8s_and_b6s.rs
index b428b48..e71b237 100644
--- a/dochy_compaction/src/url_string/b8s_and_b6s.rs
+++ b/dochy_compaction/src/url_string/b8s_and_b6s.rs
@@ -48,5 +48,5 @@ pub fn to_b8s(b6s : &[u8]) -> Vec<u8>{
     if byte_size != vec.len(){
         vec.pop();
     }
-    result.to_bytes()
+    vec
 }
\ No newline at end of file
-- 
2.43.0


From bfaac0b6b0fadc4f629883ee1e1e297cb202177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:18 +0000
Subject: [PATCH 03/60] fix: keep the next id of an emptied list when it is
 copied or rebuilt

---
 dochy_core/src/imp/structs/linked_m.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_m.rs b/dochy_core/src/imp/structs/linked_m.rs
index f8087cd..4aaf792 100644
--- a/dochy_core/src/imp/structs/linked_m.rs
+++ b/dochy_core/src/imp/structs/linked_m.rs
@@ -81,7 +81,7 @@ impl<V> LinkedMap<V> {
     }
     pub fn construct(items : Vec<(u64,V)>, next_id : u64) -> LinkedMap<V>{
         if items.is_empty(){
-            return LinkedMap::new();
+            return LinkedMap{ next_id, ..LinkedMap::new() };
         }
         let mut map : HashM<u64,Box<MutNode<V>>> = HashMt::with_capacity(items.len());
         let mut iter = items.into_iter();
@@ -388,7 +388,7 @@ impl<V> LinkedMap<V> {
 
 impl<V : Clone> Clone for LinkedMap<V>{
     fn clone(&self) -> Self {
-        if self.map.is_empty(){ return LinkedMap::new() }
+        if self.map.is_empty(){ return LinkedMap{ next_id : self.next_id, ..LinkedMap::new() } }
         let mut map = self.map.clone();
         let first_node = map.get_mut(&self.first_id().unwrap()).unwrap().as_mut() as *mut _;
         let last_node = map.get_mut(&self.last_id().unwrap()).unwrap().as_mut() as *mut _;
-- 
2.43.0


From c2d5fa0c35b5dbcc2af047b8e56c27ecb58c80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:34 +0000
Subject: [PATCH 04/60] fix: report the last position correctly from list
 iterators

---
 dochy_core/src/imp/structs/linked_map_iter.rs     | 2 +-
 dochy_core/src/imp/structs/linked_map_iter_mut.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_map_iter.rs b/dochy_core/src/imp/structs/linked_map_iter.rs
index e3f8050..7af002f 100644
--- a/dochy_core/src/imp/structs/linked_map_iter.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter.rs
@@ -39,7 +39,7 @@ impl<'a, V> LinkedMapIter<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIter<'a, V>{
diff --git a/dochy_core/src/imp/structs/linked_map_iter_mut.rs b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
index 6d9754b..672200d 100644
--- a/dochy_core/src/imp/structs/linked_map_iter_mut.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
@@ -36,7 +36,7 @@ impl<'a, V> LinkedMapIterMut<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIterMut<'a, V>{
-- 
2.43.0


From da44f28cb20f20c436afe7f93342a7d3184340e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:34 +0000
Subject: [PATCH 05/60] fix: step backwards in the mutable list iterator's prev

---
 dochy_core/src/imp/intf/mlist_iter_mut.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/intf/mlist_iter_mut.rs b/dochy_core/src/imp/intf/mlist_iter_mut.rs
index b7c5660..699bde9 100644
--- a/dochy_core/src/imp/intf/mlist_iter_mut.rs
+++ b/dochy_core/src/imp/intf/mlist_iter_mut.rs
@@ -29,7 +29,7 @@ impl<'a, V : From<MItemPtr>> MListIterMut<'a, V>{
             MItemMut::from_phantom(v, self.phantom)))
     }
     pub fn prev(&mut self) -> Option<(u64, MItemMut<'a, V>)> {
-        self.ptr.next_mut().map(|(id, v)| (
+        self.ptr.prev_mut().map(|(id, v)| (
             id,
             MItemMut::from_phantom(v, self.phantom)))
     }
-- 
2.43.0


From a025b384b4a296326e84407072163425816baca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:28 +0000
Subject: [PATCH 06/60] fix: read item diffs that change a nested list among
 many members

---
 dochy_diff/src/imp/read/read_list.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dochy_diff/src/imp/read/read_list.rs b/dochy_diff/src/imp/read/read_list.rs
index 4aeacf0..559666c 100644
--- a/dochy_diff/src/imp/read/read_list.rs
+++ b/dochy_diff/src/imp/read/read_list.rs
@@ -87,8 +87,6 @@ fn read_list_item2(r : &mut Reader, meta : &MetaTables) -> Result<ListItemDiffR,
             for &id in &n{
                 if let Some((_,MetaValue::Param(p))) = meta.items().get(id){
                     params.push((id, read_param(p, r)?));
-                } else {
-                    Err("invalid meta read_list_item2")?
                 }
             }
             read_lists_numbers(r, meta.items(), &n, &mut lists)?;
-- 
2.43.0


From 6c96b8e486ae1e972353f108e3ba268bb62a9720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:46 +0000
Subject: [PATCH 07/60] fix: see a change between 0.0 and -0.0 when comparing
 documents

---
 dochy_core/src/imp/structs/rust_array.rs                | 2 +-
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/rust_array.rs b/dochy_core/src/imp/structs/rust_array.rs
index 98e0a76..2e81425 100644
--- a/dochy_core/src/imp/structs/rust_array.rs
+++ b/dochy_core/src/imp/structs/rust_array.rs
@@ -73,7 +73,7 @@ impl RustFloatArray{
 
 impl IdentityEqual for RustFloatArray{
     fn identity_eq(&self, other: &Self) -> bool {
-        self.b == other.b
+        self.b.len() == other.b.len() && self.b.iter().zip(other.b.iter()).all(|(l, r)| l.identity_eq(r))
     }
 }
 
diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index 15de962..dd457a0 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -42,8 +42,9 @@ impl IdentityEqual for i64{
 }
 
 impl IdentityEqual for f64{
+    /// compares the bits, so that 0.0 and -0.0 are different values
     fn identity_eq(&self, other: &Self) -> bool {
-        self == other
+        self.to_bits() == other.to_bits()
     }
 }
 
-- 
2.43.0


From 05645b791d726a9815adfb48f7fdc298bb1962d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:46 +0000
Subject: [PATCH 08/60] fix: record the next id of a list whose items are
 unchanged

---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index bc8d9c3..fa419a6 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -26,7 +26,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
         prev_id = Some(id)
     }
 
-    if result.len() == 0{
+    if result.len() == 0 && from.next_id() == to.next_id(){
         None
     } else {
         Some(ListDiffW::new(result, meta, to.next_id()))
-- 
2.43.0


From 38fc986bd528c9a03949b41e95668baa73975275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:46 +0000
Subject: [PATCH 09/60] fix: record the new order of moved list items in diffs

---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 34 ++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index fa419a6..0355a37 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -2,13 +2,18 @@ use crate::imp::structs_write::{ListDiffW, ListItemDiffEnumW, BS};
 use dochy_core::structs::{ListDefObj, LinkedMap, MutItem, MetaTables};
 use crate::imp::prepare::compare_items::compare_items;
 use crate::imp::prepare::new_item::new_item;
+use std::collections::{HashMap, HashSet};
 
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
     let mut result : Vec<(u64, ListItemDiffEnumW)> = Vec::new();
+    let moved = get_moved_ids(from, to);
     for (&id, from_item) in from {
-        if let Some(to_item) = to.get_item(id) {
+        if moved.contains(&id) {
+            //created again at the new position
+            result.push((id, ListItemDiffEnumW::Delete));
+        } else if let Some(to_item) = to.get_item(id) {
             if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
             }
@@ -19,7 +24,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false{
+        if from.contains_key(id) == false || moved.contains(&id){
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
@@ -33,5 +38,30 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
     }
 }
 
+/// Finds the items which must be moved to turn the order of "from" to the order of "to".
+/// The items of the longest common order stay where they are.
+fn get_moved_ids(from : &LinkedMap<MutItem>, to : &LinkedMap<MutItem>) -> HashSet<u64>{
+    let from_order : Vec<u64> = from.iter().map(|(&id,_)| id).filter(|&id| to.contains_key(id)).collect();
+    let to_order : Vec<u64> = to.iter().map(|(&id,_)| id).filter(|&id| from.contains_key(id)).collect();
+    if from_order == to_order{
+        return HashSet::new();
+    }
 
+    let position : HashMap<u64, usize> = from_order.iter().enumerate().map(|(i, &id)| (id, i)).collect();
+    //tails[n] is the last index of the best increasing sequence which has n+1 items
+    let mut tails : Vec<usize> = Vec::new();
+    let mut prev : Vec<Option<usize>> = Vec::with_capacity(to_order.len());
+    for (i, id) in to_order.iter().enumerate(){
+        let n = tails.partition_point(|&t| position[&to_order[t]] < position[id]);
+        prev.push(if n == 0{ None } else{ Some(tails[n - 1]) });
+        if n == tails.len(){ tails.push(i) } else{ tails[n] = i }
+    }
 
+    let mut moved : HashSet<u64> = to_order.iter().copied().collect();
+    let mut current = tails.last().copied();
+    while let Some(i) = current{
+        moved.remove(&to_order[i]);
+        current = prev[i];
+    }
+    moved
+}
-- 
2.43.0


From 2476cdf7534c5db3691d226307ea1e11e8d33bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:43 +0000
Subject: [PATCH 10/60] fix: take diffs of documents with undefiable lists

---
 dochy_diff/src/imp/prepare/get_root_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_root_diff.rs b/dochy_diff/src/imp/prepare/get_root_diff.rs
index b2690b3..232c268 100644
--- a/dochy_diff/src/imp/prepare/get_root_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_root_diff.rs
@@ -1,4 +1,4 @@
-use dochy_core::structs::{RootObject, RootValue, RustParam, MetaValue, RootSabValue};
+use dochy_core::structs::{RootObject, RootValue, RustParam, RootSabValue};
 use std::collections::BTreeMap;
 use crate::imp::structs_write::{RootDiffW, ListDiffW};
 use crate::diff_error::DiffError;
@@ -50,7 +50,7 @@ pub(crate) fn get_root_diff<'a, 'b>(from : &'a RootObject, to : &'b RootObject)
                 let (&id, mdef) = if let Some((id, RootValue::MList(mdef))) = def.get(key) { (id, mdef) } else {
                     panic!("invalid def");
                 };
-                let meta = if let Some((_key, MetaValue::MList(meta))) = meta.get(id) { meta } else {
+                let meta = if let Some(tables) = meta.get_tables(id) { tables } else {
                     panic!("invalid meta");
                 };
 
-- 
2.43.0


From f6a3e9a59f1da484e7714902e94479642449e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:08 +0000
Subject: [PATCH 11/60] fix: record in diffs that setting an enum removed the
 previous reference

---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index 0355a37..b7d3399 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -14,7 +14,10 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
             //created again at the new position
             result.push((id, ListItemDiffEnumW::Delete));
         } else if let Some(to_item) = to.get_item(id) {
-            if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
+            if has_lost_ref(from_item, to_item) {
+                //created again without the ref
+                result.push((id, ListItemDiffEnumW::Delete));
+            } else if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
             }
         } else {
@@ -24,7 +27,8 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false || moved.contains(&id){
+        let lost_ref = from.get_item(id).map_or(false, |from_item| has_lost_ref(from_item, to_item));
+        if from.contains_key(id) == false || moved.contains(&id) || lost_ref {
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
@@ -38,6 +42,11 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
     }
 }
 
+/// Setting an enum removes the ref which was set before, and a modification can't express removal.
+fn has_lost_ref(from : &MutItem, to : &MutItem) -> bool{
+    from.refs().keys().any(|key| to.refs().contains_key(key) == false)
+}
+
 /// Finds the items which must be moved to turn the order of "from" to the order of "to".
 /// The items of the longest common order stay where they are.
 fn get_moved_ids(from : &LinkedMap<MutItem>, to : &LinkedMap<MutItem>) -> HashSet<u64>{
-- 
2.43.0


From 593d360e0190007b289564dfe386f334ac39ec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:36 +0000
Subject: [PATCH 12/60] fix: refuse references that the declaration or the
 table does not permit

---
 dochy_core/src/imp/intf/mitem.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/intf/mitem.rs b/dochy_core/src/imp/intf/mitem.rs
index 6841811..d368304 100644
--- a/dochy_core/src/imp/intf/mitem.rs
+++ b/dochy_core/src/imp/intf/mitem.rs
@@ -373,11 +373,24 @@ pub fn get_param_mut<'a>(ps : MItemPtr, name : &str) -> Option<&'a mut RustParam
 }
 
 pub fn set_ref(ps : MItemPtr, list_name : &str, id : Qv<String>) -> bool{
+    if is_acceptable_ref(ps, list_name, &id) == false{ return false; }
     let item = unsafe{ ps.item_mut() };
     item.refs_mut().insert(list_name.to_string(), RefSabValue::new(id));
     return true;
 }
 
+/// Checks if the ref is declared, the declaration permits the value, and the table has the entry
+fn is_acceptable_ref(ps : MItemPtr, list_name : &str, id : &Qv<String>) -> bool{
+    let list_def = unsafe{ &*ps.list_def };
+    let ref_def = if let Some(d) = list_def.refs().refs().get(list_name){ d } else{ return false; };
+    if ref_def.var_type().acceptable(&id.qv_type()) == false{ return false; }
+    if let Qv::Val(id) = id{
+        super::root::get_table(ps.root_def, list_name).and_then(|t| super::table::get_value(t, id)).is_some()
+    } else{
+        true
+    }
+}
+
 pub fn get_ref(ps : MItemPtr, list_name : &str) -> Option<Qv<CItemPtr>>{
     let qv = get_ref_id(ps, list_name)?;
     qv.opt_map(|id|{
@@ -397,9 +410,11 @@ pub fn get_enum(ps : MItemPtr) -> Option<(String, String)>{
 }
 
 pub fn set_enum(ps : MItemPtr, list_name : &str, id : &str) -> bool{
+    let id = Qv::Val(id.to_string());
+    if is_acceptable_ref(ps, list_name, &id) == false{ return false; }
     let item = unsafe{ ps.item_mut() };
     item.refs_mut().clear();
-    set_ref(ps, list_name, Qv::Val(id.to_string()))
+    set_ref(ps, list_name, id)
 }
 
 /// Sets itinital value(0, empty string, zero-filled vec) to the parameter.
-- 
2.43.0


From 14d83eb77db5e9ed733eaa733eacd9b447905488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:42:04 +0000
Subject: [PATCH 13/60] fix: read the tag of a history file name completely

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index ccab0a8..a8c98ea 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -99,7 +99,7 @@ fn get_tag(s : &str) -> Option<&str>{
     }
     for (i,c) in bytes.iter().skip(1).enumerate(){
         if *c == '#' as u8{
-            return Some(&s[1..i])
+            return Some(&s[1..i+1])
         }
     }
     return None;
-- 
2.43.0


From 40b075f0bfccfd3e9791b7b916a10390b6328c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:59 +0000
Subject: [PATCH 14/60] fix: read back history file names whose tag contains
 '#'

---
 .../src/imp/history/file_name/analyze_file_name.rs     | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index a8c98ea..087158f 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -97,12 +97,10 @@ fn get_tag(s : &str) -> Option<&str>{
     if first != '#' as u8{
         return None;
     }
-    for (i,c) in bytes.iter().skip(1).enumerate(){
-        if *c == '#' as u8{
-            return Some(&s[1..i+1])
-        }
-    }
-    return None;
+    //tagは'#'を含みうるが、tagより後ろに'#'はないので、最後の'#'がtagの終端である
+    let last = s.rfind('#')?;
+    if last == 0{ return None; }
+    return Some(&s[1..last]);
 }
 
 fn get_prev_ctl(s : &str) -> Option<&str>{
-- 
2.43.0


From fa6c7f44a76a17c25c9084329b4a1ce88e9b81ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:21 +0000
Subject: [PATCH 15/60] fix: save after loading an older entry of the last
 phase

---
 .../imp/history/pub_fn/save_history_file.rs   | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 32dabea..0279326 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -1,9 +1,10 @@
 use crate::error::FsResult;
-use crate::history::{get_peekable_info};
+use crate::history::{get_peekable_info, FileHistory, HistoryOptions};
 use dochy_core::structs::RootObject;
 use crate::imp::history::fs::start_new::start_new as fs_start_new;
 use crate::imp::history::file_name::file_name_props::FileNameProps;
 use crate::imp::history::file_hist::create_file_history::create_file_history;
+use crate::imp::history::file_hist::ancestors::create_ancestors;
 use crate::imp::history::fs::derive_impl::derive_impl;
 use std::sync::Weak;
 use crate::imp::history::history_info::HistoryInfo;
@@ -94,14 +95,7 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     if let Some(info) = current_root_obj {
         if root_id.ptr_eq(info.current_root_id()) {
             let history = create_file_history(&history_hash_dir, opt.max_phase(), opt.is_cumulative())?;
-            if let Some(newest) = history.get_newest_prop() {
-                let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
-                    //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
-                    history.get_parent(info.current_base_file()).ok_or("no parents found")?
-                } else {
-                    info.current_base_file()
-                };
-
+            if let Some(from) = get_base_to_derive(&history, info.current_base_file(), &opt)? {
                 let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
                 *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
 
@@ -114,3 +108,19 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
     return Ok(saved);
 }
+
+/// the file to derive from. None if there is nothing to derive from, and a new phase-0 file is needed
+fn get_base_to_derive<'a>(history : &'a FileHistory,
+                          base : &'a FileNameProps,
+                          opt : &HistoryOptions) -> FsResult<Option<&'a FileNameProps>> {
+    let newest = if let Some(newest) = history.get_newest_prop() { newest } else { return Ok(None); };
+    if base.phase() != opt.max_phase() || base == newest {
+        return Ok(Some(base));
+    }
+    if opt.max_phase() == 0 {
+        return Ok(None);
+    }
+    //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
+    let ancestors = create_ancestors(history, base, opt.max_phase(), opt.is_cumulative())?;
+    Ok(Some(ancestors[opt.max_phase() - 1]))
+}
-- 
2.43.0


From 33a2bf46a621d94645913cd7d5e0541e2665709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:21 +0000
Subject: [PATCH 16/60] fix: save a document whose base entry was removed

---
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 0279326..07cfe5f 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -113,6 +113,10 @@ fn save_history_file_impl(history_info: &HistoryInfo,
 fn get_base_to_derive<'a>(history : &'a FileHistory,
                           base : &'a FileNameProps,
                           opt : &HistoryOptions) -> FsResult<Option<&'a FileNameProps>> {
+    if history.get_props(base.control(), base.order()) != Some(base) {
+        //派生元がすでに削除されている
+        return Ok(None);
+    }
     let newest = if let Some(newest) = history.get_newest_prop() { newest } else { return Ok(None); };
     if base.phase() != opt.max_phase() || base == newest {
         return Ok(Some(base));
-- 
2.43.0


From dca26b5517661b07d2d43525b06a942f8cfb6436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:21 +0000
Subject: [PATCH 17/60] fix: name the parent of entries saved after a derived
 entry without cumulative

---
 dochy_fs/src/imp/history/file_hist/ancestors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/ancestors.rs b/dochy_fs/src/imp/history/file_hist/ancestors.rs
index 6bff18c..0f7b6b2 100644
--- a/dochy_fs/src/imp/history/file_hist/ancestors.rs
+++ b/dochy_fs/src/imp/history/file_hist/ancestors.rs
@@ -71,7 +71,8 @@ pub(crate) fn create_dependencies<'a,'b>(ancestors : &'b[&'a FileNameProps],
         prev_ctl = last_prop.control();
     } else if next_phase == max_phase{
         *order.last_mut().unwrap() += 1;
-        prev_ctl = last_prop.control();
+        //cumulativeでない場合の親は、last_propではなくlast_propの親である
+        prev_ctl = if cumulative { last_prop.control() } else { last_prop.prev_ctl() };
     } else {
         order = order[0..next_phase+1].to_vec();
         *order.last_mut().unwrap() += 1;
-- 
2.43.0


From fcbe8b524c40c1cb7c4eab39f8e71bdf068b88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:21 +0000
Subject: [PATCH 18/60] fix: save with a limit_nth larger than the number of
 phases

---
 dochy_fs/src/imp/history/algo/phase_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/algo/phase_data.rs b/dochy_fs/src/imp/history/algo/phase_data.rs
index cf74d7c..9fd7d09 100644
--- a/dochy_fs/src/imp/history/algo/phase_data.rs
+++ b/dochy_fs/src/imp/history/algo/phase_data.rs
@@ -77,7 +77,7 @@ impl PhaseData{
 
         sizes.sort_by_key(|a| *a);
 
-        sizes.get(sizes.len() - nth).map(|a| *a)
+        sizes.len().checked_sub(nth).and_then(|i| sizes.get(i)).map(|a| *a)
     }
 }
 
-- 
2.43.0


From 39d224ce8c7da432d2899c30f929c4fa10102f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:09 +0000
Subject: [PATCH 19/60] fix: read back history file names with numbers of nine
 and more digits

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index 087158f..6f72948 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -130,13 +130,11 @@ fn get_num(s : &[u8]) -> Option<(u32, usize)>{
 
         let b = s[i];
         if '0' as u8 <= b && b <= '9' as u8{
-            result *= 10;
-            result += (b - '0' as u8) as u32;
+            result = result.checked_mul(10)?.checked_add((b - '0' as u8) as u32)?; //オーバーフローは避ける
         } else{
             return Some((result, i));
         }
         i += 1;
-        if i == 10{ return None; } //オーバーフローは避ける
     }
 
 
-- 
2.43.0


From e8c43dfe130bf37a97fbb92ceb1347f0fa0f8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:09 +0000
Subject: [PATCH 20/60] fix: ignore files whose name is not exactly that of a
 history file

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index 6f72948..ca3aa08 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -47,6 +47,7 @@ pub(crate) fn analyze_file_name(s : &str, hint_max_phase : Option<usize>) -> Opt
     if s.ends_with(".his") == false{
         return None;
     }
+    let file_name = s;
 
     let tag = get_tag(s);
 
@@ -82,7 +83,10 @@ pub(crate) fn analyze_file_name(s : &str, hint_max_phase : Option<usize>) -> Opt
             if s == ".his" && order.len() != 0{
                 if let Ok(props) = FileNameProps::new(n, prev_ctl,
                                                       order, tag.map(|t| t.to_string())){
-                    return Some(props);
+                    //ファイル名を正確に復元できないものはhistory fileではない
+                    if props.calc_filename() == file_name {
+                        return Some(props);
+                    }
                 }
             }
             return None;
-- 
2.43.0


From 6181cd5443eed431b8e6f009fe1122a6513a4871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:08 +0000
Subject: [PATCH 21/60] fix: keep the parents of kept history entries when
 removing

---
 dochy_fs/src/imp/history/remove/history_remover_item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover_item.rs b/dochy_fs/src/imp/history/remove/history_remover_item.rs
index 6362c88..71bb1f5 100644
--- a/dochy_fs/src/imp/history/remove/history_remover_item.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover_item.rs
@@ -81,7 +81,7 @@ impl<'a> HistoryRemoverItem<'a>{
                        cur_phase : usize, max_phase : usize, cumulative_option : bool) -> HistoryRemoverItem<'a>{
 
         let r = composite_remover(src.items(), src.children(), cur_phase, max_phase, cumulative_option);
-        let cumulative = cur_phase == max_phase && cumulative_option;
-        HistoryRemoverItem::new(cumulative, props,  r)
+        //cur_phaseは子のphaseである。子を持つアイテムは最終phaseではないので、cumulativeではない
+        HistoryRemoverItem::new(false, props,  r)
     }
 }
-- 
2.43.0


From 6350252983648077630a9f86daec8c33a9a27479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:42 +0000
Subject: [PATCH 22/60] fix: keep earlier cumulative entries when removing with
 max_phase 0

---
 dochy_fs/src/imp/history/remove/history_remover.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover.rs b/dochy_fs/src/imp/history/remove/history_remover.rs
index 919ffe6..2dcf2c5 100644
--- a/dochy_fs/src/imp/history/remove/history_remover.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover.rs
@@ -70,15 +70,12 @@ impl<'a> HistoryRemoverCtlItem<'a>{
     }
 
     pub(crate) fn get_item_from_cue(&self, cue_order : &[u32], cue_order_last : Option<u32>) -> Option<&'a HistoryRemoverItem>{
-        let mut item = self.items.get(cue_order.get(0)?)?;
+        let mut order = cue_order.iter().chain(cue_order_last.iter());
+        let mut item = self.items.get(order.next()?)?;
 
-        for ind in &cue_order[1..]{
+        for ind in order{
             item = item.children().get(ind)?;
         }
-
-        if let Some(ind) = cue_order_last{
-            item = item.children().get(&ind)?;
-        }
         Some(item)
     }
 
-- 
2.43.0


From 4a030dd601edd4349970cca24cec3e8b7ead95eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:59 +0000
Subject: [PATCH 23/60] fix: adjust nested lists with their own definition

---
 .../src/imp/version_adjuster/adjust_mut_list_item_sabun.rs  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 94b8d4e..6b2fb98 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -50,7 +50,11 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
             ListSabValue::Mil(op) =>{
                 match op{
                     Some(im) =>{
-                        let new = adjust_mut_list(def, im, &names.append(def_key))?;
+                        let mil_def = match def_v{
+                            ListDefValue::MilDef(mil_def) => mil_def,
+                            _ =>{ Err(format!("{} {} is not a list in the new version", names, def_key))? }
+                        };
+                        let new = adjust_mut_list(mil_def.default(), im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
-- 
2.43.0


From 0babee9b24d6eb7560066afe92871b7daba68ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:43 +0000
Subject: [PATCH 24/60] fix: keep default values of existing list members when
 versions are adjusted

---
 .../src/imp/version_adjuster/adjust_mut_list.rs    | 10 +++++-----
 .../version_adjuster/adjust_mut_list_item_ref.rs   |  6 ++++--
 .../version_adjuster/adjust_mut_list_item_sabun.rs | 14 ++++++++++----
 .../src/imp/version_adjuster/version_adjuster.rs   |  6 +++++-
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
index d69776c..4bdacb6 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list.rs
@@ -8,14 +8,14 @@ use crate::imp::structs::linked_m::LinkedMap;
 use std::sync::Arc;
 
 
-pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
+pub(crate) fn adjust_mut(def : &ListDefObj, old_def : Option<&ListDefObj>, old_list : &mut LinkedMap<MutItem>, names : &Names) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(old_list.len());
     let next_id = old_list.next_id();
     for (id, value) in old_list{
         let (sabun, refs) = value.muts();
 
-        let new_sabun = adjust_mut_list_item_sabun(def, sabun, names)?;
-        let new_refs = adjust_mut_list_item_ref(def.refs(), refs, names)?;
+        let new_sabun = adjust_mut_list_item_sabun(def, old_def, sabun, names)?;
+        let new_refs = adjust_mut_list_item_ref(def.refs(), old_def.map(|d| d.refs()), refs, names)?;
         result.push((*id, MutItem::new(new_sabun, new_refs)));
     }
     return Ok(LinkedMap::construct(result, next_id));
@@ -29,11 +29,11 @@ pub(crate) fn adjust_mut(def : &ListDefObj, old_list : &mut LinkedMap<MutItem>,
 //     Ok(MutListVal::new(new_list))
 // }
 
-pub(crate) fn adjust_mut_list(def : &ListDefObj, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
+pub(crate) fn adjust_mut_list(def : &ListDefObj, old_def : Option<&ListDefObj>, old : MutListVal, names : &Names) -> CoreResult<MutListVal>{
     let mut old_list = old.deconstruct();
     let old_list = Arc::make_mut(&mut old_list);
 
-    let new_list = adjust_mut(def, old_list, names)?;
+    let new_list = adjust_mut(def, old_def, old_list, names)?;
     //let next_id = new_list.len() as u64;
     Ok(MutListVal::new(new_list))
 }
\ No newline at end of file
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
index 499f6b2..77c955e 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_ref.rs
@@ -6,14 +6,16 @@ use crate::imp::structs::ref_value::RefSabValue;
 use crate::imp::structs::qv::Qv;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 
-pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
+pub(crate) fn adjust_mut_list_item_ref(def : &RefDefObj, old_def : Option<&RefDefObj>, old_ref : &mut HashM<String, RefSabValue>, _names : &Names) -> CoreResult<HashM<String, RefSabValue>>{
 
     //事前に大きさが決定できないが、refのusecaseだとundefinedは少なく、default値のままが多いと思うので、sabunのlenを使う
     let mut result : HashM<String, RefSabValue> = HashMt::with_capacity(old_ref.len());
 
     for (def_key,_, def_v) in def.refs(){
         let sabun_v = if let Some(v) = old_ref.remove(def_key){ v } else {
-            if def_v.var_type().undefiable(){
+            //refs which exist in the old version have their default values
+            let is_new = old_def.map_or(true, |d| d.refs().contains_key(def_key) == false);
+            if is_new && def_v.var_type().undefiable(){
                 RefSabValue::new(Qv::Undefined)
             } else{
                 continue;
diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 6b2fb98..d8e5c75 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -7,7 +7,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 use crate::imp::structs::util::hash_m::{HashM, HashMt};
 use crate::imp::structs::list_sab_value::ListSabValue;
 
-pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
+pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_def : Option<&ListDefObj>, old_sabun : &mut HashM<String, ListSabValue>, names : &Names) -> CoreResult<HashM<String, ListSabValue>>{
 
 
     //デフォルトから変化しない場合はsabunには加わらないが、sabun.len()だと、
@@ -22,16 +22,18 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
 
     for (def_key,_, def_v) in def.default(){
         let sabun_v = if let Some(v) = old_sabun.remove(def_key){ v } else {
+            //members which exist in the old version have their default values
+            let is_new = old_def.map_or(true, |d| d.default().contains_key(def_key) == false);
             match def_v{
                 ListDefValue::Param(p, vt) =>{
-                    if vt.undefiable(){
+                    if is_new && vt.undefiable(){
                         ListSabValue::Param(p.to_undefined())
                     } else{
                         continue;
                     }
                 },
                 ListDefValue::MilDef(mut_def) =>{
-                    if mut_def.undefiable(){
+                    if is_new && mut_def.undefiable(){
                         ListSabValue::Mil(None)
                     } else{
                         continue;
@@ -54,7 +56,11 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
                             ListDefValue::MilDef(mil_def) => mil_def,
                             _ =>{ Err(format!("{} {} is not a list in the new version", names, def_key))? }
                         };
-                        let new = adjust_mut_list(mil_def.default(), im, &names.append(def_key))?;
+                        let old_mil_def = match old_def.and_then(|d| d.default().get(def_key)){
+                            Some(ListDefValue::MilDef(d)) => Some(d.default()),
+                            _ => None,
+                        };
+                        let new = adjust_mut_list(mil_def.default(), old_mil_def, im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
diff --git a/dochy_core/src/imp/version_adjuster/version_adjuster.rs b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
index 799ea62..577f1a2 100644
--- a/dochy_core/src/imp/version_adjuster/version_adjuster.rs
+++ b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
@@ -61,7 +61,11 @@ pub fn adjust_versions(new : RootObject, old : RootObject, validation : bool) ->
                 if undef == false {
                     if let Some(RootSabValue::Mut(m_val)) = old_sabun.remove(def_key) {
                         if let Some(m_val) = m_val {
-                            let new_m = adjust_mut_list(m.default(), m_val, &Names::new(def_key))?;
+                            let old_m = match old_def.get(def_key){
+                                Some(RootValue::MList(old_m)) => Some(old_m.default()),
+                                _ => None,
+                            };
+                            let new_m = adjust_mut_list(m.default(), old_m, m_val, &Names::new(def_key))?;
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(Some(new_m)));
                         } else{
                             sabun.insert(def_key.to_string(),RootSabValue::Mut(None));
-- 
2.43.0


From 9182f76cfa383f86861de9ade0810aaa9c0f3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:59 +0000
Subject: [PATCH 25/60] fix: diff items which lost values of the initial item

---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index b7d3399..7679666 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -14,8 +14,8 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
             //created again at the new position
             result.push((id, ListItemDiffEnumW::Delete));
         } else if let Some(to_item) = to.get_item(id) {
-            if has_lost_ref(from_item, to_item) {
-                //created again without the ref
+            if has_lost_member(from_item, to_item) {
+                //created again without the member
                 result.push((id, ListItemDiffEnumW::Delete));
             } else if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
@@ -27,8 +27,8 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        let lost_ref = from.get_item(id).map_or(false, |from_item| has_lost_ref(from_item, to_item));
-        if from.contains_key(id) == false || moved.contains(&id) || lost_ref {
+        let lost_member = from.get_item(id).map_or(false, |from_item| has_lost_member(from_item, to_item));
+        if from.contains_key(id) == false || moved.contains(&id) || lost_member {
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
@@ -42,8 +42,10 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
     }
 }
 
-/// Setting an enum removes the ref which was set before, and a modification can't express removal.
-fn has_lost_ref(from : &MutItem, to : &MutItem) -> bool{
+/// Setting an enum removes the ref which was set before, an item of an older version doesn't have
+/// the values of the initial item which has the same ID, and a modification can't express removal.
+fn has_lost_member(from : &MutItem, to : &MutItem) -> bool{
+    from.values().keys().any(|key| to.values().contains_key(key) == false) ||
     from.refs().keys().any(|key| to.refs().contains_key(key) == false)
 }
 
-- 
2.43.0


From a97384597612bdac34cb541f96bd30eec991bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:48 +0000
Subject: [PATCH 26/60] fix: check null and undefined values of root members
 when validating

---
 dochy_core/src/imp/json_to_rust/validation/validate_root.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
index 9fd7f26..2cd76a1 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
@@ -33,12 +33,15 @@ pub(crate) fn validate_root(root : &RootObject, can_use_old: bool) -> CoreResult
         //RootはOldでも値を入れざるを得ないので入れて良い
         //なのでここではOldは無視
         match val {
-            RootValue::Param(p, _) => {
+            RootValue::Param(p, vt) => {
                 if let Some(sab) = root.sabun().get(name) {
                     if let RootSabValue::Param(sab) = sab {
                         if p.acceptable(sab) == false {
                             Err(format!("Root's member {}'s sabun is invalid", name))?
                         }
+                        if vt.acceptable(&sab.qv_type()) == false {
+                            Err(format!("Root's member {} can't have the null or undefined value", name))?
+                        }
                     } else {
                         Err(format!("Root's member {} is not a param", name))?
                     }
-- 
2.43.0


From a2b5bbd2e83f373f7bf3a88119fca3f30dd16165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:16 +0000
Subject: [PATCH 27/60] fix: don't underflow on directory names which are not
 hashes

---
 dochy_fs/src/imp/common/path/hash.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/hash.rs b/dochy_fs/src/imp/common/path/hash.rs
index f7a44b7..37c1ad1 100644
--- a/dochy_fs/src/imp/common/path/hash.rs
+++ b/dochy_fs/src/imp/common/path/hash.rs
@@ -17,17 +17,12 @@ fn hex_to_u64(s : &[u8]) -> Option<u64>{
     loop{
         r <<= 4;
         let b = s[index];
-        let num = b - '0' as u8;
-        if num <= 9 {
-            r += num as u64;
-        } else{
-            let num = b - 'a' as u8;
-            if num <= 5{
-                r += 10 + num as u64;
-            } else{
-                return None;
-            }
-        }
+        let num = match b{
+            b'0'..=b'9' => b - b'0',
+            b'a'..=b'f' => 10 + (b - b'a'),
+            _ => return None,
+        };
+        r += num as u64;
         if index == 15{
             return Some(r);
         }
-- 
2.43.0


From 918ce6f3f06aea30ad9616e3f041d1e9cba024cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:17 +0000
Subject: [PATCH 28/60] fix: refuse to save a document over a system file

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index 8ebcb68..f570ed0 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -6,6 +6,7 @@ use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
+use crate::imp::common::path::reserved_filename::is_reserved_filename;
 
 
 /// saves a Dochy file.
@@ -13,6 +14,9 @@ pub fn save_dochy_file(info : &SaveDirInfo,
                        file_name : &str,
                        root: &RootObject,
                        overwrite : bool) -> FsResult<PathBuf>{
+    if is_reserved_filename(file_name){
+        Err(format!("{} couldn't be saved. {} is a system file.", file_name, file_name))?
+    }
     let mutex = get_mutex(info.save_dir()).unwrap();
     let info = mutex.cache();
     let save_dir = info.save_dir();
-- 
2.43.0


From 0727fe8861de79dc441967894734bd0e47cb1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:22 +0000
Subject: [PATCH 29/60] fix: load history files of older versions with their
 own source

---
 .../imp/history/pub_fn/load_history_file.rs   | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
index 5bbc963..bf5f00a 100644
--- a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
@@ -18,15 +18,30 @@ pub fn load_history_file(history_info : &HistoryInfo,
                          history : &FileHistory,
                          validation : bool) -> FsResult<RootObject> {
 
+    let hash = history_info.hash();
+    load_history_file_of_hash(history_info, hash, props, history, validation)
+}
+
+fn load_history_file_of_hash(history_info : &HistoryInfo,
+                             hash : u128,
+                             props : &FileNameProps,
+                             history : &FileHistory,
+                             validation : bool) -> FsResult<RootObject> {
+
     let mut guard = get_mutex(history_info.history_dir()).unwrap();
     let c = guard.peekable();
-    let hash = c.hash();
+    let current_hash = c.hash();
     let op = c.history_options().clone();
     let (cache,h) = guard.muts();
     match load_impl(history_info.history_dir(), hash,
                     props, history, cache, &op, validation){
         Ok(root) =>{
-            *h = Some(CurrentRootObjInfo::new(root.id(), props.clone()));
+            //the next file can't be derived from the file of another version
+            *h = if hash == current_hash{
+                Some(CurrentRootObjInfo::new(root.id(), props.clone()))
+            } else{
+                None
+            };
             Ok(root)
         },
         Err(e) => Err(e),
@@ -59,5 +74,5 @@ fn load_impl<P : AsRef<Path>>(history_dir : P,
 pub fn load_history_file_data(history_info : &HistoryInfo,
                               data : &HistoryFileData,
                               validation : bool) -> FsResult<RootObject> {
-    load_history_file(history_info, data.props(), data.history(), validation)
+    load_history_file_of_hash(history_info, data.hash(), data.props(), data.history(), validation)
 }
\ No newline at end of file
-- 
2.43.0


From f06562c57896435928ccef2f8c3ef75c00969861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:20 +0000
Subject: [PATCH 30/60] fix: read Infinity and NaN in JSON5 sources

They were taken for integers, so every source using them was rejected.
The forms with a plus sign were not known at all.
---
 dochy_json5/src/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index fa2d5a4..38e636a 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -102,9 +102,9 @@ fn parse_char_escape_sequence(pair: &Pair<'_, Rule>) -> String {
 
 fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
     match pair.as_str() {
-        "Infinity" => Ok(f64::INFINITY),
+        "Infinity" | "+Infinity" => Ok(f64::INFINITY),
         "-Infinity" => Ok(f64::NEG_INFINITY),
-        "NaN" | "-NaN" => Ok(f64::NAN),
+        "NaN" | "+NaN" | "-NaN" => Ok(f64::NAN),
         s if is_hex_literal(s) => parse_hex(&s[2..], pair).map(f64::from),
         s => {
             if let Ok(r) = s.parse::<f64>() {
@@ -130,7 +130,7 @@ fn parse_integer(pair: &Pair<'_, Rule>) -> Result<i64> {
 }
 
 fn is_int(s: &str) -> bool {
-    !s.contains('.') && (is_hex_literal(s) || (!s.contains('e') && !s.contains('E')))
+    !s.ends_with("Infinity") && !s.ends_with("NaN") && !s.contains('.') && (is_hex_literal(s) || (!s.contains('e') && !s.contains('E')))
 }
 
 fn parse_hex(s: &str, p: &Pair<'_, Rule>) -> Result<u32> {
-- 
2.43.0


From a62261f9320da98b5a920a4aedfb5d5056e10005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:20 +0000
Subject: [PATCH 31/60] fix: read signed and wide hexadecimal integers

A hexadecimal number with a sign, or one that does not fit in 32 bits, was
rejected although decimal integers cover the whole 64-bit range.
---
 dochy_json5/src/de.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 38e636a..6688ac8 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -105,7 +105,6 @@ fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
         "Infinity" | "+Infinity" => Ok(f64::INFINITY),
         "-Infinity" => Ok(f64::NEG_INFINITY),
         "NaN" | "+NaN" | "-NaN" => Ok(f64::NAN),
-        s if is_hex_literal(s) => parse_hex(&s[2..], pair).map(f64::from),
         s => {
             if let Ok(r) = s.parse::<f64>() {
                 if r.is_finite() {
@@ -122,7 +121,14 @@ fn parse_number(pair: &Pair<'_, Rule>) -> Result<f64> {
 
 fn parse_integer(pair: &Pair<'_, Rule>) -> Result<i64> {
     match pair.as_str() {
-        s if is_hex_literal(s) => Ok(parse_hex(&s[2..], pair)? as i64),
+        s if is_hex_literal(s) => {
+            let (sign, digits) = match s.strip_prefix('-') {
+                Some(s) => ("-", &s[2..]),
+                None => ("", &s.trim_start_matches('+')[2..]),
+            };
+            i64::from_str_radix(&format!("{}{}", sign, digits), 16)
+                .or(Err(create_err("error parsing hex", pair)))
+        }
         s => s
             .parse()
             .or(Err(create_err("error parsing integer", pair)))
@@ -138,6 +144,7 @@ fn parse_hex(s: &str, p: &Pair<'_, Rule>) -> Result<u32> {
 }
 
 fn is_hex_literal(s: &str) -> bool {
+    let s = s.trim_start_matches(|c| c == '+' || c == '-');
     s.len() > 2 && (&s[..2] == "0x" || &s[..2] == "0X")
 }
 
-- 
2.43.0


From 383dd305cb542b68d735c57a76ef18a571d84c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:20 +0000
Subject: [PATCH 32/60] fix: decode escapes in member names

The name of a member was taken from the source text as it stands, so escape
sequences in it were kept instead of being decoded.  Two spellings of one name
were not found to be duplicates.
---
 dochy_json5/src/de.rs               |  2 +-
 dochy_json5/src/deserialize_item.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index 6688ac8..b6b541e 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -70,7 +70,7 @@ pub(crate) fn create_err_from_str(s : &str) -> MyError {
 }
 
 
-fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
+pub(crate) fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
     pair.into_inner()
         .map(|component| match component.as_rule() {
             Rule::char_literal => Ok(String::from(component.as_str())),
diff --git a/dochy_json5/src/deserialize_item.rs b/dochy_json5/src/deserialize_item.rs
index a91e74c..f07c623 100644
--- a/dochy_json5/src/deserialize_item.rs
+++ b/dochy_json5/src/deserialize_item.rs
@@ -1,6 +1,6 @@
 use crate::error::Result;
 use crate::jval::JVal;
-use crate::de::{deserialize_any, Seq, Map};
+use crate::de::{deserialize_any, parse_string, Seq, Map};
 use pest::Span;
 use crate::de::Rule;
 use std::rc::Rc;
@@ -38,11 +38,13 @@ pub(crate) fn get_map(m: Map, span : Span, rc : Rc<String>) -> Result<JVal> {
         if op.is_none(){ break; }
         let p = op.unwrap();
         let ident = match p.as_rule(){
-            Rule::identifier =>{ p.as_str().to_string() },
-            Rule::string =>{
+            Rule::identifier =>{
+                //the suffixes are not the part of the inner characters
                 let s = p.as_str();
-                (&s[1..s.len()-1]).to_string()
+                let suffix = &s[s.trim_end_matches(|c| c == '!' || c == '?').len()..];
+                parse_string(p)? + suffix
             },
+            Rule::string =>{ parse_string(p)? },
             _ =>{
                 //println!("{:?}",p.as_rule());
                 //println!("{:?}",p.as_str());
-- 
2.43.0


From 3b403187c95e59c2472f18cf6d48bc1574578f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:20 +0000
Subject: [PATCH 33/60] fix: combine surrogate pair escapes in JSON5 strings

A character outside of the basic plane escaped as two \\u sequences was
rejected.
---
 dochy_json5/src/de.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/dochy_json5/src/de.rs b/dochy_json5/src/de.rs
index b6b541e..d9aaf34 100644
--- a/dochy_json5/src/de.rs
+++ b/dochy_json5/src/de.rs
@@ -71,21 +71,36 @@ pub(crate) fn create_err_from_str(s : &str) -> MyError {
 
 
 pub(crate) fn parse_string(pair: Pair<'_, Rule>) -> Result<String> {
-    pair.into_inner()
-        .map(|component| match component.as_rule() {
-            Rule::char_literal => Ok(String::from(component.as_str())),
-            Rule::char_escape_sequence => Ok(parse_char_escape_sequence(&component)),
-            Rule::nul_escape_sequence => Ok(String::from("\u{0000}")),
+    let mut result = String::new();
+    let mut components = pair.into_inner().peekable();
+    while let Some(component) = components.next() {
+        match component.as_rule() {
+            Rule::char_literal => result.push_str(component.as_str()),
+            Rule::char_escape_sequence => result.push_str(&parse_char_escape_sequence(&component)),
+            Rule::nul_escape_sequence => result.push('\u{0000}'),
             Rule::hex_escape_sequence | Rule::unicode_escape_sequence => {
-                let hex_escape = parse_hex(component.as_str(), &component)?;
+                let mut hex_escape = parse_hex(component.as_str(), &component)?;
+                //a character outside of the BMP is written as a surrogate pair
+                if (0xD800..0xDC00).contains(&hex_escape) {
+                    if let Some(next) = components.peek().filter(|c|
+                        c.as_rule() == Rule::unicode_escape_sequence
+                            && c.as_span().start() == component.as_span().end() + 2) {
+                        let low = parse_hex(next.as_str(), next)?;
+                        if (0xDC00..0xE000).contains(&low) {
+                            hex_escape = 0x10000 + ((hex_escape - 0xD800) << 10) + (low - 0xDC00);
+                            components.next();
+                        }
+                    }
+                }
                 match char::from_u32(hex_escape) {
-                    Some(s) => Ok(s.to_string()),
-                    None => Err(create_err("error parsing hex prefix", &component)),
+                    Some(s) => result.push(s),
+                    None => return Err(create_err("error parsing hex prefix", &component)),
                 }
             }
             _ => unreachable!(),
-        })
-        .collect()
+        }
+    }
+    Ok(result)
 }
 
 fn parse_char_escape_sequence(pair: &Pair<'_, Rule>) -> String {
-- 
2.43.0


From 530ed2deef77a16efee62bd0505834d9516f5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:18 +0000
Subject: [PATCH 34/60] fix: reject a member defined twice with different
 suffixes

"a" and "a?" are the same member.  The second silently replaced the first, and
in the root object the process was aborted because the member ids did not
match the number of the members.
---
 dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs | 2 +-
 dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs      | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
index 591eea7..5d7847e 100644
--- a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
+++ b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
@@ -29,7 +29,7 @@ pub(crate) fn json_obj_to_rust(v : &LinkedHashMap<String, JVal>, is_ref_obj : bo
                     json_item_to_rust(&name, vt,v, names)?
                 };
 
-                r.insert_default(name.to_string(), id, v);
+                r.insert_default(name.to_string(), id, v)?;
                 counter += 1;
             },
             NameType::SystemName(sn) =>{
diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs
index 7f55eeb..61b5b37 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_obj.rs
@@ -97,8 +97,12 @@ impl TmpObj{
                            self.refs.into_ref_def_obj(), self.old))
     }
 
-    pub fn insert_default(&mut self, s : String, id : usize, v : RustValue){
+    pub fn insert_default(&mut self, s : String, id : usize, v : RustValue) -> CoreResult<()>{
+        if self.default.contains_key(&s){
+            Err(format!("{} {} is defined multiple times", self.span.line_str(), s))?
+        }
         self.default.insert(s, (id,v));
+        Ok(())
     }
 
     pub fn into_list_item(self) -> CoreResult<ConstItem>{
-- 
2.43.0


From 03b8e0dee99a0d5900e7a3536f57a332b5c3d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:18 +0000
Subject: [PATCH 35/60] fix: reject an item file for a member that is already
 defined

When root.json5 or another item file defined the same member, the member ids
did not match the number of the members and reading the source panicked.
---
 dochy_core/src/imp/json_to_rust/construct_root.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/construct_root.rs b/dochy_core/src/imp/json_to_rust/construct_root.rs
index e4e9963..44e4c34 100644
--- a/dochy_core/src/imp/json_to_rust/construct_root.rs
+++ b/dochy_core/src/imp/json_to_rust/construct_root.rs
@@ -15,6 +15,9 @@ pub(crate) fn construct_root(root : RootObject, vec : Vec<(String, RootValue, Op
     let mut vec = vec;
     vec.sort_by(|(a,_,_),(b,_,_)| a.cmp(b));
     for (name, value, sab) in vec {
+        if default.contains_key(&name){
+            Err(format!("{} is defined multiple times", name))?
+        }
         let id = default.len();
         default.insert(name.to_string(), (id, value));
         if let Some(sab) = sab{
-- 
2.43.0


From bf2823ee436f639ce84274ea80f95ff4d8d175af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:18 +0000
Subject: [PATCH 36/60] fix: reject duplicate IDs in a table

The later item silently replaced the earlier one.
---
 dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index 60f26bb..f5e566c 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -212,7 +212,11 @@ fn to_list_items(vec : Vec<TmpObj>) -> CoreResult<Vec<ConstItem>>{
 fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
     let mut result : HashM<String, ConstItem> = HashMt::with_capacity(vec.len());
     for item in vec{
+        let span = item.span.clone();
         let (s,m) = item.into_list_item_with_id()?;
+        if result.contains_key(&s){
+            Err(format!("{} ID {} is defined multiple times {}", span.line_str(), s, span.slice()))?
+        }
         result.insert(s, m);
     }
     return Ok(result);
-- 
2.43.0


From 4deb78c50eda053db1113b1402b7261c62a8edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:19 +0000
Subject: [PATCH 37/60] fix: accept integers as the IDs of mutable list items

An ID had to be written as a float, although integers are what
root_to_json_new_default writes.  Floats which are not valid IDs were rounded.
---
 dochy_core/src/imp/json_to_rust/get_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/get_id.rs b/dochy_core/src/imp/json_to_rust/get_id.rs
index 52cd204..27493bf 100644
--- a/dochy_core/src/imp/json_to_rust/get_id.rs
+++ b/dochy_core/src/imp/json_to_rust/get_id.rs
@@ -4,7 +4,8 @@ use dochy_json5::{JVal};
 pub(crate) fn get_id(v : &JVal) -> Option<IdValue> {
     match v {
         JVal::String(s, _) => Some(IdValue::Str(s.to_string())),
-        JVal::Double(d, _) => Some(IdValue::Num(*d as u64)),
+        JVal::Int(i, _) if *i >= 0 => Some(IdValue::Num(*i as u64)),
+        JVal::Double(d, _) if *d >= 0.0 && *d < u64::MAX as f64 && d.trunc() == *d => Some(IdValue::Num(*d as u64)),
         _ => None
     }
 }
\ No newline at end of file
-- 
2.43.0


From 3e3958cb30eb412074e144ee1b9ebdb093d95e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:19 +0000
Subject: [PATCH 38/60] fix: keep the IDs of mutable list items unique

Two items could get the same ID, which left dangling pointers in the list, and
the next ID could be one that an item already has, so that inserting an item
replaced it.  A negative NextID was taken for a huge number.
---
 .../imp/json_to_rust/list/list_attribute.rs   |  2 +-
 .../src/imp/json_to_rust/tmp/tmp_list.rs      | 22 ++++++++++++-------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
index f9d1dd3..70b487c 100644
--- a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
+++ b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
@@ -38,7 +38,7 @@ pub(crate) fn list_attribute(array : &Vec<JVal>, span : &Span, names : &Names) -
                 "NextID" =>{
                     if array.len() == 2{
                         match array[1]{
-                            JVal::Int(n, _) =>{
+                            JVal::Int(n, _) if n >= 0 =>{
                                 return Ok(ListAttribute::NextID(n as u64))
                             }
                             _ =>{}
diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index f5e566c..a3fe92f 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -136,9 +136,7 @@ impl TmpList{
             Err(format!("{} Default must be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
         //let compatible = self.compatible.unwrap_or_else(|| HashSt::new());
         let def = self.default.unwrap();
         Ok((MutListDef::new(def, undefiable), Some(MutListVal::new(items))))
@@ -155,9 +153,7 @@ impl TmpList{
             Err(format!("{} Default must not be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
 
         Ok(MutListVal::new(items))
     }
@@ -222,12 +218,22 @@ fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
     return Ok(result);
 }
 
-fn to_mut_list_items(vec : Vec<TmpObj>, next_id : u64) -> CoreResult<LinkedMap<MutItem>>{
+fn to_mut_list_items(vec : Vec<TmpObj>, next_id : Option<u64>) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(vec.len());
+    let mut ids : HashS<u64> = HashSt::with_capacity(vec.len());
+    let mut min_next_id = 0;
     for (idx, tmp_item) in vec.into_iter().enumerate(){
-        //let span = tmp_item.span.clone();
+        let span = tmp_item.span.clone();
         let pair = tmp_item.into_mut_list_item(idx)?;
+        if !ids.insert(pair.0){
+            Err(format!("{} ID {} is used multiple times {}", span.line_str(), pair.0, span.slice()))?
+        }
+        min_next_id = min_next_id.max(pair.0.checked_add(1).ok_or_else(|| format!("{} ID is too large", span.line_str()))?);
+        if next_id.map_or(false, |n| n <= pair.0){
+            Err(format!("{} ID {} must be less than NextID {}", span.line_str(), pair.0, span.slice()))?
+        }
         result.push(pair);
     }
+    let next_id = next_id.unwrap_or(min_next_id);
     return Ok(LinkedMap::construct(result, next_id));
 }
\ No newline at end of file
-- 
2.43.0


From dcca0f7f1f0cfe7f253efdefd05c33838ff83993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:19 +0000
Subject: [PATCH 39/60] fix: validate null and undefined in default values

A member declared without "?" or "!" could have null or undefined as its default
value, and reading it with its non-null accessor failed later.
---
 .../src/imp/json_to_rust/validation/validate_list_def.rs    | 6 +++++-
 dochy_core/src/imp/json_to_rust/validation/validate_root.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
index 1451db3..d3c0a68 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
@@ -35,7 +35,11 @@ pub(crate) fn validate_list_def(def : &ListDefObj, root : &RootObject, can_use_o
                 }
                 validate_list_def(d, root, can_use_old, is_mut,&names.append(name))?;
             },
-            ListDefValue::Param(_,_) => {},
+            ListDefValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false {
+                    Err(format!("{} {} can't have the null or undefined value", names, name))?
+                }
+            },
             //_ => { Err(format!("{} {} can't be defined here", names, name))? }
         }
     }
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
index 2cd76a1..3551e62 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
@@ -34,6 +34,9 @@ pub(crate) fn validate_root(root : &RootObject, can_use_old: bool) -> CoreResult
         //なのでここではOldは無視
         match val {
             RootValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false {
+                    Err(format!("Root's member {} can't have the null or undefined value", name))?
+                }
                 if let Some(sab) = root.sabun().get(name) {
                     if let RootSabValue::Param(sab) = sab {
                         if p.acceptable(sab) == false {
-- 
2.43.0


From d04371b3727dffce4bc794c47f6e6f1068657170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:27 +0000
Subject: [PATCH 40/60] fix: validate the IDs in the default values of Ref

A default reference to an ID that does not exist, or null for a reference which
is not nullable, was accepted, and following the reference of an item that
does not override it failed later.
---
 .../validation/validate_list_def.rs           |  2 +-
 .../validation/validate_ref_def.rs            | 18 ++++++++-
 .../json_to_rust/validation/validate_refs.rs  | 40 ++++++++++---------
 3 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
index d3c0a68..3510ad2 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
@@ -10,7 +10,7 @@ use crate::imp::structs::list_def_obj::ListDefObj;
 /// Itemについて調べるvalidate_list/data/mut_listとは違う
 /// is_mutの場合、InnerMutしか認めない
 pub(crate) fn validate_list_def(def : &ListDefObj, root : &RootObject, can_use_old : bool, is_mut : bool, names : &Names) -> CoreResult<()> {
-    validate_ref_def(def.refs(), names)?;
+    validate_ref_def(def.refs(), root, can_use_old, names)?;
     validate_old_list_def_mem(def.old(), def.default(), names)?;
 
     for (name,_, val) in def.default().iter() {
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
index 056830d..99d7182 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_ref_def.rs
@@ -3,9 +3,12 @@ use crate::error::CoreResult;
 use crate::imp::json_to_rust::validation::validate_old_def_mem::validate_old_ref_def;
 use crate::imp::structs::ref_def_obj::RefDefObj;
 use crate::imp::structs::qv::Qv;
+use crate::imp::structs::root_obj::RootObject;
+use crate::imp::json_to_rust::validation::validate_refs::validate_ref_id;
+use crate::imp::rust_to_json::name_with_suffix::name_with_suffix;
 
 
-pub(crate) fn validate_ref_def(def : &RefDefObj, names : &Names) -> CoreResult<()> {
+pub(crate) fn validate_ref_def(def : &RefDefObj, root : &RootObject, can_use_old : bool, names : &Names) -> CoreResult<()> {
     if def.is_enum() {
         for (_, _, v) in def.refs() {
             match v.value() {
@@ -13,6 +16,19 @@ pub(crate) fn validate_ref_def(def : &RefDefObj, names : &Names) -> CoreResult<(
                 _ => Err(format!("{} all default members of Enum must be null", names))?,
             }
         }
+    } else {
+        for (name, _, v) in def.refs() {
+            if v.var_type().acceptable(&v.value().qv_type()) == false {
+                Err(format!("{} {} {} is not valid for {}", names, name, v.value().js_string(), name_with_suffix(name, v.var_type())))?
+            }
+            if let Qv::Val(id) = v.value() {
+                //空文字列はItem側で必ず定義しなければならないという意味
+                if id.is_empty() == false {
+                    let can_use_old = can_use_old || def.old().contains(name);
+                    validate_ref_id(name, id, root, can_use_old, names)?;
+                }
+            }
+        }
     }
     if def.is_enum() {
         validate_old_ref_def(def.old(), def.refs(), &names.append("Enum"))?;
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
index eff5404..57e4606 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_refs.rs
@@ -42,23 +42,7 @@ pub(crate) fn validate_refs(def : &RefDefObj, sabun : &HashM<String, RefSabValue
                         if id.is_empty(){
                             Err(format!("{} ref {} is empty", names, name))?
                         }
-                        match root.default().get(name) {
-                            Some(RootValue::Table(d)) => {
-                                if d.list().get(id).is_none() {
-                                    Err(format!("{}'s {} was not found {}", name, id, names))?
-                                }
-                                if can_use_old == false && d.old().contains(id) {
-                                    Err(format!("{}'s {} is old {}", name, id, names))?
-                                }
-                                continue;
-                            },
-                            Some(_) => {
-                                Err(format!("{} the root object's {} was not Data", names, name))?
-                            },
-                            None => {
-                                Err(format!("{} the root object's {} was not found", names, name))?
-                            }
-                        }
+                        validate_ref_id(name, id, root, can_use_old, names)?;
                     },
                     _ =>{
                         //nullとかundefinedとかは有効な値である
@@ -71,4 +55,24 @@ pub(crate) fn validate_refs(def : &RefDefObj, sabun : &HashM<String, RefSabValue
 
 
     return Ok(());
-}
\ No newline at end of file
+}
+
+pub(crate) fn validate_ref_id(name : &str, id : &str, root : &RootObject, can_use_old : bool, names : &Names) -> CoreResult<()>{
+    match root.default().get(name) {
+        Some(RootValue::Table(d)) => {
+            if d.list().get(id).is_none() {
+                Err(format!("{}'s {} was not found {}", name, id, names))?
+            }
+            if can_use_old == false && d.old().contains(id) {
+                Err(format!("{}'s {} is old {}", name, id, names))?
+            }
+            Ok(())
+        },
+        Some(_) => {
+            Err(format!("{} the root object's {} was not Data", names, name))?
+        },
+        None => {
+            Err(format!("{} the root object's {} was not found", names, name))?
+        }
+    }
+}
-- 
2.43.0


From e0a84d864af09ba2c865203cbfeac342f363c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:27 +0000
Subject: [PATCH 41/60] fix: make the source hash independent of where the
 directory is

The archive and the hash of a source directory contained the path that was used
to open it.  Moving the directory, or opening it from another working
directory, made the same source look like another version.
---
 .../src/imp/read_archive_data_from_directory.rs      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
index 34de3ba..457bb28 100644
--- a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
+++ b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
@@ -10,17 +10,19 @@ pub fn read_archive_data_from_directory<
                         opt : &ArchiveOptions,
                         converter : impl Fn(&str, &[u8]) -> T + Send + Sync + 'static) -> ArcResult<ArchiveData<T>>{
     let mut btree : BTreeSet<String> = BTreeSet::new();
-    get_paths_from_dir(path, opt, &mut btree)?;
+    let root = path.as_ref();
+    get_paths_from_dir(root, root, opt, &mut btree)?;
     let mut archiver = Archiver::new(converter);
     for path in btree {
-        let data = std::fs::read(&path)?;
+        let data = std::fs::read(root.join(&path))?;
         archiver.archive(path, data);
     }
     let hoge = archiver.finish();
     return hoge;
 }
 
-fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions, btree : &mut BTreeSet<String>) -> ArcResult<()>{
+//the paths are relative to the root, so the location of the directory doesn't affect the archive and the hash
+fn get_paths_from_dir<P : AsRef<Path>>(root : &Path, current_path : P, opt : &ArchiveOptions, btree : &mut BTreeSet<String>) -> ArcResult<()>{
     let dirs = std::fs::read_dir(current_path)?;
 
     for dir in dirs {
@@ -31,11 +33,11 @@ fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions,
             let path = de.path();
             let ext = path.extension().map_or("", |e| e.to_str().unwrap_or(""));
             if opt.is_archived(ext){
-                btree.insert(path.to_string_lossy().to_string());
+                btree.insert(path.strip_prefix(root)?.to_string_lossy().to_string());
             }
         } else if meta.is_dir(){
             if opt.archive_subfolders(){
-                get_paths_from_dir(de.path(), opt, btree)?;
+                get_paths_from_dir(root, de.path(), opt, btree)?;
             }
         }
     }
-- 
2.43.0


From eb73a2964eebd43ed5c8e09bdf3c888dbdd6ce9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:27 +0000
Subject: [PATCH 42/60] fix: separate the names and the contents of files in
 the source hash

They were hashed as one run of bytes, so different sources could have the same
hash when a part of a content moved into a name or another file.
---
 dochy_archiver2/src/imp/structs/hash_thread.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dochy_archiver2/src/imp/structs/hash_thread.rs b/dochy_archiver2/src/imp/structs/hash_thread.rs
index 165a2bc..c157c7b 100644
--- a/dochy_archiver2/src/imp/structs/hash_thread.rs
+++ b/dochy_archiver2/src/imp/structs/hash_thread.rs
@@ -20,7 +20,10 @@ impl HashThread{
                     Ok(Some((path, v))) =>{
                         let path : String = path;
                         let v : Arc<Vec<u8>> = v;
+                        //the lengths separate the names from the contents
+                        hasher.write(&(path.len() as u64).to_le_bytes());
                         hasher.write(path.as_bytes());
+                        hasher.write(&(v.len() as u64).to_le_bytes());
                         hasher.write(v.as_ref())
                     },
                     Ok(None) => break,
-- 
2.43.0


From e60a4812fcc310eb6564469a7a6e56eb1abf8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:51 +0000
Subject: [PATCH 43/60] fix: report errors of the reading thread and the
 decoding tasks when loading diffs in parallel

---
 dochy_fs/src/imp/common/apply_items.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/common/apply_items.rs b/dochy_fs/src/imp/common/apply_items.rs
index fa0043b..8e30117 100644
--- a/dochy_fs/src/imp/common/apply_items.rs
+++ b/dochy_fs/src/imp/common/apply_items.rs
@@ -25,26 +25,34 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
                                                      mut func : F) -> FsResult<RootObject> {
 
 
-    let (sender, receiver): (Sender<(usize,RootDiffR)>, Receiver<(usize,RootDiffR)>) = std::sync::mpsc::channel();
+    let (sender, receiver): (Sender<FsResult<(usize,RootDiffR)>>, Receiver<FsResult<(usize,RootDiffR)>>) = std::sync::mpsc::channel();
     let meta_table_arc = root.meta_table_arc();
     let paths_len = paths.len();
 
     std::thread::spawn(move ||{
         for (i,path) in paths.iter().enumerate() {
-            let mut file = open_diff_file_without_metadata(path).unwrap();
-            let v = DochyDiff::read_value(&mut file).unwrap();
+            let v = match open_diff_file_without_metadata(path).and_then(|mut file| DochyDiff::read_value(&mut file)){
+                Ok(v) => v,
+                Err(e) =>{
+                    sender.send(Err(e)).ok();
+                    return;
+                }
+            };
             let sender = sender.clone();
             let meta_table_arc = meta_table_arc.clone();
             rayon::spawn_fifo(move ||{
-                let va = v.prepare(meta_table_arc.as_ref()).unwrap();
-                sender.send((i, va)).unwrap();
+                //the receiver doesn't exist when the loading has already failed
+                match v.prepare(meta_table_arc.as_ref()) {
+                    Ok(va) => sender.send(Ok((i, va))).ok(),
+                    Err(e) => sender.send(Err(e)).ok(),
+                };
             });
         }
     });
     let mut map : HashMap<usize, RootDiffR> = HashMap::new();
     let mut current_index = 0;
     for t_i in 0..paths_len {
-        let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))?;
+        let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))??;
         map.insert(i, va);
         apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
     }
-- 
2.43.0


From 61a0203d37d53bbd34bf33b4cf654cf5a673a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:05 +0000
Subject: [PATCH 44/60] fix: write the source archive of a version directory
 completely before giving it its name

---
 dochy_fs/src/imp/common/path/prepare_hash_dir.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
index 6f94f7e..1526ad5 100644
--- a/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
+++ b/dochy_fs/src/imp/common/path/prepare_hash_dir.rs
@@ -12,8 +12,11 @@ pub(crate) fn prepare_hash_dir(proj_dir: &Path, src : &CurrentSrc, hash : u128)
     let hash_dir = get_or_make_hash_dir_path(proj_dir, hash)?;
     let archive_path = hash_dir.join(ARCHIVE_DEFAULT_NAME);
     if archive_path.exists() == false{
-        let mut file = File::create(&archive_path)?;
+        // an incomplete archive must not exist under the final name, because the archive is never written again
+        let tmp_path = hash_dir.with_extension("archive.tmp");
+        let mut file = File::create(&tmp_path)?;
         src.create_archive(&mut file)?;
+        std::fs::rename(&tmp_path, &archive_path)?;
     }
     Ok(hash_dir)
 }
-- 
2.43.0


From e9e809251ad596d5941f026d56e3928b522e9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:05 +0000
Subject: [PATCH 45/60] fix: keep the old dochy file when overwriting it fails

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index f570ed0..a5b36c8 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -28,8 +28,11 @@ pub fn save_dochy_file(info : &SaveDirInfo,
         Err("file already exists")?
     }
     let diff = dochy_diff::get_diff(&src_root, &root)?;
-    let mut file = File::create(&file_path)?;
+    // the old file must survive when writing fails
+    let tmp_path = hash_dir.with_extension("file.tmp");
+    let mut file = File::create(&tmp_path)?;
     file.write_all(&diff)?;
+    std::fs::rename(&tmp_path, &file_path)?;
     Ok(file_path)
 }
 
-- 
2.43.0


From 2ff96dc77362c925bb8111fd19a131c51605c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:05 +0000
Subject: [PATCH 46/60] fix: report the files which remove_old_files couldn't
 remove

---
 dochy_fs/src/imp/history/file_hist/file_histories.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/file_histories.rs b/dochy_fs/src/imp/history/file_hist/file_histories.rs
index 3982a82..46ef6a9 100644
--- a/dochy_fs/src/imp/history/file_hist/file_histories.rs
+++ b/dochy_fs/src/imp/history/file_hist/file_histories.rs
@@ -63,7 +63,10 @@ impl FileHistories{
                 remove_hash_dirs(&mut self.vec, 0..len - 1, history_dir)?;
             }
             let (_,last) = self.vec.remove(0);
-            last.remove_old_files(keep_latest, hash_dir_path);
+            let failed = last.remove_old_files(keep_latest, hash_dir_path);
+            if failed.is_empty() == false{
+                Err(format!("couldn't remove {:?}", failed))?
+            }
             return Ok(());
         }
         // こっちは最新ハッシュの全てをkeepする場合
-- 
2.43.0


From ecadc23460e3aca3ef3df75c2376d1cae56f6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:48 +0000
Subject: [PATCH 47/60] fix: wait for the decoding tasks before dropping the
 document their meta table refers to

---
 dochy_fs/src/imp/common/apply_items.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/common/apply_items.rs b/dochy_fs/src/imp/common/apply_items.rs
index 8e30117..de12a62 100644
--- a/dochy_fs/src/imp/common/apply_items.rs
+++ b/dochy_fs/src/imp/common/apply_items.rs
@@ -41,7 +41,6 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
             let sender = sender.clone();
             let meta_table_arc = meta_table_arc.clone();
             rayon::spawn_fifo(move ||{
-                //the receiver doesn't exist when the loading has already failed
                 match v.prepare(meta_table_arc.as_ref()) {
                     Ok(va) => sender.send(Ok((i, va))).ok(),
                     Err(e) => sender.send(Err(e)).ok(),
@@ -49,14 +48,25 @@ pub(crate) fn apply_items_mt<F : FnMut(&RootObject)>(mut root : RootObject,
             });
         }
     });
+    let r = receive_and_apply(&mut root, paths_len, &receiver, &mut func);
+    // The meta table refers to the root, so the root must not be dropped before all the tasks are finished.
+    for _ in receiver{}
+    r?;
+    Ok(root)
+}
+
+fn receive_and_apply<F : FnMut(&RootObject)>(root : &mut RootObject,
+                                             paths_len : usize,
+                                             receiver : &Receiver<FsResult<(usize,RootDiffR)>>,
+                                             func : &mut F) -> FsResult<()>{
     let mut map : HashMap<usize, RootDiffR> = HashMap::new();
     let mut current_index = 0;
     for t_i in 0..paths_len {
         let (i,va) = receiver.recv().or(Err(format!("preparing recv {} failed", t_i)))??;
         map.insert(i, va);
-        apply_several_items(&mut root, &mut current_index, &mut map, &mut func)?;
+        apply_several_items(root, &mut current_index, &mut map, func)?;
     }
-    Ok(root)
+    Ok(())
 }
 
 fn apply_several_items<F : FnMut(&RootObject)>(root : &mut RootObject,
-- 
2.43.0


From 3e05138c4417b788fc3c992944883d61614c0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:14 +0000
Subject: [PATCH 48/60] fix: report errors while listing instead of omitting
 the files which couldn't be read

---
 dochy_fs/src/imp/common/list/list_files.rs        | 9 ++++-----
 dochy_fs/src/imp/history/pub_fn/list_histories.rs | 5 ++---
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/dochy_fs/src/imp/common/list/list_files.rs b/dochy_fs/src/imp/common/list/list_files.rs
index 055327d..8bad976 100644
--- a/dochy_fs/src/imp/common/list/list_files.rs
+++ b/dochy_fs/src/imp/common/list/list_files.rs
@@ -12,12 +12,11 @@ pub(crate) fn list_files<P : AsRef<Path>>(proj_dir: P) -> FsResult<Vec<FileData>
     let mut vec : Vec<FileData> = vec![];
 
     for item in iter{
-        if let Ok(data) = item {
-            if is_reserved_filename(data.name()){
-                continue;
-            }
-            vec.push(data);
+        let data = item?;
+        if is_reserved_filename(data.name()){
+            continue;
         }
+        vec.push(data);
     }
 
     vec.sort_by_key(|a| a.modified());
diff --git a/dochy_fs/src/imp/history/pub_fn/list_histories.rs b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
index 93cf9e1..347a3b4 100644
--- a/dochy_fs/src/imp/history/pub_fn/list_histories.rs
+++ b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
@@ -12,9 +12,8 @@ pub fn list_histories(info : &HistoryInfo) -> FsResult<FileHistories>{
 
     let mut vec : Vec<(u128, FileHistory)> = vec![];
     for (hash, _time) in hash_times{
-        if let Ok(history) = FileHistory::create(history_dir, hash, opt.max_phase(), opt.is_cumulative()){
-            vec.push((hash, history));
-        }
+        let history = FileHistory::create(history_dir, hash, opt.max_phase(), opt.is_cumulative())?;
+        vec.push((hash, history));
     }
 
     Ok(FileHistories::new(vec))
-- 
2.43.0


From cc28458920d9b0b47cbf88dbb0ba32b8f91c6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:35 +0000
Subject: [PATCH 49/60] fix: count a background save from the request, not from
 the start of its thread

---
 .../imp/history/pub_fn/save_history_file.rs   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 07cfe5f..ca95d87 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -7,6 +7,7 @@ use crate::imp::history::file_hist::create_file_history::create_file_history;
 use crate::imp::history::file_hist::ancestors::create_ancestors;
 use crate::imp::history::fs::derive_impl::derive_impl;
 use std::sync::Weak;
+use std::sync::atomic::Ordering;
 use crate::imp::history::history_info::HistoryInfo;
 use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex;
 use crate::imp::history::current_root_obj_info::current_root_obj_info::CurrentRootObjInfo;
@@ -44,9 +45,11 @@ pub fn save_history_file_nb<
     let clone = root.clone();
     let ft = history_info.fifo_thread();
     let history_info = history_info.clone();
+    let queued = QueuedSave::new(history_info.clone());
 
     ft.spawn_fifo(move || {
         let result = save_history_file_impl(&history_info, tag, &clone, id);
+        drop(queued);
         match result {
             Ok(r) => {
                 callback(Ok(r));
@@ -58,6 +61,22 @@ pub fn save_history_file_nb<
     });
 }
 
+/// counts the save from the request, because the thread can start much later
+struct QueuedSave{
+    history_info : HistoryInfo,
+}
+impl QueuedSave{
+    fn new(history_info : HistoryInfo) -> QueuedSave{
+        get_peekable_info(&history_info).queued_atomic().fetch_add(1, Ordering::AcqRel);
+        QueuedSave{ history_info }
+    }
+}
+impl Drop for QueuedSave{
+    fn drop(&mut self) {
+        get_peekable_info(&self.history_info).queued_atomic().fetch_sub(1, Ordering::AcqRel);
+    }
+}
+
 /// Saves when no save-thread is runnning for the history_dir.
 /// Calling this function concurrently for the same history_dir can make the evaluation incorrect.
 pub fn save_history_file_nb_if_vacant<
-- 
2.43.0


From 615e7febfe2804f7065482aa3e4439578924bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:27 +0000
Subject: [PATCH 50/60] fix: do not derive a save from a later state of the
 same document

---
 .../current_root_obj_info.rs                    | 14 +++++++++++++-
 .../src/imp/history/pub_fn/save_history_file.rs | 17 ++++++++++-------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs b/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs
index 56442ce..bada0ce 100644
--- a/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs
+++ b/dochy_fs/src/imp/history/current_root_obj_info/current_root_obj_info.rs
@@ -1,17 +1,29 @@
 use crate::history::FileNameProps;
 use std::sync::Weak;
+use std::sync::atomic::{AtomicU64, Ordering};
+
+static TIME : AtomicU64 = AtomicU64::new(0);
+
+/// increases with every call
+pub(crate) fn next_time() -> u64{ TIME.fetch_add(1, Ordering::Relaxed) }
 
 #[derive(Debug, Clone)]
 pub struct CurrentRootObjInfo {
     current_root_id: Weak<()>,
     current_base_file: FileNameProps,
+    /// when the contents of the base file were taken from the root object
+    time : u64,
 }
 
 impl CurrentRootObjInfo {
     pub fn new(current_root_id: Weak<()>, current_base_file: FileNameProps) -> CurrentRootObjInfo {
-        CurrentRootObjInfo { current_root_id, current_base_file}
+        Self::with_time(current_root_id, current_base_file, next_time())
+    }
+    pub(crate) fn with_time(current_root_id: Weak<()>, current_base_file: FileNameProps, time : u64) -> CurrentRootObjInfo {
+        CurrentRootObjInfo { current_root_id, current_base_file, time }
     }
 
     pub fn current_root_id(&self) -> &Weak<()>{ &self.current_root_id }
     pub fn current_base_file(&self) -> &FileNameProps{ &self.current_base_file }
+    pub(crate) fn time(&self) -> u64{ self.time }
 }
\ No newline at end of file
diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index ca95d87..df313d5 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -10,7 +10,7 @@ use std::sync::Weak;
 use std::sync::atomic::Ordering;
 use crate::imp::history::history_info::HistoryInfo;
 use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex;
-use crate::imp::history::current_root_obj_info::current_root_obj_info::CurrentRootObjInfo;
+use crate::imp::history::current_root_obj_info::current_root_obj_info::{CurrentRootObjInfo, next_time};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
 
 /// calculates the diff from the latest save file(most of the time) and save the diff file.
@@ -25,7 +25,7 @@ use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
 pub fn save_history_file(history_info : &HistoryInfo,
                          tag : Option<String>,
                          root : &RootObject) -> FsResult<FileNameProps> {
-    save_history_file_impl(history_info, tag, root, root.id())
+    save_history_file_impl(history_info, tag, root, root.id(), next_time())
 }
 
 
@@ -43,12 +43,13 @@ pub fn save_history_file_nb<
                                                 callback : F) {
     let id = root.id();
     let clone = root.clone();
+    let time = next_time();
     let ft = history_info.fifo_thread();
     let history_info = history_info.clone();
     let queued = QueuedSave::new(history_info.clone());
 
     ft.spawn_fifo(move || {
-        let result = save_history_file_impl(&history_info, tag, &clone, id);
+        let result = save_history_file_impl(&history_info, tag, &clone, id, time);
         drop(queued);
         match result {
             Ok(r) => {
@@ -98,7 +99,8 @@ pub fn save_history_file_nb_if_vacant<
 fn save_history_file_impl(history_info: &HistoryInfo,
                           tag : Option<String>,
                           root : &RootObject,
-                          root_id : Weak<()>) -> FsResult<FileNameProps> {
+                          root_id : Weak<()>,
+                          time : u64) -> FsResult<FileNameProps> {
     let history_dir = history_info.history_dir();
     let mut mutex = get_mutex(history_dir).unwrap();
     let p = mutex.peekable();
@@ -112,11 +114,12 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     let current_root_obj = h.clone();
 
     if let Some(info) = current_root_obj {
-        if root_id.ptr_eq(info.current_root_id()) {
+        //a save which was requested later can be processed earlier. A diff can't go back from the newer contents to the older
+        if root_id.ptr_eq(info.current_root_id()) && info.time() < time {
             let history = create_file_history(&history_hash_dir, opt.max_phase(), opt.is_cumulative())?;
             if let Some(from) = get_base_to_derive(&history, info.current_base_file(), &opt)? {
                 let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
-                *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+                *h = Some(CurrentRootObjInfo::with_time(root_id, saved.clone(), time));
 
                 return Ok(saved);
             }
@@ -124,7 +127,7 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     }
 
     let saved = fs_start_new(tag, root, cache, &history_hash_dir, &opt, opt.is_cumulative())?;
-    *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+    *h = Some(CurrentRootObjInfo::with_time(root_id, saved.clone(), time));
     return Ok(saved);
 }
 
-- 
2.43.0


From e42dde0afeaf6171570f33d5d5941cd458105df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:08 +0000
Subject: [PATCH 51/60] fix: include tables and constant lists in the JSON of a
 document

The document could not be converted back from the JSON without them.
---
 dochy_core/src/imp/rust_to_json/root_to_json.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dochy_core/src/imp/rust_to_json/root_to_json.rs b/dochy_core/src/imp/rust_to_json/root_to_json.rs
index e0b4fd9..c30c7f9 100644
--- a/dochy_core/src/imp/rust_to_json/root_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/root_to_json.rs
@@ -30,9 +30,9 @@ pub fn root_to_json_new_default(obj : &RootObject) -> CoreResult<Value> {
                 result.insert(name, RustValue::Param(p, vt));
             }
         } else{
-            if let Some(sab) = sabun.remove(&name) {
-                result.insert(name, val.into_rust_value(sab)?);
-            }
+            //Tables and CLists have no sabun. A MList without sabun is undefined
+            let sab = sabun.remove(&name).unwrap_or(RootSabValue::Mut(None));
+            result.insert(name, val.into_rust_value(sab)?);
         }
     }
 
-- 
2.43.0


From 620a6ac639f03b7382579cda8689a957cfc83b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:57 +0000
Subject: [PATCH 52/60] fix: escape strings in the JSON of a document

A quote, a backslash or a control character made the JSON unreadable or different.
---
 dochy_core/src/imp/structs/my_json.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/structs/my_json.rs b/dochy_core/src/imp/structs/my_json.rs
index da60408..9a1344e 100644
--- a/dochy_core/src/imp/structs/my_json.rs
+++ b/dochy_core/src/imp/structs/my_json.rs
@@ -23,7 +23,7 @@ impl Value{
 fn write(value : &Value, s : &mut String, indent_level : usize){
     match value{
         Value::Bool(b) => s.push_str(&b.to_string()),
-        Value::String(val) => s.push_str(&format!(r#""{}""#, val)),
+        Value::String(val) => write_string(val, s),
         Value::Null => s.push_str("null"),
         Value::Undefined => s.push_str("undefined"),
         Value::Number(f) => s.push_str(&f.to_string()),
@@ -32,6 +32,21 @@ fn write(value : &Value, s : &mut String, indent_level : usize){
     }
 }
 
+fn write_string(val : &str, s : &mut String){
+    s.push('"');
+    for c in val.chars(){
+        match c{
+            '"' | '\\' => { s.push('\\'); s.push(c); },
+            '\n' => s.push_str("\\n"),
+            '\r' => s.push_str("\\r"),
+            '\t' => s.push_str("\\t"),
+            '\u{2028}' | '\u{2029}' | '\0'..='\u{1f}' => s.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => s.push(c),
+        }
+    }
+    s.push('"');
+}
+
 fn write_array(array : &Vec<Value>, s : &mut String, indent_level : usize){
     if array.len() == 0{
         s.push_str("[]");
-- 
2.43.0


From a0b8f3a901ada7b7049dbdd562f74f199f8eac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:57 +0000
Subject: [PATCH 53/60] fix: keep lists undefiable in the JSON of a document

---
 .../src/imp/rust_to_json/rust_value_to_json_value.rs     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs b/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs
index 40f02e3..01a3861 100644
--- a/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs
+++ b/dochy_core/src/imp/rust_to_json/rust_value_to_json_value.rs
@@ -16,7 +16,14 @@ pub(crate) fn rust_value_to_json_value(v : &RustValue, name : &str) -> (String,
         },
         RustValue::Table(l) => { rust_list_to_json(&TmpJsonList::from_const_data(l), ListType::Table) },
         RustValue::CList(l) => { rust_list_to_json(&TmpJsonList::from_const_list(l), ListType::CList) },
-        RustValue::MList((d, m)) => { rust_list_to_json(&TmpJsonList::from_mut_list(d, m), ListType::MList) },
+        RustValue::MList((d, m)) => {
+            let val = rust_list_to_json(&TmpJsonList::from_mut_list(d, m), ListType::MList);
+            if d.undefiable(){
+                return (name_with_suffix(name, VarType::Undefiable), val);
+            } else{
+                val
+            }
+        },
         //RustValue::InnerData(l) => { rust_list_to_json(&TmpJsonList::from_inner_data(l), ListType::InnerData) },
         RustValue::Cil(l) => { rust_list_to_json(&TmpJsonList::from_inner_list(l), ListType::Cil) },
         RustValue::Mil(l) => {
-- 
2.43.0


From 02fb5b2085fc619c2260f91772f3841aa599db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:57 +0000
Subject: [PATCH 54/60] fix: keep references marked old in the JSON of a
 document

---
 dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs b/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs
index 50f4fe5..9380cdf 100644
--- a/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/ref_def_obj_to_json.rs
@@ -1,4 +1,6 @@
 use std::collections::BTreeMap;
+use crate::imp::rust_to_json::list::tmp_json_list::btree_set;
+use crate::imp::rust_to_json::string_set_to_json::string_set_to_json_short;
 use crate::imp::structs::ref_def_obj::RefDefObj;
 use crate::imp::structs::qv::Qv;
 use crate::imp::structs::var_type::VarType;
@@ -11,6 +13,9 @@ pub(crate) fn ref_def_obj_to_json(obj : &RefDefObj) -> BTreeMap<String, Value>{
         let (key, value) = reconstruct_ref_value(key, value.value(), value.var_type());
         result.insert(key, value);
     }
+    if obj.old().len() != 0 {
+        result.insert("Old".to_string(), string_set_to_json_short(&btree_set(obj.old())));
+    }
 
     return result;
 }
-- 
2.43.0


From 57b729a03394eb0146ba97cb5e9c317f985bfbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:30 +0000
Subject: [PATCH 55/60] fix: write numbers in the JSON of a document exactly

Integers went through f64, which changes those over 2^53, and negative zero was read as the integer 0.
---
 dochy_core/src/imp/rust_to_json/get_param.rs             | 2 +-
 dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs | 2 +-
 dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs  | 2 +-
 dochy_core/src/imp/structs/my_json.rs                    | 5 ++++-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dochy_core/src/imp/rust_to_json/get_param.rs b/dochy_core/src/imp/rust_to_json/get_param.rs
index 077cbcc..3a5e64d 100644
--- a/dochy_core/src/imp/rust_to_json/get_param.rs
+++ b/dochy_core/src/imp/rust_to_json/get_param.rs
@@ -9,7 +9,7 @@ pub(crate) fn get_param(v : &RustParam) -> Value{
         RustParam::String(s) => to(s, "Str", |s| Value::String(s.str().to_string())),
         RustParam::Float(n)=> to(n, "Float",
                                  |n| Value::Array(vec![Value::String("Float".to_string()), Value::Number(*n)])),
-        RustParam::Int(n)=> to(n, "Int", |n| Value::Number(*n as f64)),
+        RustParam::Int(n)=> to(n, "Int", |n| Value::Int(*n)),
         _ =>{
             let (array, at) = v.to_rust_array().unwrap();
             rust_array_to_json(&array, &at)
diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs b/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
index 1e94ecc..620838b 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_list_to_json.rs
@@ -20,7 +20,7 @@ pub(crate) fn rust_list_to_json(l : &TmpJsonList, list_type : ListType) -> Value
    if let Some(next_id) = l.next_id {
       result.push(Value::Array(vec![
          val_str("NextID"),
-         Value::Number(next_id as f64)
+         Value::Int(next_id as i64)
       ]));
    }
    //余計な情報は上に持ってきて、defaultとvecの距離を近づけよう
diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs b/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
index 689a94e..7059852 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_obj_to_json.rs
@@ -9,7 +9,7 @@ pub(crate) fn tmp_obj_to_json(obj : &TmpJsonObj) -> Value{
     let mut result = value_map_to_json(&obj.default);
     if let Some(id) = &obj.id{
         match id{
-            IdValue::Num(id) =>{ result.insert("ID".to_string(), Value::Number(*id as f64)); },
+            IdValue::Num(id) =>{ result.insert("ID".to_string(), Value::Int(*id as i64)); },
             IdValue::Str(s) =>{ result.insert("ID".to_string(), Value::String(s.to_string())); },
         }
     }
diff --git a/dochy_core/src/imp/structs/my_json.rs b/dochy_core/src/imp/structs/my_json.rs
index 9a1344e..4e23f0a 100644
--- a/dochy_core/src/imp/structs/my_json.rs
+++ b/dochy_core/src/imp/structs/my_json.rs
@@ -5,6 +5,8 @@ pub enum Value{
     Bool(bool),
     String(String),
     Number(f64),
+    ///f64 can't hold every i64
+    Int(i64),
     Array(Vec<Value>),
     ///HashMapだと毎回順序が変わるみたいなので、一応alphabetical orderにしておこう
     Map(BTreeMap<String, Value>),
@@ -26,7 +28,8 @@ fn write(value : &Value, s : &mut String, indent_level : usize){
         Value::String(val) => write_string(val, s),
         Value::Null => s.push_str("null"),
         Value::Undefined => s.push_str("undefined"),
-        Value::Number(f) => s.push_str(&f.to_string()),
+        Value::Number(f) => s.push_str(&format!("{:?}", f)),
+        Value::Int(i) => s.push_str(&i.to_string()),
         Value::Array(v) => write_array(v, s, indent_level + 1),
         Value::Map(obj) => write_map(obj, s, indent_level + 1),
     }
-- 
2.43.0


From 32684786dae74c0d12f8efd118a0f70519fa52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:30 +0000
Subject: [PATCH 56/60] fix: keep the next id of inner lists in the JSON of a
 document

---
 dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs b/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
index 2da154f..3c1efcf 100644
--- a/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
+++ b/dochy_core/src/imp/rust_to_json/list/tmp_json_list.rs
@@ -106,7 +106,7 @@ impl TmpJsonList{
 
     pub(crate) fn from_inner_mut(l : &MutListVal) -> TmpJsonList{
         TmpJsonList{ vec : l.list().iter().map(|(id, item)| TmpJsonObj::from_mut_list_item(item, *id)).collect(),
-            next_id: None, old : None, default : None }
+            next_id: Some(l.list().next_id()), old : None, default : None }
     }
 }
 
-- 
2.43.0


From 164eb914b8f2d06c54e5aab1d1782c9b1021b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:19 +0000
Subject: [PATCH 57/60] fix: load the entries of older source versions with the
 options they were saved with

The options of a history can be changed when the source changes. The entries of
the older versions were listed and loaded by the new number of phases and the
new cumulative flag, so they came back as other documents or not at all. Each
version directory now keeps these two values.
---
 .../src/imp/common/path/reserved_filename.rs  |  5 +++-
 dochy_fs/src/imp/history/fs/load.rs           |  4 +--
 dochy_fs/src/imp/history/fs/mod.rs            |  1 +
 dochy_fs/src/imp/history/fs/saved_options.rs  | 30 +++++++++++++++++++
 .../src/imp/history/pub_fn/list_histories.rs  |  7 +++--
 .../imp/history/pub_fn/save_history_file.rs   |  2 ++
 6 files changed, 44 insertions(+), 5 deletions(-)
 create mode 100644 dochy_fs/src/imp/history/fs/saved_options.rs

diff --git a/dochy_fs/src/imp/common/path/reserved_filename.rs b/dochy_fs/src/imp/common/path/reserved_filename.rs
index d36492d..fd3c04c 100644
--- a/dochy_fs/src/imp/common/path/reserved_filename.rs
+++ b/dochy_fs/src/imp/common/path/reserved_filename.rs
@@ -6,6 +6,9 @@ pub const ARCHIVE_DEFAULT_NAME : &'static str = "src.archive";
 /// the file name of the files which contains "created time"
 pub const CREATED_TIME_FILE_NAME : &'static str = "created_time.dat";
 
+/// the file name of the files which contains the options of a history directory
+pub const HISTORY_OPTIONS_FILE_NAME : &'static str = "history_options.dat";
+
 pub(crate) fn is_reserved_filename(filename : &str) -> bool{
-    filename == ARCHIVE_DEFAULT_NAME || filename == CREATED_TIME_FILE_NAME
+    filename == ARCHIVE_DEFAULT_NAME || filename == CREATED_TIME_FILE_NAME || filename == HISTORY_OPTIONS_FILE_NAME
 }
\ No newline at end of file
diff --git a/dochy_fs/src/imp/history/fs/load.rs b/dochy_fs/src/imp/history/fs/load.rs
index 2cbf73e..d82f82f 100644
--- a/dochy_fs/src/imp/history/fs/load.rs
+++ b/dochy_fs/src/imp/history/fs/load.rs
@@ -23,10 +23,10 @@ pub(crate) fn load<
     let opt = opt.as_ref();
     let dir_path = path.parent().ok_or_else(|| format!("No parent found {:?}", path))?;
     let filename = path.file_name().ok_or_else(|| format!("The filename couldn't be found {:?}", path))?.to_string_lossy().to_string();
-    let analyzed = analyze_file_name(&filename, Some(opt.max_phase()))
+    let analyzed = analyze_file_name(&filename, Some(history.max_phase()))
         .ok_or_else(|| format!("invalid file name {}", &filename))?;
 
-    let paths = create_ancestors_paths(history, &analyzed, opt.max_phase(), opt.is_cumulative(), dir_path)?;
+    let paths = create_ancestors_paths(history, &analyzed, history.max_phase(), history.cumulative(), dir_path)?;
 
     Ok(cache.apply_items_for_load(root, paths,  opt)?)
 }
\ No newline at end of file
diff --git a/dochy_fs/src/imp/history/fs/mod.rs b/dochy_fs/src/imp/history/fs/mod.rs
index 46b8c00..963c74a 100644
--- a/dochy_fs/src/imp/history/fs/mod.rs
+++ b/dochy_fs/src/imp/history/fs/mod.rs
@@ -6,3 +6,4 @@ pub mod write_phase_file;
 pub mod load;
 pub mod derive;
 pub mod derive_impl;
+pub(crate) mod saved_options;
diff --git a/dochy_fs/src/imp/history/fs/saved_options.rs b/dochy_fs/src/imp/history/fs/saved_options.rs
new file mode 100644
index 0000000..ac97554
--- /dev/null
+++ b/dochy_fs/src/imp/history/fs/saved_options.rs
@@ -0,0 +1,30 @@
+use std::path::Path;
+use std::io::ErrorKind;
+use crate::error::FsResult;
+use crate::imp::common::path::reserved_filename::HISTORY_OPTIONS_FILE_NAME;
+use crate::imp::history::algo::history_options::HistoryOptions;
+
+/// max_phase and cumulative with which the files of the directory were saved.
+///
+/// The options can be changed when the source is modified, but the files of the older versions still need theirs.
+/// None if they haven't been written (completely)
+pub(crate) fn read_saved_options(history_hash_dir : &Path) -> FsResult<Option<(usize, bool)>>{
+    let vec = match std::fs::read(history_hash_dir.join(HISTORY_OPTIONS_FILE_NAME)){
+        Ok(vec) => vec,
+        Err(e) if e.kind() == ErrorKind::NotFound => return Ok(None),
+        Err(e) => return Err(e.into()),
+    };
+    if vec.len() != 9{ return Ok(None); }
+    let mut max_phase = [0 as u8; 8];
+    max_phase.copy_from_slice(&vec[0..8]);
+    Ok(Some((u64::from_le_bytes(max_phase) as usize, vec[8] != 0)))
+}
+
+pub(crate) fn write_options_if_not_saved(history_hash_dir : &Path, opt : &HistoryOptions) -> FsResult<()>{
+    if read_saved_options(history_hash_dir)?.is_none(){
+        let mut vec = (opt.max_phase() as u64).to_le_bytes().to_vec();
+        vec.push(opt.is_cumulative() as u8);
+        std::fs::write(history_hash_dir.join(HISTORY_OPTIONS_FILE_NAME), vec)?;
+    }
+    Ok(())
+}
diff --git a/dochy_fs/src/imp/history/pub_fn/list_histories.rs b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
index 347a3b4..fe61119 100644
--- a/dochy_fs/src/imp/history/pub_fn/list_histories.rs
+++ b/dochy_fs/src/imp/history/pub_fn/list_histories.rs
@@ -1,6 +1,7 @@
 
 use crate::history::{FileHistory, HistoryInfo};
-use crate::common::get_hash_times;
+use crate::common::{get_hash_times, hash_dir_path};
+use crate::imp::history::fs::saved_options::read_saved_options;
 use crate::error::FsResult;
 use crate::imp::history::file_hist::file_histories::FileHistories;
 
@@ -12,7 +13,9 @@ pub fn list_histories(info : &HistoryInfo) -> FsResult<FileHistories>{
 
     let mut vec : Vec<(u128, FileHistory)> = vec![];
     for (hash, _time) in hash_times{
-        let history = FileHistory::create(history_dir, hash, opt.max_phase(), opt.is_cumulative())?;
+        let (max_phase, cumulative) = read_saved_options(&hash_dir_path(history_dir, hash))?
+            .unwrap_or((opt.max_phase(), opt.is_cumulative()));
+        let history = FileHistory::create(history_dir, hash, max_phase, cumulative)?;
         vec.push((hash, history));
     }
 
diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index df313d5..36f4afa 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -6,6 +6,7 @@ use crate::imp::history::file_name::file_name_props::FileNameProps;
 use crate::imp::history::file_hist::create_file_history::create_file_history;
 use crate::imp::history::file_hist::ancestors::create_ancestors;
 use crate::imp::history::fs::derive_impl::derive_impl;
+use crate::imp::history::fs::saved_options::write_options_if_not_saved;
 use std::sync::Weak;
 use std::sync::atomic::Ordering;
 use crate::imp::history::history_info::HistoryInfo;
@@ -111,6 +112,7 @@ fn save_history_file_impl(history_info: &HistoryInfo,
     let (cache, h) = mutex.muts();
     let hash = cache.hash();
     let history_hash_dir = prepare_hash_dir(history_dir, &src, hash)?;
+    write_options_if_not_saved(&history_hash_dir, &opt)?;
     let current_root_obj = h.clone();
 
     if let Some(info) = current_root_obj {
-- 
2.43.0


From e79a688a428ee1eab2d9830ebfdef8bad4280724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:20:39 +0000
Subject: [PATCH 58/60] fix: do not overwrite a file without permission when
 looking for it fails

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index a5b36c8..e11bc57 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -24,8 +24,13 @@ pub fn save_dochy_file(info : &SaveDirInfo,
     let src_root = info.clone_src_root();
 
     let file_path = hash_dir.join(file_name);
-    if file_path.exists() && overwrite == false {
-        Err("file already exists")?
+    if overwrite == false {
+        // when it can't be seen whether the file exists, it must not be overwritten
+        match std::fs::metadata(&file_path) {
+            Ok(_) => Err("file already exists")?,
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {},
+            Err(e) => Err(e)?,
+        }
     }
     let diff = dochy_diff::get_diff(&src_root, &root)?;
     // the old file must survive when writing fails
-- 
2.43.0


From 8d07c5dbb75d91323919c3665fe9f54db02a8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:24 +0000
Subject: [PATCH 59/60] fix: find the newest history entry when the newest
 version has no entries left

HistoryFiles of the newest source version can be empty, because all of them
were removed or the first save failed. The newest entry of the versions before
is the newest then.
---
 dochy_fs/src/imp/history/file_hist/file_histories.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/file_histories.rs b/dochy_fs/src/imp/history/file_hist/file_histories.rs
index 46ef6a9..22cbfae 100644
--- a/dochy_fs/src/imp/history/file_hist/file_histories.rs
+++ b/dochy_fs/src/imp/history/file_hist/file_histories.rs
@@ -26,7 +26,8 @@ impl FileHistories{
 
     /// gets the newest HisotryFileData
     pub fn get_newest_file_data(&self) -> Option<HistoryFileData>{
-        self.vec.last().and_then(|(hash, his)|
+        //the newest versions may not have any files
+        self.vec.iter().rev().find_map(|(hash, his)|
                                      his.get_newest_prop().map(|prop|
                                      HistoryFileData::new(*hash, his, prop)))
     }
-- 
2.43.0


From f776fec3f048c38c85de1dfd5ce581b7a6bec7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:24 +0000
Subject: [PATCH 60/60] fix: refuse a modified value whose variable became a
 mutable list

The version adjuster dropped the value silently, even with validation.
---
 dochy_core/src/imp/version_adjuster/version_adjuster.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/version_adjuster.rs b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
index 577f1a2..7ee3e1e 100644
--- a/dochy_core/src/imp/version_adjuster/version_adjuster.rs
+++ b/dochy_core/src/imp/version_adjuster/version_adjuster.rs
@@ -59,7 +59,11 @@ pub fn adjust_versions(new : RootObject, old : RootObject, validation : bool) ->
                 };
 
                 if undef == false {
-                    if let Some(RootSabValue::Mut(m_val)) = old_sabun.remove(def_key) {
+                    let old_val = old_sabun.remove(def_key);
+                    if let (Some(RootSabValue::Param(_)), true) = (&old_val, validation) {
+                        Err(format!("Root's member {} is not a mut list", def_key))?
+                    }
+                    if let Some(RootSabValue::Mut(m_val)) = old_val {
                         if let Some(m_val) = m_val {
                             let old_m = match old_def.get(def_key){
                                 Some(RootValue::MList(old_m)) => Some(old_m.default()),
-- 
2.43.0

