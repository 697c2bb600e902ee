From 87c9f77aada8f67dc09129f357a739f3e39dbe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 1/3] fix: converting a stack with an empty active vector no
 longer builds an empty leaf

An AStack whose last operation archived (or popped) everything outside the
archive was converted to a RazTree with an empty leaf, on which fold_up,
fold_up_nl and user functions that need data panic.
---
 src/raz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raz.rs b/src/raz.rs
index 5fc57d3..567c1c6 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -761,6 +761,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut tailstack = tailstack.0.clone();
+		// an empty active vec has no data for a leaf, start from the archive below it
+		if tailstack.active_len() == 0 { tailstack.next_archive(); }
 		let name = tailstack.name();
 		let (level, first_tree) = match tailstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
@@ -837,6 +839,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut headstack = headstack.0.clone();
+		// an empty active vec has no data for a leaf, start from the archive below it
+		if headstack.active_len() == 0 { headstack.next_archive(); }
 		let name = headstack.name();
 		let (level, first_tree) = match headstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
-- 
2.43.0


From 4e7168ec6ba6a9879f9a890363a0196bf164ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 2/3] fix: good_levels accepts the level order the library
 builds

Everything that builds trees (Cursor::join and up, both stack conversions,
the Level documentation) keeps left branches strictly below their parent and
lets right branches equal it. good_levels checked the mirror image, so it
rejected library-built trees with adjacent equal levels and accepted trees
the library never builds.
---
 src/level_tree.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/level_tree.rs b/src/level_tree.rs
index f4547f5..0c25d54 100644
--- a/src/level_tree.rs
+++ b/src/level_tree.rs
@@ -212,21 +212,21 @@ Tree<E> {
 /// ```
 ///
 /// checks that the levels of the tree follow the convention
-/// of non-increasing to the left branch and decreasing to the
+/// of decreasing to the left branch and non-increasing to the
 /// right branch
 ///
 /// also prints the levels of the failing trees and branches
 pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
 	let mut good = true;
 	if let Some(ref t) = force(&tree.link).l_branch {
-		if t.level > tree.level {
+		if t.level >= tree.level {
 			println!("Tree with level {:?} has left branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
 		if !good_levels(t) { good = false }
 	}
 	if let Some(ref t) = force(&tree.link).r_branch {
-		if t.level >= tree.level {
+		if t.level > tree.level {
 			println!("Tree with level {:?} has right branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
-- 
2.43.0


From 49e95d0ac1912c0545a806cf71003d5341365a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 3/3] fix: skiplist observes whole paths, so incremental users
 never get stale results

Several lookups by one memoised computation may observe the same Path cell
through different projections. The engine records each projection but keeps
one dirty flag per cell, cleared once the first projection is unchanged, so
a computation whose second lookup had changed was wrongly reused: folding a
sequence into a set, as eval's unique_elms does, lost elements after an
insertion.
---
 src/skiplist.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/skiplist.rs b/src/skiplist.rs
index a25c94d..47a3364 100644
--- a/src/skiplist.rs
+++ b/src/skiplist.rs
@@ -9,7 +9,7 @@ use std::fmt;
 use std::fmt::Debug;
 use std::hash::{Hash,Hasher};
 use std::collections::hash_map::{DefaultHasher};
-use adapton::engine::{cell,force_map,Art,Name,name_pair,name_of_usize};
+use adapton::engine::{cell,force,Art,Name,name_pair,name_of_usize};
 
 fn my_hash<T>(obj: T) -> u64
   where T: Hash
@@ -165,9 +165,13 @@ fn build_path_rec
 {    
     let key_bits : usize = key_hash.0;
     let key_biti : usize = cursor.paths.len();
-    let mut res =
-        force_map(&cur_art, move |art,path|
-                  build_path_step (art, path, ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti})) ;
+    // A computation may look up several keys, and so observe one `Path`
+    // several times. The engine keeps a single dirty flag for all of
+    // them, and clears it once the first observation is unchanged; so we
+    // observe the whole `Path`, not a projection of it (`force_map`).
+    let path = force(cur_art);
+    let mut res = build_path_step(
+        cur_art, path, ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti});
     cursor.paths.append(&mut res.paths);
     match res.kvs {
         Some(kvs) => {
-- 
2.43.0

