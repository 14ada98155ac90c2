From 86cb14b8601dfdd673f0d78636421e9185399ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 01/14] fix: count characters, not bytes, in the positions of
 annotations

---
 crates/mdbook-aquascope/src/annotations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 200ef3b..86f6dd4 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -90,7 +90,7 @@ pub fn parse_annotations(code: &str) -> Result<(String, AquascopeAnnotations)> {
     macro_rules! add_fragment {
       ($s:expr) => {
         fragments.push($s);
-        idx += $s.len();
+        idx += $s.chars().count();
       };
     }
     if let Some(suffix) = line.strip_prefix('#') {
-- 
2.43.0


From 583f1f0350d7ac02b0004c939caccccd765582ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 02/14] fix: report an unknown @Perm option instead of
 panicking

---
 crates/mdbook-aquascope/src/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/permissions.rs b/crates/mdbook-aquascope/src/permissions.rs
index 487a9b8..a2274da 100644
--- a/crates/mdbook-aquascope/src/permissions.rs
+++ b/crates/mdbook-aquascope/src/permissions.rs
@@ -33,7 +33,7 @@ pub fn parse_perms(
             r#"<span class="perm-diff-sub-container"><div class="perm-diff-sub"></div>{perm_html}</span>"#
           ),
           "[missing]" => format!(r#"<span class="perm missing {perm}">{letter}</span>"#),
-          _ => unimplemented!(),
+          options => bail!("Invalid permission option: {options}"),
         },
         None => perm_html,
       };
-- 
2.43.0


From fda4b6a2ff5fc6dd8a8a7795fc8d030bf8713c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 03/14] fix: read the output of a run while waiting for it

A run that printed more than a pipe holds was reported as timed out.
---
 crates/mdbook-aquascope/src/preprocessor.rs | 26 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 7665a6e..04d4b74 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -3,9 +3,11 @@
 use std::{
   collections::HashMap,
   fs,
+  io::{self, Read},
   path::PathBuf,
   process::{Command, Stdio},
   sync::RwLock,
+  thread,
   time::Duration,
 };
 
@@ -18,6 +20,12 @@ use wait_timeout::ChildExt;
 
 use crate::{block::AquascopeBlock, cache::Cache};
 
+fn read_all(mut pipe: impl Read) -> io::Result<Vec<u8>> {
+  let mut buf = Vec::new();
+  pipe.read_to_end(&mut buf)?;
+  Ok(buf)
+}
+
 pub struct AquascopePreprocessor {
   miri_sysroot: PathBuf,
   target_libdir: PathBuf,
@@ -85,22 +93,28 @@ impl AquascopePreprocessor {
 
       let mut child =
         cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
-      if child.wait_timeout(Duration::from_secs(10))?.is_none() {
+      // Read the output while waiting, or the child blocks on a full pipe.
+      let stdout = child.stdout.take().unwrap();
+      let stdout = thread::spawn(move || read_all(stdout));
+      let stderr = child.stderr.take().unwrap();
+      let stderr = thread::spawn(move || read_all(stderr));
+      let Some(status) = child.wait_timeout(Duration::from_secs(10))? else {
         child.kill()?;
         bail!("Aquascope timed out on program:\n{}", block.code)
       };
 
-      let output = child.wait_with_output()?;
+      let stdout = stdout.join().unwrap()?;
+      let stderr = stderr.join().unwrap()?;
 
-      if !output.status.success() {
-        let error = String::from_utf8(output.stderr)?;
+      if !status.success() {
+        let error = String::from_utf8(stderr)?;
         bail!(
           "Aquascope failed for program:\n{}\nwith error:\n{error}",
           block.code
         )
       }
 
-      let response = String::from_utf8(output.stdout)?;
+      let response = String::from_utf8(stdout)?;
       let response_json: serde_json::Value = serde_json::from_str(&response)?;
       let is_err = match (response_json.as_object(), response_json.as_array()) {
         (Some(obj), _) => obj.get("Err").is_some(),
@@ -108,7 +122,7 @@ impl AquascopePreprocessor {
         _ => false,
       };
       if is_err {
-        let stderr = String::from_utf8(output.stderr)?;
+        let stderr = String::from_utf8(stderr)?;
         bail!(
           "Aquascope failed for program:\n{}\nwith error:\n{stderr}",
           block.code,
-- 
2.43.0


From cb7b9bbbce1b7725ab08e4b38fe3d6f5dcc4e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 04/14] fix: stepper crashed on a branch without targets

---
 .../src/analysis/stepper/segmented_mir.rs       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 05d01da..6c33d73 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -162,6 +162,7 @@ pub(super) struct SegmentData {
 #[derive(Debug)]
 pub(super) struct BranchData {
   table_id: TableId,
+  scope: ScopeId,
   pub(super) reach: MirSegment,
 
   /// Split segments, `from` dominates `to` but `to` does not post-dominate `from`.
@@ -241,10 +242,16 @@ pub(super) struct SegmentedMir {
 // Impl sections
 
 impl BranchData {
-  pub fn new(tid: TableId, root: Location, phi: Option<Location>) -> Self {
+  pub fn new(
+    tid: TableId,
+    scope: ScopeId,
+    root: Location,
+    phi: Option<Location>,
+  ) -> Self {
     let to = phi.unwrap_or(root);
     BranchData {
       table_id: tid,
+      scope,
       reach: MirSegment::new(root, to),
       splits: Vec::default(),
       joins: Vec::default(),
@@ -323,10 +330,8 @@ impl SegmentedMir {
   }
 
   pub fn get_branch_scope(&self, bid: BranchId) -> ScopeId {
-    let branch = self.get_branch(bid);
-    let sid = branch.splits[0];
-    let segment = self.get_segment(sid);
-    segment.scope
+    // A branch without targets has no split segment to take the scope from.
+    self.get_branch(bid).scope
   }
 
   pub fn get_collection(&self, cid: CollectionId) -> &Collection {
@@ -585,7 +590,7 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
     let bid =
       self
         .branches
-        .push(BranchData::new(tid, switch_location, phi_opt));
+        .push(BranchData::new(tid, scope, switch_location, phi_opt));
     let branch = &mut self.branches[bid];
 
     // Save the Location -> Span mappings under this root BranchId.
-- 
2.43.0


From b43ce748bb09185fc8978929bc38c2e315854e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 05/14] fix: stepper crashed on implicit branches nested in
 implicit branches

---
 .../src/analysis/stepper/segmented_mir.rs          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 6c33d73..35c60dd 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -680,8 +680,20 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
   ) -> Result<()> {
     log::debug!("opening implicit branch at {root:?}");
 
-    let child = self.mk_branch(root, GetSpanner::GetFrom(parent))?;
     let parent_tid = self.branches[parent].table_id;
+    // The parent can itself be an implicit branch, only the user initiated
+    // branch at the root of the nesting stores the Location -> Span mappings.
+    let mapped = self
+      .root_mappings
+      .keys()
+      .copied()
+      .find(|&bid| {
+        self
+          .branch_roots
+          .unioned(self.branches[bid].table_id, parent_tid)
+      })
+      .unwrap_or(parent);
+    let child = self.mk_branch(root, GetSpanner::GetFrom(mapped))?;
     let child_tid = self.branches[child].table_id;
     self.branch_roots.union(parent_tid, child_tid);
     Ok(())
-- 
2.43.0


From 41aca41d05a6a021c3aeefd65ec90af5f1dcae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 06/14] fix: stepper never returned on a loop without a
 switchInt after a match

---
 crates/aquascope/src/analysis/stepper/segmented_mir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 35c60dd..d5f6d9b 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -532,8 +532,10 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
     };
 
     let mut current = Some(current.block);
+    let mut visited = HashSet::default();
     let mut linear_blocks = std::iter::from_fn(move || {
-      let previous = current?;
+      // The blocks of a loop without a switchInt lead back to themselves.
+      let previous = current.filter(|b| visited.insert(*b))?;
       let ss = self
         .mapper
         .cleaned_graph
-- 
2.43.0


From c35e2fcb4b39d608fc027b787b2dff4810c0d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 07/14] fix: stepper overflowed the stack inserting a step its
 branch does not lead to

---
 .../aquascope/src/analysis/stepper/segmented_mir.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index d5f6d9b..261de1a 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -829,6 +829,19 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
       //      that compile to a series of `switchInt`s.
       FindResult::NonLinear(parent, branch_loc) => {
         self.open_child_branch(parent, branch_loc)?;
+
+        // Each child branch must lead closer to `location`, otherwise the
+        // retry would open the same branches forever.
+        if let FindResult::NonLinear(_, next_loc) =
+          self.find_suitable_collection(location)
+        {
+          ensure!(
+            next_loc != branch_loc
+              && self.mapper.ldominates(branch_loc, next_loc),
+            "branch at {branch_loc:?} does not lead to {location:?}"
+          );
+        }
+
         self.insert(location, path_hint, span)
       }
 
-- 
2.43.0


From 0e98fa2fe7915ff6871872aaf61e92087eac4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 08/14] fix: closing a branch closed nothing once it had
 implicit branches

---
 crates/aquascope/src/analysis/stepper/segmented_mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 261de1a..f94a598 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -706,7 +706,7 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
   /// Contrary to previous implementations, the function does not implicitly
   /// add a new segment for all split steps.
   pub fn close_branch(&mut self, bid: BranchId) -> Result<()> {
-    let table_root = self.branches[bid].table_id;
+    let table_root = self.branch_roots.find(self.branches[bid].table_id);
 
     let branches_to_close = self
       .branches
-- 
2.43.0


From 75ca576fccf5c95daed1a0285af4d6d02e47c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 09/14] fix: steps of a branch replaced earlier steps ending at
 the same location

---
 crates/aquascope/src/analysis/stepper/table_builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index b88b4c7..6231000 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -185,7 +185,10 @@ impl<'a, 'tcx: 'a> TableBuilder<'a, 'tcx> {
 
     // Flatten all tables to the unique `PermissionsDataDiff`s
     // that exist within them.
-    result.extend(temp_middle);
+    // A location can end steps on several ways, none of which may get lost.
+    for (location, tables) in temp_middle {
+      result.entry(location).or_default().extend(tables);
+    }
 
     // Attach filtered locals
     result.entry(reach.to).or_default().push(Table {
-- 
2.43.0


From 2f5e860f6b54c22d041d6dcc861be3ff762ce3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 10/14] fix: joining ranges from two macro expansions kept only
 one of them

---
 crates/aquascope/src/analysis/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index 3b2ded7..aab3c18 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -162,7 +162,10 @@ impl Bounded for Span {
   }
 
   fn to(&self, other: Self) -> Self {
-    Span::to(*self, other)
+    // Of two spans from different expansions `Span::to` keeps only one.
+    let lo = std::cmp::min(Span::lo(*self), Span::lo(other));
+    let hi = std::cmp::max(Span::hi(*self), Span::hi(other));
+    self.with_lo(lo).with_hi(hi)
   }
 }
 
-- 
2.43.0


From 69f701d9172b7e0aa42471e2028fa8766917d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 11/14] fix: loan and move regions showed only the invisible
 ranges

---
 crates/aquascope/src/analysis/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index aab3c18..76e2ffe 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -324,7 +324,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
 
   pub fn is_span_visible(&self, span: Span) -> bool {
     // let source_map = self.permissions.tcx.sess.source_map();
-    span.is_dummy() || span.is_empty() // || !span.is_visible(source_map)
+    !(span.is_dummy() || span.is_empty()) // || !span.is_visible(source_map)
   }
 
   pub fn span_to_range(&self, span: Span) -> CharRange {
@@ -462,6 +462,8 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
               .filter(|point| ctxt.is_point_operational(*point)),
           )
           .into_iter()
+          // A node expanded from another file's macro has no range here.
+          .filter_map(|span| span.as_local(ctxt.body_with_facts.body.span))
           .filter(|span| lo <= span.lo())
           .collect::<Vec<_>>();
         let smoothed = smooth_elements(points);
-- 
2.43.0


From d2893e9ead9d5dcbb279bab6197d4f657a3fb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 12/14] fix: regions bound in a return type are not regions of
 the body

---
 crates/aquascope/src/analysis/permissions/flow.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/aquascope/src/analysis/permissions/flow.rs b/crates/aquascope/src/analysis/permissions/flow.rs
index c7636d6..19838b7 100644
--- a/crates/aquascope/src/analysis/permissions/flow.rs
+++ b/crates/aquascope/src/analysis/permissions/flow.rs
@@ -389,6 +389,9 @@ pub fn compute_flows(ctxt: &mut PermissionsCtxt) {
     .chain(
       body
         .regions_in_return()
+        // Regions bound within the return type, e.g. those
+        // of `fn(&u8) -> &u8`, are not regions of the body.
+        .filter(|rg| rg.is_var())
         .map(|rg| PoloniusRegionVid::from(rg.as_var())),
     )
     .map(|p| scc_constraints.scc(p))
-- 
2.43.0


From 24f90321a983a6269210173dcdcdfa574b4d1fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:21 +0000
Subject: [PATCH 13/14] fix: places inside a moved value of a recursive type
 had no path

---
 crates/aquascope/src/analysis/permissions/output.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 18e86ef..9df7a64 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -180,9 +180,17 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
   // We consider all place that are either:
   // 1. Internal to a local declaration.
   // 2. A path considered moveable by rustc.
+  // 3. Internal to a path moved out of. The places internal to a local stop
+  //    where a type repeats, which is not where those of its parts do.
   let places = body
     .all_places(tcx, def_id.to_def_id())
     .chain(ctxt.move_data.move_paths.iter().map(|v| v.place))
+    .chain(ctxt.move_data.moves.iter().flat_map(|v| {
+      let place = ctxt.move_data.move_paths[v.path].place;
+      place
+        .normalize(tcx, def_id.to_def_id())
+        .interior_paths(tcx, body, def_id.to_def_id())
+    }))
     .collect::<Vec<_>>();
 
   // Normalize all places and get the associated AquascopeFacts::Point,
-- 
2.43.0


From d614941123a12bf3e6557c6c99d3e7d131e4b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 14/14] fix: what a Box behind a mutable reference owns was
 never writable

---
 crates/aquascope/src/analysis/permissions/output.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 9df7a64..71ba25b 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -386,9 +386,11 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
 
           // In the above example of `*x`, example `x` could also be a
           // `Box`, or for a different base path an array. These cases
-          // would require us to check the mutability binding of the local.
+          // would require us to check the mutability binding of the local,
+          // unless `x` itself is behind a pointer, in which case that one
+          // decides whether what `x` owns can be written.
           let local_place = Place::from_local(prefix.local, tcx);
-          ctxt.is_declared_readonly(&local_place)
+          !prefix.is_indirect() && ctxt.is_declared_readonly(&local_place)
         })
     }
   };
-- 
2.43.0

