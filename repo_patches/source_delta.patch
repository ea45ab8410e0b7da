From 29ac5fcdb35fd0cf7f8b297cfe7256baa3c5aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 01/12] hook: read access to private piece sets under
 cfg(barbarosa_verif)

---
 barbarosa/src/cube_n/cube4/mod.rs            |  9 ++++++
 barbarosa/src/cube_n/cube5/mod.rs            | 21 +++++++++++++
 barbarosa/src/cube_n/cube6/mod.rs            | 25 ++++++++++++++++
 barbarosa/src/cube_n/cube7/mod.rs            | 31 ++++++++++++++++++++
 barbarosa/src/cube_n/pieces/center/corner.rs | 13 ++++++++
 barbarosa/src/lib.rs                         |  1 +
 6 files changed, 100 insertions(+)

diff --git a/barbarosa/src/cube_n/cube4/mod.rs b/barbarosa/src/cube_n/cube4/mod.rs
index 327c4b2..9aa7be0 100644
--- a/barbarosa/src/cube_n/cube4/mod.rs
+++ b/barbarosa/src/cube_n/cube4/mod.rs
@@ -51,3 +51,12 @@ impl CubeN for Cube4 {
 }
 
 impl_movable_wide_move_inductively!(Cube4, 1, [0]);
+
+/// Access to the piece sets for the verification harnesses.
+#[cfg(barbarosa_verif)]
+#[allow(missing_docs, clippy::type_complexity)]
+impl Cube4 {
+    pub fn verif_sets(&mut self) -> (&mut CornerSet, &mut WingSet<1>, &mut CenterCornerSet<1>) {
+        (&mut self.corners, &mut self.wings, &mut self.centers)
+    }
+}
diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index e765cd0..bec11c0 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -50,3 +50,24 @@ impl CubeN for Cube5 {
 }
 
 impl_movable_wide_move_inductively!(Cube5, 1, [0]);
+
+/// Access to the piece sets for the verification harnesses.
+#[cfg(barbarosa_verif)]
+#[allow(missing_docs, clippy::type_complexity)]
+impl Cube5 {
+    pub fn verif_sets(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut EdgeSet,
+        &mut CenterCornerSet<1>,
+        &mut CenterEdgeSet<1>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.edges,
+            &mut self.corner_centers,
+            &mut self.corner_edges,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/cube6/mod.rs b/barbarosa/src/cube_n/cube6/mod.rs
index 38ddfd2..9574ff7 100644
--- a/barbarosa/src/cube_n/cube6/mod.rs
+++ b/barbarosa/src/cube_n/cube6/mod.rs
@@ -69,3 +69,28 @@ impl CubeN for Cube6 {
 }
 
 impl_movable_wide_move_inductively!(Cube6, 2, [0, 1]);
+
+/// Access to the piece sets for the verification harnesses.
+#[cfg(barbarosa_verif)]
+#[allow(missing_docs, clippy::type_complexity)]
+impl Cube6 {
+    pub fn verif_sets(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut WingSet<1>,
+        &mut WingSet<2>,
+        &mut CenterCornerSet<1>,
+        &mut CenterCornerSet<2>,
+        &mut CenterWingSet<1, 2>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.wings_1,
+            &mut self.wings_2,
+            &mut self.center_corners_1,
+            &mut self.center_corners_2,
+            &mut self.center_wings,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/cube7/mod.rs b/barbarosa/src/cube_n/cube7/mod.rs
index c050793..94fd422 100644
--- a/barbarosa/src/cube_n/cube7/mod.rs
+++ b/barbarosa/src/cube_n/cube7/mod.rs
@@ -83,3 +83,34 @@ impl CubeN for Cube7 {
 }
 
 impl_movable_wide_move_inductively!(Cube7, 2, [0, 1]);
+
+/// Access to the piece sets for the verification harnesses.
+#[cfg(barbarosa_verif)]
+#[allow(missing_docs, clippy::type_complexity)]
+impl Cube7 {
+    pub fn verif_sets(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut EdgeSet,
+        &mut WingSet<1>,
+        &mut WingSet<2>,
+        &mut CenterCornerSet<1>,
+        &mut CenterCornerSet<2>,
+        &mut CenterWingSet<1, 2>,
+        &mut CenterEdgeSet<1>,
+        &mut CenterEdgeSet<2>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.edges,
+            &mut self.wings_1,
+            &mut self.wings_2,
+            &mut self.center_corners_1,
+            &mut self.center_corners_2,
+            &mut self.center_wings,
+            &mut self.center_edges_1,
+            &mut self.center_edges_2,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 836a345..d5f7c48 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -101,3 +101,16 @@ impl CenterCorner {
 
 /// A set of [`CenterCorner`]s with depth `ND`
 pub type CenterCornerSet<const ND: u32> = DepthPieceSet<CenterCorner, 24, ND>;
+
+/// Access to the private fields for the verification harnesses.
+#[cfg(barbarosa_verif)]
+#[allow(missing_docs)]
+impl CenterCorner {
+    pub fn verif_new(position: Vec3, axis: Axis) -> Self {
+        Self::new(position, axis)
+    }
+
+    pub fn verif_parts(&self) -> (Vec3, Axis) {
+        (self.position, self.axis)
+    }
+}
diff --git a/barbarosa/src/lib.rs b/barbarosa/src/lib.rs
index adf6d5b..62f2db0 100644
--- a/barbarosa/src/lib.rs
+++ b/barbarosa/src/lib.rs
@@ -1,5 +1,6 @@
 #![warn(missing_docs)]
 #![warn(clippy::doc_markdown)]
+#![allow(unexpected_cfgs)]
 #![doc = include_str!("../README.md")]
 
 pub mod cube_n;
-- 
2.43.0


From 4a77106c97848aeeed5b16282ce68f9089e1ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 02/12] fix: center edges follow a wide move only up to the
 depth of that move

---
 barbarosa/src/cube_n/pieces/center/edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/pieces/center/edge.rs b/barbarosa/src/cube_n/pieces/center/edge.rs
index ea2e315..25985c9 100644
--- a/barbarosa/src/cube_n/pieces/center/edge.rs
+++ b/barbarosa/src/cube_n/pieces/center/edge.rs
@@ -133,7 +133,7 @@ impl DepthPiece for CenterEdge {
             return true;
         }
 
-        if m.face() == &self.side_face() && normal_depth <= M {
+        if m.face() == &self.side_face() && normal_depth <= m.depth() {
             return true;
         }
 
-- 
2.43.0


From 15017f8345efc1a98c58a29a6e191dbab97e26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 03/12] fix: plain axis moves turn only the outer layer of big
 cubes

---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 45ca0bf..aae577e 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -135,7 +135,7 @@ macro_rules! impl_movable_wide_move_inductively {
     ($cube:ty, $max_width:literal, 0) => {
         impl crate::generic::Movable<crate::cube_n::AxisMove> for $cube {
             fn apply(&mut self, m: &crate::cube_n::AxisMove) {
-                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen($max_width).unwrap());
+                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen(0).unwrap());
             }
         }
     };
-- 
2.43.0


From 6fac8aafec00d503dd178060bce12d1667a08e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 04/12] fix: center corners are only solved on their own face,
 not on any face of the same direction

---
 barbarosa/src/cube_n/pieces/center/corner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index d5f7c48..c5d0527 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -30,7 +30,8 @@ impl generic::Piece for CenterCorner {
     }
 
     fn is_solved(&self, original_pos: &Self::Position) -> bool {
-        self.position[self.axis] == original_pos.position[original_pos.axis]
+        self.axis == original_pos.axis
+            && self.position[self.axis] == original_pos.position[original_pos.axis]
     }
 }
 
@@ -95,7 +96,7 @@ impl CenterCorner {
 
     /// Determines whether the [`CenterCorner`] is solved.
     pub fn is_solved(&self, original: &CenterCorner) -> bool {
-        self.position[self.axis] == original.position[original.axis]
+        generic::Piece::is_solved(self, original)
     }
 }
 
-- 
2.43.0


From 2ffca18e270952ef5b36b65b9f0afd4ce0d091db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 05/12] fix: a 5x5 whose equal centers are permuted is solved,
 as on the other big cubes

---
 barbarosa/src/cube_n/cube5/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index bec11c0..57ab43a 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -34,6 +34,16 @@ impl generic::Cube for Cube5 {
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.corners.is_solved()
+            && self.edges.is_solved()
+            && self.corner_centers.is_solved()
+            && self.corner_edges.is_solved()
+    }
 }
 
 impl generic::Movable<WideAxisMove<1>> for Cube5 {
-- 
2.43.0


From 5b6f2c790c3d4f23dd50ef8534722aa9bc60ab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 06/12] fix: normalized algs no longer keep redundant moves
 after a cancellation between opposite faces

---
 barbarosa/src/cube_n/moves/non_redundant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/non_redundant.rs b/barbarosa/src/cube_n/moves/non_redundant.rs
index 70036ff..3e812ac 100644
--- a/barbarosa/src/cube_n/moves/non_redundant.rs
+++ b/barbarosa/src/cube_n/moves/non_redundant.rs
@@ -322,11 +322,17 @@ impl Alg<AxisMove> {
                     absorve(&mut nr_move, mov);
                 }
 
-                // If we collapsed something, we need to go back one move to see if we can join it with something else
+                // If we collapsed something, we need to go back to the moves on the last axis to see if we can join them with something else
                 AbsorveResult::Collapsed => {
                     offload(&mut nr_move, &mut moves);
                     if let Some(mov) = moves.pop() {
+                        let axis = mov.face.axis;
                         self.moves.push(mov);
+
+                        // There can be another one, since both faces of the axis might be turned
+                        while moves.last().is_some_and(|mov| mov.face.axis == axis) {
+                            self.moves.extend(moves.pop());
+                        }
                     }
                 }
 
-- 
2.43.0


From 608030ae5b61c57e0a5ca1d2723a2bddb2dd44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 07/12] fix: the rotations of an orientation always reach that
 orientation

---
 barbarosa/src/cube_n/orientable/orientation.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index a0d39e0..d11e98d 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -47,10 +47,12 @@ fn connecting_rotation_with_face(from: &Face, to: &Face, face: &Face) -> Option<
         return None;
     }
 
-    let amount = match from.axis.get_handedness(&to.axis) {
-        Ok(Direction::Positive) => Amount::Single,
-        Ok(Direction::Negative) => Amount::Inverse,
-        Err(ParallelAxesError::SameAxis(_)) => Amount::Double,
+    let amount = if from.axis == to.axis {
+        Amount::Double
+    } else if from.clone().next_around(&face.axis) == *to {
+        Amount::Single
+    } else {
+        Amount::Inverse
     };
 
     Some(AxisRotation::new(face.axis, amount))
@@ -76,12 +78,7 @@ impl Orientation {
             .map(|rot| Face::U.rotated(rot))
             .unwrap_or(Face::U);
 
-        let r_face = r_rot.as_ref().map(|rot| Face::R.rotated(rot));
-
-        let u_rot = match r_face {
-            Some(r_face) => connecting_rotation_with_face(&new_u, &self.u_face(), &r_face),
-            None => connecting_rotation(&new_u, &self.u_face()),
-        };
+        let u_rot = connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);
 
         use std::iter::{empty, once};
         use Either::*;
-- 
2.43.0


From c6c37152cadfb77ee523c58eafac682845d6f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 08/12] fix: moves on an oriented cube turn the face that is
 currently there

---
 barbarosa/src/cube_n/orientable/mod.rs         |  6 +-----
 barbarosa/src/cube_n/orientable/orientation.rs | 13 +++++++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 70fe38a..a3f7956 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -55,11 +55,7 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     fn apply(&mut self, m: &M) {
-        let mut m = m.clone();
-
-        for rotation in self.orientation.rotations() {
-            m.rotate(&rotation);
-        }
+        let m = self.orientation.to_base(m);
 
         self.base_cube.apply(&m);
     }
diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index d11e98d..46a12d9 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -90,6 +90,19 @@ impl Orientation {
         }
     }
 
+    /// Maps a move done on the oriented cube to the move that turns the same pieces on the base cube.
+    pub(crate) fn to_base<M: Rotatable + Clone>(&self, m: &M) -> M {
+        let mut m = m.clone();
+
+        // Undo the rotations that bring the base cube to the current orientation
+        let rotations: Vec<_> = self.rotations().collect();
+        for rotation in rotations.iter().rev() {
+            m.rotate(&rotation.inverse());
+        }
+
+        m
+    }
+
     pub(super) const fn const_default() -> Self {
         Self {
             r_face: Face::R,
-- 
2.43.0


From b2be275d492c47160f5fc64ea3f5ef9daf487142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 09/12] fix: wide moves on an oriented cube turn the right
 layers for every depth and orientation

---
 barbarosa/src/cube_n/moves/extended.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index c8e1758..eb0aae9 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -72,21 +72,23 @@ macro_rules! impl_movable_extended {
                     ExtendedAxisMove::Regular(m) => self.apply(m),
                     ExtendedAxisMove::Rotation(rot) => self.orientation.rotate(rot),
                     ExtendedAxisMove::Wide(m) => {
-                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth()) else {
-                            // If depth is more than N, then it is equivalent to a rotation
+                        // A move of depth `d` turns `d + 1` layers, so `N - 1 - d` layers are left on the opposite side
+                        let Some(depth_oppossite) = (<$cube>::N - 1).checked_sub(m.depth()).and_then(|left| left.checked_sub(1)) else {
+                            // If there are no layers left, then it is equivalent to a rotation
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             return;
                         };
 
-                        let m = if m.depth() < depth_oppossite {
+                        let m = if m.depth() <= depth_oppossite {
                             m.clone()
                         } else {
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             opposite(&m, depth_oppossite)
                         };
 
-                        let m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
+                        let mut m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
                             .expect("the depth from both sides can't be larger than N/2");
+                        m.axis_move = self.orientation.to_base(&m.axis_move);
                         self.base_cube.apply(&m);
                     },
                     ExtendedAxisMove::Slice { rot, wide } => {
-- 
2.43.0


From af774144897dd1acfec541608a0f60e7ecd38256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 10/12] fix: slice moves keep the outer layers in place in
 every orientation

---
 barbarosa/src/cube_n/moves/extended.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index eb0aae9..d3b5569 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -98,7 +98,9 @@ macro_rules! impl_movable_extended {
                                 true => <$cube>::N / 2 - 1,
                             };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative, depth).unwrap();
+                            // Turning the outer layers against the rotation, so the amount depends on the side
+                            let m = AxisMove::new(Face::new(rot.axis, dir), rot.amount * -dir);
+                            let m = self.orientation.to_base(&m).widen::<{ <$cube>::N / 2 - 1 }>(depth).unwrap();
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From ef99b9e0a8aca33ca49e1e8abdeb4d875cd40e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:01 +0000
Subject: [PATCH 11/12] fix: printing the deepest wide move overflowed

---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index aae577e..9ef2258 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -111,7 +111,7 @@ impl<const N: u32> std::fmt::Display for WideAxisMove<N> {
             i => write!(
                 f,
                 "{}{}w{}",
-                i + 1,
+                u64::from(i) + 1,
                 self.axis_move.face,
                 self.axis_move.amount
             ),
-- 
2.43.0


From ccae7c5d9173b7400366e7b086a60b6beaf9b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:48 +0000
Subject: [PATCH 12/12] hook: the table cache's private parts under
 cfg(barbarosa_verif)

---
 .../cube_n/cube3/mus/cache/disk_storage.rs    |  8 ++++++++
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs   | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 7f21d6a..97af71a 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -104,3 +104,11 @@ fn assert_correct_cache_size<T: DiskCacheable>(given: usize) {
         panic!("Cache file seems to be corrupted. It should be {} bytes long, but it's {} bytes long (help: might be wise to delete `mus-cache/`)", T::TOTAL_SET_SIZE, given);
     }
 }
+
+/// Access to a private function for the verification harnesses.
+#[cfg(barbarosa_verif)]
+pub fn verif_load_or_build_partial<
+    T: DiskCacheable + Deindexable + Movable<AxisMove> + Clone,
+>() -> io::Result<Vec<u8>> {
+    load_or_build_partial::<T>()
+}
diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index f9ae997..15e79d5 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -70,3 +70,22 @@ impl Cache {
         disk_storage::load()
     }
 }
+
+/// Access to the private parts for the verification harnesses.
+#[cfg(barbarosa_verif)]
+#[allow(missing_docs)]
+pub mod verif {
+    pub use super::disk_storage::{
+        load_partial, verif_load_or_build_partial, write_partial, DiskCacheable,
+    };
+    pub use super::generation::build_partial;
+    use super::*;
+
+    pub fn new(edges: Vec<u8>, corners: Vec<u8>) -> Cache {
+        Cache { edges, corners }
+    }
+
+    pub fn install(cache: Cache) -> bool {
+        CACHE_LOCK.set(cache).is_ok()
+    }
+}
-- 
2.43.0

