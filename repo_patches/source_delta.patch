From 60d8002795f8f010a4dfbcdf49f4835d263c635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:00 +0000
Subject: [PATCH 01/22] fix: sample with a context larger than the animation

The keyframe cache used the context's capacity instead of the animation's
track count, so any context with spare capacity panicked (or decoded keys of
a previous, larger animation).
---
 src/sampling_job.rs | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index a87a9de..fad66f7 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -577,19 +577,19 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.translation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, animation.num_soa_tracks().div_ceil(8)) },
             next: &mut inner.translation_next,
         }
     }
 
     #[inline]
-    fn translation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn translation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.translation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, inner.max_outdated) },
-            values: unsafe { slice::from_raw_parts_mut(inner.translations, inner.max_soa_tracks) },
+            entries: unsafe { slice::from_raw_parts(inner.translation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.translation_outdated, animation.num_soa_tracks().div_ceil(8)) },
+            values: unsafe { slice::from_raw_parts_mut(inner.translations, animation.num_soa_tracks()) },
         }
     }
 
@@ -599,19 +599,19 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.rotation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, animation.num_soa_tracks().div_ceil(8)) },
             next: &mut inner.rotation_next,
         }
     }
 
     #[inline]
-    fn rotation_decompress_args(&self) -> DecompressArgs<'_, InterpSoaQuaternion> {
+    fn rotation_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaQuaternion> {
         let inner = self.inner();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.rotation_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, inner.max_outdated) },
-            values: unsafe { slice::from_raw_parts_mut(inner.rotations, inner.max_soa_tracks) },
+            entries: unsafe { slice::from_raw_parts(inner.rotation_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.rotation_outdated, animation.num_soa_tracks().div_ceil(8)) },
+            values: unsafe { slice::from_raw_parts_mut(inner.rotations, animation.num_soa_tracks()) },
         }
     }
 
@@ -621,19 +621,19 @@ impl SamplingContext {
         UpdateArgs {
             num_tracks: animation.num_tracks(),
             num_soa_tracks: animation.num_soa_tracks(),
-            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
+            entries: unsafe { slice::from_raw_parts_mut(inner.scale_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, animation.num_soa_tracks().div_ceil(8)) },
             next: &mut inner.scale_next,
         }
     }
 
     #[inline]
-    fn scale_decompress_args(&self) -> DecompressArgs<'_, InterpSoaFloat3> {
+    fn scale_decompress_args(&self, animation: &Animation) -> DecompressArgs<'_, InterpSoaFloat3> {
         let inner = self.inner();
         DecompressArgs {
-            entries: unsafe { slice::from_raw_parts(inner.scale_entries, inner.max_tracks) },
-            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, inner.max_outdated) },
-            values: unsafe { slice::from_raw_parts_mut(inner.scales, inner.max_soa_tracks) },
+            entries: unsafe { slice::from_raw_parts(inner.scale_entries, animation.num_aligned_tracks()) },
+            outdated: unsafe { slice::from_raw_parts_mut(inner.scale_outdated, animation.num_soa_tracks().div_ceil(8)) },
+            values: unsafe { slice::from_raw_parts_mut(inner.scales, animation.num_soa_tracks()) },
         }
     }
 }
@@ -1115,17 +1115,17 @@ where
 
         let args = ctx.as_mut().translation_update_args(anim);
         Self::update_cache(args, anim, &anim.translations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().translation_decompress_args();
+        let args = ctx.as_mut().translation_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.translations_ctrl(), anim.translations());
 
         let args = ctx.as_mut().rotation_update_args(anim);
         Self::update_cache(args, anim, &anim.rotations_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().rotation_decompress_args();
+        let args = ctx.as_mut().rotation_decompress_args(anim);
         Self::decompress_quat(args, anim.timepoints(), &anim.rotations_ctrl(), anim.rotations());
 
         let args = ctx.as_mut().scale_update_args(anim);
         Self::update_cache(args, anim, &anim.scales_ctrl(), self.ratio, prev_ratio);
-        let args = ctx.as_mut().scale_decompress_args();
+        let args = ctx.as_mut().scale_decompress_args(anim);
         Self::decompress_float3(args, anim.timepoints(), &anim.scales_ctrl(), anim.scales());
 
         Self::interpolates(anim, ctx.as_mut(), self.ratio, &mut output)?;
-- 
2.43.0


From e6ed66e54ffa5ac1f9a4367c9194fd79068f074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:06 +0000
Subject: [PATCH 02/22] fix: zero-initialize sampling context memory

---
 src/sampling_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index fad66f7..86b40c6 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -307,7 +307,7 @@ impl SamplingContext {
 
         unsafe {
             let layout = Layout::from_size_align_unchecked(size, mem::size_of::<f32x4>());
-            let mut ptr = alloc::alloc(layout);
+            let mut ptr = alloc::alloc_zeroed(layout);
             let mut ctx = SamplingContext(ptr as *mut SamplingContextInner);
             let inner = ctx.inner_mut();
             *inner = SamplingContextInner::default();
-- 
2.43.0


From 5657705ccf3958333bb97f4db5d2235743fa56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:06 +0000
Subject: [PATCH 03/22] fix: blend the rest pose into an output longer than the
 rest pose

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 0113f78..252feb9 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -390,7 +390,7 @@ where
             if bp_weight > 0.0 {
                 if ctx.num_passes == 0 {
                     ctx.accumulated_weight = 1.0;
-                    output.copy_from_slice(joint_rest_poses);
+                    output[..joint_rest_poses.len()].copy_from_slice(joint_rest_poses);
                 } else {
                     ctx.accumulated_weight = threshold;
                     let simd_bp_weight = f32x4::splat(bp_weight);
-- 
2.43.0


From d8b605d8da14669032ce3a61c59415cbd5776a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:06 +0000
Subject: [PATCH 04/22] fix: BlendingJobRef output is a slice

---
 src/blending_job.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 252feb9..10d9297 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -127,7 +127,7 @@ where
     output: Option<O>,
 }
 
-pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut SoaTransform>;
+pub type BlendingJobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut [SoaTransform]>;
 pub type BlendingJobRc<'t> = BlendingJob<Rc<Skeleton>, Rc<RefCell<Vec<SoaTransform>>>, Rc<RefCell<Vec<SoaTransform>>>>;
 pub type BlendingJobArc = BlendingJob<Arc<Skeleton>, Arc<RwLock<Vec<SoaTransform>>>, Arc<RwLock<Vec<SoaTransform>>>>;
 
-- 
2.43.0


From 48938f87c98ead4a40d03792034970138e9728cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:44 +0000
Subject: [PATCH 05/22] fix: decode the largest finite half floats with simd

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 04afc31..d2629d0 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -930,7 +930,7 @@ pub(crate) fn simd_f16_to_f32(half4: [u16; 4]) -> f32x4 {
     let expmant = MASK_NO_SIGN & int4;
     let shifted = expmant << 13;
     let scaled = fx4(shifted) * MAGIC;
-    let was_infnan = i32x4::simd_ge(expmant, WAS_INFNAN).to_int();
+    let was_infnan = i32x4::simd_gt(expmant, WAS_INFNAN).to_int();
     let sign = (int4 ^ expmant) << 16;
     let infnanexp = was_infnan & EXP_INFNAN;
     let sign_inf = sign | infnanexp;
-- 
2.43.0


From 3626b3f0ccba4b7045058e020fab99d4d488fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:44 +0000
Subject: [PATCH 06/22] fix: load a skeleton without joints

---
 src/skeleton.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skeleton.rs b/src/skeleton.rs
index 9e675d9..5c770c2 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -124,6 +124,9 @@ impl Skeleton {
     pub fn from_archive(archive: &mut Archive<impl Read>) -> Result<Skeleton, OzzError> {
         let meta = Skeleton::read_meta(archive, false)?;
         let mut skeleton = Skeleton::new(meta);
+        if skeleton.num_joints() == 0 {
+            return Ok(skeleton);
+        }
 
         let _char_count: u32 = archive.read()?;
         for idx in 0..skeleton.num_joints() {
-- 
2.43.0


From 47166a2d38b4348be8f55d980fe455e2b5dd012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:44 +0000
Subject: [PATCH 07/22] fix: local-to-model from / to at i32::MAX

---
 src/local_to_model_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_to_model_job.rs b/src/local_to_model_job.rs
index 8e31875..59ecd04 100644
--- a/src/local_to_model_job.rs
+++ b/src/local_to_model_job.rs
@@ -229,8 +229,8 @@ where
             return Err(OzzError::InvalidJob);
         }
 
-        let begin = i32::max(0, self.from + (self.from_excluded as i32)) as usize;
-        let end = i32::max(0, i32::min(self.to + 1, skeleton.num_joints() as i32)) as usize;
+        let begin = i32::max(0, self.from.saturating_add(self.from_excluded as i32)) as usize;
+        let end = i32::max(0, i32::min(self.to.saturating_add(1), skeleton.num_joints() as i32)) as usize;
 
         let mut idx = begin;
         let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);
-- 
2.43.0


From 1957bafbdc0b56e6dde77925c478dffc61534e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:22 +0000
Subject: [PATCH 08/22] fix: triggering a track far from zero terminates

---
 src/track_triggering_job.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/track_triggering_job.rs b/src/track_triggering_job.rs
index f2cc700..b16b498 100644
--- a/src/track_triggering_job.rs
+++ b/src/track_triggering_job.rs
@@ -178,7 +178,7 @@ where
 {
     job: &'t TrackTriggeringJob<T>,
     track: Option<&'t Track<f32>>, // also used as end marker
-    outer: f32,
+    outer: f64,
     inner: isize,
 }
 
@@ -192,7 +192,7 @@ where
         TrackTriggeringIter {
             job,
             track: if end { None } else { Some(track) },
-            outer: job.from.floor(),
+            outer: job.from.floor() as f64,
             inner: if job.from < job.to {
                 0
             } else {
@@ -247,21 +247,23 @@ where
         let track = self.track?;
 
         let key_count = track.key_count() as isize;
+        // f64, as `outer + 1.0` must not be rounded back to `outer` far from zero
+        let from = self.job.from as f64;
+        let to = self.job.to as f64;
         if self.job.to > self.job.from {
             // from => to
-            while self.outer < self.job.to {
+            while self.outer < to {
                 while self.inner < key_count {
                     let it0 = if self.inner == 0 { key_count - 1 } else { self.inner - 1 };
                     if let Some(mut edge) = self.detect_edge(it0 as usize, self.inner as usize, true) {
-                        edge.ratio += self.outer;
-                        if edge.ratio >= self.job.from && (edge.ratio < self.job.to || self.job.to >= 1.0 + self.outer)
-                        {
+                        edge.ratio = (edge.ratio as f64 + self.outer) as f32;
+                        if edge.ratio >= self.job.from && (edge.ratio < self.job.to || to >= 1.0 + self.outer) {
                             self.inner += 1;
                             return Some(edge);
                         }
                     }
                     // no edge found
-                    if track.ratios()[self.inner as usize] + self.outer >= self.job.to {
+                    if track.ratios()[self.inner as usize] as f64 + self.outer >= to {
                         break;
                     }
                     self.inner += 1;
@@ -271,20 +273,18 @@ where
             }
         } else {
             // to => from
-            while self.outer + 1.0 > self.job.to {
+            while self.outer + 1.0 > to {
                 while self.inner >= 0 {
                     let it0 = if self.inner == 0 { key_count - 1 } else { self.inner - 1 };
                     if let Some(mut edge) = self.detect_edge(it0 as usize, self.inner as usize, false) {
-                        edge.ratio += self.outer;
-                        if edge.ratio >= self.job.to
-                            && (edge.ratio < self.job.from || self.job.from >= 1.0 + self.outer)
-                        {
+                        edge.ratio = (edge.ratio as f64 + self.outer) as f32;
+                        if edge.ratio >= self.job.to && (edge.ratio < self.job.from || from >= 1.0 + self.outer) {
                             self.inner -= 1;
                             return Some(edge);
                         }
                     }
                     // no edge found
-                    if track.ratios()[self.inner as usize] + self.outer <= self.job.to {
+                    if track.ratios()[self.inner as usize] as f64 + self.outer <= to {
                         break;
                     }
                     self.inner -= 1;
-- 
2.43.0


From 982f4879b3f19612750e9f1f1c78acda77f539fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:22 +0000
Subject: [PATCH 09/22] fix: validate every blending layer before writing the
 output

---
 src/blending_job.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index 10d9297..e20e265 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -306,6 +306,10 @@ where
 
         let mut ok = self.threshold > 0.0;
         ok &= output.len() >= skeleton.num_soa_joints();
+        for layer in self.layers.iter().chain(self.additive_layers.iter()) {
+            ok &= layer.transform.buf()?.len() >= skeleton.num_soa_joints();
+            ok &= layer.joint_weights.is_empty() || layer.joint_weights.len() >= skeleton.num_soa_joints();
+        }
         if !ok {
             return Err(OzzError::InvalidJob);
         }
-- 
2.43.0


From 09ee0d31395882f3d4a07a588ac697d331a9a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:14 +0000
Subject: [PATCH 10/22] fix: skinning job runs exactly when it validates

---
 src/skinning_job.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 9b51d3c..1d90856 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -361,6 +361,9 @@ where
                     ok &= in_tangents.buf().ok()?.len() >= self.vertex_count;
                     ok &= self.out_tangents.as_ref()?.buf().ok()?.len() >= self.vertex_count;
                 }
+                if let Some(joint_it_matrices) = &self.joint_it_matrices {
+                    joint_it_matrices.buf().ok()?;
+                }
             } else {
                 ok &= self.in_tangents.is_none();
             }
@@ -413,7 +416,7 @@ macro_rules! pnt {
 macro_rules! skinning_1 {
     ($fn:ident, $it:tt, $pnt:tt) => {
         fn $fn(&mut self) -> Result<(), OzzError> {
-            let matrices = self.joint_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;
+            let matrices = unpack_buf(&self.joint_matrices, 1)?;
             it!($it, let it_matrices = self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
             let indices = unpack_buf(&self.joint_indices, self.vertex_count)?;
 
@@ -447,7 +450,7 @@ macro_rules! skinning_1 {
 
 macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
-        let matrices = $self.joint_matrices.as_ref().unwrap().buf()?;
+        let matrices = unpack_buf(&$self.joint_matrices, 1)?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
         let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
         let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
@@ -529,7 +532,7 @@ where
     /// Runs skinning job's task.
     /// The validate job before any operation is performed.
     pub fn run(&mut self) -> Result<(), OzzError> {
-        if self.influences_count == 0 {
+        if self.influences_count == 0 || (self.in_normals.is_none() && self.in_tangents.is_some()) {
             return Err(OzzError::InvalidJob);
         }
 
-- 
2.43.0


From c3d8987023c899d6e34adef2b94890c83e0dce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 11/22] fix: skinning validation of sizes whose product exceeds
 usize

---
 src/skinning_job.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skinning_job.rs b/src/skinning_job.rs
index 1d90856..66e09a1 100644
--- a/src/skinning_job.rs
+++ b/src/skinning_job.rs
@@ -343,11 +343,11 @@ where
             ok &= !self.joint_matrices.as_ref()?.buf().ok()?.is_empty();
 
             let joint_indices = self.joint_indices.as_ref()?.buf().ok()?;
-            ok &= joint_indices.len() >= self.vertex_count * self.influences_count;
+            ok &= joint_indices.len() >= self.vertex_count.saturating_mul(self.influences_count);
 
             if self.influences_count > 1 {
                 let joint_weights = self.joint_weights.as_ref()?.buf().ok()?;
-                ok &= joint_weights.len() >= self.vertex_count * (self.influences_count - 1);
+                ok &= joint_weights.len() >= self.vertex_count.saturating_mul(self.influences_count - 1);
             }
 
             ok &= self.in_positions.as_ref()?.buf().ok()?.len() >= self.vertex_count;
@@ -452,8 +452,8 @@ macro_rules! skinning_impl {
     ($self:expr, $n:expr, $it:tt, $pnt:tt) => {
         let matrices = unpack_buf(&$self.joint_matrices, 1)?;
         it!($it, let it_matrices = $self.joint_it_matrices.as_ref().ok_or(OzzError::InvalidJob)?.buf()?);
-        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count * $n)?;
-        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count * ($n - 1))?;
+        let indices = unpack_buf(&$self.joint_indices, $self.vertex_count.saturating_mul($n))?;
+        let weights = unpack_buf(&$self.joint_weights, $self.vertex_count.saturating_mul($n - 1))?;
 
         pnt!($pnt,
             let in_positions = unpack_buf(&$self.in_positions, $self.vertex_count)?;
-- 
2.43.0


From 27ba5ee024c5affbe8788793dd6bd95f1ba603c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:54 +0000
Subject: [PATCH 12/22] fix: deserialize sampling contexts from any serde data
 source

---
 src/sampling_job.rs | 120 +++++++++++++++++++++++++-------------------
 1 file changed, 68 insertions(+), 52 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 86b40c6..53a7035 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -838,65 +838,81 @@ const _: () = {
 
         fn visit_map<V: MapAccess<'de>>(self, mut map: V) -> Result<Self::Value, V::Error> {
             let mut max_tracks: Option<usize> = None;
-            while let Some(key) = map.next_key::<&str>()? {
-                if key == "max_tracks" {
-                    max_tracks = Some(map.next_value()?);
-                    break;
-                } else {
-                    map.next_value::<serde::de::IgnoredAny>()?;
+            let mut animation_id = 0u64;
+            let mut ratio = 0f32;
+            let mut translations: Option<Vec<InterpSoaFloat3>> = None;
+            let mut translation_entries: Option<Vec<u32>> = None;
+            let mut translation_outdated: Option<Vec<u8>> = None;
+            let mut translation_next = 0usize;
+            let mut rotations: Option<Vec<InterpSoaQuaternion>> = None;
+            let mut rotation_entries: Option<Vec<u32>> = None;
+            let mut rotation_outdated: Option<Vec<u8>> = None;
+            let mut rotation_next = 0usize;
+            let mut scales: Option<Vec<InterpSoaFloat3>> = None;
+            let mut scale_entries: Option<Vec<u32>> = None;
+            let mut scale_outdated: Option<Vec<u8>> = None;
+            let mut scale_next = 0usize;
+
+            // Fields may come in any order, and keys can not be borrowed from every deserializer.
+            while let Some(key) = map.next_key::<String>()? {
+                match key.as_str() {
+                    "max_tracks" => max_tracks = Some(map.next_value()?),
+                    "animation_id" => animation_id = map.next_value()?,
+                    "ratio" => ratio = map.next_value()?,
+                    "translations" => translations = Some(map.next_value()?),
+                    "translation_entries" => translation_entries = Some(map.next_value()?),
+                    "translation_outdated" => translation_outdated = Some(map.next_value()?),
+                    "translation_next" => translation_next = map.next_value()?,
+                    "rotations" => rotations = Some(map.next_value()?),
+                    "rotation_entries" => rotation_entries = Some(map.next_value()?),
+                    "rotation_outdated" => rotation_outdated = Some(map.next_value()?),
+                    "rotation_next" => rotation_next = map.next_value()?,
+                    "scales" => scales = Some(map.next_value()?),
+                    "scale_entries" => scale_entries = Some(map.next_value()?),
+                    "scale_outdated" => scale_outdated = Some(map.next_value()?),
+                    "scale_next" => scale_next = map.next_value()?,
+                    _ => {
+                        map.next_value::<serde::de::IgnoredAny>()?;
+                    }
                 }
             }
+
             let mut ctx: SamplingContext = match max_tracks {
                 Some(max_tracks) => SamplingContext::new(max_tracks),
                 None => return Err(de::Error::custom("Miss field max_tracks")),
             };
-
-            while let Some(key) = map.next_key()? {
-                match key {
-                    "animation_id" => ctx.set_animation_id(map.next_value()?),
-                    "ratio" => ctx.set_ratio(map.next_value()?),
-                    "translations" => {
-                        ctx.translations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "translation_entries" => {
-                        ctx.translation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "translation_outdated" => {
-                        ctx.translation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "translation_next" => ctx.set_translation_next(map.next_value()?),
-                    "rotations" => {
-                        ctx.rotations_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaQuaternion>>()?);
-                    }
-                    "rotation_entries" => {
-                        ctx.rotation_entries_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "rotation_outdated" => {
-                        ctx.rotation_outdated_mut()
-                            .copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "rotation_next" => ctx.set_rotation_next(map.next_value()?),
-                    "scales" => {
-                        ctx.scales_mut()
-                            .copy_from_slice(&map.next_value::<Vec<InterpSoaFloat3>>()?);
-                    }
-                    "scale_entries" => {
-                        ctx.scale_entries_mut().copy_from_slice(&map.next_value::<Vec<u32>>()?);
-                    }
-                    "scale_outdated" => {
-                        ctx.scale_outdated_mut().copy_from_slice(&map.next_value::<Vec<u8>>()?);
-                    }
-                    "scale_next" => ctx.set_scale_next(map.next_value()?),
-                    _ => {
-                        map.next_value::<serde::de::IgnoredAny>()?;
-                    }
-                }
+            ctx.set_animation_id(animation_id);
+            ctx.set_ratio(ratio);
+            if let Some(translations) = translations {
+                ctx.translations_mut().copy_from_slice(&translations);
+            }
+            if let Some(translation_entries) = translation_entries {
+                ctx.translation_entries_mut().copy_from_slice(&translation_entries);
+            }
+            if let Some(translation_outdated) = translation_outdated {
+                ctx.translation_outdated_mut().copy_from_slice(&translation_outdated);
+            }
+            ctx.set_translation_next(translation_next);
+            if let Some(rotations) = rotations {
+                ctx.rotations_mut().copy_from_slice(&rotations);
+            }
+            if let Some(rotation_entries) = rotation_entries {
+                ctx.rotation_entries_mut().copy_from_slice(&rotation_entries);
+            }
+            if let Some(rotation_outdated) = rotation_outdated {
+                ctx.rotation_outdated_mut().copy_from_slice(&rotation_outdated);
+            }
+            ctx.set_rotation_next(rotation_next);
+            if let Some(scales) = scales {
+                ctx.scales_mut().copy_from_slice(&scales);
+            }
+            if let Some(scale_entries) = scale_entries {
+                ctx.scale_entries_mut().copy_from_slice(&scale_entries);
+            }
+            if let Some(scale_outdated) = scale_outdated {
+                ctx.scale_outdated_mut().copy_from_slice(&scale_outdated);
             }
+            ctx.set_scale_next(scale_next);
             Ok(ctx)
         }
     }
-- 
2.43.0


From 932d618ed0802b438ec5a05914533d90a71c0ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:03 +0000
Subject: [PATCH 13/22] fix: accept every aligned archived sampling context

---
 src/sampling_job.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 53a7035..1b527e9 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -782,8 +782,8 @@ const _: () = {
 
         #[inline]
         unsafe fn check_bytes<'a>(value: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
-            if value as usize % mem::align_of::<f32x4>() != 0 {
-                return Err(Error::new(ErrorKind::InvalidData, "must be aligned to 16 bytes"));
+            if value as usize % mem::align_of::<ArchivedSamplingContext>() != 0 {
+                return Err(Error::new(ErrorKind::InvalidData, "must be aligned"));
             }
             Ok(&*value)
         }
-- 
2.43.0


From 57f811d4077efbac2c28a2e565d43fec6af3ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:59 +0000
Subject: [PATCH 14/22] fix: the clamped sampling ratio of -0.0 depended on the
 build

f32::max(-0.0, 0.0) is allowed to return either zero: debug and wasm builds
returned 0.0, optimized x86 builds -0.0.
---
 src/math.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index d2629d0..58b518e 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1078,7 +1078,13 @@ pub(crate) fn fx4_clamp_or_min(v: f32x4, min: f32x4, max: f32x4) -> f32x4 {
 
 #[inline(always)]
 pub(crate) fn f32_clamp_or_max(v: f32, min: f32, max: f32) -> f32 {
-    v.min(max).max(min)
+    // f32::max(-0.0, 0.0) may return either zero, depending on the build.
+    let v = if v < max { v } else { max };
+    if v > min {
+        v
+    } else {
+        min
+    }
 }
 
 #[inline(always)]
-- 
2.43.0


From 166e0ffa46404ac0af10a730bd1e0fed400572ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 15/22] fix: a blending joint weight of -0.0 gave zeros whose
 sign depended on the build

simd_max(-0.0, 0.0) is allowed to return either zero: debug and wasm builds
returned 0.0, optimized x86 builds -0.0.
---
 src/blending_job.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blending_job.rs b/src/blending_job.rs
index e20e265..9f6f199 100644
--- a/src/blending_job.rs
+++ b/src/blending_job.rs
@@ -62,7 +62,8 @@ impl<I: OzzBuf<SoaTransform>> BlendingLayer<I> {
     }
 
     fn joint_weight(&self, idx: usize) -> f32x4 {
-        fx4_from_vec4(self.joint_weights[idx])
+        // -0.0 becomes 0.0: which zero simd_max(-0.0, 0.0) returns depends on the build.
+        fx4_from_vec4(self.joint_weights[idx]) + ZERO
     }
 }
 
-- 
2.43.0


From a87c40547126f7bdb9457c1d71d72995998f405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:54 +0000
Subject: [PATCH 16/22] fix: IK jobs left small joint chains unrotated

quat_from_vectors gave up when the product of the two lengths was below 1e-6,
that is for vectors of a millimetre each, although it only divides by the
length of a quaternion made of that product. Two-bone and aim jobs then
returned corrections that do not reach the target.
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 58b518e..7032eb3 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1292,7 +1292,7 @@ pub(crate) fn quat_from_cos_angle(axis: f32x4, cos: f32x4) -> f32x4 {
 pub(crate) fn quat_from_vectors(from: f32x4, to: f32x4) -> f32x4 {
     let norm_from_norm_to = (vec3_length2_s(from) * vec3_length2_s(to)).sqrt();
     let norm_from_norm_to_x = norm_from_norm_to[0];
-    if norm_from_norm_to_x < 1.0e-6 {
+    if norm_from_norm_to_x < 1.0e-15 {
         return QUAT_UNIT;
     }
 
-- 
2.43.0


From 61e074f4d8c47db8bf25f8422b519cbcb010baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:42 +0000
Subject: [PATCH 17/22] fix: convert huge, infinite or NaN angles to a quadrant
 without undefined behaviour

---
 src/math.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 7032eb3..673a78d 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -1149,7 +1149,8 @@ pub(crate) fn fx4_sin_cos(v: f32x4) -> (f32x4, f32x4) {
     // XXX11b	-cos(x')	 sin(x')
     //
     // So: sin_sign = bit2, cos_sign = bit1 ^ bit2, bit1 determines if we use sin or cos Taylor expansion
-    let quadrant_int: i32x4 = unsafe { quadrant.to_int_unchecked() };
+    // A saturating conversion: an angle may be too large for an i32 quadrant, infinite or NaN.
+    let quadrant_int: i32x4 = quadrant.cast();
     let bit1 = quadrant_int << 31;
     let bit2 = (quadrant_int << 30) & SIGN;
 
-- 
2.43.0


From 1aeb57dda745a9387980a5d462be738a421f4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:50 +0000
Subject: [PATCH 18/22] fix: read archive booleans from any byte value

---
 src/archive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index 528133e..4cd7675 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -167,7 +167,6 @@ macro_rules! primitive_reader {
     };
 }
 
-primitive_reader!(bool);
 primitive_reader!(u8);
 primitive_reader!(i8);
 primitive_reader!(u16);
@@ -179,6 +178,14 @@ primitive_reader!(i64);
 primitive_reader!(f32);
 primitive_reader!(f64);
 
+impl ArchiveRead<bool> for bool {
+    #[inline]
+    fn read<R: Read>(archive: &mut Archive<R>) -> Result<bool, OzzError> {
+        // Only 0 and 1 are valid representations of a `bool`, the archive can hold any byte.
+        Ok(u8::read(archive)? != 0)
+    }
+}
+
 impl ArchiveRead<Vec2> for Vec2 {
     #[inline]
     fn read<R: Read>(archive: &mut Archive<R>) -> Result<Vec2, OzzError> {
-- 
2.43.0


From f68eeea302d5aef9d04ba64d7bec5332574fc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 19/22] fix: serialize SoA values as tuples of as many elements
 as they have

They are deserialized as fixed size arrays. A SoaQuat was announced as a sequence of three
and followed by four elements, formats that write the announced length could not read it back.
---
 src/math.rs         | 8 ++++----
 src/sampling_job.rs | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 673a78d..fd698d2 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -220,12 +220,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaVec3 {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_tuple(3)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
@@ -459,12 +459,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Serialize, Serializer};
 
     impl Serialize for SoaQuat {
         fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-            let mut seq = serializer.serialize_seq(Some(3))?;
+            let mut seq = serializer.serialize_tuple(4)?;
             seq.serialize_element(&self.x.as_array())?;
             seq.serialize_element(&self.y.as_array())?;
             seq.serialize_element(&self.z.as_array())?;
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 1b527e9..d18f910 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -122,12 +122,12 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 mod serde_interp {
-    use serde::ser::SerializeSeq;
+    use serde::ser::SerializeTuple;
     use serde::{Deserialize, Deserializer, Serializer};
     use std::simd::prelude::*;
 
     pub(crate) fn serialize<S: Serializer>(value: &[f32x4; 2], serializer: S) -> Result<S::Ok, S::Error> {
-        let mut seq = serializer.serialize_seq(Some(2))?;
+        let mut seq = serializer.serialize_tuple(2)?;
         seq.serialize_element(value[0].as_array())?;
         seq.serialize_element(value[1].as_array())?;
         seq.end()
-- 
2.43.0


From 19ea0877835db3b11155e994212b327d45ce0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 20/22] fix: don't ask the allocator for zero bytes (empty
 skeletons and animations)

---
 src/animation.rs | 5 +++--
 src/skeleton.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index c7e08c4..2d21d77 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -223,7 +223,7 @@ impl Drop for Animation {
     fn drop(&mut self) {
         if !self.timepoints.is_null() {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::size_of::<f32>());
+                let layout = Layout::from_size_align_unchecked(self.size.max(1), mem::size_of::<f32>());
                 alloc::dealloc(self.timepoints as *mut u8, layout);
             }
             self.timepoints = std::ptr::null_mut();
@@ -559,7 +559,8 @@ impl Animation {
         animation.size += animation.s_iframe_desc_count as usize * mem::size_of::<u32>(); // s_iframe_desc
 
         unsafe {
-            let layout = Layout::from_size_align_unchecked(animation.size, mem::size_of::<f32>());
+            // Allocators can't be asked for zero bytes (animation without keyframes).
+            let layout = Layout::from_size_align_unchecked(animation.size.max(1), mem::size_of::<f32>());
             let mut ptr = alloc::alloc(layout);
 
             animation.timepoints = ptr as *mut f32;
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 5c770c2..888c890 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -42,7 +42,7 @@ impl Drop for Skeleton {
     fn drop(&mut self) {
         if !self.joint_rest_poses.is_null() {
             unsafe {
-                let layout = Layout::from_size_align_unchecked(self.size, mem::align_of::<SoaTransform>());
+                let layout = Layout::from_size_align_unchecked(self.size.max(1), mem::align_of::<SoaTransform>());
                 alloc::dealloc(self.joint_rest_poses as *mut u8, layout);
             }
             self.joint_rest_poses = std::ptr::null_mut();
@@ -192,7 +192,8 @@ impl Skeleton {
             mem::size_of::<SoaTransform>() * skeleton.num_soa_joints() + mem::size_of::<i16>() * skeleton.num_joints();
 
         unsafe {
-            let layout = Layout::from_size_align_unchecked(skeleton.size, ALIGN);
+            // Allocators can't be asked for zero bytes (skeleton without joints).
+            let layout = Layout::from_size_align_unchecked(skeleton.size.max(1), ALIGN);
             let mut ptr = alloc::alloc(layout);
 
             skeleton.joint_rest_poses = ptr as *mut SoaTransform;
-- 
2.43.0


From 7b583c5a84f98aecf93a0ea2431e030420edfc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:52 +0000
Subject: [PATCH 21/22] fix: check the arrays of archived sampling contexts
 (check_bytes)

CheckBytes for ArchivedSamplingContext only looked at its alignment, so that
check_archived_root accepted archives whose arrays lie outside of the bytes or
don't match max_tracks; deserializing them read out of bounds or panicked.
---
 src/sampling_job.rs | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index d18f910..34634f5 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -664,6 +664,7 @@ pub struct ArchivedSamplingContext {
 const _: () = {
     use bytecheck::CheckBytes;
     use rkyv::ser::{ScratchSpace, Serializer};
+    use rkyv::validation::ArchiveContext;
     use rkyv::vec::{ArchivedVec, VecResolver};
     use rkyv::{from_archived, out_field, Archive, Deserialize, Fallible, Serialize};
     use std::io::{Error, ErrorKind};
@@ -777,15 +778,50 @@ const _: () = {
         }
     }
 
-    impl<C: ?Sized> CheckBytes<C> for ArchivedSamplingContext {
+    impl<C: ArchiveContext + ?Sized> CheckBytes<C> for ArchivedSamplingContext
+    where
+        C::Error: std::error::Error,
+    {
         type Error = Error;
 
-        #[inline]
-        unsafe fn check_bytes<'a>(value: *const Self, _: &mut C) -> Result<&'a Self, Self::Error> {
+        unsafe fn check_bytes<'a>(value: *const Self, context: &mut C) -> Result<&'a Self, Self::Error> {
             if value as usize % mem::align_of::<ArchivedSamplingContext>() != 0 {
                 return Err(Error::new(ErrorKind::InvalidData, "must be aligned"));
             }
-            Ok(&*value)
+
+            // Every array must be inside of the archive, they are checked in the order they are serialized.
+            macro_rules! check {
+                ($($field:ident),+) => {
+                    $(ArchivedVec::check_bytes(ptr::addr_of!((*value).$field), context)
+                        .map_err(|e| Error::new(ErrorKind::InvalidData, e.to_string()))?;)+
+                };
+            }
+            check!(translations, rotations, scales);
+            check!(translation_entries, rotation_entries, scale_entries);
+            check!(translation_outdated, rotation_outdated, scale_outdated);
+
+            // And have the length that `SamplingContext::new(max_tracks)` gives it.
+            let value = &*value;
+            let max_soa_tracks = (value.max_tracks as usize).div_ceil(4);
+            let lens = [
+                (max_soa_tracks, value.translations.len(), value.rotations.len(), value.scales.len()),
+                (
+                    max_soa_tracks * 4,
+                    value.translation_entries.len(),
+                    value.rotation_entries.len(),
+                    value.scale_entries.len(),
+                ),
+                (
+                    max_soa_tracks.div_ceil(8),
+                    value.translation_outdated.len(),
+                    value.rotation_outdated.len(),
+                    value.scale_outdated.len(),
+                ),
+            ];
+            if lens.iter().any(|&(len, t, r, s)| t != len || r != len || s != len) {
+                return Err(Error::new(ErrorKind::InvalidData, "arrays don't match max_tracks"));
+            }
+            Ok(value)
         }
     }
 };
-- 
2.43.0


From ca84e6136a15f1ac1526f60a2a4e0efb975ec04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:44 +0000
Subject: [PATCH 22/22] fix: refuse serialized objects whose arrays don't fit
 together

Deserializing (serde) a sampling context, animation or skeleton whose arrays
don't match each other panicked, and such a track was accepted and panicked
later. They are refused with an error now.
---
 src/animation.rs    |  9 +++++++++
 src/sampling_job.rs | 25 +++++++++++++++++++++----
 src/skeleton.rs     |  4 ++++
 src/track.rs        | 32 ++++++++++++++++++++++++++++++++
 4 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/src/animation.rs b/src/animation.rs
index 2d21d77..7b1b648 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -1072,6 +1072,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Animation {
@@ -1084,6 +1085,14 @@ const _: () = {
     impl<'de> Deserialize<'de> for Animation {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Animation, D::Error> {
             let raw = AnimationRaw::deserialize(deserializer)?;
+            let channels = [
+                (raw.translations.len(), raw.t_ratios.len(), raw.t_previouses.len()),
+                (raw.rotations.len(), raw.r_ratios.len(), raw.r_previouses.len()),
+                (raw.scales.len(), raw.s_ratios.len(), raw.s_previouses.len()),
+            ];
+            if channels.iter().any(|&(keys, r, p)| r != keys || p != keys) {
+                return Err(D::Error::custom("ratios or previouses don't match keys"));
+            }
             Ok(Animation::from_raw(&raw))
         }
     }
diff --git a/src/sampling_job.rs b/src/sampling_job.rs
index 34634f5..456b4c9 100644
--- a/src/sampling_job.rs
+++ b/src/sampling_job.rs
@@ -863,6 +863,14 @@ const _: () = {
         }
     }
 
+    // Arrays must have the length that `SamplingContext::new(max_tracks)` gives them.
+    fn check_len<T, E: de::Error>(array: &Option<Vec<T>>, len: usize) -> Result<(), E> {
+        match array {
+            Some(array) if array.len() != len => Err(E::invalid_length(array.len(), &"the length max_tracks asks for")),
+            _ => Ok(()),
+        }
+    }
+
     struct SamplingContextVisitor;
 
     impl<'de> Visitor<'de> for SamplingContextVisitor {
@@ -913,10 +921,19 @@ const _: () = {
                 }
             }
 
-            let mut ctx: SamplingContext = match max_tracks {
-                Some(max_tracks) => SamplingContext::new(max_tracks),
-                None => return Err(de::Error::custom("Miss field max_tracks")),
-            };
+            let max_tracks = max_tracks.ok_or_else(|| de::Error::custom("Miss field max_tracks"))?;
+            let max_soa_tracks = max_tracks.div_ceil(4);
+            check_len(&translations, max_soa_tracks)?;
+            check_len(&translation_entries, max_soa_tracks.saturating_mul(4))?;
+            check_len(&translation_outdated, max_soa_tracks.div_ceil(8))?;
+            check_len(&rotations, max_soa_tracks)?;
+            check_len(&rotation_entries, max_soa_tracks.saturating_mul(4))?;
+            check_len(&rotation_outdated, max_soa_tracks.div_ceil(8))?;
+            check_len(&scales, max_soa_tracks)?;
+            check_len(&scale_entries, max_soa_tracks.saturating_mul(4))?;
+            check_len(&scale_outdated, max_soa_tracks.div_ceil(8))?;
+
+            let mut ctx = SamplingContext::new(max_tracks);
             ctx.set_animation_id(animation_id);
             ctx.set_ratio(ratio);
             if let Some(translations) = translations {
diff --git a/src/skeleton.rs b/src/skeleton.rs
index 888c890..2872341 100644
--- a/src/skeleton.rs
+++ b/src/skeleton.rs
@@ -397,6 +397,7 @@ const _: () = {
 
 #[cfg(feature = "serde")]
 const _: () = {
+    use serde::de::Error;
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
 
     impl Serialize for Skeleton {
@@ -409,6 +410,9 @@ const _: () = {
     impl<'de> Deserialize<'de> for Skeleton {
         fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Skeleton, D::Error> {
             let raw = SkeletonRaw::deserialize(deserializer)?;
+            if raw.joint_rest_poses.len() != raw.joint_parents.len().div_ceil(4) {
+                return Err(D::Error::custom("joint_rest_poses doesn't match joint_parents"));
+            }
             Ok(Skeleton::from_raw(&raw))
         }
     }
diff --git a/src/track.rs b/src/track.rs
index efdbdd4..a9cf901 100644
--- a/src/track.rs
+++ b/src/track.rs
@@ -117,6 +117,7 @@ impl TrackValue for Quat {
 #[derive(Debug, Default)]
 #[cfg_attr(feature = "rkyv", derive(rkyv::Archive, rkyv::Serialize, rkyv::Deserialize))]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "TrackRaw<V>"))]
 pub struct Track<V: TrackValue> {
     key_count: u32,
     ratios: Vec<f32>,
@@ -125,6 +126,37 @@ pub struct Track<V: TrackValue> {
     name: String,
 }
 
+/// A deserialized `Track`, before its arrays are checked.
+#[cfg(feature = "serde")]
+#[derive(serde::Deserialize)]
+#[serde(rename = "Track")]
+struct TrackRaw<V: TrackValue> {
+    key_count: u32,
+    ratios: Vec<f32>,
+    values: Vec<V>,
+    steps: Vec<u8>,
+    name: String,
+}
+
+#[cfg(feature = "serde")]
+impl<V: TrackValue> TryFrom<TrackRaw<V>> for Track<V> {
+    type Error = &'static str;
+
+    fn try_from(raw: TrackRaw<V>) -> Result<Track<V>, &'static str> {
+        let key_count = raw.key_count as usize;
+        if raw.ratios.len() != key_count || raw.values.len() != key_count || raw.steps.len() != key_count.div_ceil(8) {
+            return Err("ratios, values or steps don't match key_count");
+        }
+        Ok(Track {
+            key_count: raw.key_count,
+            ratios: raw.ratios,
+            values: raw.values,
+            steps: raw.steps,
+            name: raw.name,
+        })
+    }
+}
+
 impl<V: TrackValue> Track<V> {
     /// `Track` resource file tag for `Archive`.
     #[inline]
-- 
2.43.0

