From c2da3ffdbfd3dd6498d872e012bc9e8870a7c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:56 +0000
Subject: [PATCH 01/16] verif: re-export internals under cfg(rav1e_verif)

---
 src/lib.rs   |  4 +++
 src/verif.rs | 99 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 103 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 670416e..45d3bf2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -325,5 +325,9 @@ pub mod bench {
   }
 }
 
+#[cfg(rav1e_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 #[cfg(fuzzing)]
 pub mod fuzzing;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..f8d92a7
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,99 @@
+// Re-exports of crate-internal items for the verification harnesses; compiled
+// only with `--cfg rav1e_verif`.
+#![allow(missing_docs)]
+#![allow(ambiguous_glob_reexports)]
+
+pub mod ec {
+  pub use crate::ec::rust::update_cdf as rust_update_cdf;
+  pub use crate::ec::*;
+}
+pub mod enc {
+  pub use crate::encoder::*;
+}
+pub mod hdr {
+  pub use crate::header::*;
+}
+pub mod api {
+  pub use crate::api::internal::InterConfig;
+  pub use crate::api::*;
+}
+pub mod ctx {
+  pub use crate::context::*;
+}
+pub mod part {
+  pub use crate::partition::*;
+}
+pub mod pred {
+  pub use crate::predict::rust::*;
+  pub use crate::predict::*;
+}
+pub mod mc {
+  pub use crate::mc::rust::*;
+  pub use crate::mc::*;
+}
+pub mod cdef {
+  pub use crate::cdef::rust::*;
+  pub use crate::cdef::*;
+}
+pub mod dist {
+  pub use crate::dist::rust::*;
+  pub use crate::dist::*;
+}
+pub mod tx {
+  pub use crate::transform::forward;
+  pub use crate::transform::inverse;
+  pub use crate::transform::*;
+}
+pub mod quant {
+  pub use crate::quantize::rust;
+  pub use crate::quantize::*;
+}
+pub mod lrf {
+  pub use crate::lrf::rust::*;
+  pub use crate::lrf::*;
+}
+pub mod deblock {
+  pub use crate::deblock::*;
+}
+pub mod seg {
+  pub use crate::segmentation::*;
+}
+pub mod tiling {
+  pub use crate::tiling::*;
+}
+pub mod rate {
+  pub use crate::rate::*;
+}
+pub mod me {
+  pub use crate::me::*;
+}
+pub mod recon {
+  pub use crate::recon_intra::*;
+}
+pub mod scan {
+  pub use crate::scan_order::*;
+}
+pub mod frame {
+  pub use crate::frame::*;
+}
+pub mod util {
+  pub use crate::util::*;
+}
+pub mod levels {
+  pub use crate::levels::*;
+}
+pub mod rdo {
+  pub use crate::rdo::*;
+}
+pub mod entropymode {
+  pub use crate::entropymode::*;
+}
+pub mod cpu {
+  pub use crate::cpu_features::*;
+}
+
+impl api::InterConfig {
+  pub fn new_verif(c: &crate::api::EncoderConfig) -> Self {
+    Self::new(c)
+  }
+}
-- 
2.43.0


From 64d511ed7c286ac794319ad9dc2bd0c10246379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:16 +0000
Subject: [PATCH 02/16] fix: film grain header writes chroma fields only when
 chroma points are signalled

---
 src/header.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 4217285..3a9033f 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -861,11 +861,18 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           } else {
             false
           };
-        if !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
+        // The chroma scaling points are only signalled under this condition;
+        // otherwise, a decoder infers that there are none.
+        let has_chroma_points = !(fi.sequence.chroma_sampling
+          == ChromaSampling::Cs400
           || chroma_scaling_from_luma
           || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
-            && grain_params.scaling_points_y.is_empty()))
-        {
+            && grain_params.scaling_points_y.is_empty()));
+        let has_cb_points =
+          has_chroma_points && !grain_params.scaling_points_cb.is_empty();
+        let has_cr_points =
+          has_chroma_points && !grain_params.scaling_points_cr.is_empty();
+        if has_chroma_points {
           self.write::<4, u8>(grain_params.scaling_points_cb.len() as u8)?;
           for point in &grain_params.scaling_points_cb {
             self.write::<8, u8>(point[0])?;
@@ -896,18 +903,14 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           num_pos_chroma = num_pos_luma;
         }
 
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cb.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cb_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cb[i] as i16 + 128) as u8,
             )?;
           }
         }
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cr.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cr_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cr[i] as i16 + 128) as u8,
@@ -917,12 +920,12 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
 
         self.write::<2, u8>(grain_params.ar_coeff_shift - 6)?;
         self.write::<2, u8>(grain_params.grain_scale_shift)?;
-        if !grain_params.scaling_points_cb.is_empty() {
+        if has_cb_points {
           self.write::<8, u8>(grain_params.cb_mult)?;
           self.write::<8, u8>(grain_params.cb_luma_mult)?;
           self.write::<9, u16>(grain_params.cb_offset)?;
         }
-        if !grain_params.scaling_points_cr.is_empty() {
+        if has_cr_points {
           self.write::<8, u8>(grain_params.cr_mult)?;
           self.write::<8, u8>(grain_params.cr_luma_mult)?;
           self.write::<9, u16>(grain_params.cr_offset)?;
-- 
2.43.0


From 76834a83f14da4a40b491e6c79550ee9943eef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:27 +0000
Subject: [PATCH 03/16] fix: check the level's display rate against the frame
 rate, not the frame duration

---
 src/api/config/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index aef2c45..4e15a10 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -422,8 +422,9 @@ impl Config {
         if config.height > AV1_LEVEL_MAX_V_SIZE[level_idx as usize] {
           return Err(LevelConstraintsExceeded);
         }
-        if ((config.width * config.height) as u64 * config.time_base.num)
-          .div_ceil(config.time_base.den)
+        // The frame rate is the inverse of the time base.
+        if ((config.width * config.height) as u64 * config.time_base.den)
+          .div_ceil(config.time_base.num)
           > AV1_LEVEL_MAX_DISPLAY_RATE[level_idx as usize] as u64
         {
           return Err(LevelConstraintsExceeded);
-- 
2.43.0


From 820f913837612c0840631456199cd6c5fb2f0f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:48 +0000
Subject: [PATCH 04/16] fix: make the container sequence header agree with the
 sequence header

---
 src/api/context.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/context.rs b/src/api/context.rs
index 6aa6a8b..0b2260f 100644
--- a/src/api/context.rs
+++ b/src/api/context.rs
@@ -347,14 +347,21 @@ impl<T: Pixel> Context<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
         bw.write_bit(false)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs420 | ChromaSampling::Cs400
+        ))?; // chroma_subsampling_y
+        bw.write::<2, u8>(if seq.chroma_sampling == ChromaSampling::Cs420 {
+          seq.chroma_sample_position as u8
+        } else {
+          0
+        })?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
-- 
2.43.0


From 0f2f378b72e0ea1a58d330838e463c5e10d79f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 05/16] fix: keep T.35 metadata of reordered frames until the
 frame is shown

---
 src/api/internal.rs | 20 +++++++++++---------
 src/rate.rs         |  3 ++-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 153610c..5f6795d 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -538,12 +538,6 @@ impl<T: Pixel> ContextInner<T> {
       return Err(EncoderStatus::NeedMoreData);
     }
 
-    let t35_metadata = if let Some(t35) = self.t35_q.remove(&input_frameno) {
-      t35
-    } else {
-      Box::new([])
-    };
-
     if output_frameno_in_gop > 0 {
       let next_keyframe_input_frameno = self.next_keyframe_input_frameno(
         self.gop_input_frameno_start[&output_frameno],
@@ -579,7 +573,7 @@ impl<T: Pixel> ContextInner<T> {
             output_frameno_in_gop,
             next_keyframe_input_frameno,
             self.config.error_resilient,
-            t35_metadata,
+            Box::new([]),
           );
           assert!(fi.is_none());
           return Ok(fi);
@@ -614,7 +608,7 @@ impl<T: Pixel> ContextInner<T> {
         self.config.clone(),
         self.seq.clone(),
         self.gop_input_frameno_start[&output_frameno],
-        t35_metadata,
+        self.t35_metadata(input_frameno),
       );
       Ok(Some(fi))
     } else {
@@ -629,13 +623,20 @@ impl<T: Pixel> ContextInner<T> {
         output_frameno_in_gop,
         next_keyframe_input_frameno,
         self.config.error_resilient,
-        t35_metadata,
+        self.t35_metadata(input_frameno),
       );
       assert!(fi.is_some());
       Ok(fi)
     }
   }
 
+  /// Metadata of an input frame. It stays queued until the frame is shown:
+  /// a reordered frame is first coded as a hidden frame, and its properties may
+  /// have to be built again once more frames are available.
+  fn t35_metadata(&self, input_frameno: u64) -> Box<[T35]> {
+    self.t35_q.get(&input_frameno).cloned().unwrap_or_default()
+  }
+
   fn get_previous_fi(&self, output_frameno: u64) -> &FrameInvariants<T> {
     let res = self
       .frame_data
@@ -1531,6 +1532,7 @@ impl<T: Pixel> ContextInner<T> {
     if let Ok(ref mut pkt) = ret {
       self.garbage_collect(pkt.input_frameno);
       pkt.opaque = self.opaque_q.remove(&pkt.input_frameno);
+      self.t35_q.remove(&pkt.input_frameno);
     }
 
     ret
diff --git a/src/rate.rs b/src/rate.rs
index 365e0a4..ba18113 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1095,7 +1095,8 @@ impl RCState {
         droppable = false;
       }
       if fti == FRAME_SUBTYPE_SEF {
-        debug_assert!(bits == SEF_BITS);
+        // The packet also carries any metadata of the shown frame.
+        debug_assert!(bits >= SEF_BITS);
         debug_assert!(show_frame);
         // Please don't make trial encodes of a SEF.
         debug_assert!(!trial);
-- 
2.43.0


From fd3fff8aa8a01ba6cbfb7ee82e443f51e38bc2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:31 +0000
Subject: [PATCH 06/16] fix: compute frame timestamps in 128 bits so that no
 accepted time base overflows

---
 src/encoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 5c85320..87e5338 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1277,10 +1277,13 @@ impl<T: Pixel> FrameInvariants<T> {
 
   pub fn frame_timestamp(&self) -> u64 {
     // I don't know why this is the base unit for a timestamp but it is. 1/10000000 of a second.
-    const TIMESTAMP_BASE_UNIT: u64 = 10_000_000;
+    const TIMESTAMP_BASE_UNIT: u128 = 10_000_000;
 
-    self.input_frameno * TIMESTAMP_BASE_UNIT * self.sequence.time_base.num
-      / self.sequence.time_base.den
+    // The product does not fit in 64 bits for every accepted time base.
+    (self.input_frameno as u128
+      * TIMESTAMP_BASE_UNIT
+      * self.sequence.time_base.num as u128
+      / self.sequence.time_base.den as u128) as u64
   }
 }
 
-- 
2.43.0


From b27988ddb93f56cccf4ae704542cedc6a909fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 07/16] fix: correct the maximum picture size of level 4.1

---
 src/levels.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levels.rs b/src/levels.rs
index 63fbff0..9f88956 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -32,7 +32,7 @@ pub static AV1_LEVEL_MAX_PIC_SIZE: [usize; 32] = [
   0, 0, 665856,  // 3.0
   1065024, // 3.1
   0, 0, 2359296,  // 4.0
-  23592960, // 4.1
+  2359296, // 4.1
   0, 0, 8912896,  // 5.0
   8912896,  // 5.1
   8912896,  // 5.2
-- 
2.43.0


From 3320c05db8490a0d51a6ce19397aa03e6e4d4c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 08/16] fix: do not panic when a frame cannot be split into as
 many tiles as its rate demands

---
 src/tiling/tiler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 9d6b28a..3da9706 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -124,9 +124,11 @@ impl TilingInfo {
     let min_tile_rows_log2 = min_tiles_log2.saturating_sub(tile_cols_log2);
     let min_tile_rows_ratelimit_log2 =
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
+    // The frame may be too small to be split as much as its rate demands.
     let tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
-      .clamp(min_tile_rows_ratelimit_log2, max_tile_rows_log2);
+      .max(min_tile_rows_ratelimit_log2)
+      .min(max_tile_rows_log2);
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From 0dc1fd1441e770a550efd77d004dd464de2ab406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 09/16] fix: keep explicitly coded 4:2:2 tiles within the tile
 area limit

---
 src/tiling/tiler.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 3da9706..c4e9c0e 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -129,6 +129,38 @@ impl TilingInfo {
       .max(min_tile_rows_log2)
       .max(min_tile_rows_ratelimit_log2)
       .min(max_tile_rows_log2);
+
+    // If the uniform spacing syntax cannot express these tiles, their size is
+    // coded explicitly and their area is limited.
+    let uniform = sb_cols.align_power_of_two_and_shift(tile_cols_log2)
+      == tile_width_sb;
+    let tile_rows_log2 = if uniform {
+      tile_rows_log2
+    } else {
+      let max_tile_area_sb = if min_tiles_log2 > 0 {
+        (sb_cols * sb_rows) >> (min_tiles_log2 + 1)
+      } else {
+        sb_cols * sb_rows
+      };
+      let max_tile_height_sb =
+        (max_tile_area_sb / tile_width_sb.min(sb_cols)).max(1);
+      let needed_rows_log2 =
+        Self::tile_log2(max_tile_height_sb, sb_rows).unwrap();
+      if needed_rows_log2 > max_tile_rows_log2
+        && tile_cols_log2 < max_tile_cols_log2
+      {
+        return Self::from_target_tiles(
+          sb_size_log2,
+          frame_width,
+          frame_height,
+          frame_rate,
+          tile_cols_log2 + 1,
+          tile_rows_log2,
+          is_422_p,
+        );
+      }
+      tile_rows_log2.max(needed_rows_log2)
+    };
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From d10225e130596026128346a43743d736af11bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 10/16] fix: evaluate the finest tile split when looking for
 the requested number of tiles

---
 src/encoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 87e5338..a5b7151 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -248,9 +248,7 @@ impl Sequence {
     if config.tiles > 0 {
       let mut tile_rows_log2 = 0;
       let mut tile_cols_log2 = 0;
-      while (tile_rows_log2 < tiling.max_tile_rows_log2)
-        || (tile_cols_log2 < tiling.max_tile_cols_log2)
-      {
+      loop {
         tiling = TilingInfo::from_target_tiles(
           sb_size_log2,
           config.width,
@@ -261,7 +259,10 @@ impl Sequence {
           config.chroma_sampling == ChromaSampling::Cs422,
         );
 
-        if tiling.rows * tiling.cols >= config.tiles {
+        if tiling.rows * tiling.cols >= config.tiles
+          || (tile_rows_log2 >= tiling.max_tile_rows_log2
+            && tile_cols_log2 >= tiling.max_tile_cols_log2)
+        {
           break;
         };
 
-- 
2.43.0


From 9305b77fc561a4eb4e2e328fb4832822e4358e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:42 +0000
Subject: [PATCH 11/16] fix: saturate dequantized coefficients as the decoder
 does

---
 src/quantize/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/quantize/mod.rs b/src/quantize/mod.rs
index 0501915..1460d2e 100644
--- a/src/quantize/mod.rs
+++ b/src/quantize/mod.rs
@@ -367,6 +367,9 @@ pub mod rust {
   ) {
     let log_tx_scale = get_log_tx_scale(tx_size) as i32;
     let offset = (1 << log_tx_scale) - 1;
+    // The range the decoder clamps the inverse transform's input to
+    let max = (1 << (bit_depth + 7)) - 1;
+    let min = -max - 1;
 
     let dc_quant = dc_q(qindex, dc_delta_q, bit_depth).get() as i32;
     let ac_quant = ac_q(qindex, ac_delta_q, bit_depth).get() as i32;
@@ -378,7 +381,7 @@ pub mod rust {
     {
       let quant = if i == 0 { dc_quant } else { ac_quant };
       r.write(T::cast_from(
-        (c * quant + ((c >> 31) & offset)) >> log_tx_scale,
+        ((c * quant + ((c >> 31) & offset)) >> log_tx_scale).clamp(min, max),
       ));
     }
   }
-- 
2.43.0


From ab75b047f8bf1bb8f7dd24da934ae208d97eb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:04 +0000
Subject: [PATCH 12/16] fix: short blocks use the regular four-tap filters for
 sharp interpolation

---
 src/mc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc.rs b/src/mc.rs
index d442322..890f509 100644
--- a/src/mc.rs
+++ b/src/mc.rs
@@ -241,7 +241,8 @@ pub(crate) mod rust {
     let filter_idx = if mode == FilterMode::BILINEAR || length > 4 {
       mode as usize
     } else {
-      (mode as usize).min(1) + 4
+      // Regular and sharp share the four-tap regular filters
+      (mode == FilterMode::SMOOTH) as usize + 4
     };
     SUBPEL_FILTERS[filter_idx][frac as usize]
   }
-- 
2.43.0


From e0f997d51674bb0c4acfc567e2f74f332db44a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:00 +0000
Subject: [PATCH 13/16] verif: expose frame padding to the harnesses

---
 src/verif.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index f8d92a7..cfd2f4e 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -97,3 +97,11 @@ impl api::InterConfig {
     Self::new(c)
   }
 }
+
+/// Extends the edges of a frame as the encoder does before referencing it.
+pub fn pad_frame<T: crate::util::Pixel>(
+  f: &mut crate::frame::Frame<T>, w: usize, h: usize, planes: usize,
+) {
+  use crate::frame::FramePad;
+  f.pad(w, h, planes);
+}
-- 
2.43.0


From c76e6232e8f6eba29ce1fd04bac14bed32784b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:47 +0000
Subject: [PATCH 14/16] verif: expose the CDEF kernel

---
 src/verif.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index cfd2f4e..f5ccdfc 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -105,3 +105,30 @@ pub fn pad_frame<T: crate::util::Pixel>(
   use crate::frame::FramePad;
   f.pad(w, h, planes);
 }
+
+/// Portable CDEF kernel.
+///
+/// # Safety
+///
+/// As the kernel: `input` must have two readable samples around the block on
+/// every side listed in `edges`.
+pub unsafe fn cdef_block<T: crate::util::Pixel, U: crate::util::Pixel>(
+  dst: &mut crate::tiling::PlaneRegionMut<'_, T>, input: *const U,
+  istride: isize, strengths: (i32, i32), dir: usize, damping: i32,
+  bit_depth: usize, dec: (usize, usize), edges: u8,
+) {
+  crate::cdef::rust::cdef_filter_block(
+    dst,
+    input,
+    istride,
+    strengths.0,
+    strengths.1,
+    dir,
+    damping,
+    bit_depth,
+    dec.0,
+    dec.1,
+    edges,
+    crate::cpu_features::CpuFeatureLevel::RUST,
+  )
+}
-- 
2.43.0


From 2632dde0674801bf8db54cdf287d97168e90f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:28 +0000
Subject: [PATCH 15/16] fix: apply the self-guided filter also when CDEF is
 disabled

The self-guided filter was signalled and chosen by RDO whether or not CDEF
was enabled, but the encoder's own reconstruction skipped it when CDEF was
disabled, so its reference frames drifted from those of decoders.
---
 src/lrf.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lrf.rs b/src/lrf.rs
index 7a3d083..1e2c4f9 100644
--- a/src/lrf.rs
+++ b/src/lrf.rs
@@ -1542,10 +1542,6 @@ impl RestorationState {
               );
             }
             RestorationFilter::Sgrproj { set, xqd } => {
-              if !fi.sequence.enable_cdef {
-                continue;
-              }
-
               setup_integral_image(
                 &mut stripe_filter_buffer,
                 STRIPE_IMAGE_STRIDE,
-- 
2.43.0


From 3276846337449f839ba6a53495729304a6b427bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:38 +0000
Subject: [PATCH 16/16] fix: code the end of 16x64 and 64x16 blocks with the
 distribution of their coded size

---
 src/context/block_unit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context/block_unit.rs b/src/context/block_unit.rs
index 410953a..6078985 100644
--- a/src/context/block_unit.rs
+++ b/src/context/block_unit.rs
@@ -1863,7 +1863,8 @@ impl ContextWriter<'_> {
     plane_type: usize, w: &mut W,
   ) {
     let (eob_pt, eob_extra) = Self::get_eob_pos_token(eob);
-    let eob_multi_size: usize = tx_size.area_log2() - 4;
+    let eob_multi_size: usize =
+      av1_get_coded_tx_size(tx_size).area_log2() - 4;
     let eob_multi_ctx: usize = usize::from(tx_class != TX_CLASS_2D);
 
     match eob_multi_size {
-- 
2.43.0

